"""C19: helper functions of the contract prelude."""
import textwrap
from .lib import PRELUDE
from symx import dspec
from symx.dspec import SpecErr
from symx.runner import Task
from symx.tv import Template
from symx.values import *

PROPERTY = "C19"
LEVEL = "translation_validation"
EXPLANATION = (
    "For every helper of /repo's opshin/prelude.py a program returning its result is compiled in this run and executed symbolically on "
    "symbolic inputs, outputs, values, addresses, datums and script contexts. z3 decides that the result is the one an independent "
    "specification of the documented behaviour prescribes (first match, totals over all matching elements, failure without match), and in a "
    "second task that the helper's own Python source, executed symbolically, gives the same. Programs reading every field of every "
    "ledger class, rebuilding it and telling the members of every ledger union apart are compared with the ledger's field positions and tags."
)
ASSUMPTIONS = [
    "values are dictionaries: policies and token names do not repeat within one value",
    "credential and policy hashes are up to 1 byte, token names up to 1 byte; parts of the script context no helper reads are empty",
    "the tags and positions of certificates are not compared (the classes follow the certificates of earlier ledger versions)",
]

# the ledger's (Plutus V3) constructor tags and field positions; kinds of
# fields: int, bytes, list, map, constructor, any data; element kinds follow
LAYOUT = dict(
    NoScriptHash=(1, ""),
    TrueData=(1, ""),
    FalseData=(0, ""),
    BoxedInt=(0, "value:I"),
    NoValue=(1, ""),
    TxOutRef=(0, "id:B idx:I"),
    PubKeyCredential=(0, "credential_hash:B"),
    ScriptCredential=(1, "credential_hash:B"),
    StakingHash=(0, "value:C"),
    StakingPtr=(1, "slot_no:I tx_index:I cert_index:I"),
    NoStakingCredential=(1, ""),
    SomeStakingCredential=(0, "staking_credential:C"),
    Address=(0, "payment_credential:C staking_credential:C"),
    SomeDatumHash=(1, "datum_hash:B"),
    SomeScriptHash=(0, "script_hash:B"),
    NoOutputDatum=(0, ""),
    SomeOutputDatumHash=(1, "datum_hash:B"),
    SomeOutputDatum=(2, "datum:A"),
    TxOut=(0, "address:C value:MBM datum:C reference_script:C"),
    TxInInfo=(0, "out_ref:C resolved:C"),
    NegInfPOSIXTime=(0, ""),
    FinitePOSIXTime=(1, "time:I"),
    PosInfPOSIXTime=(2, ""),
    UpperBoundPOSIXTime=(0, "limit:C closed:C"),
    LowerBoundPOSIXTime=(0, "limit:C closed:C"),
    POSIXTimeRange=(0, "lower_bound:C upper_bound:C"),
    Minting=(0, "policy_id:B"),
    Spending=(1, "tx_out_ref:C"),
    Withdrawing=(2, "staking_credential:C"),
    ConstitutionalCommitteeMember=(0, "credential:C"),
    DelegateRepresentative=(1, "credential:C"),
    StakePool=(2, "verification_key_hash:B"),
    GovernanceActionId=(0, "transaction:B proposal_procedure:I"),
    VoteNo=(0, ""),
    VoteYes=(1, ""),
    VoteAbstain=(2, ""),
    SomeGovernanceActionId=(0, "governance_action_id:C"),
    NoGovernanceActionId=(1, ""),
    GAParameterChange=(0, "ancestor:C new_parameters:MIA guardrails:C"),
    ProtocolVersion=(0, "major:I minor:I"),
    GAHardForkInitiation=(1, "ancestor:C new_version:C"),
    GATreasuryWithdrawals=(2, "treasury_withdrawals:MCI guardrails:C"),
    GANoConfidence=(3, "ancestor:C"),
    GAUpdateCommittee=(4, "ancestor:C evicted_members:LC added_members:MCI quorum:C"),
    Anchor=(0, "url:B data_hash:B"),
    Constitution=(0, "anchor:C guardrails:C"),
    GANewConstitution=(5, "ancestor:C constitution:C"),
    GAInfo=(6, ""),
    ProposalProcedure=(0, "deposit:I reward_account:C governance_action:C anchor:C"),
    Publishing=(3, "certificate_index:I certificate:C"),
    Voting=(4, "voter:C"),
    Proposing=(5, "proposal_index:I proposal_procedure:C"),
    TxInfo=(0, "inputs:LC reference_inputs:LC outputs:LC fee:I mint:MBM certificates:LC withdrawals:MCI validity_range:C signatories:LB redeemers:MCA datums:MBA id:B votes:MCM proposal_procedures:LC current_treasury_amount:C treasury_donation:C"),
    ScriptContext=(0, "transaction:C redeemer:A purpose:C"),
)
UNIONS = dict(
    Credential="PubKeyCredential ScriptCredential",
    StakingCredential="StakingHash StakingPtr",
    OutputDatum="NoOutputDatum SomeOutputDatumHash SomeOutputDatum",
    MaybeScriptHash="SomeScriptHash NoScriptHash",
    ExtendedPOSIXTime="NegInfPOSIXTime FinitePOSIXTime PosInfPOSIXTime",
    BoolData="TrueData FalseData",
    OptionalInt="BoxedInt NoValue",
    ScriptPurpose="Minting Spending Withdrawing Publishing Voting Proposing",
    Voter="ConstitutionalCommitteeMember DelegateRepresentative StakePool",
    Vote="VoteNo VoteYes VoteAbstain",
    MaybeGovernanceActionId="SomeGovernanceActionId NoGovernanceActionId",
    GovernanceAction="GAParameterChange GAHardForkInitiation GATreasuryWithdrawals GANoConfidence GAUpdateCommittee GANewConstitution GAInfo",
)
LEAN = {
    "*staking_credential": dict(members=(0,)),
    "*reference_script": dict(members=(0,)),
    "*.certificates": dict(list_len=0),
    "*.reference_inputs": dict(list_len=0),
    "*.withdrawals": dict(dict_len=0),
    "*.votes": dict(dict_len=0),
    "*.proposal_procedures": dict(list_len=0),
    "*.redeemers": dict(dict_len=0),
    "*.signatories": dict(list_len=0),
    "*.mint": dict(dict_len=0),
    "*.validity_range.*": dict(members=(0,)),
    "*_bound.limit": dict(members=(0,)),
    "*_bound.closed": dict(members=(0,)),
    "*current_treasury*": dict(members=(1,)),
    "*treasury_donation*": dict(members=(1,)),
}


# ---- specifications; they run on symbolic and on real values alike
def amount(v, token):
    for p, names in v.items():
        if p == token.policy_id:
            for n, q in names.items():
                if n == token.token_name:
                    return q
    return 0


def same_address(a, b):
    return a.payment_credential == b.payment_credential and a.staking_credential == b.staking_credential


def unlocked(mod, txins, address, token):
    r = 0
    for i in txins:
        if same_address(i.resolved.address, address):
            r = r + amount(i.resolved.value, token)
    return r


def locked(mod, txouts, address, token):
    r = 0
    for o in txouts:
        if same_address(o.address, address):
            r = r + amount(o.value, token)
    return r


def same_datum(a, b):
    if type(a) is not type(b):
        return False
    return all(getattr(a, n) == getattr(b, n) for n in a.__dataclass_fields__)


def locked_datum(mod, txouts, address, token, datum):
    r = 0
    for o in txouts:
        if same_address(o.address, address) and same_datum(o.datum, datum):
            r = r + amount(o.value, token)
    return r


class Missing(Exception):
    pass


def spent(mod, txins, purpose):
    for i in txins:
        if i.out_ref.id == purpose.tx_out_ref.id and i.out_ref.idx == purpose.tx_out_ref.idx:
            return i.resolved
    raise Missing


def lookup(datums, h):
    for k, v in datums.items():
        if k == h:
            return v
    raise Missing


def datum_unsafe(mod, txout, info):
    k = type(txout.datum).__name__
    if k == "SomeOutputDatumHash":
        return lookup(info.datums, txout.datum.datum_hash)
    if k == "SomeOutputDatum":
        return txout.datum.datum
    raise Missing


def datum(mod, txout, info):
    if type(txout.datum).__name__ == "SomeOutputDatumHash":
        return mod.SomeOutputDatum(lookup(info.datums, txout.datum.datum_hash))
    return txout.datum


def policy(mod, txout):
    c = txout.address.payment_credential
    if type(c).__name__ != "ScriptCredential":
        raise Missing
    return c.credential_hash


def address(mod, h):
    return mod.Address(mod.ScriptCredential(h), mod.NoStakingCredential())


def present(mod, token, txins):
    for i in txins:
        if amount(i.resolved.value, token) > 0:
            return True
    return False


def need_spending(ctx):
    if type(ctx.purpose).__name__ != "Spending":
        raise Missing


def own(mod, ctx):
    need_spending(ctx)
    return datum(mod, spent(mod, ctx.transaction.inputs, ctx.purpose), ctx.transaction)


def own_unsafe(mod, ctx):
    need_spending(ctx)
    return datum_unsafe(mod, spent(mod, ctx.transaction.inputs, ctx.purpose), ctx.transaction)


def fields_of(cls):
    return [f.split(":") for f in LAYOUT[cls][1].split()]


def byte(name):
    t = ctx().fresh_int(name)
    ctx().assume(b_and([i_le(0, t), i_le(t, 255)]))
    return t


def field(name, kind, i):
    n = f"{name}{i}"
    k = kind[0]
    if k == "I":
        return DI(ctx().fresh_int(n))
    if k == "B":
        return DB((byte(n), i))
    if k == "L":
        return DL([field(n + "e", kind[1], 0)])
    if k == "M":
        return DM([(field(n + "k", kind[1], 0), field(n + "v", kind[2], 1))] if kind[1:] else [])
    return DX(n, 1, 2, 1, "C" if k == "C" else "CMLIB")


def value(cls, name="f"):
    return DC(LAYOUT[cls][0], [field(name, k, i) for i, (_, k) in enumerate(fields_of(cls))])


def layout_task(cls, cfg):
    fs = fields_of(cls)
    head = "from opshin.ledger.api_v3 import *\n"
    body = [f"def validator(x: {cls}, n: int) -> Anything:", f"    r: Anything = {cls}({', '.join('x.' + f for f, _ in fs)})"]
    for i, (f, _) in enumerate(fs):
        body += [f"    {'el' if i else ''}if n == {i}:", f"        r = x.{f}"]
    src = head + "\n".join(body + ["    return r"]) + "\n"

    def make():
        return [value(cls), DI(ctx().choose(len(fs) + 1))]

    def spec(x, n):
        return x if n.i == len(fs) else x.fields[n.i]

    def fn(deadline, tier):
        return dspec.run_spec(f"layout_{cls}", src, cfg, make, spec, deadline=deadline)

    return Task(f"layout_{cls}", fn, desc=src, bounds=dict(configs=str(cfg)))


def union_task(u, cfg):
    ms = UNIONS[u].split()
    src = "from opshin.ledger.api_v3 import *\ndef validator(x: " + u + ") -> int:\n    r = -1\n"
    for i, m in enumerate(ms):
        src += f"    {'el' if i else ''}if isinstance(x, {m}):\n        r = {i}\n" if i < len(ms) - 1 else f"    else:\n        r = {i}\n"
    src += "    return r\n"

    def make():
        return [value(ms[ctx().choose(len(ms))])]

    def spec(x):
        return DI([LAYOUT[m][0] for m in ms].index(x.tag))

    def fn(deadline, tier):
        return dspec.run_spec(f"union_{u}", src, cfg, make, spec, deadline=deadline)

    return Task(f"union_{u}", fn, desc=src, bounds=dict(configs=str(cfg)))


def tasks(tier, rng):
    th = tier == "thorough"
    out = []
    cf = ("O0", "O1", "O2", "O3") if th else ("O1", "O2")
    N = 3 if th else 2

    def h(name, spec, params, ret, call, per=None, **kw):
        src = PRELUDE + kw.pop("head", "") + f"def validator({', '.join(f'{k}: {v}' for k, v in params.items())}) -> {ret}:\n    return {call}\n"
        b = dict(list_len=N, bytes_len=1, minlen=0, dict_len=1, int_range=(-3, 3), any_depth=0, any_kinds="IB")
        b.update(kw.pop("bounds", {}))
        b["per"] = {**LEAN, **(per or {})}
        kw.setdefault("configs", cf)
        kw.setdefault("max_paths", 20000 if th else 1500)
        out.append(Template(f"{name}_spec", src, bounds=b, spec=spec, **kw))
        out.append(Template(f"{name}_py", src, bounds=b, **kw))

    # fixed-size identifiers, one token name per policy of varying length, and the other way round
    ID = {"*credential_hash": dict(minlen=1), "*policy_id": dict(minlen=1), "*out_ref.id": dict(minlen=1), "*.idx": dict(int_range=(0, 3)), "*.k?": dict(minlen=1), "*token_name": dict(bytes_len=0), "*.v?.k?": dict(bytes_len=0, minlen=0), "*.datum": dict(members=(0,))}
    NAMES = {**ID, "*token_name": dict(minlen=1), "*.v?.k?": dict(minlen=1), "*.value.v?": dict(dict_len=2), "*.payment_credential": dict(members=(1,))}
    POLS = {**ID, "*.value": dict(dict_len=2, minlen=1), "*.value.v?": dict(minlen=1), "*.payment_credential": dict(members=(0,))}
    LENS = {**ID, "*token_name": {}, "*policy_id": {}, "*.k?": {}, "*.v?.k?": {}, "*.payment_credential": dict(members=(0,))}
    STAKE = {**ID, "*.value": dict(minlen=1), "*.value.v?": dict(minlen=1), "*.payment_credential": dict(members=(1,)), "*staking_credential": {}}
    OUTS = dict(unlocked=("txins", "List[TxInInfo]", "all_tokens_unlocked_from_address", unlocked), locked=("txouts", "List[TxOut]", "all_tokens_locked_at_address", locked))
    for n, (arg, ty, fn, sp) in OUTS.items():
        ps = {arg: ty, "address": "Address", "token": "Token"}
        call = f"{fn}({arg}, address, token)"
        h(n, sp, ps, "int", call, ID)
        h(f"{n}_names", sp, ps, "int", call, NAMES, bounds=dict(list_len=1 if not th else 2))
        h(f"{n}_policies", sp, ps, "int", call, POLS, bounds=dict(list_len=1 if not th else 2))
        h(f"{n}_lengths", sp, ps, "int", call, LENS, bounds=dict(list_len=1))
        h(f"{n}_stake", sp, ps, "int", call, STAKE, bounds=dict(list_len=1, minlen=0))
        h(f"{n}_three", sp, ps, "int", call, {**ID, "*.payment_credential": dict(members=(1,)), "*.value": dict(minlen=1), "*.value.v?": dict(minlen=1)}, bounds=dict(list_len=3))
    DATUM = {**ID, "*.value": dict(minlen=1), "*.value.v?": dict(minlen=1), "*.payment_credential": dict(members=(1,)), "*.datum": {}, "datum": {}, "*datum_hash": dict(minlen=1)}
    dp = dict(txouts="List[TxOut]", address="Address", token="Token", datum="OutputDatum")
    h("locked_datum", locked_datum, dp, "int", "all_tokens_locked_at_address_with_datum(txouts, address, token, datum)", DATUM, bounds=dict(list_len=1))
    h("locked_datum_hashes", locked_datum, dp, "int", "all_tokens_locked_at_address_with_datum(txouts, address, token, datum)", {**DATUM, "*datum": dict(members=(1,))}, bounds=dict(list_len=2))
    h("locked_datum_none", locked_datum, dp, "int", "all_tokens_locked_at_address_with_datum(txouts, address, token, datum)", {**DATUM, "*datum": dict(members=(0, 1))}, bounds=dict(list_len=2))
    REF = {**ID, "*.value": dict(dict_len=0), "*.payment_credential": dict(members=(1,)), "*.credential_hash": dict(minlen=1)}
    for fn in ("resolve_spent_utxo", "own_spent_utxo"):
        h(fn, spent, dict(txins="List[TxInInfo]", purpose="Spending"), "TxOut", f"{fn}(txins, purpose)", REF, bounds=dict(list_len=N + 1))
        h(f"{fn}_ids", spent, dict(txins="List[TxInInfo]", purpose="Spending"), "TxOut", f"{fn}(txins, purpose)", {**REF, "*out_ref.id": dict(minlen=0, bytes_len=1)}, bounds=dict(list_len=2))
        h(f"{fn}_content", spent, dict(txins="List[TxInInfo]", purpose="Spending"), "TxOut", f"{fn}(txins, purpose)", {**REF, "*.payment_credential": {}, "*.datum": {}, "*.value": {}, "*reference_script": {}}, bounds=dict(list_len=1))
    RES = {**REF, "*.datum": {}, "tx_info.inputs": dict(list_len=0), "tx_info.outputs": dict(list_len=0), "*datum_hash": dict(minlen=1), "tx_info.datums": dict(dict_len=2, minlen=0), "tx_info.datums.k?": dict(minlen=1), "tx_info.datums.v?": dict(any_depth=1)}
    h("resolve_datum_unsafe", datum_unsafe, dict(txout="TxOut", tx_info="TxInfo"), "BuiltinData", "resolve_datum_unsafe(txout, tx_info)", RES)
    h("resolve_datum", datum, dict(txout="TxOut", tx_info="TxInfo"), "Union[SomeOutputDatum, NoOutputDatum]", "resolve_datum(txout, tx_info)", RES)
    h("resolve_datum_lengths", datum, dict(txout="TxOut", tx_info="TxInfo"), "Union[SomeOutputDatum, NoOutputDatum]", "resolve_datum(txout, tx_info)", {**RES, "*datum_hash": {}, "tx_info.datums.k?": {}})
    ALL = {"*staking_credential": {}, "*.datum": {}, "*reference_script": {}, "*.value": {}}
    h("own_policy_id", policy, dict(txout="TxOut"), "PolicyId", "own_policy_id(txout)", {**REF, "*credential_hash": dict(bytes_len=3, minlen=0), "*.payment_credential": {}, "*staking_credential": {}})
    h("own_address", address, dict(h="PolicyId"), "Address", "own_address(h)", {"h": dict(bytes_len=4)})
    h("own_address_of", lambda mod, o: address(mod, policy(mod, o)), dict(o="TxOut"), "Address", "own_address(own_policy_id(o))", {**REF, "*.payment_credential": {}})
    h("present", present, dict(token="Token", inputs="List[TxInInfo]"), "bool", "token_present_in_inputs(token, inputs)", {**ID, "*.payment_credential": dict(members=(1,))})
    h("present_names", present, dict(token="Token", inputs="List[TxInInfo]"), "bool", "token_present_in_inputs(token, inputs)", {**NAMES}, bounds=dict(list_len=1))
    # the ledger's layout of every class
    for cls in LAYOUT:
        out.append(layout_task(cls, cf if th else ("O1",)))
    for u in UNIONS:
        out.append(union_task(u, cf if th else ("O1",)))
    # whole contexts
    CTX = {**RES, "*transaction.inputs": dict(list_len=2, minlen=0), "*transaction.outputs": dict(list_len=0), "*transaction.datums": dict(dict_len=1, minlen=0), "*transaction.datums.k?": dict(minlen=1), "*transaction.datums.v?": dict(any_depth=0, bytes_len=1), "*purpose": dict(members=(1,))}
    for n, r, sp in (("own_datum", "Union[SomeOutputDatum, NoOutputDatum]", own), ("own_datum_unsafe", "Anything", own_unsafe)):
        h(n, sp, dict(context="ScriptContext"), r, f"{n}(context)", CTX)
        h(f"{n}_purposes", sp, dict(context="ScriptContext"), r, f"{n}(context)", {**CTX, "*transaction.inputs": dict(list_len=1), "*purpose": dict(members=(0, 1, 2)), "*purpose.staking_credential": dict(members=(0, 1)), "*purpose.staking_credential.value": dict(members=(0, 1))})
    return out
