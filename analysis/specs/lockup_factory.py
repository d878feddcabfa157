"""Reference clauses of the lockup factory."""
from specs.common import *

SPEC = Spec("lockup-factory", "LockupFactory", {
    "LockupFactory": ["whitelist_account_id", "foundation_account_id"],
}, field_tags={"whitelist_account_id": "F03", "foundation_account_id": "F03"}, new_export="F03")
e = SPEC.entry
MIN = 3_500_000_000_000_000_000_000_000
TRANSFERS = 1602614338293769340
TGAS = 10 ** 12


@e("new", "F03 X05", live="F03")
def new(m):
    uninit(m); no_deposit(m)
    w, f = m.arg("whitelist_account_id"), m.arg("foundation_account_id")
    valid(m, w, "F03"); valid(m, f, "F03")
    m.require(le(T("strlen", m.me.t), I(23)), "F03", "lockup account ids fit the 64 character limit")
    m.init(tags="F03", whitelist_account_id=w, foundation_account_id=f)


@e("get_foundation_account_id", "F03 F06", live="F03 F06")
def get_foundation_account_id(m):
    loaded(m)
    m.ret(m.S.foundation_account_id)


@e("get_lockup_master_account_id", "F03 F06", live="F03 F06")
def get_lockup_master_account_id(m):
    loaded(m)
    m.ret(m.me)


@e("get_min_attached_balance", "F03 F06", live="F03 F06")
def get_min_attached_balance(m):
    loaded(m)
    m.ret(I(MIN))


@e("create", "F03 F04", live="F03")
def create(m):
    loaded(m)
    o, wl, vs = m.arg("owner_account_id"), m.arg("whitelist_account_id"), m.arg("vesting_schedule")
    m.require(le(I(MIN), m.deposit.t), "F03", "the minimum deposit is attached")
    valid(m, o, "F03")
    acc = T("cat", T("hex_encode", T("idx", T("sha256", o.t), agg("RangeTo", None, ("end",), (I(20),)))), S("."), m.me.t)
    if m.test(wl.is_some):
        valid(m, wl.some, "F03")
        white = wl.some.t
    else:
        white = m.S.whitelist_account_id.t
    fd = SOME(m.S.foundation_account_id.t) if m.test(vs.is_some) else NONE
    p = m.promise(acc, ("create_account",), ("deploy_contract", code("lockup", "lockup_contract.wasm")),
                  ("transfer", m.deposit.t),
                  ("function_call", "new", {
                      "owner_account_id": o, "lockup_duration": m.arg("lockup_duration"),
                      "lockup_timestamp": m.arg("lockup_timestamp"),
                      "transfers_information": agg("TransfersInformation", "TransfersEnabled", ("transfers_timestamp",),
                                                   (I(TRANSFERS),)),
                      "vesting_schedule": vs, "release_duration": m.arg("release_duration"),
                      "staking_pool_whitelist_account_id": white, "foundation_account_id": fd}, 0, I(25 * TGAS)),
                  tags="F03")
    m.call(m.me, "on_lockup_create", {"lockup_account_id": acc, "attached_deposit": m.deposit,
                                      "predecessor_account_id": m.caller}, 0, I(25 * TGAS), after=p, tags="F04")


@e("on_lockup_create", "F04 X04", live="F04")
def on_lockup_create(m):
    loaded(m); no_deposit(m)
    private(m, "F04")
    if m.test(result(m)):
        m.ret(TRUE, "F04")
    else:
        m.promise(m.arg("predecessor_account_id"), ("transfer", m.arg("attached_deposit")), tags="F04")
        m.ret(FALSE, "F04")
