"""Reference clauses of the lockup contract."""
from specs.common import *
from rules import set_path, V

SPEC = Spec("lockup", "LockupContract", {
    "LockupContract": ["owner_account_id", "lockup_information", "vesting_information",
                       "staking_pool_whitelist_account_id", "staking_information", "foundation_account_id"],
    "LockupInformation": ["lockup_amount", "termination_withdrawn_tokens", "lockup_duration", "release_duration",
                          "lockup_timestamp", "transfers_information"],
    "StakingInformation": ["staking_pool_account_id", "status", "deposit_amount"],
    "VestingSchedule": ["start_timestamp", "cliff_timestamp", "end_timestamp"],
    "TerminationInformation": ["unvested_amount", "status"],
    "VestingScheduleWithSalt": ["vesting_schedule", "salt"],
}, field_tags={
    "owner_account_id": "L01", "lockup_information.lockup_amount": "L03 L10",
    "lockup_information.termination_withdrawn_tokens": "L10 L03", "lockup_information.lockup_duration": "L03",
    "lockup_information.release_duration": "L03", "lockup_information.lockup_timestamp": "L03",
    "lockup_information.transfers_information": "L11", "vesting_information": "L09 L12",
    "staking_pool_whitelist_account_id": "L08", "staking_information": "L08 L05",
    "staking_information.status": "L05 L06", "staking_information.deposit_amount": "L07",
    "staking_information.staking_pool_account_id": "L08", "foundation_account_id": "L01 L10"}, new_export="L01 L02")
e = SPEC.entry
T_ = 10 ** 12
GAS = 25 * T_
STORAGE = 3_500_000_000_000_000_000_000_000
U64MAX = 2 ** 64 - 1
IDLE = agg("TransactionStatus", "Idle", None, ())
BUSY = agg("TransactionStatus", "Busy", None, ())


def tstat(name):
    return agg("TerminationStatus", name, None, ())


# ------------------------------------------------------------------ reference quantities
def account_balance(m):
    return sat_sub(m.balance.t, I(STORAGE))


def known_deposit(m):
    si = m.S.staking_information
    return si.some.deposit_amount.t if m.test(si.is_some) else I(0)


def terminating(m):
    return m.S.vesting_information.isv("Terminating")


def term_info(m):
    return V(m, fld(m.S.vesting_information.t, "Terminating", 0), "TerminationInformation")


def satadd64(a, b):
    return tmin(add(a, b), I(U64MAX))


def vested_by(m, vs):
    """unvested part of the lockup under schedule vs (vesting not terminated, vesting exists)."""
    amt = m.S.lockup_information.lockup_amount.t
    st, cl, en = vs.start_timestamp.t, vs.cliff_timestamp.t, vs.end_timestamp.t
    now = m.now.t
    if m.test(lt(now, cl)):
        return amt
    if m.test(le(en, now)):
        return I(0)
    return div(mul(amt, sub(en, now)), sub(en, st))


def unvested(m, vs):
    vi = m.S.vesting_information
    if m.test(vi.isv("Terminating")):
        return term_info(m).unvested_amount.t
    if m.test(vi.isv("None")):
        return I(0)
    return vested_by(m, vs)


def locked(m):
    li = m.S.lockup_information
    amt, wd = li.lockup_amount.t, li.termination_withdrawn_tokens.t
    tr = li.transfers_information
    now = m.now.t
    if m.test(tr.isv("TransfersEnabled")):
        base = satadd64(fld(tr.t, "TransfersEnabled", 0), li.lockup_duration.t)
        if m.test(li.lockup_timestamp.is_some):
            base = tmax(base, li.lockup_timestamp.some.t)
        if m.test(le(base, now)):
            unrel = I(0)
            if m.test(li.release_duration.is_some):
                dur = li.release_duration.some.t
                end = satadd64(base, dur)
                if not m.test(le(end, now)):
                    unrel = div(mul(amt, sub(end, now)), dur)
            vi = m.S.vesting_information
            unv = I(0)
            if m.test(vi.isv("VestingSchedule")):
                unv = vested_by(m, V(m, fld(vi.t, "VestingSchedule", 0), "VestingSchedule"))
            elif m.test(vi.isv("Terminating")):
                unv = term_info(m).unvested_amount.t
            return tmax(sat_sub(unrel, wd), unv)
    return sub(amt, wd)


def owners_balance(m):
    return sat_sub(add(m.balance.t, known_deposit(m)), locked(m))


def liquid(m):
    return tmin(owners_balance(m), account_balance(m))


# ------------------------------------------------------------------ guards
def owner(m, tags=""):
    loaded(m); no_deposit(m)
    m.require(ident(m.caller, m.S.owner_account_id), "L01 " + tags, "caller is the owner")


def foundation(m, tags=""):
    loaded(m); no_deposit(m)
    f = m.S.foundation_account_id
    m.require(f.is_some, "L01 L09 " + tags, "the contract has a foundation account")
    m.require(ident(m.caller, f.some), "L01 L09 " + tags, "caller is the foundation")


def selected(m, tags="L05"):
    m.require(m.S.staking_information.is_some, tags, "a staking pool is selected")
    return m.S.staking_information.some


def idle(m, tags="L05"):
    si = selected(m, tags)
    m.require(is_(si.status.t, "TransactionStatus", "Idle"), tags, "no pool operation is in flight")
    return si


def none_or_idle(m, tags):
    si = m.S.staking_information
    if m.test(si.is_some):
        m.require(is_(si.some.status.t, "TransactionStatus", "Idle"), tags, "no pool operation is in flight")


def no_termination(m, tags):
    m.require(no(terminating(m)), tags, "no vesting termination is in progress")


def set_status(m, v, tags="L05 L06"):
    m.set("staking_information.?.status", v, tags)


def set_termination(m, name, tags="L09"):
    vi = m.S.vesting_information.t
    m.set("vesting_information", set_path(vi, [("Terminating", 0), (None, 1)], tstat(name)), tags)


# ------------------------------------------------------------------ init
@e("new", "L13 X05", live="L13")
def new(m):
    uninit(m)
    m.require(m.deposit.eq(0), "X03", "no deposit is attached")
    ow, wl, tr = m.arg("owner_account_id"), m.arg("staking_pool_whitelist_account_id"), m.arg("transfers_information")
    vs, fd = m.arg("vesting_schedule"), m.arg("foundation_account_id")
    valid(m, ow, "L13")
    valid(m, wl, "L13 L08")
    if m.test(tr.isv("TransfersDisabled")):
        valid(m, fld(tr.t, "TransfersDisabled", 0), "L13 L11")
    if m.test(vs.is_some):
        m.require(fd.is_some, "L13", "vesting comes with a foundation account")
        valid(m, fd.some, "L13")
        if m.test(is_(vs.some.t, "VestingScheduleOrHash", "VestingHash")):
            vi = agg("VestingInformation", "VestingHash", None, (fld(vs.some.t, "VestingHash", 0),))
        else:
            s = V(m, fld(vs.some.t, "VestingSchedule", 0), "VestingSchedule")
            m.require(s.start_timestamp <= s.cliff_timestamp, "L13 L03", "the cliff does not precede the start")
            m.require(s.cliff_timestamp <= s.end_timestamp, "L13 L03", "the cliff does not follow the end")
            m.require(s.start_timestamp < s.end_timestamp, "L13 L03", "the vesting period is positive")
            vi = agg("VestingInformation", "VestingSchedule", None, (s.t,))
    else:
        m.require(fd.is_none, "L13", "no foundation account without vesting")
        vi = agg("VestingInformation", "None", None, ())
    st = m.cr.structs["LockupInformation"]
    vals = {"lockup_amount": m.balance.t, "termination_withdrawn_tokens": I(0),
            "lockup_duration": m.arg("lockup_duration").t, "release_duration": m.arg("release_duration").t,
            "lockup_timestamp": m.arg("lockup_timestamp").t, "transfers_information": tr.t}
    names = SPEC.layout["LockupInformation"]
    order = [None] * len(names)
    for k, v in vals.items():
        order[m.field("LockupInformation", k)[0]] = v
    m.init(tags="L13", owner_account_id=ow, lockup_information=agg("LockupInformation", None, None, order),
           vesting_information=vi, staking_pool_whitelist_account_id=wl, staking_information=NONE,
           foundation_account_id=fd)


# ------------------------------------------------------------------ owner
@e("select_staking_pool", "L08 L01", live="L08")
def select_staking_pool(m):
    owner(m, "L08")
    p = m.arg("staking_pool_account_id")
    valid(m, p, "L08")
    m.require(m.S.staking_information.is_none, "L08 L05", "no pool is selected yet")
    no_termination(m, "L08 L09")
    c = m.call(m.S.staking_pool_whitelist_account_id, "is_whitelisted", {"staking_pool_account_id": p},
               0, GAS, tags="L08 X01 X02")
    m.call(m.me, "on_whitelist_is_whitelisted", {"staking_pool_account_id": p}, 0, GAS, after=c, tags="L08 X01 X02")


@e("unselect_staking_pool", "L08 L01", live="L08")
def unselect_staking_pool(m):
    owner(m, "L08")
    si = idle(m, "L05 L08")
    no_termination(m, "L08 L09")
    m.require(si.deposit_amount.eq(0), "L08 L07", "no known deposit is left at the pool")
    m.set("staking_information", NONE, "L08")


def pool_op(name, method, callback, amount=True, fund=False, gas_method=3 * GAS, gas_cb=GAS, args=None, cbargs=True,
            tags="L05"):
    @e(name, "L05 L01 L06 L08 " + ("L07" if fund else ""), live="L05 L16")
    def f(m):
        owner(m, "L05")
        a = None
        if amount:
            a = m.arg("amount")
            m.require(lt(I(0), a.t), "L05", "the amount is positive")
        si = idle(m, "L05 L06")
        no_termination(m, "L05 L09")
        if fund:
            m.require(le(a.t, account_balance(m)), "L07 L02 L08", "the storage reserve stays on the account")
        set_status(m, BUSY)
        c = m.call(si.staking_pool_account_id, method, args(m, a) if args else ({"amount": a} if amount and not fund else {}),
                   a if fund else 0, gas_method, tags="L08 L05 L16 X01 X02" + (" L07" if fund else ""))
        m.call(m.me, callback, {"amount": a} if amount else {}, 0, gas_cb, after=c, tags="L06 L05 L16 X01 X02" + (" L07" if amount else ""))
    return f


pool_op("deposit_to_staking_pool", "deposit", "on_staking_pool_deposit", fund=True, gas_method=2 * GAS)
pool_op("deposit_and_stake", "deposit_and_stake", "on_staking_pool_deposit_and_stake", fund=True)
pool_op("withdraw_from_staking_pool", "withdraw", "on_staking_pool_withdraw")
pool_op("stake", "stake", "on_staking_pool_stake")
pool_op("unstake", "unstake", "on_staking_pool_unstake")
pool_op("unstake_all", "unstake_all", "on_staking_pool_unstake_all", amount=False)
pool_op("refresh_staking_pool_balance", "get_account_total_balance", "on_get_account_total_balance", amount=False,
        gas_method=GAS, args=lambda m, a: {"account_id": m.me})
pool_op("withdraw_all_from_staking_pool", "get_account_unstaked_balance",
        "on_get_account_unstaked_balance_to_withdraw_by_owner", amount=False,
        gas_method=GAS, gas_cb=5 * GAS, args=lambda m, a: {"account_id": m.me})


def enabled(m, tags):
    m.require(m.S.lockup_information.transfers_information.isv("TransfersEnabled"), tags, "transfers are enabled")


@e("check_transfers_vote", "L11 L01", live="L11")
def check_transfers_vote(m):
    owner(m, "L11")
    tr = m.S.lockup_information.transfers_information
    m.require(tr.isv("TransfersDisabled"), "L11", "transfers are not enabled yet")
    no_termination(m, "L11 L09")
    c = m.call(fld(tr.t, "TransfersDisabled", 0), "get_result", {}, 0, GAS, tags="L11 X01 X02")
    m.call(m.me, "on_get_result_from_transfer_poll", {}, 0, GAS, after=c, tags="L11 X01 X02")


@e("transfer", "L02 L01", live="L02")
def transfer(m):
    owner(m, "L02")
    a, r = m.arg("amount"), m.arg("receiver_id")
    m.require(lt(I(0), a.t), "L02", "the amount is positive")
    valid(m, r, "L02")
    enabled(m, "L02 L11")
    none_or_idle(m, "L02 L05")
    no_termination(m, "L02 L09")
    m.require(le(a.t, liquid(m)), "L02", "the amount is within the owner's liquid unlocked balance")
    m.promise(r, ("transfer", a), tags="L02")


@e("add_full_access_key", "L04 L01", live="L04")
def add_full_access_key(m):
    owner(m, "L04")
    enabled(m, "L04 L11")
    none_or_idle(m, "L04 L05")
    no_termination(m, "L04 L09")
    m.require(eqn(locked(m), I(0)), "L04", "nothing is locked or unvested any more")
    m.promise(m.me, ("add_full_access_key", m.arg("new_public_key"), None), tags="L04")


# ------------------------------------------------------------------ owner callbacks
def callback(m, tags):
    loaded(m); no_deposit(m)
    private(m, tags)


def reply(m, ty):
    """value returned by the call this callback is chained to."""
    m.assume(eqn(A("promise_results_count"), I(1)))
    v = fld(T("presult", I(0)), "Successful", 0)
    m.assume(T("decodes", v, S(ty)) if False else T("decodes", v, ty))
    return T("decode", v, ty)


@e("on_whitelist_is_whitelisted", "L08 X04", live="L08")
def on_whitelist_is_whitelisted(m):
    callback(m, "L08")
    ok = result(m)
    m.require(ok, "L08", "the whitelist answered")
    m.require(reply(m, "bool"), "L08", "the whitelist approved the pool")
    m.require(m.S.staking_information.is_none, "L08 L05", "no pool is selected yet")
    no_termination(m, "L08 L09")
    names = SPEC.layout["StakingInformation"]
    vals = {"staking_pool_account_id": m.arg("staking_pool_account_id").t, "status": IDLE, "deposit_amount": I(0)}
    order = [None] * len(names)
    for k, v in vals.items():
        order[m.field("StakingInformation", k)[0]] = v
    m.set("staking_information", some(agg("StakingInformation", None, None, order)), "L08 L07 L06")
    m.ret(TRUE, "L08")


def done_cb(name, change, tags):
    @e(name, "L06 L07 X04", live="L06")
    def f(m):
        callback(m, "L06 L07")
        m.assume(m.S.staking_information.is_some)
        ok = m.test(result(m))
        set_status(m, IDLE, "L06 L05")
        dep = m.S.staking_information.some.deposit_amount.t
        if change and ok:
            a = m.arg("amount").t
            m.set("staking_information.?.deposit_amount", add(dep, a) if change == "+" else sat_sub(dep, a), "L07")
        m.ret(B(ok), "L06")
    return f


done_cb("on_staking_pool_deposit", "+", "L07")
done_cb("on_staking_pool_deposit_and_stake", "+", "L07")
done_cb("on_staking_pool_withdraw", "-", "L07")
done_cb("on_staking_pool_stake", None, "L06")
done_cb("on_staking_pool_unstake", None, "L06")
done_cb("on_staking_pool_unstake_all", None, "L06")


@e("on_get_result_from_transfer_poll", "L11 X04", live="L11")
def on_get_result_from_transfer_poll(m):
    callback(m, "L11")
    ok = result(m)
    m.require(ok, "L11", "the poll answered")
    tr = m.S.lockup_information.transfers_information
    m.require(tr.isv("TransfersDisabled"), "L11", "transfers are not enabled yet")
    r = reply(m, "Option")
    if m.test(is_(r, "Option", "Some")):
        m.set("lockup_information.transfers_information",
              agg("TransfersInformation", "TransfersEnabled", None, (fld(r, "Some", 0),)), "L11 L03")
        m.ret(TRUE, "L11")
    else:
        m.ret(FALSE, "L11")


@e("on_get_account_total_balance", "L06 L07 X04", live="L06")
def on_get_account_total_balance(m):
    callback(m, "L06 L07")
    m.assume(m.S.staking_information.is_some)
    ok = m.test(result(m))
    set_status(m, IDLE, "L06 L05")
    if ok:
        m.set("staking_information.?.deposit_amount", reply(m, "U128"), "L07")


def chain_cb(name, method, callback_, termination):
    tags = "L06 L09" if termination else "L06"

    @e(name, tags + " X04", live=tags)
    def f(m):
        callback(m, tags)
        m.assume(m.S.staking_information.is_some)
        if termination:
            m.assume(terminating(m))
        if not m.test(result(m)):
            set_status(m, IDLE, "L06 L05")
            if termination:
                m.free("vesting_information")
            m.free_ret = True
            return
        a = reply(m, "U128")
        if m.test(lt(I(0), a)):
            c = m.call(m.S.staking_information.some.staking_pool_account_id, method, {"amount": a}, 0, 3 * GAS,
                       tags=tags + " L08 L16 X01 X02")
            m.call(m.me, callback_, {"amount": a}, 0, GAS, after=c, tags=tags + " L07 L16 X01 X02")
        else:
            set_status(m, IDLE, "L06 L05")
            if termination:
                set_termination(m, termination)
            m.ret(agg("PromiseOrValue", "Value", None, (TRUE,)), tags)
    return f


chain_cb("on_get_account_unstaked_balance_to_withdraw_by_owner", "withdraw", "on_staking_pool_withdraw", None)
chain_cb("on_get_account_staked_balance_to_unstake", "unstake", "on_staking_pool_unstake_for_termination",
         "EverythingUnstaked")
chain_cb("on_get_account_unstaked_balance_to_withdraw", "withdraw", "on_staking_pool_withdraw_for_termination",
         "ReadyToWithdraw")


# ------------------------------------------------------------------ foundation
@e("terminate_vesting", "L12 L09 L01", live="L12")
def terminate_vesting(m):
    foundation(m, "L12")
    vi, a = m.S.vesting_information, m.arg("vesting_schedule_with_salt")
    if m.test(vi.isv("VestingHash")):
        m.require(a.is_some, "L12", "the private schedule is revealed")
        m.require(ident(T("sha256", T("borsh", a.some.t)), fld(vi.t, "VestingHash", 0)), "L12",
                  "the revealed schedule matches the stored hash")
        vs = a.some.vesting_schedule
    elif m.test(vi.isv("VestingSchedule")):
        m.require(a.is_none, "L12", "no other schedule is supplied")
        vs = V(m, fld(vi.t, "VestingSchedule", 0), "VestingSchedule")
    else:
        m.reject("L12 L09", "there is no running vesting to terminate")
    u = vested_by(m, vs)
    m.require(lt(I(0), u), "L12 L09", "something is still unvested")
    deficit = sat_sub(u, account_balance(m))
    if m.test(lt(I(0), deficit)) and m.test(m.S.staking_information.is_some):
        st = "VestingTerminatedWithDeficit"
    else:
        st = "ReadyToWithdraw"
    m.set("vesting_information", agg("VestingInformation", "Terminating", None, (
        agg("TerminationInformation", None, None, (u, tstat(st))),)), "L09 L12 L10")


@e("termination_prepare_to_withdraw", "L09 L01 L06", live="L09")
def termination_prepare_to_withdraw(m):
    foundation(m)
    si = idle(m, "L05 L06 L09")
    m.require(terminating(m), "L09", "a termination is in progress")
    st = term_info(m).status
    if m.test(st.isv("VestingTerminatedWithDeficit")):
        set_termination(m, "UnstakingInProgress")
        q, cb = "get_account_staked_balance", "on_get_account_staked_balance_to_unstake"
    else:
        m.require(st.isv("EverythingUnstaked"), "L09", "the termination waits for this step")
        set_termination(m, "WithdrawingFromStakingPoolInProgress")
        q, cb = "get_account_unstaked_balance", "on_get_account_unstaked_balance_to_withdraw"
    set_status(m, BUSY, "L05 L09")
    c = m.call(si.staking_pool_account_id, q, {"account_id": m.me}, 0, GAS, tags="L09 L08 L16 X01 X02")
    m.call(m.me, cb, {}, 0, 5 * GAS, after=c, tags="L09 L06 L16 X01 X02")


@e("termination_withdraw", "L10 L01 L09", live="L10")
def termination_withdraw(m):
    foundation(m, "L10")
    r = m.arg("receiver_id")
    valid(m, r, "L10")
    m.require(terminating(m), "L09 L10", "a termination is in progress")
    ti = term_info(m)
    m.require(ti.status.isv("ReadyToWithdraw"), "L09 L10", "the termination is ready to withdraw")
    a = tmin(ti.unvested_amount.t, account_balance(m))
    m.require(lt(I(0), a), "L10", "there is something to withdraw")
    set_termination(m, "WithdrawingFromAccountInProgress", "L09 L10")
    c = m.promise(r, ("transfer", a), tags="L10")
    m.call(m.me, "on_withdraw_unvested_amount", {"amount": a, "receiver_id": r}, 0, GAS, after=c,
           tags="L10 L09 X01 X02")


def term_cb(name, good, bad, withdraw):
    @e(name, "L09 L06 X04", live="L06 L09")
    def f(m):
        callback(m, "L09")
        m.assume(m.S.staking_information.is_some)
        m.assume(terminating(m))
        ok = m.test(result(m))
        set_status(m, IDLE, "L06 L05")
        set_termination(m, good if ok else bad)
        if ok and withdraw:
            dep = m.S.staking_information.some.deposit_amount.t
            m.set("staking_information.?.deposit_amount", sat_sub(dep, m.arg("amount").t), "L07")
        m.ret(B(ok), "L09")
    return f


term_cb("on_staking_pool_unstake_for_termination", "EverythingUnstaked", "VestingTerminatedWithDeficit", False)
term_cb("on_staking_pool_withdraw_for_termination", "ReadyToWithdraw", "EverythingUnstaked", True)


@e("on_withdraw_unvested_amount", "L10 L09 X04", live="L10 L09")
def on_withdraw_unvested_amount(m):
    callback(m, "L10")
    m.assume(terminating(m))
    a = m.arg("amount").t
    ti = term_info(m)
    ok = m.test(result(m))
    m.ret(B(ok), "L10")
    if not ok:
        set_termination(m, "ReadyToWithdraw", "L09 L10")
        return
    li = m.S.lockup_information
    m.set("lockup_information.termination_withdrawn_tokens", li.termination_withdrawn_tokens + a, "L10 L03")
    if m.test(lt(a, ti.unvested_amount.t)):
        m.set("vesting_information", agg("VestingInformation", "Terminating", None, (
            agg("TerminationInformation", None, None, (sub(ti.unvested_amount.t, a), tstat("ReadyToWithdraw"))),)), "L10 L09")
    else:
        m.set("vesting_information", agg("VestingInformation", "None", None, ()), "L10 L09")
        m.set("foundation_account_id", NONE, "L10 L09 L01")


# ------------------------------------------------------------------ views
def getter(name, props="L03"):
    props += " L15"

    def deco(fn):
        @e(name, props, live=props)
        def f(m):
            loaded(m)
            m.ret(fn(m), props)
        return fn
    return deco


@getter("get_owner_account_id", "L01")
def v1(m): return m.S.owner_account_id


@getter("get_staking_pool_account_id", "L08")
def v2(m):
    si = m.S.staking_information
    return some(si.some.staking_pool_account_id.t) if m.test(si.is_some) else NONE


@getter("get_known_deposited_balance", "L07")
def v3(m): return known_deposit(m)


@getter("get_termination_status", "L09")
def v4(m): return some(term_info(m).status.t) if m.test(terminating(m)) else NONE


def terminated_unvested(m):
    return term_info(m).unvested_amount.t if m.test(terminating(m)) else I(0)


@getter("get_terminated_unvested_balance", "L10 L09")
def v5(m): return terminated_unvested(m)


@getter("get_terminated_unvested_balance_deficit", "L10 L09")
def v6(m): return sat_sub(terminated_unvested(m), account_balance(m))


@getter("get_locked_amount")
def v7(m): return locked(m)


@getter("get_locked_vested_amount")
def v8(m): return sub(locked(m), unvested(m, m.arg("vesting_schedule")))


@getter("get_unvested_amount", "L03 L12")
def v9(m): return unvested(m, m.arg("vesting_schedule"))


@getter("get_vesting_information", "L12 L09")
def v10(m): return m.S.vesting_information


@getter("get_owners_balance", "L02 L03")
def v11(m): return owners_balance(m)


@getter("get_balance", "L02 L07")
def v12(m): return add(m.balance.t, known_deposit(m))


@getter("get_liquid_owners_balance", "L02 L03")
def v13(m): return liquid(m)


@getter("are_transfers_enabled", "L11")
def v14(m): return m.S.lockup_information.transfers_information.isv("TransfersEnabled")
