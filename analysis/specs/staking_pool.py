"""Reference clauses of the staking pool."""
from specs.common import *

SPEC = Spec("staking-pool", "StakingContract", {
    "StakingContract": ["owner_id", "stake_public_key", "last_epoch_height", "last_total_balance",
                        "total_stake_shares", "total_staked_balance", "reward_fee_fraction", "accounts", "paused"],
    "Account": ["unstaked", "stake_shares", "unstaked_available_epoch_height"],
    "RewardFeeFraction": ["numerator", "denominator"],
    "HumanReadableAccount": ["account_id", "unstaked_balance", "staked_balance", "can_withdraw"],
}, field_tags={
    "owner_id": "P05", "stake_public_key": "P05 P07", "last_epoch_height": "P06", "last_total_balance": "P09 P06",
    "total_stake_shares": "P02 P01 P06", "total_staked_balance": "P02 P01 P06", "reward_fee_fraction": "P10 P05",
    "accounts": "P02 P05 P01 P03 P04", "paused": "P07 P05"}, new_export="P05")
e = SPEC.entry
FUND = 10 ** 12
VOTE_GAS = 100 * 10 ** 12
CB_GAS = 20 * 10 ** 12


def ceil(a, b): return div(add(tm(a), sub(tm(b), I(1))), tm(b))


class Pool:
    """Symbolic replay of the documented bookkeeping."""

    def __init__(self, m):
        self.m = m
        S_ = m.S
        self.T = S_.total_staked_balance.t
        self.N = S_.total_stake_shares.t
        self.last = S_.last_total_balance.t
        self.epoch = S_.last_epoch_height.t
        self.accs = []          # (id, [unstaked, shares, avail], tags)
        self.key = S_.stake_public_key.t
        self.paused = S_.paused.t

    def acc(self, who):
        m = self.m
        for a in reversed(self.accs):
            if a[0] is tm(who) or m.test(ident(a[0], who)):
                return list(a[1])
        lk = m.lookup(m.S.accounts, who, "Account")
        if m.test(lk.is_some):
            x = lk.some
            return [x.unstaked.t, x.stake_shares.t, x.unstaked_available_epoch_height.t]
        return [I(0), I(0), I(0)]

    def save(self, who, vals, tags):
        keep = []
        for a in self.accs:
            if a[0] is tm(who) or self.m.test(ident(a[0], who)):
                tags += " " + a[2]
            else:
                keep.append(a)
        self.accs = keep + [(tm(who), vals, tags)]

    def ping(self):
        m = self.m
        if m.test(m.S.last_epoch_height.eq(m.epoch)):
            return False
        self.epoch = m.epoch.t
        total = (m.locked + m.balance - m.deposit).t
        m.require(le(self.last, total), "P06 P09", "the pool's total balance has not decreased since the last epoch")
        reward = sub(total, self.last)
        if m.test(lt(I(0), reward)):
            f = m.S.reward_fee_fraction
            fee = div(mul(f.numerator.t, reward), f.denominator.t)
            self.T = add(self.T, sub(reward, fee))
            m.require(lt(I(0), self.T), "P01 P06", "shares have a price")
            n = div(mul(self.N, fee), self.T)
            if m.test(lt(I(0), n)):
                own = m.S.owner_id
                a = self.acc(own)
                a[1] = add(a[1], n)
                self.save(own, a, "P06 P02")
                self.N = add(self.N, n)
            self.T = add(self.T, fee)
        self.last = total
        return True

    def deposit(self):
        m = self.m
        a = self.acc(m.caller)
        a[0] = add(a[0], m.deposit.t)
        self.save(m.caller, a, "P09 P05 P02")
        self.last = add(self.last, m.deposit.t)

    def withdraw(self, amount):
        m = self.m
        amount = tm(amount)
        m.require(lt(I(0), amount), "P03", "the withdrawn amount is positive")
        a = self.acc(m.caller)
        m.require(le(amount, a[0]), "P03 P02", "the amount is covered by the caller's unstaked balance")
        m.require(le(a[2], m.epoch.t), "P03 P04", "the unlock epoch has been reached")
        a[0] = sub(a[0], amount)
        self.save(m.caller, a, "P03 P05 P02")
        m.promise(m.caller, ("transfer", amount), tags="P03 P05 P02")
        self.last = sub(self.last, amount)

    def stake(self, amount):
        m = self.m
        amount = tm(amount)
        m.require(lt(I(0), amount), "P01 P02", "the staked amount is positive")
        a = self.acc(m.caller)
        m.require(lt(I(0), self.T), "P01", "shares have a price")
        n = div(mul(self.N, amount), self.T)
        m.require(lt(I(0), n), "P01 P02", "the stake buys at least one share")
        m.require(lt(I(0), self.N), "P01", "shares exist")
        charge = div(mul(self.T, n), self.N)
        m.require(lt(I(0), charge), "P01 P02", "the charge is positive")
        m.require(le(charge, a[0]), "P02 P01", "the charge is covered by the caller's unstaked balance")
        a[0] = sub(a[0], charge)
        a[1] = add(a[1], n)
        self.save(m.caller, a, "P01 P02 P05 P04")
        self.T, self.N = add(self.T, m.up(mul(self.T, n), self.N)), add(self.N, n)

    def unstake(self, amount):
        m = self.m
        amount = tm(amount)
        m.require(lt(I(0), amount), "P01 P04", "the unstaked amount is positive")
        a = self.acc(m.caller)
        m.require(lt(I(0), self.T), "P01", "shares have a price")
        n = m.up(mul(self.N, amount), self.T)
        m.require(lt(I(0), n), "P01 P02", "unstaking costs at least one share")
        m.require(le(n, a[1]), "P02 P01", "the shares are covered by the caller's balance")
        m.require(lt(I(0), self.N), "P01", "shares exist")
        recv = m.up(mul(self.T, n), self.N)
        m.require(lt(I(0), recv), "P01 P02", "the received amount is positive")
        a[1] = sub(a[1], n)
        a[0] = add(a[0], recv)
        a[2] = add(m.epoch.t, I(4))
        self.save(m.caller, a, "P01 P02 P04 P05")
        self.T, self.N = sub(self.T, div(mul(self.T, n), self.N)), sub(self.N, n)

    def restake(self):
        m = self.m
        if m.test(self.paused):
            return
        s = m.promise(m.me, ("stake", self.T, self.key), tags="P07 P02")
        m.call(m.me, "on_stake_action", {}, 0, CB_GAS, after=s, tags="P07 P08 X01")

    def done(self, **more):
        m = self.m
        m.set("total_staked_balance", self.T, "P01 P02 P06")
        m.set("total_stake_shares", self.N, "P01 P02 P06")
        m.set("last_total_balance", self.last, "P09 P06")
        m.set("last_epoch_height", self.epoch, "P06")
        m.set("stake_public_key", self.key, "P07 P05")
        m.set("paused", self.paused, "P07 P05")
        for who, v, tags in self.accs:
            if m.test(lt(I(0), v[0])) or m.test(lt(I(0), v[1])):
                m.put(m.S.accounts, who, agg("Account", None, None, v), tags)
            else:
                m.delete(m.S.accounts, who, tags)


ALLP = "P01 P02 P05 P06 P07"


def start(m, payable=False):
    loaded(m)
    if not payable:
        no_deposit(m)
    return Pool(m)


@e("new", "P10 X05 P01 P02", live="P10")
def new(m):
    uninit(m); no_deposit(m)
    f = m.arg("reward_fee_fraction")
    m.require(no(f.denominator.eq(0)), "P10", "the fee denominator is positive")
    m.require(f.numerator <= f.denominator, "P10", "the fee is at most 1")
    valid(m, m.arg("owner_id"), "P10")
    m.require(m.locked.eq(0), "P10", "the account is not staking yet")
    T0 = (m.balance - FUND).t
    key = m.arg("stake_public_key")
    m.init(tags="P10", owner_id=m.arg("owner_id"), stake_public_key=key, last_epoch_height=m.epoch,
           last_total_balance=m.balance, total_staked_balance=T0, total_stake_shares=T0,
           reward_fee_fraction=f, accounts=T("coll", "UnorderedMap", S("u")), paused=FALSE)
    s = m.promise(m.me, ("stake", T0, key), tags="P07 P10")
    m.call(m.me, "on_stake_action", {}, 0, CB_GAS, after=s, tags="P07 P08 X01")


@e("ping", "P06 P07 P01 P02", live="P06")
def ping(m):
    p = start(m)
    if p.ping():
        p.restake()
    p.done()


@e("deposit", "P09 P02 P05 P06", live="P09")
def deposit(m):
    p = start(m, True)
    r = p.ping()
    p.deposit()
    if r: p.restake()
    p.done()


@e("deposit_and_stake", ALLP + " P09", live="P09")
def deposit_and_stake(m):
    p = start(m, True)
    p.ping()
    p.deposit()
    p.stake(m.deposit)
    p.restake()
    p.done()


@e("withdraw", "P03 P02 P05 P06 P07", live="P03")
def withdraw(m):
    p = start(m)
    r = p.ping()
    p.withdraw(m.arg("amount"))
    if r: p.restake()
    p.done()


@e("withdraw_all", "P03 P02 P05 P06 P07", live="P03")
def withdraw_all(m):
    p = start(m)
    r = p.ping()
    p.withdraw(p.acc(m.caller)[0])
    if r: p.restake()
    p.done()


@e("stake", ALLP, live="P02")
def stake(m):
    p = start(m)
    p.ping()
    p.stake(m.arg("amount"))
    p.restake()
    p.done()


@e("stake_all", ALLP, live="P02")
def stake_all(m):
    p = start(m)
    p.ping()
    p.stake(p.acc(m.caller)[0])
    p.restake()
    p.done()


@e("unstake", ALLP + " P04", live="P04")
def unstake(m):
    p = start(m)
    p.ping()
    p.unstake(m.arg("amount"))
    p.restake()
    p.done()


@e("unstake_all", ALLP + " P04", live="P04")
def unstake_all(m):
    p = start(m)
    p.ping()
    m.require(lt(I(0), p.N), "P01", "shares exist")
    p.unstake(div(mul(p.T, p.acc(m.caller)[1]), p.N))
    p.restake()
    p.done()


# ------------------------------------------------------------------ views
def vacc(m, who):
    """the account as the public getters report it."""
    p = Pool(m)
    a = p.acc(who)
    m.require(lt(I(0), p.N), "P11", "shares exist")
    return a[0], div(mul(p.T, a[1]), p.N), le(a[2], m.epoch.t)


def getter(name, props="P11"):
    def deco(fn):
        @e(name, props, live=props)
        def f(m):
            loaded(m)
            m.ret(fn(m), props)
        return fn
    return deco


@getter("get_account_unstaked_balance")
def g1(m): return vacc(m, m.arg("account_id"))[0]


@getter("get_account_staked_balance")
def g2(m): return vacc(m, m.arg("account_id"))[1]


@getter("get_account_total_balance")
def g3(m):
    u, s, c = vacc(m, m.arg("account_id"))
    return add(u, s)


@getter("is_account_unstaked_balance_available", "P11 P03 P04")
def g4(m): return vacc(m, m.arg("account_id"))[2]


@getter("get_total_staked_balance")
def g5(m): return m.S.total_staked_balance


@getter("get_owner_id")
def g6(m): return m.S.owner_id


@getter("get_reward_fee_fraction")
def g7(m): return m.S.reward_fee_fraction


@getter("get_staking_key")
def g8(m): return m.S.stake_public_key


@getter("is_staking_paused", "P11 P07")
def g9(m): return m.S.paused


@getter("get_account")
def g10(m):
    a = m.arg("account_id")
    u, s, c = vacc(m, a)
    return agg("HumanReadableAccount", None, None, (a.t, u, s, c))


@getter("get_number_of_accounts")
def g11(m): return T("mlen", T("cont", m.S.accounts.t))


@e("get_accounts", "P11", live="P11")
def get_accounts(m):
    loaded(m)

    def row(mm, e):
        k = fld(e.t, None, 0)
        u, s, c = vacc(mm, k)
        return agg("HumanReadableAccount", None, None, (k, u, s, c))
    lo = m.arg("from_index").t
    if m.mode == "panic":       # a price cannot be computed before there are shares; every key below the length exists
        m.require(lt(I(0), m.S.total_stake_shares.t), "P11", "there are shares")
        n = T("mlen", m.content(m.S.accounts))
        for t in list(m.facts.var):
            if t.op == "lookup" and t.args[0].op == "keys" and m.facts.entails(is_(t, "Option", "Some")) is False \
                    and m.facts.entails(lt(t.args[1], n)) is True:
                m.reject("P11", "no such key")
    m.listing(m.content(m.S.accounts), row, lo=lo, hi=add(lo, m.arg("limit").t))


# ------------------------------------------------------------------ callback
@e("on_stake_action", "P08 P07", live="P08")
def on_stake_action(m):
    loaded(m); no_deposit(m)
    private(m, "P08")
    ok = result(m)
    if not m.test(ok) and m.test(lt(I(0), m.locked.t)):
        m.promise(m.me, ("stake", I(0), m.S.stake_public_key.t), tags="P08")


# ------------------------------------------------------------------ owner
def owner(m):
    p = start(m)
    m.require(ident(m.caller, m.S.owner_id), "P05", "caller is the owner")
    return p


@e("update_staking_key", "P05 P06 P07", live="P07")
def update_staking_key(m):
    p = owner(m)
    p.ping()
    p.key = m.arg("stake_public_key").t
    p.restake()
    p.done()


@e("update_reward_fee_fraction", "P05 P06 P10", live="P10")
def update_reward_fee_fraction(m):
    p = owner(m)
    f = m.arg("reward_fee_fraction")
    m.require(no(f.denominator.eq(0)), "P10", "the fee denominator is positive")
    m.require(f.numerator <= f.denominator, "P10", "the fee is at most 1")
    if p.ping():
        p.restake()
    p.done()
    m.set("reward_fee_fraction", f, "P10 P06")


@e("vote", "P05", live="P05")
def vote(m):
    owner(m)
    v = m.arg("voting_account_id")
    valid(m, v, "P05")
    m.call(v, "vote", {"is_vote": m.arg("is_vote")}, 0, VOTE_GAS, tags="P05 X01 X02")


@e("pause_staking", "P05 P07 P06", live="P07")
def pause_staking(m):
    p = owner(m)
    m.require(no(m.S.paused.t), "P07", "staking is not paused yet")
    p.ping()
    p.paused = TRUE
    m.promise(m.me, ("stake", I(0), p.key), tags="P07")
    p.done()


@e("resume_staking", "P05 P07 P06", live="P07")
def resume_staking(m):
    p = owner(m)
    m.require(m.S.paused.t, "P07", "staking is paused")
    p.ping()
    p.paused = FALSE
    p.restake()
    p.done()
