"""Reference clauses of the staking pool factory."""
from specs.common import *

SPEC = Spec("staking-pool-factory", "StakingPoolFactory", {
    "StakingPoolFactory": ["staking_pool_whitelist_account_id", "staking_pool_account_ids"],
}, field_tags={"staking_pool_whitelist_account_id": "F02", "staking_pool_account_ids": "F01 F02"}, new_export="F02")
e = SPEC.entry
MIN = 30 * 10 ** 24
TGAS = 10 ** 12


@e("new", "F02 X05", live="F02")
def new(m):
    uninit(m); no_deposit(m)
    a = m.arg("staking_pool_whitelist_account_id")
    valid(m, a, "F02")
    m.init(tags="F01 F02", staking_pool_whitelist_account_id=a, staking_pool_account_ids=T("coll", "UnorderedSet", S("s")))


@e("get_min_attached_balance", "F01 F06", live="F01 F06")
def get_min_attached_balance(m):
    loaded(m)
    m.ret(I(MIN))


@e("get_number_of_staking_pools_created", "F01 F06", live="F01 F06")
def get_number_of_staking_pools_created(m):
    loaded(m)
    m.ret(T("mlen", m.content(m.S.staking_pool_account_ids)))


@e("create_staking_pool", "F01 F02", live="F01")
def create_staking_pool(m):
    loaded(m)
    pid, owner = m.arg("staking_pool_id"), m.arg("owner_id")
    fee = m.arg("reward_fee_fraction")
    m.require(le(I(MIN), m.deposit.t), "F01", "the minimum deposit is attached")
    m.require(no(is_(T("strfind", pid.t, S(".")), "Option", "Some")), "F01", "the pool id has no dot")
    acc = T("cat", pid.t, S("."), m.me.t)
    valid(m, acc, "F01", "the new pool's account id is valid")
    valid(m, owner, "F01", "the owner's account id is valid")
    m.require(fee.denominator.ne(0), "F01 P10", "the fee denominator is not zero")
    m.require(fee.numerator <= fee.denominator, "F01 P10", "the fee is at most one")
    m.require(no(m.lookup(m.S.staking_pool_account_ids, acc).is_some), "F01", "this pool was not created before")
    m.put(m.S.staking_pool_account_ids, acc, UNIT, "F01")
    p = m.promise(acc, ("create_account",), ("transfer", m.deposit.t), ("deploy_contract", code("staking-pool", "staking_pool.wasm")),
                  ("function_call", "new", {"owner_id": owner, "stake_public_key": m.arg("stake_public_key"),
                                            "reward_fee_fraction": fee}, 0, I(50 * TGAS)), tags="F01")
    m.call(m.me, "on_staking_pool_create", {"staking_pool_account_id": acc, "attached_deposit": m.deposit,
                                           "predecessor_account_id": m.caller}, 0, I(50 * TGAS), after=p, tags="F02 F01")


@e("on_staking_pool_create", "F02 X04", live="F02")
def on_staking_pool_create(m):
    loaded(m); no_deposit(m)
    private(m, "F02")
    acc = m.arg("staking_pool_account_id")
    if m.test(result(m)):
        m.call(m.S.staking_pool_whitelist_account_id, "add_staking_pool", {"staking_pool_account_id": acc},
               0, I(25 * TGAS), tags="F02")
    else:
        m.delete(m.S.staking_pool_account_ids, acc, "F02 F01")
        m.promise(m.arg("predecessor_account_id"), ("transfer", m.arg("attached_deposit")), tags="F02")
        m.ret(FALSE, "F02")
