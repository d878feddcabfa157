from specs.common import *

SPEC = Spec("whitelist", "WhitelistContract", {
    "WhitelistContract": ["foundation_account_id", "whitelist", "factory_whitelist"],
}, field_tags={"foundation_account_id": "W01", "whitelist": "W02 W01", "factory_whitelist": "W02 W01"}, new_export="W01")
e = SPEC.entry


@e("new", "W01 X05", live="W01")
def new(m):
    a = m.arg("foundation_account_id")
    uninit(m); no_deposit(m)
    valid(m, a, "W01")
    m.init(tags="W01 W02", foundation_account_id=a, whitelist=T("coll", "LookupSet", S("w")),
           factory_whitelist=T("coll", "LookupSet", S("f")))


def has(m, coll, a):
    return m.lookup(coll, a).is_some


@e("is_whitelisted", "W02", live="W02")
def is_whitelisted(m):
    a = m.arg("staking_pool_account_id")
    loaded(m)
    valid(m, a, "W02")
    m.ret(has(m, m.S.whitelist, a))


@e("is_factory_whitelisted", "W02", live="W02")
def is_factory_whitelisted(m):
    a = m.arg("factory_account_id")
    loaded(m)
    valid(m, a, "W02")
    m.ret(has(m, m.S.factory_whitelist, a))


def change(m, coll, a, add_):
    valid(m, a, "W02")
    was = has(m, coll, a)
    if add_:
        m.put(coll, a, UNIT, "W02")
        m.ret(no(was), "W02")
    else:
        m.delete(coll, a, "W02")
        m.ret(was, "W02")


@e("add_staking_pool", "W01 W02", live="W02")
def add_staking_pool(m):
    loaded(m); no_deposit(m)
    a = m.arg("staking_pool_account_id")
    if not m.test(has(m, m.S.factory_whitelist, m.caller)):
        m.require(ident(m.caller, m.S.foundation_account_id), "W01", "caller is the foundation or a whitelisted factory")
    change(m, m.S.whitelist, a, True)


def foundation(m):
    loaded(m); no_deposit(m)
    m.require(ident(m.caller, m.S.foundation_account_id), "W01", "caller is the foundation")


@e("remove_staking_pool", "W01 W02", live="W02")
def remove_staking_pool(m):
    foundation(m)
    change(m, m.S.whitelist, m.arg("staking_pool_account_id"), False)


@e("add_factory", "W01 W02", live="W02")
def add_factory(m):
    foundation(m)
    change(m, m.S.factory_whitelist, m.arg("factory_account_id"), True)


@e("remove_factory", "W01 W02", live="W02")
def remove_factory(m):
    foundation(m)
    change(m, m.S.factory_whitelist, m.arg("factory_account_id"), False)
