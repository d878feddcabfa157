"""Reference clauses of the wrapped NEAR token.

The fungible-token ledger itself is `near_contract_standards::FungibleToken`, which is not part of the repository: its
operations are opaque state transformers (`ftop`) and results (`ftret`).  The clauses fix which transformer, with which
operands, every exported method of this contract applies.
"""
from specs.common import *

SPEC = Spec("w-near", "Contract", {"Contract": ["ft"]}, field_tags={"ft": "N01 N02 N03"}, new_export="N03")
e = SPEC.entry
REG = A("ft_registration")


def op(name, s, *args):
    return T("ftop", name, s, tuple(tm(a) for a in args))


def res(m, name, *args):
    return T("ftret", name, m.S.ft.t, tuple(tm(a) for a in args))


@e("new", "N03 X05", live="N03")
def new(m):
    uninit(m); no_deposit(m)
    m.init(tags="N01 N03", ft=T("ftnew", S("a")))


@e("near_deposit", "N01 N03", live="N01")
def near_deposit(m):
    loaded(m)
    ft, who, d = m.S.ft.t, m.caller.t, m.deposit.t
    m.require(le(I(1), d), "N01", "a deposit is attached")
    if not m.test(m.lookup(fld(ft, None, 0), who).is_some):
        m.require(le(REG, d), "N01", "the deposit covers the registration of a new account")
        d = sub(d, REG)
        ft = op("internal_register_account", ft, who)
    m.set("ft", op("internal_deposit", ft, who, d), "N01")


@e("near_withdraw", "N02 N03", live="N02")
def near_withdraw(m):
    loaded(m)
    a = m.arg("amount")
    m.require(m.deposit.eq(1), "N02", "exactly one yocto is attached")
    m.set("ft", op("internal_withdraw", m.S.ft.t, m.caller, a), "N02")
    m.promise(m.caller, ("transfer", add(a.t, I(1))), tags="N02")


def forward(name, args, tags="N03", lib=None, ret=True):
    """the library operation of the same name, with the caller's arguments, and its answer."""
    def fn(m):
        loaded(m)
        vals = [m.arg(a) for a in args]
        m.set("ft", op(lib or name, m.S.ft.t, *vals), tags)
        if ret:
            m.ret(res(m, lib or name, *vals), tags)
    e(name, tags, live=tags)(fn)


def query(name, args):
    def fn(m):
        loaded(m)
        m.ret(res(m, name, *[m.arg(a) for a in args]))
    e(name, "N03 N04", live="N03 N04")(fn)


forward("ft_transfer", ["receiver_id", "amount", "memo"], ret=False)
forward("ft_transfer_call", ["receiver_id", "amount", "memo", "msg"])
forward("storage_deposit", ["account_id", "registration_only"])
forward("storage_withdraw", ["amount"])
query("ft_total_supply", [])
query("ft_balance_of", ["account_id"])
query("storage_balance_of", ["account_id"])


@e("ft_resolve_transfer", "N03 X04", live="N03")
def ft_resolve_transfer(m):
    loaded(m); no_deposit(m)
    private(m, "N03")
    vals = [m.arg(a) for a in ("sender_id", "receiver_id", "amount")]
    m.set("ft", op("internal_ft_resolve_transfer", m.S.ft.t, *vals), "N03")
    m.ret(fld(res(m, "internal_ft_resolve_transfer", *vals), None, 0))


@e("storage_unregister", "N03", live="N03")
def storage_unregister(m):
    loaded(m)
    f = m.arg("force")
    m.set("ft", op("internal_storage_unregister", m.S.ft.t, f), "N03")
    m.ret(B(m.test(is_(res(m, "internal_storage_unregister", f), "Option", "Some"))))


@e("storage_balance_bounds", "N03 N04", live="N03 N04")
def storage_balance_bounds(m):
    loaded(m)
    m.ret(agg("StorageBalanceBounds", None, ("min", "max"), (REG, SOME(REG))))


@e("storage_minimum_balance", "N01 N03 N04", live="N03 N04")
def storage_minimum_balance(m):
    loaded(m)
    m.ret(REG)


@e("ft_metadata", "N03 N04", live="N03 N04")
def ft_metadata(m):
    loaded(m)
    got = m.path.ret.args[0] if m.path is not None and m.path.ret is not None and m.path.ret.op == "json" else None
    if got is None:
        return
    st = [n for n, _ in m.cr.structs.get("FungibleTokenMetadata", [])] or list(got.args[2] or ())
    if "decimals" not in st or "symbol" not in st:
        raise SpecError("token metadata has no decimals or symbol")
    for nm, want in (("decimals", I(24)), ("symbol", S("wNEAR"))):
        v = fld(got, None, st.index(nm))
        if v is not want:
            m.fail("N03 N04", "return", "token metadata: %s is %s, expected %s" % (nm, show(v), show(want)))
