"""Reference clauses of the multisig2 contract (members are access keys and accounts)."""
from specs.common import *
from specs.msig import Multisig, STRUCTS, TAGS

SPEC = Spec("multisig2", "MultiSigContract", dict(STRUCTS, **{
    "MultiSigContract": ["members", "num_confirmations", "request_nonce", "requests", "confirmations",
                         "num_requests_pk", "active_requests_limit"],
    "MultiSigRequestWithSigner": ["request", "member", "added_timestamp"],
}), field_tags=TAGS, new_export="M01 M05")
M = Multisig(True)
M.install(SPEC)


def key(n):
    return agg("StorageKeys", n, None, ())


@SPEC.entry("new", "M01 M02 M06 M08 X05", live="M08")
def new(m):
    uninit(m); no_deposit(m)
    ms, k = m.arg("members").t, m.arg("num_confirmations").t
    coll = T("coll", "UnorderedSet", key("Members"))
    m.init(tags="M01 M03 M02", members=coll, num_confirmations=k, request_nonce=0, requests=T("coll", "UnorderedMap", key("Requests")),
           confirmations=T("coll", "LookupMap", key("Confirmations")),
           num_requests_pk=T("coll", "LookupMap", key("NumRequestsPk")), active_requests_limit=12)
    m.promise(m.me, ("loop",), tags="M02 M08")

    def one(mm, who):
        mm.put(coll, who, UNIT, "M08 M02")
        if mm.test(is_(who.t, "MultisigMember", "AccessKey")):
            mm.act("add_access_key", fld(who.t, "AccessKey", 0), I(0), mm.me, S(
                "add_request,delete_request,confirm,add_request_and_confirm"))
    m.foreach(ms, one, "MultisigMember", "M08 M02")
    if m.mode == "panic":           # too few members listed, or too few different ones
        m.require(le(k, T("len", ms)), "M08", "at least as many members as required confirmations")
        m.require(le(k, T("mlen", m.chk.pmaps.get(coll, T("mempty")))) if coll in m.chk.pmaps else TRUE, "M08",
                  "at least as many distinct members as required confirmations")
    if m.mode == "path":
        got = m.path.st.maps.get(coll, T("mempty"))
        m.require(le(k, T("mlen", got)), "M08", "at least as many distinct members as required confirmations")


@SPEC.entry("get_members", "M02 M09", live="M02 M09")
def get_members(m):
    loaded(m)
    m.ret(m.content(m.S.members))
