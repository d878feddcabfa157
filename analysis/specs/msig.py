"""Reference clauses shared by the two multisig contracts."""
from specs.common import *
from rules import V
import rules

COOLDOWN = 900_000_000_000
METHODS = "add_request,delete_request,confirm,add_request_and_confirm"
STRUCTS = {
    "MultiSigRequest": ["receiver_id", "actions"],
    "FunctionCallPermission": ["allowance", "receiver_id", "method_names"],
}
TAGS = {"num_confirmations": "M05 M01", "request_nonce": "M03 M06", "requests": "M03 M07", "confirmations": "M02 M03",
        "num_requests_pk": "M06", "active_requests_limit": "M05 M06", "members": "M08 M05 M02"}
ACTION = "MultiSigRequestAction"


class Multisig:
    """The same protocol, with members that are access keys (v1) or access keys and accounts (v2)."""

    def __init__(self, v2):
        self.v2 = v2

    # ---- who acts
    def actor(self, m, tags="M02"):
        """(identity stored with a request, key under which limits and confirmations are kept)"""
        pk = A("signer_pk")
        if not self.v2:
            m.require(ident(m.caller, m.me), tags, "the call is signed by a key of this account")
            return pk, pk
        if m.test(ident(m.caller, m.me)):
            who = agg("MultisigMember", "AccessKey", ("public_key",), (pk,))
        else:
            who = agg("MultisigMember", "Account", ("account_id",), (m.caller.t,))
        m.require(m.lookup(m.S.members, who).is_some, tags, "the caller is a member")
        return who, T("json", who)

    def key_of(self, who):
        return T("json", who) if self.v2 else who

    # ---- requests
    def add(self, m, who, key, request):
        cnt = m.lookup(m.S.num_requests_pk, key)
        n = add(fld(cnt.t, "Some", 0) if m.test(cnt.is_some) else I(0), I(1))
        m.require(le(n, m.S.active_requests_limit.t), "M06", "the member's active request limit is not exceeded")
        rid = m.S.request_nonce.t
        rec = agg("MultiSigRequestWithSigner", None, None, (request, who, m.now.t))
        m.set("request_nonce", add(rid, I(1)), "M06 M03")
        return rid, rec, n

    def existing(self, m, rid):
        r = m.lookup(m.S.requests, rid, "MultiSigRequestWithSigner")
        c = m.lookup(m.S.confirmations, rid)
        m.require(r.is_some, "M03", "the request exists")
        m.require(c.is_some, "M03 M01", "the request's confirmations exist")
        return r.some, fld(c.t, "Some", 0)

    def remove(self, m, rid, owner_key, n=None, more=""):
        m.delete(m.S.requests, rid, "M03 " + more)
        m.delete(m.S.confirmations, rid, "M03 M02 " + more)
        if n is None:
            cnt = m.lookup(m.S.num_requests_pk, owner_key)
            n = fld(cnt.t, "Some", 0) if m.test(cnt.is_some) else I(0)
        m.put(m.S.num_requests_pk, owner_key, sat_sub(n, I(1)), "M06 M07")

    def size(self, m, s):
        if s.op == "mempty":
            return I(0)
        return T("mlen", s)

    def confirm(self, m, rid, request, owner_key, confs, key, n=None, rec=None):
        """one more confirmation by `key`; returns True when the request is executed."""
        if confs.op != "mempty":
            m.require(no(is_(T("lookup", confs, key), "Option", "Some")), "M02 M01",
                      "this member has not confirmed the request yet")
        if m.test(le(m.S.num_confirmations.t, add(self.size(m, confs), I(1)))):
            self.remove(m, rid, owner_key, n, "M01")
            self.execute(m, request)
            return True
        if rec is not None:
            m.put(m.S.requests, rid, rec, "M03 M04 M02 M06 M07")
            m.put(m.S.num_requests_pk, owner_key, n, "M06")
        m.put(m.S.confirmations, rid, T("mput", confs, key, UNIT), "M01 M02 M07")
        return False

    # ---- execution
    def execute(self, m, request):
        recv, acts = fld(request, None, 0), fld(request, None, 1)
        # a configuration change recognised by looking at a single action, before any loop
        first = V(m, T("idx", acts, I(0)), ACTION)
        if m.facts.entails(eqn(T("len", acts), I(1))) is True and any(
                m.facts.quick(first.isv(v)) is True for v in ("SetNumConfirmations", "SetActiveRequestsLimit")):
            return self.config(m, first, recv, acts)
        m.promise(recv, ("loop",), tags="M04")
        m.foreach(acts, lambda mm, a: self.action(mm, a, recv, acts), ACTION, "M04",
                  early=lambda mm, a: self.config(mm, a, recv, acts))

    def to_self(self, m, recv, tags):
        m.require(ident(recv, m.me), tags, "the request targets the multisig itself")

    def config(self, m, a, recv, acts):
        for var, f in (("SetNumConfirmations", "num_confirmations"), ("SetActiveRequestsLimit", "active_requests_limit")):
            if m.test(a.isv(var)):
                self.to_self(m, recv, "M05")
                m.require(eqn(T("len", acts), I(1)), "M05", "a configuration change is the only action of its request")
                new = fld(a.t, var, 0)
                m.set(f, new, "M05 M01 M08" if var == "SetNumConfirmations" else "M05 M06")
                if self.v2 and var == "SetNumConfirmations" and m.mode in ("path", "panic"):
                    members = m.path.st.maps.get(m.S.members.t, m.content(m.S.members)) if m.mode == "path" \
                        else m.content(m.S.members)
                    m.require(le(new, T("mlen", members)), "M08", "confirmations never exceed the number of members")
                return
        m.reject("M04 M01", "the execution stops before the last action")

    def action(self, m, a, recv, acts):
        pay = lambda var, i: fld(a.t, var, i)
        if m.test(a.isv("Transfer")):
            return m.act("transfer", pay("Transfer", 0))
        if m.test(a.isv("CreateAccount")):
            return m.act("create_account")
        if m.test(a.isv("DeployContract")):
            return m.act("deploy_contract", pay("DeployContract", 0))
        if m.test(a.isv("FunctionCall")):
            return m.act("function_call", *[pay("FunctionCall", i) for i in range(4)])
        if m.test(a.isv("AddKey")):
            self.to_self(m, recv, "M04 M05")
            pk, perm = pay("AddKey", 0), pay("AddKey", 1)
            if not m.test(is_(perm, "Option", "Some")):
                return m.act("add_full_access_key", pk)
            p = V(m, fld(perm, "Some", 0), "FunctionCallPermission")
            al = p.allowance
            return m.act("add_access_key", pk, al.some.t if m.test(al.is_some) else I(0), p.receiver_id.t,
                         T("join", p.method_names.t, S(",")))
        if not self.v2 and m.test(a.isv("DeleteKey")):
            self.to_self(m, recv, "M04 M05")
            pk = pay("DeleteKey", 0)
            self.purge(m, pk, pk)
            return m.act("delete_key", pk)
        if self.v2 and m.test(a.isv("AddMember")):
            self.to_self(m, recv, "M04 M05")
            return self.join(m, pay("AddMember", 0))
        if self.v2 and m.test(a.isv("DeleteMember")):
            self.to_self(m, recv, "M04 M05")
            who = pay("DeleteMember", 0)
            m.require(le(add(m.S.num_confirmations.t, I(1)), T("mlen", m.content(m.S.members))), "M08",
                      "enough members remain to reach the required confirmations")
            self.purge(m, who, T("json", who))
            m.delete(m.S.members, who, "M07 M02 M05 M08")
            if m.test(is_(who, "MultisigMember", "AccessKey")):
                m.act("delete_key", fld(who, "AccessKey", 0))
            return
        if m.mode == "panic":
            return self.config(m, a, recv, acts)
        m.reject("M05", "a configuration change is one action among others")

    def join(self, m, who):
        m.put(m.S.members if m.news is None else m.news["members"], who, UNIT, "M08 M02 M05")
        if m.test(is_(who, "MultisigMember", "AccessKey")):
            m.act("add_access_key", fld(who, "AccessKey", 0), I(0), m.me, S(METHODS))

    def purge(self, m, who, key):
        """everything a removed member left behind disappears."""
        def one(k, e):
            rid, r = fld(e.t, None, 0), V(k, fld(e.t, None, 1), "MultiSigRequestWithSigner")
            owner = fld(r.t, None, 1)
            if k.test(ident(owner, who)):
                k.delete(k.S.requests, rid, "M07")
                k.delete(k.S.confirmations, rid, "M07")
                return
            c = k.lookup(k.S.confirmations, rid)
            if k.test(c.is_some):
                had = fld(c.t, "Some", 0)
                if k.test(is_(T("lookup", had, key), "Option", "Some")):
                    k.put(k.S.confirmations, rid, T("mdel", had, key), "M07 M01")
        m.foreach(m.content(m.S.requests), one, tags="M07")
        m.delete(m.S.num_requests_pk, key, "M07 M06")

    # ---- entry points
    def install(self, spec):
        e = spec.entry
        ALL = "M01 M02 M03 M04 M05 M06 M07" + (" M08" if self.v2 else "")

        @e("add_request", "M02 M03 M06", live="M06 M02")
        def add_request(m):
            loaded(m); no_deposit(m)
            who, key = self.actor(m)
            rid, rec, n = self.add(m, who, key, m.arg("request").t)
            m.put(m.S.requests, rid, rec, "M03 M04 M06 M02 M07")
            m.put(m.S.confirmations, rid, T("mempty"), "M01 M02")
            m.put(m.S.num_requests_pk, key, n, "M06")
            m.ret(rid, "M03")

        @e("add_request_and_confirm", ALL, live="M01 M04 M05 M06")
        def add_request_and_confirm(m):
            loaded(m); no_deposit(m)
            who, key = self.actor(m)
            req = m.arg("request").t
            rid, rec, n = self.add(m, who, key, req)
            self.confirm(m, rid, req, key, T("mempty"), key, n, rec)
            m.ret(rid, "M03")

        @e("confirm", ALL, live="M01 M02 M04 M05")
        def confirm(m):
            loaded(m); no_deposit(m)
            who, key = self.actor(m)
            rid = m.arg("request_id").t
            r, confs = self.existing(m, rid)
            if not self.confirm(m, rid, r.request.t, self.key_of(fld(r.t, None, 1)), confs, key):
                m.ret(TRUE, "M01")

        @e("delete_request", "M02 M03 M06", live="M03 M06")
        def delete_request(m):
            loaded(m); no_deposit(m)
            self.actor(m)
            rid = m.arg("request_id").t
            r, confs = self.existing(m, rid)
            m.require(lt(add(r.added_timestamp.t, I(COOLDOWN)), m.now.t), "M06",
                      "the request is older than the cooldown")
            self.remove(m, rid, self.key_of(fld(r.t, None, 1)))
            if not self.v2:
                m.ret(r.request, "M03")

        # views
        @e("get_request", "M03 M09", live="M03 M09")
        def get_request(m):
            loaded(m)
            r = m.lookup(m.S.requests, m.arg("request_id").t, "MultiSigRequestWithSigner")
            m.require(r.is_some, "M03 M09", "the request exists")
            m.ret(r.some.request)

        @e("list_request_ids", "M03 M09", live="M03 M09")
        def list_request_ids(m):
            loaded(m)
            m.listing(m.content(m.S.requests), lambda mm, e: fld(e.t, None, 0), ordered=False)

        @e("get_num_confirmations", "M01 M09", live="M01 M09")
        def get_num_confirmations(m):
            loaded(m)
            m.ret(m.S.num_confirmations)

        @e("get_request_nonce", "M03 M09", live="M03 M09")
        def get_request_nonce(m):
            loaded(m)
            m.ret(m.S.request_nonce)

        @e("get_confirmations", "M02 M09", live="M02 M09")
        def get_confirmations(m):
            loaded(m)
            c = m.lookup(m.S.confirmations, m.arg("request_id").t)
            m.require(c.is_some, "M02 M09", "the request exists")
            m.listing(fld(c.t, "Some", 0), lambda mm, e: e, ordered=False)

        @e("get_num_requests_per_member" if self.v2 else "get_num_requests_pk", "M06 M09", live="M06 M09")
        def get_num_requests(m):
            loaded(m)
            c = m.lookup(m.S.num_requests_pk, self.key_of(m.arg("member" if self.v2 else "public_key").t))
            m.ret(fld(c.t, "Some", 0) if m.test(c.is_some) else I(0))
