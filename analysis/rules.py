"""Rule layer: decides contract clauses on the abstract summary of every exported entry point.

A *clause set* (specs/*.py) states, for one entry point, in terms of the observable contract state,
the call's arguments and the host context: which conditions must have been established on every
execution that commits (guards), what the committed state, the storage collections, the outgoing
promises and the returned value are (effects), and - where a property promises progress - that the
listed conditions are the only reasons to reject.  Each clause carries the properties it belongs to.

Clauses are decided for every trace partition of the dataflow result (`absint`), by inclusion in the
relational domain (`facts`).  Where a clause distinguishes cases that the partition does not, the
partition is refined by that condition and both refinements are checked.
"""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from terms import *
import terms
from facts import Facts, is_, ENUMS
import absint as ai
import models


class Split(Exception):
    def __init__(self, cond):
        self.cond = cond


class Infeasible(Exception):
    pass


class SpecError(Exception):
    """An anchor the clauses rely on is missing (fail closed)."""


NUMOPS = {"i", "poly", "div", "rem", "satsub", "min", "max", "mlen", "trunc"}
BOOLOPS = {"b", "le0", "eq0", "not", "and", "or", "is", "eq", "valid_account", "decodes"}


# ---------------------------------------------------------------------- equality of value descriptions
class Eq:
    """Equality of value terms under path facts."""
    check = None        # the clause set being decided: knows the types of stored values

    @staticmethod
    def width(t):
        """number of fields of the structure t, if it is one."""
        c = Eq.check
        st = c.cr.structs.get(tbase(c.type_of(t))) if c else None
        return len(st) if st else None

    def __init__(self, facts):
        self.f = facts
        self.par = {}
        for t, v in facts.tf.items():
            if v and t.op == "eq":
                a, b = self.find(t.args[0]), self.find(t.args[1])
                if a is not b:
                    # prefer simpler representative
                    if (len(b.args), b.id) < (len(a.args), a.id):
                        a, b = b, a
                    self.par[b] = a
        for x, v in facts.consts().items():
            self.par.setdefault(x, v)
        self.memo = {}

    def find(self, t):
        while t in self.par:
            t = self.par[t]
        return t

    def same(self, a, b):
        return not self.diffs(a, b)

    def diffs(self, a, b, path=()):
        """list of (path, actual, expected) leaves that are not provably equal."""
        if a is b:
            return []
        k = (a, b)
        if k in self.memo:
            return [(path + p, x, y) for p, x, y in self.memo[k]]
        self.memo[k] = []
        r = self._diffs(a, b)
        self.memo[k] = r
        return [(path + p, x, y) for p, x, y in r]

    def _diffs(self, a, b):
        if not isinstance(a, Term) or not isinstance(b, Term):
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
                return [d for i, (x, y) in enumerate(zip(a, b)) for d in self.diffs(x, y, (i,))]
            return [] if a == b else [((), a, b)]
        a, b = self.find(a), self.find(b)
        if a is b:
            return []
        if a.op == "upd" or b.op == "upd":
            ba, bb = a, b
            while ba.op == "upd": ba = ba.args[0]
            while bb.op == "upd": bb = bb.args[0]
            if not self.diffs(ba, bb) or ba.op != "agg" and bb.op != "agg":
                out = self.diffs(ba, bb) if ba is not bb else []
                keys = set()
                for x in (a, b):
                    while x.op == "upd":
                        keys.update(k for k, _ in x.args[2]); x = x.args[0]
                if out:
                    # different bases: equal only if every field is
                    n = Eq.width(ba) or Eq.width(bb)
                    if not n:
                        return [((), a, b)]
                    keys |= {(None, i) for i in range(n)}
                res = []
                for k in sorted(keys, key=repr):
                    res += self.diffs(fld(a, *k), fld(b, *k), (k,))
                return res
            # agg against an overlay
            g = ba if ba.op == "agg" else bb
            var = g.args[1]
            if var is not None:
                o = bb if g is ba else ba
                if self.f.variant(o) not in (var,) and not self._is(o, g.args[0], var):
                    return [((), a, b)]
            res = []
            for i in range(len(g.args[3])):
                res += self.diffs(fld(a, var, i), fld(b, var, i), ((var, i),))
            return res
        if a.op == "agg" and b.op == "agg":
            if a.args[1] == b.args[1] and len(a.args[3]) == len(b.args[3]):
                res = []
                for i, (x, y) in enumerate(zip(a.args[3], b.args[3])):
                    res += self.diffs(x, y, ((a.args[1], i),))
                return res
            return [((), a, b)]
        if a.op == "agg" or b.op == "agg":
            g, o = (a, b) if a.op == "agg" else (b, a)
            if g.args[0] == "[]" and o.op not in ("a", "fld", "lookup"):
                return [((), a, b)]
            var = g.args[1]
            if var is not None and not self._is(o, g.args[0], var):
                return [((), a, b)]
            if var is None and g.args[0] == "[]":
                return [((), a, b)]
            res = []
            for i, x in enumerate(g.args[3]):
                y = fld(o, var, i)
                res += self.diffs(x, y, ((var, i),)) if g is a else self.diffs(y, x, ((var, i),))
            return res
        if a.op in ("mput", "mdel") or b.op in ("mput", "mdel"):
            return [] if self.same_map(a, b) else [((), a, b)]
        if a.op in BOOLOPS or b.op in BOOLOPS:
            return [] if self.same_bool(a, b) else [((), a, b)]
        if a.op in NUMOPS or b.op in NUMOPS:
            return [] if self.same_num(a, b) else [((), a, b)]
        if a.op == b.op and len(a.args) == len(b.args) and a.op not in ("a", "s", "const"):
            if all(not self.diffs(x, y) for x, y in zip(a.args, b.args)):
                return []
        if a.op in ("a", "fld", "decode", "vstake", "presult") or b.op in ("a", "fld", "decode"):
            try:
                if a.op not in ("s", "json") and b.op not in ("s", "json") and self.f.entails(eqn(a, b)):
                    return []
            except Exception:
                pass
        return [((), a, b)]

    def _is(self, o, en, var):
        v = self.f.variant(o)
        if v is not None:
            return v == var
        return self.f.entails(is_(o, en, var)) is True

    def map_ops(self, t):
        """(base, [(key, value or None)]) with shadowed and ineffective updates dropped."""
        ops = []
        while t.op in ("mput", "mdel"):
            ops.append((t.args[1], t.args[2] if t.op == "mput" else None))
            t = t.args[0]
        t = self.find(t)
        out = []
        for k, v in ops:                       # newest first
            if not any(self.same(k, k2) for k2, _ in out):
                out.append((k, v))
        res = []
        for k, v in out:
            lk = T("lookup", t, k)
            if v is None and (t.op == "mempty" or self.f.quick(is_(lk, "Option", "Some")) is False):
                continue
            if v is not None and self.f.quick(is_(lk, "Option", "Some")) is True and self.same(v, fld(lk, "Some", 0)):
                continue
            res.append((k, v))
        return t, res

    def same_map(self, a, b):
        ba, oa = self.map_ops(a)
        bb, ob = self.map_ops(b)
        if self.diffs(ba, bb) or len(oa) != len(ob):
            return False
        if len(oa) > 1 and any(not self.distinct(x, y) for i, (x, _) in enumerate(oa) for y, _ in oa[:i]):
            return all(self.same(k, k2) and self.same_opt(v, v2) for (k, v), (k2, v2) in zip(oa, ob))
        return all(any(self.same(k, k2) and self.same_opt(v, v2) for k2, v2 in ob) for k, v in oa)

    def same_opt(self, x, y):
        if x is None or y is None:
            return x is y
        return self.same(x, y)

    def distinct(self, x, y):
        if x.op == "s" and y.op == "s":
            return x.args[0] != y.args[0]
        return self.f.quick(T("eq", *sorted((x, y), key=lambda t: t.id))) is False

    def same_bool(self, a, b):
        for fs in self.f.assume(a, True):
            if not fs.infeasible() and not fs.entails(b):
                return False
        for fs in self.f.assume(a, False):
            if not fs.infeasible() and not fs.entails(T("not", b) if b.op not in ("b", "not", "le0") else tnot(b)):
                return False
        return True

    def same_num(self, a, b):
        a = self.canon(a); b = self.canon(b)
        pa, pb = poly(a), poly(b)
        d = padd(pa, pb, -1)
        if not d:
            return True
        at_a = {x for m in pa for x in m}
        at_b = {x for m in pb for x in m}
        sub_ = {}
        for x in sorted(at_b - at_a, key=lambda t: t.id):
            for y in sorted(at_a - at_b, key=lambda t: t.id):
                if x.op == y.op and x.op in ("div", "rem", "mlen", "satsub", "min", "max", "fld", "lookup", "decode") \
                        and len(x.args) == len(y.args):
                    ok = all(not self.diffs(p, q) for p, q in zip(x.args, y.args))
                    if not ok and x.op in ("min", "max"):
                        ok = all(not self.diffs(p, q) for p, q in zip(x.args, reversed(y.args)))
                    if ok:
                        sub_[x] = y
                        break
        if sub_:
            b = replace(b, sub_)
            if not padd(pa, poly(b), -1):
                return True
        if self.f.entails(eqn(a, b)) is True:
            return True
        a2, b2 = self.exact(a), self.exact(b)
        if (a2 is not a or b2 is not b) and not padd(poly(a2), poly(b2), -1):
            return True
        if any(x.op in ("min", "max", "satsub") for t in (a, b) for x in subterms(t)):
            f, (a3, b3) = self.f.resolved(a, b)
            if f is None or not padd(poly(a3), poly(b3), -1):
                return True
            return (f is not self.f or a3 is not a or b3 is not b) and f.entails(eqn(a3, b3)) is True
        return False

    def exact(self, t):
        """divisions rounded up, resolved where the path knows whether they are exact."""
        m = {}
        for x in subterms(t):
            if isinstance(x, Term) and x.op == "div":
                n = add(sub(x.args[0], x.args[1]), I(1))
                q = div(n, x.args[1])
                if q.op == "div" and any(q in c for _, c in atoms_of(self.f)):
                    r = sub(n, mul(x.args[1], q))
                    if self.f.entails(eqn(r, I(0))) is True:
                        m[x] = q
                    elif self.f.entails(lt(I(0), r)) is True:
                        m[x] = add(q, I(1))
        return replace(t, m) if m else t

    def canon(self, t):
        m = {}
        for x in subterms(t):
            if isinstance(x, Term):
                y = self.find(x)
                if y is not x:
                    m[x] = y
        return replace(t, m) if m else t


# ---------------------------------------------------------------------- typed view of terms
def tgen(ty):
    """type arguments of `Path<A, B>`"""
    i = ty.find("<")
    if i < 0:
        return []
    return [x.strip() for x in ai.M.split_top(ty[i + 1:ty.rstrip().rindex(">")])]


def tbase(ty):
    t = ty.strip()
    while t.startswith("&"):
        t = t[1:].strip()
        if t.startswith("mut "): t = t[4:]
        if t.startswith("'"): t = t.split(" ", 1)[1]
    i = t.find("<")
    if i >= 0:
        t = t[:i]
    return t.split("::")[-1].strip()


class V:
    """A value term with its (source-level) type; attribute access follows the crate's struct tables."""

    def __init__(self, m, t, ty=""):
        self.__dict__["m"] = m; self.__dict__["t"] = t; self.__dict__["ty"] = ty

    def _w(self, t, ty="u128"):
        return V(self.m, t, ty)

    def __getattr__(self, nm):
        if nm.startswith("__"):
            raise AttributeError(nm)
        i, fty = self.m.field(self.ty, nm)
        return V(self.m, fld(self.t, None, i), fty)

    @property
    def some(self):
        g = tgen(self.ty)
        return V(self.m, fld(self.t, "Some", 0), g[0] if g else "")

    @property
    def is_some(self): return is_(self.t, "Option", "Some")

    @property
    def is_none(self): return T("not", is_(self.t, "Option", "Some"))

    def isv(self, variant):
        en = tbase(self.ty)
        if en == "Option":
            return is_(self.t, "Option", variant)
        vs = ENUMS.get(en)
        if not vs or variant not in vs:
            raise SpecError("enum %s has no variant %s" % (en, variant))
        return is_(self.t, en, variant)

    def pay(self, variant, i=0, ty=""):
        return V(self.m, fld(self.t, variant, i), ty)

    def __add__(self, o): return self._w(add(self.t, tm(o)))
    def __radd__(self, o): return self._w(add(tm(o), self.t))
    def __sub__(self, o): return self._w(sub(self.t, tm(o)))
    def __rsub__(self, o): return self._w(sub(tm(o), self.t))
    def __mul__(self, o): return self._w(mul(self.t, tm(o)))
    __rmul__ = __mul__
    def __floordiv__(self, o): return self._w(div(self.t, tm(o)))
    def __lt__(self, o): return lt(self.t, tm(o))
    def __le__(self, o): return le(self.t, tm(o))
    def __gt__(self, o): return lt(tm(o), self.t)
    def __ge__(self, o): return le(tm(o), self.t)
    def eq(self, o): return eqn(self.t, tm(o))
    def ne(self, o): return T("not", eqn(self.t, tm(o)))
    def __repr__(self): return "V(%s)" % show(self.t)


def tm(x):
    if isinstance(x, V): return x.t
    if isinstance(x, bool): return B(x)
    if isinstance(x, int): return I(x)
    if isinstance(x, str): return S(x)
    return x


def ident(a, b):
    """identity of two non-numeric values (accounts, keys)."""
    a, b = tm(a), tm(b)
    if a is b:
        return TRUE
    if a.op == "s" and b.op == "s":
        return B(a.args[0] == b.args[0])
    return T("eq", *sorted((a, b), key=lambda t: t.id))


def no(t):
    return tnot(t) if t.op in ("b", "not", "le0") else T("not", t)


# ---------------------------------------------------------------------- summaries
def args_dict(t):
    """promise arguments -> {name: term} (or the raw term)."""
    if t.op == "agg" and t.args[0] == "[]" and not t.args[3]:
        return {}
    if t.op == "s" and t.args[0] in ("", "{}"):
        return {}
    if t.op in ("json", "borsh") and isinstance(t.args[0], Term):
        x = t.args[0]
        if x.op == "agg" and x.args[2]:
            return dict(zip(x.args[2], x.args[3]))
        if x.op == "agg" and not x.args[3]:
            return {}
        if x.op == "jmap":
            return {k.args[0] if isinstance(k, Term) and k.op == "s" else show(k): v for k, v in x.args[0]} \
                if x.args and isinstance(x.args[0], tuple) else {"": t}
    return {"": t}


class Prom:
    def __init__(self, pid, recv, acts, after):
        self.pid = pid; self.recv = recv; self.acts = acts; self.after = after

    def __repr__(self):
        return "%s.%s%s" % (show(self.recv), "+".join(
            "%s(%s)" % (a[0], ", ".join(show(x) for x in a[1])) for a in self.acts),
            "" if self.after is None else " after #%d" % self.after)


class Path:
    """One trace partition of an entry point that ends normally, or (base given) of one generic loop iteration."""

    def __init__(self, st, n, base=None):
        self.st = st; self.n = n; self.base = base
        self.facts = st.facts
        self.final = None
        self.ret = None
        self.stores = []         # (coll, key, ('put', v) | ('del',) , loc) ; final value per key
        self.loops = []
        self.sys = []
        self.pret = None
        self.locs = {}
        for e in (st.eff[len(base.eff):] if base else st.eff):
            k = e[0]
            if k == "commit":
                self.final = e[1]; self.locs["commit"] = e[2]
            elif k == "return":
                self.ret = e[1]; self.locs["return"] = e[2]
            elif k == "promise_return":
                self.pret = e[1]
            elif k in ("put", "del", "clear"):
                if e[1].op == "place":
                    continue
                self.stores.append((e[1], e[2], ("put", e[3]) if k == "put" else (k,), e[5]))
            elif k == "loop":
                self.loops.append(e[1])
            elif k == "sys":
                self.sys.append(e)
        self.proms = []
        self.acts = []           # actions appended to promises that exist already (loop iterations)
        for i, p in sorted(st.prom.items()):
            if base and i in base.prom:
                if base.prom[i] != p:
                    k = len(base.prom[i][1])
                    self.acts.append((i, p[1][k:]))
                    if p[1][:k] != base.prom[i][1] or p[2] != base.prom[i][2]:
                        self.acts.append((i, (("?", (), ""),)))
                continue
            pr = Prom(i, *p)
            if pr.acts or pr.after is not None:
                self.proms.append(pr)

    def content(self, c):
        if self.base is None:
            return T("mempty") if c.op == "coll" else T("cont", c)
        return self.base.maps.get(c, T("mempty") if c.op == "coll" else T("cont", c))

    def where(self):
        for t, l in reversed(self.facts.trail):
            if l and not l.startswith("/"):
                return l
        return ""

    def final_stores(self, eq):
        out = []
        for c, k, v, loc in self.stores:
            out = [o for o in out if not (o[0] is c and v[0] != "clear" and eq.same(o[1], k))]
            if v[0] == "clear":
                out = [o for o in out if o[0] is not c]
            out.append((c, k, v, loc))
        # drop writes that store back the value just read
        res = []
        for c, k, v, loc in out:
            lk = mlookup(self.content(c), k) if k is not None else None
            if v[0] == "put" and lk is not None and eq.f.quick(is_(lk, "Option", "Some")) is True \
                    and eq.same(v[1], fld(lk, "Some", 0)):
                continue
            if v[0] == "del" and lk is not None and eq.f.quick(is_(lk, "Option", "Some")) is False:
                continue
            res.append((c, k, v, loc))
        return res


class Summary:
    """All trace partitions of one exported entry point."""

    def __init__(self, cr, entry):
        self.entry = entry
        ip = ai.Interp(cr)
        st = ai.State()
        if entry in cr.by_path:
            nm = cr.resolve(entry)
        else:
            c = cr.by_suffix.get(entry, [])
            if not c:
                raise SpecError("exported entry %s has no body" % entry)
            nm = c[0]
        outs = ip.call_local(st, nm, [])
        self.paths = [Path(s, i) for i, (s, v) in enumerate(outs)]
        self.phirec = ip.phirec
        self.ip = ip
        self.panics = ip.panics
        self.unk = dict(ip.unmodelled)
        self.fns = ip.fns_seen
        self.calls = ip.calls_seen
        self.steps = ip.nsteps
        self.callees = ip.callees


_CR = {}
_STD = dict(ENUMS)


def activate(cr):
    """make cr's enums the ones that variant reasoning uses."""
    ENUMS.clear()
    ENUMS.update(_STD)
    ENUMS.update(cr.enums)


def crate(name, variant=""):
    k = (name, variant)
    if k not in _CR:
        import dump
        mir, rs = dump.dump(name, variant)
        cr = ai.Crate(name, mir, rs, os.path.join(dump.REPO, name))
        cr.summ = {}
        if not cr.exports:
            raise SpecError("no exported entry points found in " + name)
        _CR[k] = cr
    return _CR[k]


def summary(cr, entry):
    activate(cr)
    if entry not in cr.summ:
        if entry not in cr.exports:
            raise SpecError("%s no longer exports %s" % (cr.name, entry))
        cr.summ[entry] = Summary(cr, entry)
    return cr.summ[entry]


# ---------------------------------------------------------------------- model context
class ExpProm:
    def __init__(self, recv, acts, after, tags):
        self.recv = recv; self.acts = acts; self.after = after; self.tags = tags; self.opt = False


ATOMS = {}


def atoms_of(facts):
    out = []
    for t, _ in facts.trail:
        c = ATOMS.get(t)
        if c is None:
            c = ATOMS[t] = subterms(t)
        out.append((t, c))
    return out


class Ctx:
    """What a clause set sees of one trace partition."""

    def __init__(self, chk, facts, mode, path=None):
        self.chk = chk; self.cr = chk.cr; self.spec = chk.spec
        self.facts = facts; self.mode = mode; self.path = path
        self.root = chk.spec.root
        self.maps = None
        self.state = A("S")
        self.S = V(self, A("S"), self.root)
        self.fields = {}
        self.news = None
        self.exp_store = []
        self.exp_prom = []
        self.exp_ret = None
        self.exp_list = None
        self.free_ret = True
        self.fails = []
        self.nobl = 0
        self.free_fields = set()
        self.free_stores = set()
        self.free_proms = False
        self.loop_ok = False
        self.exp_loops = []
        self.exp_acts = []
        self.body = None         # (rec) when describing one loop iteration
        self.loops = path.loops if path else chk.ploops

    # host context
    caller = property(lambda s: V(s, A("caller"), "AccountId"))
    me = property(lambda s: V(s, A("self_account"), "AccountId"))
    deposit = property(lambda s: V(s, A("deposit"), "u128"))
    balance = property(lambda s: V(s, A("balance"), "u128"))
    locked = property(lambda s: V(s, A("locked_balance"), "u128"))
    now = property(lambda s: V(s, A("now"), "u64"))
    epoch = property(lambda s: V(s, A("epoch"), "u64"))

    def field(self, ty, nm):
        b = tbase(ty)
        st = self.cr.structs.get(b)
        base = self.spec.layout.get(b)
        if st is None:
            raise SpecError("struct %s not found" % b)
        names = [x for x, _ in st]
        if nm in names:
            i = names.index(nm)
        elif base and nm in base and len(base) == len(names):
            i = base.index(nm)
        else:
            raise SpecError("struct %s has no field %s" % (b, nm))
        return i, st[i][1]

    def arg(self, nm):
        st = self.chk.inputs
        names = [x for x, _ in st]
        if nm not in names:
            raise SpecError("%s has no argument %s" % (self.chk.entry, nm))
        i = names.index(nm)
        return V(self, fld(A("ARG"), None, i), st[i][1])

    def val(self, t, ty=""):
        return V(self, tm(t), ty)

    # decisions
    def test(self, cond):
        cond = tm(cond)
        f = self.facts
        if f.entails(cond) is True:
            return True
        n = no(cond)
        if f.entails(n) is True:
            return False
        raise Split(cond)

    def known(self, cond):
        return self.facts.entails(tm(cond)) is True

    def up(self, a, d):
        """a / d rounded up (d > 0); resolved where the path distinguishes whether the division is exact."""
        a, d = tm(a), tm(d)
        q = div(a, d)
        if q.op == "div" and any(q in x for _, x in atoms_of(self.facts)):
            r = sub(a, mul(d, q))
            if self.known(eqn(r, I(0))):
                return q
            if self.known(lt(I(0), r)):
                return add(q, I(1))
        return div(add(a, sub(d, I(1))), d)

    def assume(self, cond):
        """structural invariant / host axiom: refine the facts (never an obligation)."""
        fs = self.facts.assume(tm(cond), True, "axiom")
        fs = [f for f in fs if not f.infeasible()]
        if not fs:
            raise Infeasible()
        if len(fs) > 1:
            raise Split(tm(cond))
        self.facts = fs[0]

    def require(self, cond, tags, name):
        """cond must have been established before this entry point commits."""
        cond = tm(cond)
        tags = tg(tags)
        self.chk.guards.add(name)
        if self.mode == "path":
            self.nobl += 1
            self.chk.obl(tags)
            r = self.facts.entails(cond)
            if r is not True:
                if self.facts.infeasible():
                    raise Infeasible()
                r = self.facts.shows(cond)
            if r is not True:
                self.fail(tags, "guard:" + name,
                          "commits without establishing: %s   [%s]" % (name, show(cond)[:300]))
            fs = [f for f in self.facts.assume(cond, True, "spec") if not f.infeasible()]
            if not fs:
                raise Infeasible()
            if len(fs) > 1:
                raise Split(cond)
            self.facts = fs[0]
        else:
            r = self.facts.entails(cond)
            if r is True:
                return
            fs = [f for f in self.facts.assume(cond, True, "spec") if not f.infeasible()]
            if not fs:
                raise Infeasible()
            if len(fs) > 1:
                raise Split(cond)
            self.facts = fs[0]

    def reject(self, tags, name):
        """this case must never commit."""
        if self.mode == "path":
            if self.facts.infeasible():
                raise Infeasible()
            self.nobl += 1
            self.chk.obl(tg(tags))
            self.fail(tg(tags), "guard:" + name, "commits although: " + name)
        raise Infeasible()

    def fail(self, tags, facet, msg, loc=None):
        self.fails.append((tg(tags), facet, msg, loc or (self.path.where() if self.path else "")))

    # effects
    def set(self, path, val, tags=None):
        """path: dotted field path from the state root ('a.b'), val: term"""
        self.fields[path] = (tm(val), tg(tags) if tags else None)

    def init(self, tags=None, **fields):
        """the entry initialises the whole state with these values."""
        self.news = {k: tm(v) for k, v in fields.items()}
        self.news_tags = tg(tags) if tags else None

    def free(self, *paths):
        self.free_fields.update(paths)

    def put(self, coll, key, val, tags=None):
        self.exp_store.append((tm(coll), tm(key), ("put", tm(val)), tg(tags) if tags else None))

    def delete(self, coll, key, tags=None):
        self.exp_store.append((tm(coll), tm(key), ("del",), tg(tags) if tags else None))

    def content(self, coll):
        c = tm(coll)
        if self.path is not None:
            return self.path.content(c)
        return self.maps.get(c, T("cont", c)) if self.maps else T("cont", c)

    def lookup(self, coll, key, ty=""):
        return V(self, mlookup(self.content(coll), tm(key)), "Option<%s>" % ty)

    # ------------------------------------------------------------------ loops
    def foreach(self, src, fn, ty="", tags=None, early=None):
        """for every element e of src, in order, the effects are those that fn(iteration, e) describes.
        early(m, e): clauses of executions that leave the loop at element e."""
        src = tm(src)
        if self.mode == "panic":
            # did the rejected execution get into this loop?
            for t, v in list(self.facts.tf.items()):
                if t.op == "more" and v and t.args[0] is src:
                    b = Ctx(self.chk, self.facts, "panic", None)
                    b.maps = self.chk.pmaps
                    fn(b, V(b, models.elem_of(src), ty))
                    self.facts = b.facts
            return
        eq = Eq(self.facts)
        for l in self.loops:
            el = self.loop_elem(l, src, eq)
            if el is None:
                continue
            done = self.exhausted(l, src, self.facts)
            if not done:
                if early is None:
                    self.fail(tags or self.chk.props, "loop:exit", "may leave the loop over %s before its end" % show(src)[:80],
                              l.loc)
                else:
                    early(self, V(self, el, ty))
            l = self.composite(l, eq) or l
            self.exp_loops.append((l, el, fn, ty, tg(tags)))
            return
        self.fail(tags or self.chk.props, "loop:missing", "does not go through every element of %s" % show(src)[:120])

    def composite(self, first, eq):
        """several loops over the entries of one collection, each touching only its own entry, one after the other: the
        same as one loop that does everything to each entry; None if there is only one."""
        def root(l):
            r = next(iter(l.mores)).args[0]
            e = models.elem_of(r)
            while r.op in ("rev_it", "iter"):
                r = r.args[0]
            return r, e
        seq = [l for l in self.loops if l.pointwise and l.mores and Check.loop_effects(l, None)
               and any(self.facts.tf.get(t) is False for t in l.mores)]
        if len(seq) < 2 or seq[0] is not first:
            return None
        src, e0 = root(first)
        k = fld(e0, None, 0)
        base = first.entry
        now = dict(base.maps)                   # content before the loop at hand
        content = lambda c: now.get(c, T("cont", c))
        rows = [((), (), {})]
        merged, maps = [], set()
        for l in seq:
            r, e = root(l)
            changed = {key[1] for key, _ in l.phis.values()}
            own = [c for c in maps | changed if content(c) is r]
            if l is not first and not own and not eq.same(r, src):
                break
            if any(l.entry.maps.get(c, T("cont", c)) is not content(c) for c in maps | changed):
                break
            n, ne = len(l.entry.facts.trail), len(l.entry.eff)
            out = []
            for conds, effs, cells in rows:
                cell = lambda c: cells.get(c) or mlookup(base.maps.get(c, T("cont", c)), k)
                if own and l is not first:
                    here, gone = is_(cell(own[0]), "Option", "Some"), True
                    val = fld(cell(own[0]), "Some", 0)
                else:
                    here, gone = B(True), False
                    val = fld(e0, None, 1)
                if gone and here is not B(True):
                    out.append((conds + (tnot(here),), effs, cells))
                if here is B(False):
                    continue
                rep = {fld(e, None, 0): k, fld(e, None, 1): val}
                for c in maps | changed:
                    rep[T("lookup", content(c), fld(e, None, 0))] = cell(c)
                for b in list(l.bodies) + list(l.skips):
                    cs = [here] + [replace(t, rep) for t, _ in b.facts.trail[n:] if t.op != "more"]
                    if any(t is B(False) for t in cs):
                        continue
                    nc, es = dict(cells), ()
                    for x in b.eff[ne:]:
                        if x[0] in ("put", "del") and x[1].op != "place":
                            v = replace(x[3], rep) if x[0] == "put" else None
                            nc[x[1]] = some(v) if x[0] == "put" else models.NONE
                            es += ((x[0], x[1], k, v) + tuple(x[4:]),)
                    out.append((conds + tuple(t for t in cs if t is not B(True)), effs + es, nc))
            rows = out
            merged.append(l)
            maps |= changed
            for ph, (key, _) in l.phis.items():
                now[key[1]] = ph
            if len(rows) > 200:
                return None
        if len(merged) < 2:
            return None
        rec = ai.LoopRec(first.fn, first.head)
        rec.entry, rec.loc, rec.mores, rec.pointwise = base, first.loc, first.mores, True
        for conds, effs, cells in rows:
            for s in base.fork().assume(tand(*conds), True, first.loc):
                s = s.fork()
                s.eff = s.eff + effs
                rec.bodies.append(s)
        rec.parts = merged
        return rec

    @staticmethod
    def loop_elem(l, src, eq):
        for t in l.mores:
            r = t.args[0]
            if r.op == "rev_it" and l.pointwise:
                r = r.args[0]
                while r.op == "iter":
                    r = r.args[0]
            if r is src or eq.same(r, src):
                return models.elem_of(t.args[0])
        i = Ctx.loop_index(l)
        if i is not None:
            n = T("len", src)
            for s in l.bodies:
                if s.facts.entails(lt(i, n)) is not True:
                    return None
            return T("idx", src, i)
        return None

    @staticmethod
    def loop_index(l):
        for ph, (key, ini) in l.phis.items():
            if ini is I(0) and l.step[ph] and all(isinstance(v, Term) and v is add(ph, I(1)) for v in l.step[ph]):
                return ph
        return None

    def exhausted(self, l, src, facts):
        for t in l.mores:
            if facts.tf.get(t) is False:
                return True
        i = Ctx.loop_index(l)
        if i is not None and facts.entails(le(T("len", src), i)) is True:
            return True
        return False

    def fold(self, src, ini, fn, ty="", tags=None):
        """the value accumulated over every element e of src from `ini` by acc' = fn(iteration, e, acc)."""
        src, ini = tm(src), tm(ini)
        eq = Eq(self.facts)
        for l in self.loops:
            el = self.loop_elem(l, src, eq)
            if el is None or (self.mode == "path" and not self.exhausted(l, src, self.facts)):
                continue
            for ph, (key, v0) in l.phis.items():
                if v0 is None or not eq.same(v0, ini):
                    continue
                ok = True
                for b, v in list(zip(l.bodies, l.step[ph])) + [(b, ph) for b in l.skips]:
                    fails = self.chk.refine_body(self, l, b, lambda mm: fn(mm, V(mm, el, ty), ph), value=v)
                    if fails:
                        ok = False
                        break
                if ok:
                    return ph
        if self.mode == "panic":
            return T("efold", src)
        return T("efold", src, ini)

    def gather(self, src, fn, ty=""):
        """the collection that consists of fn(m, e) - an element, a (key, value) pair or None - for every e of src."""
        src = tm(src)
        eq = Eq(self.facts)
        if self.path is not None:
            seen = [self.path.final, self.path.ret] + [v for _, _, v, *_ in self.path.stores]
        else:
            seen = []
        seen += [t for t, _ in self.facts.trail]
        done = set()
        for v in seen:
            for x in subterms(v) if isinstance(v, (Term, tuple)) else ():
                if not isinstance(x, Term) or x.op not in ("collect", "from_iter") or x in done:
                    continue
                done.add(x)
                if not (x.args[0] is src or eq.same(x.args[0], src)):
                    continue
                e = models.elem_of(x.args[0])

                def row(mm, ev):
                    r = fn(mm, ev)
                    return None if r is None else agg("()", None, None, tuple(map(tm, r))) if isinstance(r, tuple) else tm(r)
                if not self.chk.rows(self, self.path, e, ty, x.args[1], row):
                    return x
        return T("egather", src)

    def act(self, name, *args):
        """the iteration appends this action to the promise being built."""
        self.exp_acts.append((name,) + args)

    def promise(self, recv, *acts, after=None, tags=None):
        p = ExpProm(tm(recv), acts, after, tg(tags) if tags else None)
        self.exp_prom.append(p)
        return p

    def call(self, recv, method, args=None, deposit=0, gas=None, after=None, tags=None):
        return self.promise(recv, ("function_call", method, args or {}, tm(deposit), gas), after=after, tags=tags)

    def listing(self, src, fn, ty="", lo=0, hi=None, ordered=True, tags=None):
        """the call returns fn(m, e) for exactly the elements e of src (of a keyed collection: its entries) with
        lo <= position < hi, in order."""
        src = tm(src)
        self.exp_list = (src, fn, ty, tm(lo), T("mlen", src) if hi is None else tm(hi), ordered, tg(tags) if tags else None)
        self.free_ret = False

    def ret(self, val, tags=None):
        self.exp_ret = (tm(val), tg(tags) if tags else None)
        self.free_ret = False


def tg(t):
    if t is None:
        return frozenset()
    if isinstance(t, str):
        return frozenset(t.split())
    return frozenset(t)


class Spec:
    """Clause sets of one crate."""

    def __init__(self, crate_name, root, layout, field_tags=None, variant="", new_export=""):
        self.new_export = tg(new_export)
        self.crate = crate_name; self.root = root; self.layout = layout
        self.field_tags = field_tags or {}
        self.entries = {}
        self.variant = variant
        self.unknown_tags = frozenset()
        self.axioms = None

    def entry(self, name, props, live=None):
        def deco(fn):
            self.entries[name] = (fn, tg(props), tg(live) | ({"X11"} if live else set()))
            return fn
        return deco


class Result:
    __slots__ = ("tags", "crate", "entry", "facet", "msg", "loc", "fn")

    def __init__(self, tags, crate, entry, facet, msg, loc, fn=""):
        self.tags = tags; self.crate = crate; self.entry = entry; self.facet = facet
        self.msg = msg; self.loc = loc; self.fn = fn

    @property
    def key(self):
        return "%s::%s|%s" % (self.crate, self.entry, self.facet)


INPUT_RE = ai.re.compile(r"struct\s+Input\s*\{")


def input_fields(cr, entry):
    """fields of the `Input` struct decoded by the exported entry."""
    pos = cr.exports[entry]
    rs = cr.rs
    try:
        o = rs.index("{", rs.index("(", pos))
        body = rs[o + 1:ai.M.match_close(rs, o)]
    except ValueError:
        return []
    m = INPUT_RE.search(body)
    if not m:
        return []
    b = body[m.end():ai.M.match_close(body, m.end() - 1)]
    fs = []
    for v in ai.M.split_top(ai.strip_attrs(b)):
        mm = ai.re.match(r"\s*(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:\s*(.*)$", v, ai.re.S)
        if mm:
            fs.append((mm.group(1), " ".join(mm.group(2).split())))
    return fs


ARITH = ("overflow:", "assert:", "index", "divide", "remainder")


def nothing(m):
    """an entry point without effects."""
    m.free_ret = True


class Check:
    """Decides the clause set of one entry point."""

    MAXREF = 400

    def __init__(self, spec, cr, entry, want=None, extra=False):
        self.spec = spec; self.cr = cr; self.entry = entry
        # an entry point that no clause set describes may have no effect at all
        self.fn, self.props, self.live = (nothing, spec.new_export, frozenset()) if extra else spec.entries[entry]
        self.guards = set()
        self.results = []
        self.count = {}
        self.npaths = 0; self.nrefined = 0; self.npanics = 0
        self.want = want
        self.seen = set()
        self.pmaps = {}; self.ploops = ()

    def type_of(self, t):
        """declared type of a value that is read from the state, the arguments or a stored collection."""
        if t is A("S"):
            return self.spec.root
        if t.op == "fld":
            o, var, i = t.args
            if o is A("ARG"):
                return self.inputs[i][1] if i < len(self.inputs) else ""
            ty = self.type_of(o)
            if var is not None:
                g = tgen(ty)
                return g[0] if var == "Some" and g else ""
            st = self.cr.structs.get(tbase(ty))
            return st[i][1] if st and isinstance(i, int) and i < len(st) else ""
        if t.op == "lookup" and t.args[0].op == "cont":
            g = tgen(self.type_of(t.args[0].args[0]))
            return "Option<%s>" % g[-1] if g else ""
        return ""

    def obl(self, tags):
        for t in tags:
            self.count[t] = self.count.get(t, 0) + 1

    def add(self, tags, facet, msg, loc):
        k = (tags, facet)
        if k in self.seen:
            return
        self.seen.add(k)
        self.results.append(Result(tags, self.cr.name, self.entry, facet, msg, loc))

    def run(self):
        self.t0 = time.process_time()
        try:
            s = summary(self.cr, self.entry)
        except (SpecError, ai.AnalysisError) as e:
            self.add(self.props | self.live, "anchor", str(e), "")
            return self
        self.s = s
        Eq.check = self
        self.inputs = input_fields(self.cr, self.entry)
        if not s.paths:
            self.add(self.props | self.live, "no-path", "no execution of %s can complete" % self.entry, "")
            return self
        for p in s.paths:
            self.npaths += 1
            self.refine(p, p.facts, "path")
            if self.enough():
                return self
        if self.npaths and not self.nrefined:
            self.add(self.props | self.live, "no-path",
                     "no execution of %s satisfies its own preconditions" % self.entry, "")
        if self.live:
            self.liveness(s)
        return self

    FOCUS = None            # (property under decision, start of the run, keys of known findings): set by check.py
    LIMIT = 780             # seconds after which a run that is still comparing gives up

    def enough(self):
        """a violation of the property under decision is established and the rest is taking long."""
        return self.FOCUS is not None and time.process_time() - self.t0 > 40 \
            and any(self.FOCUS[0] in r.tags and r.key not in self.FOCUS[2] for r in self.results)

    def refine(self, path, facts, mode, on_ok=None):
        work = [facts]
        n = 0
        while work:
            if n % 16 == 15 and self.FOCUS is not None:
                if self.enough():
                    return
                if time.time() - self.FOCUS[1] > self.LIMIT:
                    self.add(self.props | self.live, "budget", "the comparison did not finish in time", path.where() if path else "")
                    return
            f = work.pop()
            n += 1
            if n > self.MAXREF:
                self.add(self.props, "budget", "clause evaluation did not converge", path.where() if path else "")
                return
            f = f.propagated()
            if f is None:
                continue
            m = Ctx(self, f, mode, path)
            try:
                if self.spec.axioms:
                    self.spec.axioms(m)
                self.fn(m)
            except Split as sp:
                # restart from the facts of the path: what a failed guard assumed must not hide the failure
                for val in (True, False):
                    for g in f.assume(sp.cond, val, "case"):
                        if not g.infeasible():
                            work.append(g)
                continue
            except Infeasible:
                if m.fails and not m.facts.contradictory():
                    for x in m.fails:
                        self.add(*x)
                continue
            except SpecError as e:
                self.add(self.props | self.live, "anchor", str(e), path.where() if path else "")
                return
            if mode == "path":
                if m.facts.infeasible():
                    continue
                self.nrefined += 1
                try:
                    self.compare(m, path)
                except Split as sp:
                    for val in (True, False):
                        for g in f.assume(sp.cond, val, "case"):
                            if not g.infeasible():
                                work.append(g)
                    continue
                if m.fails and not m.facts.contradictory():
                    for x in m.fails:
                        self.add(*x)
            elif not m.facts.contradictory():
                on_ok(m)

    # ------------------------------------------------------------------ effects
    def ftags(self, names):
        """tags of a field path"""
        t = set()
        for i in range(len(names), 0, -1):
            k = ".".join(names[:i])
            if k in self.spec.field_tags:
                t |= tg(self.spec.field_tags[k])
                break
        return frozenset(t) or self.props

    def path_names(self, m, path):
        """((None,1),(None,5),...) -> ['lockup_information', ...]"""
        out = []
        ty = m.root
        for k in path:
            if not (isinstance(k, tuple) and len(k) == 2):
                break
            v, i = k
            if v is not None:
                g = tgen(ty)
                if v == "Some" and g:
                    ty = g[0]
                    continue
                out.append(str(v)); ty = ""
                continue
            st = self.cr.structs.get(tbase(ty))
            if st and i < len(st):
                out.append(st[i][0]); ty = st[i][1]
            else:
                out.append(str(i)); ty = ""
        return out

    def compare(self, m, p):
        eq = Eq(m.facts)
        cr = self.cr
        # ---- state
        exp = A("S")
        if m.news is not None:
            st = cr.structs.get(tbase(m.root))
            if not st:
                raise SpecError("no struct " + m.root)
            names = [x for x, _ in st]
            idx = {}
            for k in m.news:
                idx[m.field(m.root, k)[0]] = k
            if p.final is None:
                m.fail(m.news_tags or self.props, "effect:init", "does not write the initial state")
            else:
                for i, nm in enumerate(names):
                    self.obl((m.news_tags or frozenset()) | self.ftags([nm]))
                    if i not in idx:
                        if nm in m.free_fields:
                            continue
                        m.fail((m.news_tags or frozenset()) | self.ftags([nm]), "effect:" + nm, "unexpected state field " + nm)
                        continue
                    got = fld(p.final, None, i)
                    for d in eq.diffs(got, m.news[idx[i]]):
                        m.fail((m.news_tags or frozenset()) | self.ftags([idx[i]]), "effect:" + idx[i],
                               "initial %s is %s, expected %s" % (idx[i], show(got)[:200], show(m.news[idx[i]])[:200]),
                               p.locs.get("commit"))
                        break
        else:
            tags_of = {}
            for dotted, (val, tags) in m.fields.items():
                ty = m.root
                steps = []
                for nm in dotted.split("."):
                    if nm == "?":
                        g = tgen(ty); ty = g[0] if g else ""
                        steps.append(("Some", 0)); continue
                    i, ty = m.field(ty, nm)
                    steps.append((None, i))
                exp = set_path(exp, steps, val)
                tags_of[tuple(steps)] = (dotted, tags)
            got = p.final if p.final is not None else A("S")
            for t in {x for d, tags in tags_of.values() for x in (tags or self.ftags(d.replace("?.", "").split(".")))}:
                self.obl((t,))
            self.obl(self.props)
            for path, x, y in eq.diffs(got, exp):
                names = self.path_names(m, path)
                if any(".".join(names[:i]) in m.free_fields for i in range(1, len(names) + 1)):
                    continue
                hit = None
                for steps, (dotted, tags) in tags_of.items():
                    if path[:len(steps)] == steps or steps[:len(path)] == path:
                        hit = (dotted, tags); break
                nm = ".".join(names)
                if hit:
                    tags = hit[1] or self.ftags(names)
                    if p.final is None:
                        msg = "state change is never committed (%s should become %s)" % (nm, show(y)[:200])
                    else:
                        msg = "%s becomes %s, expected %s" % (nm, show(x)[:240], show(y)[:240])
                else:
                    tags = self.ftags(names) | self.props
                    msg = "%s changes to %s but must stay %s" % (nm, show(x)[:200], show(y)[:200])
                m.fail(tags, "effect:" + (nm or "state"), msg, p.locs.get("commit"))
        # ---- persistent collections
        act = p.final_stores(eq)
        act = [a for a in act if not self.coll_free(m, a[0])]
        for c, k, v, tags in m.exp_store:
            self.obl(tags or self.props)
            hit = None
            for a in act:
                if eq.same(a[0], c) and a[1] is not None and eq.same(a[1], k):
                    hit = a; break
            nm = self.coll_name(m, c)
            if hit is None:
                if v[0] == "del":
                    lk = mlookup(m.content(c), k)
                    if m.facts.quick(is_(lk, "Option", "Some")) is False:
                        continue
                else:
                    lk = mlookup(m.content(c), k)
                    if m.facts.quick(is_(lk, "Option", "Some")) is True and (v[1] is UNIT or eq.same(fld(lk, "Some", 0), v[1])):
                        continue
                m.fail(tags or self.props, "effect:" + nm, "%s[%s] is not %s" % (
                    nm, show(k)[:80], "removed" if v[0] == "del" else "set to " + show(v[1])[:200]))
                continue
            act.remove(hit)
            if hit[2][0] != v[0]:
                m.fail(tags or self.props, "effect:" + nm, "%s[%s]: %s instead of %s" % (
                    nm, show(k)[:80], hit[2][0], v[0]), hit[3])
            elif v[0] == "put":
                for path, x, y in eq.diffs(hit[2][1], v[1]):
                    m.fail(tags or self.props, "effect:" + nm, "%s[%s] is set to %s, expected %s" % (
                        nm, show(k)[:60], show(x)[:240], show(y)[:240]), hit[3])
                    break
        for a in act:
            nm = self.coll_name(m, a[0])
            m.fail(self.props | tg(self.spec.field_tags.get(nm, "")), "effect:" + nm,
                   "unexpected %s of %s[%s]" % (a[2][0], nm, show(a[1])[:80] if a[1] is not None else ""), a[3])
        # ---- host functions outside the modelled interface
        if self.spec.root:
            for x in p.sys:
                m.fail(self.props, "effect:host", "calls the host function %s directly" % x[1], x[3])
        # ---- loops with effects
        if not m.loop_ok:
            mine = [x for l, _, _, _, _ in m.exp_loops for x in (l.parts or [l])]
            for l, el, fn, ty, tags in m.exp_loops:
                self.obl(tags or self.props)
                for b in list(l.bodies) + list(l.skips):
                    for x in self.refine_body(m, l, b, lambda mm: fn(mm, V(mm, el, ty))):
                        m.fails.append(x)
            for l in p.loops:
                if l in mine:
                    continue
                if self.loop_effects(l, p):
                    m.fail(self.props, "effect:loop", "a loop performs effects this entry point must not have", l.loc)
                    break
        # ---- promises
        if not m.free_proms:
            self.proms(m, p, eq)
        # ---- return value
        if m.exp_list is not None:
            self.listing(m, p, eq)
        if m.exp_ret is not None:
            val, tags = m.exp_ret
            self.obl(tags or self.props)
            got = p.ret
            if got is not None and got.op in ("json", "borsh"):
                got = got.args[0]
            got, val = strip_pov(got), strip_pov(val)
            if got is None:
                if val is not UNIT:
                    m.fail(tags or self.props, "return", "returns nothing, expected %s" % show(val)[:200])
            else:
                for path, x, y in eq.diffs(got, val):
                    m.fail(tags or self.props, "return", "returns %s, expected %s" % (show(x)[:240], show(y)[:240]),
                           p.locs.get("return"))
                    break

    @staticmethod
    def list_view(t):
        """(collection, first position, end position, reversed, generic index, cases) of a list-valued term."""
        cases = None
        while t.op in ("json", "borsh", "iter"):
            t = t.args[0]
        if t.op in ("collect", "from_iter"):
            t, cases = t.args[0], t.args[1]
        parts = []
        while True:
            if t.op in ("take_it", "skip_it", "rev_it"):
                parts.append(t); t = t.args[0]
            elif t.op == "iter":
                t = t.args[0]
            else:
                break
        rev = any(x.op == "rev_it" for x in parts)
        idx = None
        lo, hi = I(0), None
        if t.op == "agg" and t.args[0] in ("Range", "RangeInclusive"):
            idx = models.elem_of(t)
            lo, hi = t.args[3][0], t.args[3][1] if t.args[0] == "Range" else add(t.args[3][1], I(1))
            if cases is None:
                cases = (((), idx),)
            colls = {x.args[0] for c, v in cases for z in tuple(c) + ((v,) if v is not None else ()) for x in subterms(z)
                     if isinstance(x, Term) and x.op in ("lookup", "idx", "vget") and x.args[1] is idx}
            bases = set()
            for c in colls:
                while c.op in ("keys", "values", "cont") and isinstance(c.args[0], Term) and (
                        c.op != "cont" or c.args[0].op in ("keys", "values")):
                    c = c.args[0]
                bases.add(c)
            if len(bases) != 1:
                return None
            base = bases.pop()
            e = models.elem_of(base)
            rep = {}
            for c in colls:
                o = c.args[0] if c.op == "cont" else c
                v = fld(e, None, 0) if o.op == "keys" else fld(e, None, 1) if o.op == "values" else e
                rep[fld(T("lookup", c, idx), "Some", 0)] = v
                rep[fld(T("vget", c, idx), "Some", 0)] = v
                rep[T("idx", c, idx)] = v
                rep[is_(T("lookup", c, idx), "Option", "Some")] = B(True)
                rep[is_(T("vget", c, idx), "Option", "Some")] = B(True)
            cases = tuple((tuple(replace(x, rep) for x in c), replace(v, rep) if v is not None else None) for c, v in cases)
            t = base
        else:
            proj = None
            if t.op in ("keys", "values", "entries"):
                proj, t = t.op, t.args[0]
            e = models.elem_of(t)
            if cases is None:
                cases = (((), fld(e, None, 0) if proj == "keys" else fld(e, None, 1) if proj == "values" else e),)
        # the length of what backs a keyed collection is that of the collection
        for x in reversed(parts):
            if x.op == "skip_it":
                lo = add(lo, x.args[1])
            elif x.op == "take_it":
                h = add(lo, x.args[1])
                hi = h if hi is None else tmin(hi, h)
            elif len(parts) > 1:
                return None
        return t, lo, hi, rev, idx, cases

    def listing(self, m, p, eq):
        src, fn, ty, lo, hi, ordered, tags = m.exp_list
        tags = tags or self.props
        self.obl(tags)
        loc = p.locs.get("return")
        lv = self.list_view(p.ret) if p.ret is not None else None
        if lv is None:
            return m.fail(tags, "return", "returns %s, expected a list over %s" % (show(p.ret)[:200], show(src)[:100]), loc)
        base, glo, ghi, rev, idx, cases = lv
        if base.op == "agg" and base.args[0] == "[]" and not base.args[3]:
            # an empty list
            if m.facts.entails(le(hi, lo)) is not True and not eq.same_num(T("mlen", src), I(0)):
                m.fail(tags, "return", "returns an empty list although the range may not be empty", loc)
            return
        if not eq.same(base, src):
            return m.fail(tags, "return", "lists %s, expected %s" % (show(base)[:120], show(src)[:120]), loc)
        n = T("mlen", src)
        clip = lambda h: n if h is None else tmin(h, n)
        if ordered and rev:
            m.fail(tags, "return", "lists the elements in reverse order", loc)
        if not self.same_range(m, eq, glo, clip(ghi), lo, clip(hi)):
            m.fail(tags, "return", "lists positions %s..%s, expected %s..%s" % (
                show(glo)[:80], show(clip(ghi))[:120], show(lo)[:80], show(clip(hi))[:120]), loc)
        bad = self.rows(m, p, models.elem_of(base), ty, cases, fn,
                        base if base.op == "cont" or base.op in ("mput", "mdel") else None)
        if bad:
            m.fail(tags, "return", bad, loc)

    def rows(self, m, p, e, ty, cases, fn, keyed=None):
        """what is wrong with the elements (conditions, value or None) made from the generic element e; None if nothing."""
        k, v = fld(e, None, 0), fld(e, None, 1)
        lk = T("lookup", keyed, k) if keyed else None
        for conds, val in cases:
            fs = [m.facts]
            for c in conds:
                fs = [g for f in fs for g in f.assume(c, True, "case")]
            work = [f for f in fs if not f.infeasible()]
            cnt = 0
            while work:
                f = work.pop()
                cnt += 1
                if cnt > self.MAXREF:
                    return "the listing did not converge"
                mm = Ctx(self, f, "path", p)
                try:
                    if keyed:
                        # the entries of a keyed collection are its lookups
                        gs = [g for g in f.assume(is_(lk, "Option", "Some"), True, "axiom") if not g.infeasible()]
                        if not gs:
                            continue
                        mm.facts = gs[0]
                    want = fn(mm, V(mm, e, ty))
                    if mm.facts.infeasible():
                        continue
                    self.nrefined += 1
                    if want is None or val is None:
                        if val is not None:
                            return "has an element that must be left out"
                        if want is not None:
                            return "leaves out some of the elements"
                        continue
                    want = tm(want)
                    q = Eq(mm.facts)
                    rep = {v: fld(lk, "Some", 0)} if keyed else {}
                    for path, x, y in q.diffs(replace(val, rep), replace(want, rep)):
                        return "lists %s, expected %s" % (show(x)[:240], show(y)[:240])
                except Split as sp:
                    for b in (True, False):
                        work += [g for g in mm.facts.assume(sp.cond, b, "case") if not g.infeasible()]
                except Infeasible:
                    pass
        return None

    @staticmethod
    def same_range(m, eq, a0, a1, b0, b1):
        """the same positions, or both empty."""
        if eq.same_num(a0, b0) and eq.same_num(a1, b1):
            return True
        for f in m.facts.assume(lt(a0, a1), True, "case"):
            if not f.infeasible() and not (Eq(f).same_num(a0, b0) and Eq(f).same_num(a1, b1)):
                return False
        for f in m.facts.assume(lt(b0, b1), True, "case"):
            if not f.infeasible() and not (Eq(f).same_num(a0, b0) and Eq(f).same_num(a1, b1)):
                return False
        return True

    def refine_body(self, parent, rec, st, fn, value=None):
        """check one generic iteration of a loop against fn; returns the failures."""
        path = Path(st, -1, rec.entry)
        work = [st.facts]
        n = 0
        fails = []
        while work:
            f = work.pop()
            n += 1
            if n > self.MAXREF:
                return [(self.props, "budget", "clause evaluation did not converge", "")]
            m = Ctx(self, f, "path", path)
            m.body = rec
            try:
                if self.spec.axioms:
                    self.spec.axioms(m)
                r = fn(m)
            except Split as sp:
                for val in (True, False):
                    work += [g for g in f.assume(sp.cond, val, "case") if not g.infeasible()]
                continue
            except Infeasible:
                fails += m.fails
                continue
            if m.facts.infeasible():
                continue
            self.nrefined += 1
            try:
                eq = Eq(m.facts)
                if value is not None:
                    if not eq.same(value, tm(r)):
                        return [(self.props, "fold", "accumulates %s, expected %s" % (show(value)[:200], show(tm(r))[:200]), "")]
                    continue
                self.compare(m, path)
                exp = m.exp_acts
                got = path.acts[0][1] if path.acts else ()
                if len(path.acts) > 1:
                    m.fail(self.props, "loop:promises", "extends more than one promise")
                why = self.amatch(exp, got, eq)
                if why:
                    m.fail(self.props, "action:" + "+".join(e[0] for e in exp), "an iteration appends %s : %s" % (
                        ["%s(%s)" % (a[0], ", ".join(show(x)[:80] for x in a[1])) for a in got], "; ".join(why)[:300]),
                        got[0][2] if got else None)
            except Split as sp:
                for val in (True, False):
                    work += [g for g in f.assume(sp.cond, val, "case") if not g.infeasible()]
                continue
            fails += m.fails
        return fails

    def coll_free(self, m, c):
        return self.coll_name(m, c) in m.free_stores

    def coll_name(self, m, c):
        if c.op == "fld" and c.args[0] is A("S"):
            st = self.cr.structs.get(tbase(m.root))
            if st and c.args[2] < len(st):
                return st[c.args[2]][0]
        return show(c)[:60]

    @staticmethod
    def loop_effects(l, p):
        base = l.entry
        for s in l.bodies:
            if len(s.eff) > len(base.eff):
                ex = [e for e in s.eff[len(base.eff):] if not (e[0] in ("put", "del", "clear") and e[1].op == "place")
                      and e[0] != "loop"]
                if ex:
                    return True
                for e in s.eff[len(base.eff):]:
                    if e[0] == "loop" and Check.loop_effects(e[1], p):
                        return True
            if s.nprom != base.nprom or s.prom != base.prom:
                return True
        return False

    def proms(self, m, p, eq):
        act = list(p.proms)
        match = {}
        for e in m.exp_prom:
            tags = e.tags or self.props
            self.obl(tags)
            best = None
            for a in act:
                why = self.pmatch(e, a, eq, match)
                if not why:
                    best = (a, None); break
                if best is None or len(why) < len(best[1]):
                    best = (a, why)
            if best is None:
                m.fail(tags, "promise:" + self.pname(e), "does not schedule %s" % self.pdesc(e))
                continue
            a, why = best
            if why:
                m.fail(tags, "promise:" + self.pname(e), "schedules %s : %s" % (str(a)[:300], "; ".join(why)[:400]),
                       a.acts[0][2] if a.acts and len(a.acts[0]) > 2 else None)
            act.remove(a)
            match[id(e)] = a
        for a in act:
            m.fail(self.props, "promise:extra", "schedules an unexpected action: %s" % str(a)[:300],
                   a.acts[0][2] if a.acts and len(a.acts[0]) > 2 else None)

    @staticmethod
    def pname(e):
        return "+".join(a[1] if a[0] == "function_call" and isinstance(a[1], str) else a[0] for a in e.acts)

    def pdesc(self, e):
        return "%s.%s" % (show(e.recv)[:80], self.pname(e))

    def pmatch(self, e, a, eq, match):
        why = []
        if not eq.same(a.recv, e.recv):
            why.append("receiver is %s, expected %s" % (show(a.recv)[:120], show(e.recv)[:120]))
        why += self.amatch(e.acts, a.acts, eq)
        want = match.get(id(e.after)).pid if e.after is not None and match.get(id(e.after)) else None
        if e.after is None:
            if a.after is not None:
                why.append("is chained after another promise")
        elif a.after is None or a.after != want:
            why.append("is not chained after %s" % self.pname(e.after))
        return why

    def amatch(self, exp, got, eq):
        why = []
        exp, got = settled(exp), settled(got)
        if len(got) != len(exp):
            why.append("%d actions, expected %d" % (len(got), len(exp)))
            return why + ["?"] * 5
        for x, y in zip(got, exp):
            if x[0] != y[0]:
                why.append("action %s, expected %s" % (x[0], y[0])); why += ["?"] * 5
                continue
            if y[0] == "function_call" and len(y) == 5 and (isinstance(y[2], dict) or y[4] is None):
                meth, args, dep, gas = x[1][:4]
                if not eq.same(meth, tm(y[1])):
                    why.append("method %s, expected %s" % (show(meth), show(tm(y[1])))); why += ["?"] * 3
                if isinstance(y[2], dict):
                    ad = args_dict(args)
                    for k in sorted(set(ad) | set(y[2])):
                        if k not in ad:
                            why.append("argument %s is missing" % k)
                        elif k not in y[2]:
                            why.append("unexpected argument %s" % k)
                        elif not eq.same(ad[k], tm(y[2][k])):
                            why.append("argument %s is %s, expected %s" % (k, show(ad[k])[:160], show(tm(y[2][k]))[:160]))
                elif y[2] is not None and not eq.same(args, tm(y[2])):
                    why.append("arguments are %s, expected %s" % (show(args)[:160], show(tm(y[2]))[:160]))
                if not eq.same(dep, tm(y[3])):
                    why.append("attaches %s, expected %s" % (show(dep)[:160], show(tm(y[3]))[:160]))
                if y[4] is not None and not eq.same(gas, tm(y[4])):
                    why.append("gas %s, expected %s" % (show(gas)[:80], show(tm(y[4]))[:80]))
            else:
                for i, ev in enumerate(y[1:]):
                    if ev is None:
                        continue
                    if i >= len(x[1]) or not eq.same(x[1][i], tm(ev)):
                        why.append("%s argument %d is %s, expected %s" % (
                            x[0], i, show(x[1][i])[:160] if i < len(x[1]) else "missing", show(tm(ev))[:160]))
        return why

    # ------------------------------------------------------------------ progress
    def liveness(self, s):
        done = set()
        for why, loc, trail, stack, eff, quiet, maps in s.panics:
            if why.startswith(ARITH) or quiet or "decode_error(input)" in why or "convert_error(" in why:
                continue        # arithmetic aborts; malformed call arguments
            if any(sum_overflows(t) for t, _ in trail):
                continue        # a checked addition gave up exactly where the plain one aborts
            f = Facts()
            ok = True
            for t, l in trail:
                r = f._assume(t, l)
                if len(r) != 1:
                    ok = False; break
                f = r[0]
            if not ok:
                continue
            self.npanics += 1
            self.obl(self.live)
            key = (why, loc, tuple(t.id for t, _ in trail))
            if key in done:
                continue
            done.add(key)
            site = stack[-1] if stack else ""
            ok0 = is_(T("presult", I(0)), "PromiseResult", "Successful")
            facet = "rejects:after the remote call failed" if f.entails(no(ok0)) is True \
                else "rejects:" + ai.short_name(site) + ":" + why[:60]

            def hit(m, why=why, loc=loc, facet=facet, site=site):
                self.add(self.live, facet, "rejects a call it must accept (%s in %s)" % (why, ai.short_name(site)), loc)
            self.pmaps = {c: phi_of(t) for c, t in maps.items()}
            self.ploops = [e[1] for e in eff if e[0] == "loop"]
            self.refine(None, f, "panic", hit)


def settled(acts):
    """an account's funding and its code may be put in place in either order before anything runs there."""
    out = list(acts)
    for i in range(len(out) - 1):
        if out[i][0] == "deploy_contract" and out[i + 1][0] == "transfer":
            out[i], out[i + 1] = out[i + 1], out[i]
    return out


def sum_overflows(t):
    """the condition `a + b + .. > MAX` of an integer type, without products."""
    if t.op != "le0":
        return False
    p = poly(t.args[0])
    return any(w - 65536 <= p.get((), 0) <= w for w in WIDTHS) and all(len(m) == 1 and c < 0 for m, c in p.items() if m)


WIDTHS = {1 << k for k in (32, 64, 128, 256)}


def strip_pov(t):
    if isinstance(t, Term) and t.op == "agg" and t.args[:2] == ("PromiseOrValue", "Value"):
        return t.args[3][0]
    return t


def phi_of(t):
    """content at the start of the iteration in which the value t was computed."""
    x = t
    while x.op in ("mput", "mdel"):
        x = x.args[0]
    return x if x.op == "phi" else t


def set_path(t, steps, val):
    if not steps:
        return val
    v, i = steps[0]
    inner = set_path(fld(t, v, i), steps[1:], val)
    return setfld(t, v, i, inner)
