"""Path facts: what is known to hold on a set of executions, with cheap (dataflow-time) and
complete-for-linear (rule-time) entailment."""
from terms import *

NUMERIC_OPS = {"le0", "eq0"}


class Facts:
    """Conjunction of facts.  Copy on write."""
    __slots__ = ("bound", "var", "tf", "ne", "trail")

    def __init__(self):
        self.bound = {}   # frozenset of (mono, coeff) -> max constant c  (linear form <= c)
        self.var = {}     # term -> ('=', variant) | ('!', frozenset(variants))
        self.tf = {}      # atom -> bool
        self.ne = ()      # polynomials (Term) known != 0
        self.trail = ()   # (bool term, loc)

    def copy(self):
        f = Facts.__new__(Facts)
        f.bound = dict(self.bound); f.var = dict(self.var); f.tf = dict(self.tf)
        f.ne = self.ne; f.trail = self.trail
        return f

    # -------------------------------------------------- quick queries
    def quick(self, t):
        """True / False / None."""
        o = t.op
        if o == "b":
            return t.args[0]
        if o == "not":
            r = self.quick(t.args[0])
            return None if r is None else not r
        if o == "is":
            return self._var(t.args[0], t.args[1])
        if o == "le0":
            return self._le(poly(t.args[0]))
        if o == "eq0":
            p = poly(t.args[0])
            a = self._le(p)
            if a is False: return False
            n = {m: -c for m, c in p.items()}
            b = self._le(n)
            if b is False: return False
            if a and b: return True
            if t.args[0] in self.ne: return False
            return None
        if o == "and":
            rs = [self.quick(x) for x in t.args]
            if any(r is False for r in rs): return False
            if all(r is True for r in rs): return True
            return None
        if o == "or":
            rs = [self.quick(x) for x in t.args]
            if any(r is True for r in rs): return True
            if all(r is False for r in rs): return False
            return None
        return self.tf.get(t)

    def _var(self, t, v):
        while t.op == "upd":
            t = t.args[0]
        if t.op == "agg":
            return t.args[1] == v
        k = self.var.get(t)
        if k is None:
            return None
        if k[0] == "=":
            return k[1] == v
        return False if v in k[1] else None

    def variant(self, t):
        while t.op == "upd":
            t = t.args[0]
        if t.op == "agg":
            return t.args[1]
        k = self.var.get(t)
        return k[1] if k and k[0] == "=" else None

    @staticmethod
    def _key(p):
        return frozenset((m, c) for m, c in p.items() if m != ())

    def _le(self, p):
        """is p <= 0 known?"""
        k = p.get((), 0)
        key = self._key(p)
        if not key:
            return k <= 0
        b = self.bound.get(key)
        if b is not None and b + k <= 0:
            return True
        if k <= 0 and all(c < 0 for _, c in key):
            return True
        neg = frozenset((m, -c) for m, c in key)
        nb = self.bound.get(neg)          # -q <= nb  =>  q >= -nb
        lo = None
        if nb is not None:
            lo = -nb
        if all(c > 0 for _, c in key):
            lo = 0 if lo is None else max(lo, 0)
        if lo is not None and lo + k > 0:
            return False
        return None

    # -------------------------------------------------- assume (returns list of Facts)
    def assume(self, t, val, loc=""):
        if not val:
            t = tnot(t) if t.op in ("b", "not", "le0") else T("not", t)
        out = self._assume(t, loc)
        return out

    def _with(self, t, loc):
        f = self.copy()
        f.trail = self.trail + ((t, loc),)
        return f

    def _assume(self, t, loc):
        q = self.quick(t)
        if q is True:
            return [self]
        if q is False:
            return []
        o = t.op
        if o in ("eq", "eq0"):
            import models
            x = models.contains_term(t)          # an element that equals x: x is among the elements
            if x is not None:
                return [g for f in self._assume(x, loc) for g in f._assume1(t, loc)]
        return self._assume1(t, loc)

    def _assume1(self, t, loc):
        o = t.op
        if o == "and":
            cur = [self]
            for x in t.args:
                cur = [g for f in cur for g in f._assume(x, loc)]
            return cur
        if o == "or":
            res, pre = [], [self]
            for x in t.args:
                for f in pre:
                    res.extend(f._assume(x, loc))
                pre = [g for f in pre for g in f._assume(tnot(x) if x.op in ("b", "not", "le0") else T("not", x), loc)]
            return res
        if o == "not":
            x = t.args[0]
            if x.op == "and":
                return self._assume(tor(*[tnot(y) for y in x.args]), loc)
            if x.op == "or":
                return self._assume(tand(*[tnot(y) for y in x.args]), loc)
            if x.op == "not":
                return self._assume(x.args[0], loc)
            if x.op == "le0":
                return self._assume(tnot(x), loc)
            if x.op == "is":
                f = self._with(t, loc)
                k = f.var.get(x.args[0])
                s = k[1] if k else frozenset()
                f.var[x.args[0]] = ("!", s | {x.args[1]})
                g = close_variant(f, x.args[0], x.args[2])
                return [f] if g else []
            if x.op == "eq0":
                p = x.args[0]
                pp = poly(p)
                # an unsigned quantity != 0 is >= 1 ; p>=lo and p!=lo
                f = self._with(t, loc)
                f.ne = f.ne + (p,)
                f._sharpen(p)
                return [f]
            f = self._with(t, loc)
            f.tf[x] = False
            return [f]
        if o == "is":
            f = self._with(t, loc)
            f.var[t.args[0]] = ("=", t.args[1])
            return [f]
        if o == "le0":
            f = self._with(t, loc)
            if not f._add_le(poly(t.args[0])):
                return []
            return [f]
        if o == "eq0":
            f = self._with(t, loc)
            p = poly(t.args[0])
            if not f._add_le(p) or not f._add_le({m: -c for m, c in p.items()}):
                return []
            return [f]
        f = self._with(t, loc)
        f.tf[t] = True
        return [f]

    def _sharpen(self, p):
        pp = poly(p)
        for sgn in (1, -1):
            q = {m: sgn * c for m, c in pp.items()}
            # q <= 0 known and q != 0  =>  q <= -1
            if self._le(q) is True:
                self._add_le(padd(q, {(): 1}))

    def _add_le(self, p):
        k = p.get((), 0)
        key = self._key(p)
        if not key:
            return k <= 0
        b = self.bound.get(key)
        if b is None or -k < b:
            self.bound[key] = -k
            b = -k
        neg = frozenset((m, -c) for m, c in key)
        nb = self.bound.get(neg)
        if nb is not None and b + nb < 0:
            return False
        if nb is not None and b + nb == 0:
            for n in self.ne:
                kn = self._key(poly(n))
                if kn == key and poly(n).get((), 0) == -b: return False
                if kn == neg and poly(n).get((), 0) == b: return False
        for n in self.ne:
            kn = self._key(poly(n))
            if kn == key or kn == neg:
                c0 = poly(n).get((), 0)      # form + c0 != 0
                lim = -c0 if kn == key else c0
                if lim == b:
                    b -= 1
                    self.bound[key] = b
                    if nb is not None and b + nb < 0:
                        return False
        if all(c > 0 for _, c in key):
            if b < 0:
                return False
            if b == 0 and len(key) > 1:      # a sum of unsigned terms that is 0: every term is
                return all(self._add_le({m: 1}) for m, _ in key)
        return True

    def consts(self, plain=False):
        """derived quantities (quotients, minima, ...) - or, if `plain`, any - that the bounds pin to one value."""
        out = {}
        for key, b in self.bound.items():
            if len(key) != 1:
                continue
            (m, c), = key
            if len(m) != 1 or c != 1 or not plain and m[0].op not in ("div", "satsub", "min", "max"):
                continue
            nb = self.bound.get(frozenset(((m, -1),)))
            if b == (0 if nb is None else max(0, -nb)):
                out[m[0]] = I(b)
        return out

    def propagated(self, plain=False):
        """these facts together with what they say once pinned quantities are replaced by their values."""
        c = self.consts(plain)
        if not c:
            return self
        fs = [self]
        for t, l in self.trail:
            # a pinned quantity keeps the fact that pins it, rewritten inside
            top = {x: rebuild(x, c) for x in c if x in TOP(t)}
            u = replace(t, {k: top.get(k, v) for k, v in c.items()})
            if u is t:
                continue
            nxt = []
            for f in fs:
                nxt += f._assume(u, l)
            if len(nxt) != 1:
                return self if nxt else None
            fs = nxt
        return fs[0]

    def resolver(self, terms=()):
        """minima, maxima and saturating differences that these facts decide -> what they amount to."""
        seen = set()
        for t, _ in self.trail:
            subterms(t, seen)
        for t in terms:
            subterms(t, seen)
        m = {}
        f = self
        for x in sorted((x for x in seen if x.op in ("min", "max", "satsub")), key=lambda t: t.id):
            y = f_rebuild(x, m) if m else x
            z = y
            for _ in range(4):
                if z.op not in ("min", "max", "satsub"):
                    break
                a, b = z.args
                if f.entails(le(a, b)) is True:
                    w = {"min": a, "max": b, "satsub": I(0)}[z.op]
                elif f.entails(le(b, a)) is True:
                    w = {"min": b, "max": a, "satsub": sub(a, b)}[z.op]
                else:
                    break
                z = w
            if z is not x:
                m[x] = z
        return m

    def resolved(self, *terms):
        """([facts with decided minima etc. replaced], [terms likewise]); no facts at all: contradictory."""
        fs, m = self, {}
        for _ in range(2):
            m = fs.resolver(terms)
            if not m:
                break
            cur = [fs]
            old = {t for t, _ in fs.trail}
            for t, l in fs.trail:
                u = replace(t, {k: v for k, v in m.items()})
                if u is t or u in old:
                    continue
                nxt = []
                for f in cur:
                    nxt += f._assume(u, l)
                if not nxt:
                    return None, [replace(t, m) for t in terms]
                if len(nxt) > 1:
                    continue
                cur = nxt
            terms = [replace(t, m) for t in terms]
            if cur[0] is fs:
                break
            fs = cur[0]
        return fs, list(terms)

    def contradictory(self):
        f, _ = self.resolved()
        if f is None or f is not self and f.infeasible():
            return True
        g = f.propagated(True)
        return g is None or g is not f and g.infeasible()

    def shows(self, t):
        """entails, with decided minima, maxima and saturating differences replaced first."""
        if self.entails(t) is True:
            return True
        f, (u,) = self.resolved(t)
        if f is None or (f is not self or u is not t) and f.entails(u) is True:
            return True
        c = f.consts(True)
        w = replace(u, c) if c else u
        if w is u:
            return False
        f = f.propagated(True)
        return f is None or f.entails(w) is True

    # -------------------------------------------------- full entailment
    def constraints(self):
        out = []
        for key, c in self.bound.items():
            p = dict(key)
            if c:
                p[()] = -c
            out.append(p)
        return out

    def case_atoms(self, polys):
        """sat_sub/min/max/div/rem atoms occurring (transitively) in the given polynomials."""
        seen, out, st = set(), [], []
        for p in polys:
            for m in p:
                st.extend(m)
        while st:
            a = st.pop()
            if a in seen:
                continue
            seen.add(a)
            if a.op in ("satsub", "min", "max", "div", "rem"):
                out.append(a)
                for x in a.args:
                    for m in poly(x):
                        st.extend(m)
        return out

    def relevant(self, goal):
        """constraints sharing monomial atoms (transitively) with the goal."""
        cons = self.constraints()
        for n in self.ne:
            pass
        atoms = set()
        for p in goal:
            for m in p: atoms.update(m)
        todo = list(cons); used = []
        changed = True
        ext = {}
        while changed:
            changed = False
            for a in self.case_atoms([{(x,): 1} for x in atoms]):
                if a not in ext:
                    ext[a] = 1
                    for x in a.args:
                        for m in poly(x):
                            for y in m:
                                if y not in atoms:
                                    atoms.add(y); changed = True
                    if a not in atoms:
                        atoms.add(a); changed = True
            rest = []
            for p in todo:
                if any(x in atoms for m in p for x in m) or any(
                        y in atoms for a in self.case_atoms([p]) for x in a.args for m in poly(x) for y in m):
                    used.append(p)
                    for m in p:
                        for x in m:
                            if x not in atoms:
                                atoms.add(x)
                    changed = True
                else:
                    rest.append(p)
            todo = rest
        return used, list(ext)

    def _refute(self, cons, cases):
        """True when cons (with definitions of the case atoms) is empty."""
        base = list(cons)
        split = []
        for a in sorted(cases, key=lambda t: t.id):
            x, y = a.args
            px, py, pa = poly(x), poly(y), {(a,): 1}
            if a.op == "div":
                # a*y <= x  and  x <= a*y + y - 1   (y >= 1, otherwise the code panics)
                ay = pmul(pa, py)
                base.append(padd(ay, px, -1))
                base.append(padd(padd(px, ay, -1), padd({(): 1}, py, -1)))
                base.append(padd({(): 1}, py, -1))
                if y.op != "i":
                    base.append(padd(pa, px, -1))       # a <= x since y>=1
            elif a.op == "rem":
                base.append(padd(padd(pa, py, -1), {(): 1}))
                base.append(padd(pa, px, -1))
            elif a.op == "satsub":
                # a>=x-y ; a<=x when x>=0 ; (x>=y & a=x-y) or (x<y & a=0)
                d = padd(px, py, -1)
                eq = padd(pa, d, -1)
                split.append(([padd(py, px, -1), eq, neg(eq)],
                              [padd(d, {(): 1}), dict(pa)]))
            elif a.op == "min":
                e1, e2 = padd(pa, px, -1), padd(pa, py, -1)
                split.append(([padd(px, py, -1), e1, neg(e1)], [padd(padd(py, px, -1), {(): 1}), e2, neg(e2)]))
            elif a.op == "max":
                e1, e2 = padd(pa, px, -1), padd(pa, py, -1)
                split.append(([padd(py, px, -1), e1, neg(e1)], [padd(padd(px, py, -1), {(): 1}), e2, neg(e2)]))
        if len(split) > 10:
            split = split[:10]

        def go(cs, i):
            if not feasible(cs):
                return True
            if i == len(split):
                return False
            return all(go(cs + s, i + 1) for s in split[i])
        return go(base, 0)

    def infeasible(self):
        goal = [dict(k) for k in self.bound]
        used, cases = self.relevant(goal)
        return self._refute(used, cases)

    def entails_le(self, p):
        """p <= 0 ?"""
        if self._le(p) is True:
            return True
        ng = padd({m: -c for m, c in p.items()}, {(): 1})      # p >= 1
        used, cases = self.relevant([p])
        # multiply helpful products: constraints times atoms appearing in nonlinear goal monomials
        cons = used + [ng]
        if self._refute(cons, cases):
            return True
        extra = self._products(used, p, cases)
        if extra and self._refute(cons + extra, cases):
            return True
        # disequalities q != 0: try both sides for those touching the goal
        for n in self.ne[-6:]:
            q = poly(n)
            if not any(x in {y for m in p for y in m} for m in q for x in m):
                continue
            lo = padd(q, {(): 1}); hi = padd({m: -c for m, c in q.items()}, {(): 1})
            if self._refute(cons + [lo], cases) and self._refute(cons + [hi], cases):
                return True
        return False

    def _products(self, used, p, cases):
        """Consequences of a known linear inequality multiplied by a non-negative atom (q<=0, x>=0 |- q*x<=0)."""
        monos = [m for m in p if len(m) >= 2]
        for a in cases:
            for x in a.args:
                monos.extend(m for m in poly(x) if len(m) >= 2)
            if a.op == "div":
                monos.extend(m for m in pmul({(a,): 1}, poly(a.args[1])) if len(m) >= 2)
        at = sorted({x for m in monos for x in m}, key=lambda t: t.id)[:8]
        out = []
        for c in used:
            if any(len(m) > 1 for m in c):
                continue
            for x in at:
                if any(tuple(sorted(m + (x,), key=lambda t: t.id)) in monos for m in c if m != ()):
                    out.append(pmul(c, {(x,): 1}))
        return out[:60]

    def entails(self, t, depth=0):
        q = self.quick(t)
        if q is not None:
            return q
        o = t.op
        if o == "and":
            return all(self.entails(x, depth) for x in t.args)
        if o == "or":
            if any(self.entails(x, depth) for x in t.args):
                return True
            if depth < 3:
                # by refutation of the last disjuncts
                fs = [self]
                for x in t.args[:-1]:
                    fs = [g for f in fs for g in f._assume(tnot(x), "")]
                return all(f.infeasible() or f.entails(t.args[-1], depth + 1) for f in fs)
            return False
        if o == "le0":
            return self.entails_le(poly(t.args[0]))
        if o == "eq0":
            p = poly(t.args[0])
            return self.entails_le(p) and self.entails_le({m: -c for m, c in p.items()})
        if o == "not":
            x = t.args[0]
            if x.op == "eq0":
                fs = self._assume(x, "")
                return all(f.infeasible() for f in fs)
            if x.op == "and":
                return self.entails(tor(*[tnot(y) for y in x.args]), depth)
            if x.op == "or":
                return self.entails(tand(*[tnot(y) for y in x.args]), depth)
        return False


def TOP(t):
    """atoms of the linear form that a condition compares."""
    while t.op == "not":
        t = t.args[0]
    return {x for m in poly(t.args[0]) for x in m} if t.op in ("le0", "eq0") else ()


def rebuild(x, c):
    f = {"div": div, "satsub": sat_sub, "min": tmin, "max": tmax}.get(x.op)
    if f is None:
        return x
    return f(*[replace(y, {k: v for k, v in c.items() if k is not x}) for y in x.args])


def f_rebuild(x, m):
    f = {"satsub": sat_sub, "min": tmin, "max": tmax}[x.op]
    return f(*[replace(y, m) for y in x.args])


def neg(p):
    return {m: -c for m, c in p.items()}


ENUMS = {
    "Option": ("None", "Some"), "Result": ("Ok", "Err"),
    "PromiseResult": ("NotReady", "Successful", "Failed"),
    "PromiseOrValue": ("Promise", "Value"), "Ordering": ("Less", "Equal", "Greater"),
    "ControlFlow": ("Continue", "Break"),
}


def close_variant(f, t, enum):
    """After excluding variants: if one is left, it is that one; if none, contradiction."""
    k = f.var.get(t)
    names = ENUMS.get(enum)
    if not k or k[0] != "!" or not names:
        return True
    left = [n for n in names if n not in k[1]]
    if not left:
        return False
    if len(left) == 1:
        f.var[t] = ("=", left[0])
    return True


def is_(t, enum, variant):
    if t.op == "agg":
        return B(t.args[1] == variant)
    return T("is", t, variant, enum)
