"""Interned value terms, exact polynomial normal forms and a relational numeric domain.

Terms are provenance descriptions of values ("the caller", "the amount argument", "field 3 of the
stored state", "floor(a*b/c)").  Numeric terms are kept as polynomials over atomic terms with integer
coefficients, so algebraically equal expressions have one representation.  The numeric domain is the
usual one of abstract interpretation: conjunctions of linear inequalities (polyhedra) over the
monomials, with an exact rational feasibility test for inclusion.  No external solver is involved.
"""
from math import gcd

_TAB = {}


class Term:
    __slots__ = ("id", "op", "args")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def T(op, *args):
    k = (op,) + args
    t = _TAB.get(k)
    if t is None:
        t = Term()
        t.id = len(_TAB); t.op = op; t.args = args
        _TAB[k] = t
    return t


TRUE, FALSE = T("b", True), T("b", False)
UNIT = T("unit")


def I(n): return T("i", n)


def B(x): return TRUE if x else FALSE


def S(s): return T("s", s)


def A(name): return T("a", name)


# ------------------------------------------------------------------ polynomials
_PC = {}


def poly(t):
    """dict: monomial (tuple of Terms sorted by id) -> int coeff ; () is the constant."""
    r = _PC.get(t)
    if r is None:
        if t.op == "i":
            r = {(): t.args[0]} if t.args[0] else {}
        elif t.op == "poly":
            r = dict(t.args[0])
        else:
            r = {(t,): 1}
        _PC[t] = r
    return r


def from_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return I(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return I(c)
        if c == 1 and len(m) == 1:
            return m[0]
    return T("poly", tuple(sorted(d.items(), key=lambda x: tuple(t.id for t in x[0]))))


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2, key=lambda t: t.id))
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}


def add(a, b): return from_poly(padd(poly(a), poly(b)))
def sub(a, b): return from_poly(padd(poly(a), poly(b), -1))
def mul(a, b): return from_poly(pmul(poly(a), poly(b)))


def _content(p):
    g = 0
    for c in p.values():
        g = gcd(g, c)
    return g


def div(a, b):
    if a.op == "i" and b.op == "i" and b.args[0]:
        return I(a.args[0] // b.args[0])
    if b.op == "i" and b.args[0] == 1:
        return a
    if a.op == "i" and a.args[0] == 0:
        return a
    # exact division by a constant
    if b.op == "i" and b.args[0] > 0:
        p = poly(a)
        if all(c % b.args[0] == 0 for c in p.values()):
            return from_poly({m: c // b.args[0] for m, c in p.items()})
    # cancel a common atomic factor  (x*m)/(x*n) only when b is a monomial dividing every term
    pb, pa = poly(b), poly(a)
    if len(pb) == 1:
        (mb, cb), = pb.items()
        if mb and all(_has(m, mb) and c % cb == 0 for m, c in pa.items()):
            return from_poly({_minus(m, mb): c // cb for m, c in pa.items()})
    return T("div", a, b)


def _has(m, mb):
    m = list(m)
    for x in mb:
        if x in m:
            m.remove(x)
        else:
            return False
    return True


def _minus(m, mb):
    m = list(m)
    for x in mb:
        m.remove(x)
    return tuple(m)


def rem(a, b):
    if a.op == "i" and b.op == "i" and b.args[0]:
        return I(a.args[0] % b.args[0])
    return sub(a, mul(b, div(a, b)))


def sat_sub(a, b):
    if a.op == "i" and b.op == "i":
        return I(max(0, a.args[0] - b.args[0]))
    if b.op == "i" and b.args[0] == 0:
        return a
    if a is b:
        return I(0)
    if a.op == "i" and a.args[0] == 0 and nonneg(b):
        return a
    # sat_sub(a+k, b+k) is not simplified (a, b may be polynomials with negative parts)
    return T("satsub", a, b)


def tmin(a, b):
    if a.op == "i" and b.op == "i":
        return I(min(a.args[0], b.args[0]))
    if a is b:
        return a
    for x, y in ((a, b), (b, a)):
        if x.op == "i" and x.args[0] == 0 and nonneg(y):
            return x
    return T("min", *sorted((a, b), key=lambda t: t.id))


def nonneg(t):
    """syntactically non-negative (all atoms denote unsigned quantities)."""
    return all(c > 0 for c in poly(t).values())


def tmax(a, b):
    if a.op == "i" and b.op == "i":
        return I(max(a.args[0], b.args[0]))
    if a is b:
        return a
    for x, y in ((a, b), (b, a)):
        if x.op == "i" and x.args[0] == 0 and nonneg(y):
            return y
    return T("max", *sorted((a, b), key=lambda t: t.id))


# ------------------------------------------------------------------ booleans
def tnot(t):
    if t.op == "b":
        return B(not t.args[0])
    if t.op == "not":
        return t.args[0]
    if t.op == "le0":      # p <= 0   ->  -p + 1 <= 0
        p = {m: -c for m, c in poly(t.args[0]).items()}
        return le0(padd(p, {(): 1}))
    return T("not", t)


def le0(p):
    """the boolean p <= 0 for a polynomial dict."""
    p = {m: c for m, c in p.items() if c}
    k = p.get((), 0)
    rest = {m: c for m, c in p.items() if m != ()}
    if not rest:
        return B(k <= 0)
    g = _content(rest)
    if g > 1:
        # integer tightening: sum(g*x) <= -k   ->  sum(x) <= floor(-k/g)
        rest = {m: c // g for m, c in rest.items()}
        k = -((-k) // g)
    q = dict(rest)
    if k:
        q[()] = k
    if all(c > 0 for c in rest.values()) and k > 0:
        return FALSE
    if all(c < 0 for c in rest.values()) and k <= 0:
        return TRUE
    return T("le0", from_poly_raw(q))


def from_poly_raw(d):
    if len(d) == 1 and () in d:
        return I(d[()])
    return from_poly(d)


def le(a, b): return le0(padd(poly(a), poly(b), -1))
def lt(a, b): return le0(padd(padd(poly(a), poly(b), -1), {(): 1}))


def eqn(a, b):
    if a is b:
        return TRUE
    p = padd(poly(a), poly(b), -1)
    if not p:
        return TRUE
    if set(p) == {()}:
        return FALSE
    rest = [c for m, c in p.items() if m != ()]
    k = p.get((), 0)
    if (all(c > 0 for c in rest) and k > 0) or (all(c < 0 for c in rest) and k < 0):
        return FALSE
    # canonical sign
    first = min(p.items(), key=lambda x: tuple(t.id for t in x[0]) if x[0] else (10 ** 9,))
    if first[1] < 0:
        p = {m: -c for m, c in p.items()}
    g = _content({m: c for m, c in p.items() if m != ()})
    if g > 1:
        if k % g:
            return FALSE
        p = {m: c // g for m, c in p.items()}
    return T("eq0", from_poly_raw(p))


def tand(*ts):
    out = []
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        if t.op == "and":
            out.extend(t.args)
        else:
            out.append(t)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return T("and", *out)


def tor(*ts):
    out = []
    for t in ts:
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        if t.op == "or":
            out.extend(t.args)
        else:
            out.append(t)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return T("or", *out)


# ------------------------------------------------------------------ structure
def agg(ty, variant, names, vals):
    return T("agg", ty, variant, names, tuple(vals))


def some(v): return agg("Option", "Some", None, (v,))


NONE = agg("Option", "None", None, ())


def ok(v): return agg("Result", "Ok", None, (v,))
def err(v): return agg("Result", "Err", None, (v,))


def fld(t, variant, idx):
    """field idx of a value, assuming (already established) that it has the given variant."""
    if t.op == "agg":
        if idx < len(t.args[3]):
            return t.args[3][idx]
    if t.op == "upd":
        for i, v in t.args[2]:
            if i == (variant, idx):
                return v
        return fld(t.args[0], variant, idx)
    if t.op == "ite":
        pass
    return T("fld", t, variant, idx)


def mlookup(c, k):
    """the entry of a collection under a key; present for the key of one of its own elements."""
    e = k.args[0] if k.op == "fld" and k.args[1:] == (None, 0) else None
    if e is not None and e.op == "elem" and e.args[0].op == "iter" and e.args[0].args[0] is c:
        return agg("Option", "Some", None, (fld(e, None, 1),))
    return T("lookup", c, k)


def setfld(t, variant, idx, v):
    if t.op == "agg" and idx < len(t.args[3]):
        vals = list(t.args[3]); vals[idx] = v
        return T("agg", t.args[0], t.args[1], t.args[2], tuple(vals))
    if t.op == "upd":
        base, _, ov = t.args
    else:
        base, ov = t, ()
    d = dict(ov)
    if v.op == "fld" and v.args == (base, variant, idx):
        d.pop((variant, idx), None)
    else:
        d[(variant, idx)] = v
    if not d:
        return base
    return T("upd", base, None, tuple(sorted(d.items(), key=lambda x: (str(x[0][0]), x[0][1]))))


def cat(*parts):
    """string concatenation, flattened with adjacent literals merged."""
    out = []
    for p in parts:
        ps = p.args if p.op == "cat" else (p,)
        for q in ps:
            if q.op == "s" and q.args[0] == "":
                continue
            if q.op == "s" and out and out[-1].op == "s":
                out[-1] = S(out[-1].args[0] + q.args[0])
            else:
                out.append(q)
    if not out:
        return S("")
    if len(out) == 1:
        return out[0]
    return T("cat", *out)


# ------------------------------------------------------------------ printing
FIELD_NAMES = {}      # (root term) hooks may be installed by the caller


def show(t, d=0):
    if not isinstance(t, Term):
        return repr(t)
    if d > 12:
        return "..."
    o, a = t.op, t.args
    if o == "i": return str(a[0])
    if o == "b": return str(a[0]).lower()
    if o == "s": return '"%s"' % (a[0] if len(a[0]) < 60 else a[0][:57] + "...")
    if o == "unit": return "()"
    if o == "a": return a[0]
    if o == "fld":
        nm = FIELD_NAMES.get((a[0], a[2])) if a[1] is None else None
        v = "" if a[1] is None else "<%s>" % a[1]
        return "%s%s.%s" % (show(a[0], d + 1), v, nm if nm else a[2])
    if o == "poly":
        out = []
        for m, c in a[0]:
            s = "*".join(show(x, d + 1) for x in m)
            if not m: s = str(abs(c))
            elif abs(c) != 1: s = "%d*%s" % (abs(c), s)
            out.append(("- " if c < 0 else "+ ") + s)
        r = " ".join(out)
        return "(" + (r[2:] if r.startswith("+ ") else r) + ")"
    if o == "le0": return "%s <= 0" % show(a[0], d + 1)
    if o == "eq0": return "%s == 0" % show(a[0], d + 1)
    if o == "eq": return "%s == %s" % (show(a[0], d + 1), show(a[1], d + 1))
    if o == "is": return "%s is %s" % (show(a[0], d + 1), a[1])
    if o == "not": return "!(%s)" % show(a[0], d + 1)
    if o == "agg":
        nm = a[0] + ("::" + a[1] if a[1] else "")
        vals = [show(x, d + 1) for x in a[3]]
        if a[2]:
            return "%s{%s}" % (nm, ", ".join("%s: %s" % z for z in zip(a[2], vals)))
        return "%s(%s)" % (nm, ", ".join(vals)) if vals else nm
    if o == "upd":
        return "%s with {%s}" % (show(a[0], d + 1), ", ".join("%s: %s" % (k[1], show(v, d + 1)) for k, v in a[2]))
    return "%s(%s)" % (o, ", ".join(show(x, d + 1) if isinstance(x, Term) else str(x) for x in a))


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen


def replace(t, m, memo=None):
    """Rebuild t with atoms substituted through the mapping m (Term -> Term), renormalising."""
    if memo is None:
        memo = {}
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return tuple(replace(x, m, memo) for x in t)
        return t
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    o = t.op
    if o in ("i", "b", "s", "a", "unit"):
        r = t
    elif o == "poly":
        r = I(0)
        for mono, c in t.args[0]:
            x = I(c)
            for at in mono:
                x = mul(x, replace(at, m, memo))
            r = add(r, x)
    else:
        args = [replace(x, m, memo) for x in t.args]
        if all(x is y for x, y in zip(args, t.args)) and len(args) == len(t.args):
            r = t
        else:
            r = rebuild(o, args)
    memo[t] = r
    return r


def rebuild(o, args):
    if o == "div": return div(*args)
    if o == "rem": return rem(*args)
    if o == "satsub": return sat_sub(*args)
    if o == "min": return tmin(*args)
    if o == "max": return tmax(*args)
    if o == "le0": return le0(poly(args[0]))
    if o == "eq0": return eqn(args[0], I(0))
    if o == "not": return tnot(args[0])
    if o == "and": return tand(*args)
    if o == "or": return tor(*args)
    if o == "fld": return fld(*args)
    if o == "cat": return cat(*args)
    if o == "lookup": return mlookup(*args)
    if o == "is" and args[0].op == "agg": return B(args[0].args[1] == args[1])
    if o == "eq": return T("eq", *sorted(args, key=lambda t: t.id))
    return T(o, *args)


# ------------------------------------------------------------------ polyhedra
def substitute(row, e, nc, items, a):
    """replace the variable e of a tableau row by (nc + items) / a."""
    dd = row[1]
    c = dd.pop(e)
    if a != 1:
        g = gcd(a, c)
        k = a // g
        c //= g
        if k != 1:
            row[2] *= k
            row[0] *= k
            for v in dd:
                dd[v] *= k
    row[0] += c * nc
    for v, x in items:
        y = dd.get(v, 0) + c * x
        if y:
            dd[v] = y
        else:
            dd.pop(v, None)
    if row[2] != 1:
        g = gcd(row[2], row[0], *dd.values())
        if g > 1:
            row[2] //= g
            row[0] //= g
            for v in dd:
                dd[v] //= g


def feasible(cons, limit=4000):
    """cons: list of dict(mono->int) each meaning  sum <= 0, monomials >= 0.
    Exact rational feasibility by the simplex method (phase 1, Bland's rule).
    Returns False only when the polyhedron is empty."""
    rows = []
    vs = {}
    for p in cons:
        k = p.get((), 0)
        row = {}
        for m, c in p.items():
            if m == ():
                continue
            j = vs.setdefault(m, len(vs))
            row[j] = c
        if not row:
            if k > 0:
                return False
            continue
        rows.append((row, -k))        # row . x <= -k
    if not rows:
        return True
    if all(b >= 0 for _, b in rows):
        return True                    # x = 0 works
    n = len(vs)
    # dictionary simplex on:  maximise -x0  s.t. row.x - x0 <= b  (x0 auxiliary)
    # tableau: basic slack i:  s_i = b_i - row_i.x + x0
    m = len(rows)
    X0 = n
    basis = [n + 1 + i for i in range(m)]
    # each: [const, {var: coeff}, den] meaning  den * basic = const + sum coeff*var, all integers, den > 0
    tab = []
    for i, (row, b) in enumerate(rows):
        d = {j: -c for j, c in row.items()}
        d[X0] = 1
        tab.append([b, d, 1])
    obj = [0, {X0: -1}, 1]
    # initial pivot: x0 enters, row with most negative b leaves
    r = min(range(m), key=lambda i: tab[i][0])

    def pivot(r, e):
        const, d, den = tab[r]
        a = d.pop(e)
        lv = basis[r]
        # a*e = den*lv - const - sum d
        if a > 0:
            nd = {v: -c for v, c in d.items()}
            nd[lv] = den
            nc = -const
        else:
            a = -a
            nd = d
            nd[lv] = -den
            nc = const
        g = gcd(a, nc, *nd.values())
        if g > 1:
            a //= g; nc //= g
            nd = {v: c // g for v, c in nd.items()}
        tab[r] = [nc, nd, a]
        basis[r] = e
        items = list(nd.items())
        for row in tab:
            dd = row[1]
            if dd is not nd and e in dd:
                substitute(row, e, nc, items, a)
        if e in obj[1]:
            substitute(obj, e, nc, items, a)

    pivot(r, X0)
    for _ in range(limit):
        # entering: smallest index with positive objective coefficient
        ent = min((v for v, c in obj[1].items() if c > 0), default=None)
        if ent is None:
            break
        bq, bc, br = 0, 0, None                  # best ratio bq / bc
        for i in range(m):
            c = tab[i][1].get(ent, 0)
            if c < 0:
                q = tab[i][0]
                if br is None:
                    bq, bc, br = q, -c, i
                else:
                    x, y = q * bc, bq * -c
                    if x < y or x == y and basis[i] < basis[br]:
                        bq, bc, br = q, -c, i
        if br is None:
            return True
        pivot(br, ent)
        if X0 not in basis:
            return True
    else:
        return True                    # give up: not proven empty
    return obj[0] >= 0
