"""Interprocedural, path-sensitive (disjunctive) dataflow analysis over MIR.

Abstract states map memory places to provenance terms, carry the facts established by the branches
taken (trace partitioning), the effects produced so far (promises, storage operations, state commits)
and are propagated through the control-flow graph; calls to functions of the crate are analysed in the
caller's context, calls into the SDK/std go through transfer functions (models.py); loops are summarised
by a havoc-to-fixpoint step: the body is analysed once from a state in which everything the loop changes
is unknown.  Nothing of the contract is executed and no solver is used.
"""
import os, re, sys
from terms import *
from facts import Facts, ENUMS, is_
import mir as M

sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    pass


INTS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 32, "i8": 8, "i16": 16, "i32": 32,
        "i64": 64, "i128": 128, "isize": 32, "char": 32}
# newtypes that only change the wire encoding of their content
NEWTYPES = {"U128", "U64", "I64", "I128", "Base64VecU8", "Gas", "ValidAccountId", "WrappedTimestamp",
            "Base58PublicKey", "PublicKey"}
NUM_TYPES = set(INTS) | {"U128", "U64", "U256", "Gas", "I64", "I128"}


def strip_generics(s):
    out, d, i = [], 0, 0
    while i < len(s):
        c = s[i]
        if c == "<": d += 1
        elif c == ">" and s[i - 1] not in "-=":
            d -= 1
            i += 1
            continue
        if d == 0:
            out.append(c)
        i += 1
    return "".join(out)


def base_type(ty):
    """last path segment of a type without references and generics."""
    t = ty.strip()
    while True:
        m = re.match(r"^(&'?[a-z_0-9]* ?(?:mut )?|&mut |&|\*const |\*mut |mut |dyn |impl )", t)
        if m and m.group(0):
            t = t[len(m.group(0)):].strip()
            continue
        break
    m = re.match(r"^(?:std::boxed::|alloc::boxed::)?Box<(.*)>$", t)
    if m:
        return base_type(m.group(1))
    t = strip_generics(t)
    t = t.strip(":")
    return t.split("::")[-1].strip()


ITER_STEP = {"next", "next_back", "by_ref"}
INTERIOR = re.compile(r"\b(?:\w*Cell|RefMut|Mutex\w*|RwLock\w*|Atomic\w+)\b")


class Callee:
    __slots__ = ("raw", "selfty", "trait", "path", "method", "gen", "implty")

    def __init__(self, raw):
        self.raw = raw
        self.selfty = self.trait = self.implty = None
        self.gen = ""
        s = raw
        if s.startswith("<"):
            # <T as Trait>::method  or <T>::method
            d, i = 0, 0
            while True:
                c = s[i]
                if c == "<": d += 1
                elif c == ">" and s[i - 1] not in "-=":
                    d -= 1
                    if d == 0: break
                i += 1
            inner, rest = s[1:i], s[i + 1:]
            k = self._top_as(inner)
            if k is not None and not inner.startswith("impl at "):
                self.selfty, self.trait = inner[:k], inner[k + 4:]
            elif inner.startswith("impl "):
                self.implty = inner[5:]
            else:
                self.selfty = inner
            rest = rest.lstrip(":")
            m = re.search(r"::<(.*)>$", rest)
            if m:
                self.gen = m.group(1); rest = rest[:m.start()]
            self.path = strip_generics(rest).split("::")
        else:
            m = re.search(r"<impl ([^@].*?)>::", s)
            if m and not m.group(1).startswith("at "):
                # find balanced end
                i = m.start(); d = 0; j = i
                while True:
                    if s[j] == "<": d += 1
                    elif s[j] == ">" and s[j - 1] not in "-=":
                        d -= 1
                        if d == 0: break
                    j += 1
                self.implty = s[i + 6:j]
                s = s[:i] + s[j + 1:].lstrip(":")
            m = re.search(r"::<(.*)>$", s)
            if m and self._bal(m.group(1)):
                self.gen = m.group(1)
            else:
                g = re.findall(r"::<(.*?)>::", s)
                self.gen = g[-1] if g else ""
            self.path = [x for x in strip_generics(s).replace("::::", "::").split("::") if x]
        self.method = self.path[-1] if self.path else ""

    @staticmethod
    def _bal(x):
        d = 0
        for i, c in enumerate(x):
            if c == "<": d += 1
            elif c == ">" and (i == 0 or x[i - 1] not in "-="):
                d -= 1
                if d < 0: return False
        return d == 0

    @staticmethod
    def _top_as(s):
        d = 0
        for i, c in enumerate(s):
            if c in "<([{": d += 1
            elif c in ")]}" or (c == ">" and s[i - 1] not in "-="): d -= 1
            elif d == 0 and s.startswith(" as ", i):
                return i
        return None

    @property
    def owner(self):
        """type name the method belongs to, if any."""
        if self.selfty: return base_type(self.selfty)
        if self.implty: return base_type(self.implty)
        if len(self.path) >= 2 and self.path[-2][:1].isupper():
            return self.path[-2]
        return None


# ================================================================== program model
class Crate:
    def __init__(self, name, mir_path, rs_path, src_root):
        self.name = name
        self.prog = M.Program(name, mir_path, src_root)
        with open(rs_path, encoding="utf8") as f:
            self.rs = f.read()
        self.enums = {}
        self.structs = {}
        self.variants = {}        # enum -> {variant: [(field name or None, type)]}
        self.exports = {}
        self._tables()
        self._impls()
        self.callees = {}
        self.resolved = {}
        self._const_cache = {}

    def _tables(self):
        rs = self.rs
        for m in re.finditer(r"\benum\s+(\w+)(?:<[^{]*>)?\s*(?:where[^{]*)?\{", rs):
            body = rs[m.end():M.match_close(rs, m.end() - 1)] if rs[m.end() - 1] == "{" else ""
            names, vs = [], {}
            for v in M.split_top(strip_attrs(body)):
                mm = re.match(r"\s*(?:pub\s+)?(\w+)\s*", v)
                if mm:
                    names.append(mm.group(1))
                    vs[mm.group(1)] = payload(v[mm.end():].strip())
            if m.group(1).startswith("__"):
                continue
            self.enums.setdefault(m.group(1), tuple(names))
            self.variants.setdefault(m.group(1), vs)
        for m in re.finditer(r"\bstruct\s+(\w+)(?:<[^{;(]*>)?\s*\{", rs):
            try:
                body = rs[m.end():M.match_close(rs, m.end() - 1)]
            except ValueError:
                continue
            fs = []
            for v in M.split_top(strip_attrs(body)):
                mm = re.match(r"\s*(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:\s*(.*)$", v, re.S)
                if mm:
                    fs.append((mm.group(1), " ".join(mm.group(2).split())))
            if m.group(1) not in ("Input",):
                self.structs.setdefault(m.group(1), fs)
        # exported entry points
        for m in re.finditer(r"#\[no_mangle\]\s*(?:#\[[^\]]*\]\s*)*pub\s+(?:unsafe\s+)?(?:extern\s+\"C\"\s+)?fn\s+(\w+)\s*\(", rs):
            self.exports[m.group(1)] = m.start()

    def _impls(self):
        """index local functions by (type, method) and by plain path."""
        self.by_tm = {}
        self.by_path = {}
        self.closures = {}
        self.trait_impls = {}     # (type, trait, method) -> fn name, non-derived
        hdr = {}
        for nm, f in self.prog.fns.items():
            if "{closure#" in nm:
                if f.params:
                    m = re.search(r"[\[{]closure@(.*?)[\]}]", f.params[0][1])
                    if m:
                        self.closures[m.group(1)] = nm
                if nm.rsplit("::", 1)[-1].startswith("{closure#"):
                    continue
            m = re.search(r"<impl at (.*?)>::([^<>]*)$", nm)
            if m:
                span = m.group(1)
                if span not in hdr:
                    hdr[span] = self._impl_header(span)
                trait, ty = hdr[span]
                meth = m.group(2)
                pre = nm[:m.start()].rstrip(":")
                if ty:
                    self.by_tm.setdefault((ty, meth), []).append((trait, nm))
                    if trait:
                        self.trait_impls[(ty, trait, meth)] = nm
                elif f.params and f.params[0][1]:
                    # macro-generated impl: use the receiver type
                    t0 = base_type(f.params[0][1])
                    if t0 in NUM_TYPES:
                        continue
                    self.by_tm.setdefault((t0, meth), []).append((trait, nm))
                    if trait and not trait.startswith("derive:"):
                        self.trait_impls[(t0, trait, meth)] = nm
                continue
            self.by_path[nm] = nm
        self.by_suffix = {}
        for nm in self.by_path:
            segs = nm.split("::")
            for i in range(len(segs)):
                self.by_suffix.setdefault("::".join(segs[i:]), []).append(nm)

    def _impl_header(self, span):
        if "cargo/registry" in span or span.startswith("/"):
            m = re.match(r"^(.*?):(\d+):(\d+): (\d+):(\d+)$", span)
            try:
                L = open(m.group(1), encoding="utf8").read().split("\n")
                txt = L[int(m.group(2)) - 1][int(m.group(3)) - 1:]
            except OSError:
                return (None, None)
        else:
            txt = self.prog.snippet(span)
        txt = txt.strip()
        if not txt.startswith("impl"):
            return ("derive:" + txt, None)
        txt = re.sub(r"^impl\s*", "", txt)
        if txt.startswith("<"):
            d = 0
            for i, c in enumerate(txt):
                if c == "<": d += 1
                elif c == ">": d -= 1
                if d == 0: break
            txt = txt[i + 1:].strip()
        txt = re.sub(r"\{.*$", "", txt).strip()
        txt = re.sub(r"\bwhere\b.*$", "", txt).strip()
        m = re.match(r"^(.*?)\s+for\s+(.*)$", txt)
        if m:
            return (base_type(m.group(1)), None if "$" in m.group(2) else base_type(m.group(2)))
        return (None, None if "$" in txt else base_type(txt))

    def callee(self, raw):
        c = self.callees.get(raw)
        if c is None:
            c = self.callees[raw] = Callee(raw)
        return c

    DERIVED = {"Clone", "PartialEq", "Debug", "Eq", "PartialOrd", "Ord", "Hash", "Copy", "Display",
               "BorshSerialize", "BorshDeserialize", "Serialize", "Deserialize", "ToString"}

    def local_trait(self, name):
        """is there a trait of that name in the contract's own source?"""
        r = self.resolved.get(("trait", name))
        if r is None:
            r = self.resolved[("trait", name)] = bool(name) and \
                re.search(r"\btrait\s+%s\b" % re.escape(name), self.rs) is not None
        return r

    def resolve(self, raw, nargs=None):
        """local MIR function a callee string denotes, or None."""
        if raw in self.resolved:
            return self.resolved[raw]
        r = self._resolve(raw, nargs)
        self.resolved[raw] = r
        return r

    def _resolve(self, raw, nargs):
        c = self.callee(raw)
        if c.trait:
            ty, tr = base_type(c.selfty), base_type(c.trait)
            nm = self.trait_impls.get((ty, tr, c.method))
            if nm:
                return nm
            if tr == "Into":       # user From impls
                g = re.search(r"Into<(.*)>$", c.trait)
                tgt = base_type(g.group(1)) if g else None
                for (trait, n) in self.by_tm.get((tgt, "from"), []):
                    if trait == "From":
                        f = self.prog.fns[n]
                        if f.params and base_type(f.params[0][1]) == ty:
                            return n
                return None
            if tr in ("From",):
                for (trait, n) in self.by_tm.get((ty, "from"), []):
                    f = self.prog.fns[n]
                    g = re.search(r"From<(.*)>$", c.trait)
                    if trait == "From" and f.params and g and base_type(f.params[0][1]) == base_type(g.group(1)):
                        return n
                return None
            if tr in self.DERIVED:
                return None
            cands = self.by_tm.get((ty, c.method), [])
            cands = [n for (t, n) in cands if t == tr or t is None]
            if len(cands) == 1 or not self.local_trait(tr):
                return cands[0] if len(cands) == 1 else None
            # implemented for the type under another name, or called for a generic type
            cands = {n: i for (i, t, m), n in self.trait_impls.items() if t == tr and m == c.method}
            mine = [n for n in cands if self.prog.fns[n].params and base_type(self.prog.fns[n].params[0][1]) == ty]
            if len(mine) == 1:
                return mine[0]
            provided = [n for n in self.by_path if n == tr + "::" + c.method or n.endswith("::" + tr + "::" + c.method)]
            if not provided and len(cands) == 1:
                return next(iter(cands))
            if len(provided) == 1 and not cands:
                return provided[0]
            return "?"
        own = c.owner
        if own:
            cands = [n for (t, n) in self.by_tm.get((own, c.method), [])]
            if len(cands) > 1:
                pre = "::".join(c.path[:-1] if c.implty else c.path[:-2])
                inh = [n for (t, n) in self.by_tm[(own, c.method)] if t is None]
                cands = inh if len(inh) >= 1 else cands
                if len(cands) > 1:
                    cands = [n for n in cands if n.startswith(pre)] or cands
            if cands:
                return cands[0]
            if c.implty or c.selfty:
                return None
        p = "::".join(c.path)
        if p in self.by_path:
            return p
        cs = self.by_suffix.get(p, [])
        if len(cs) == 1:
            return cs[0]
        return None


def payload(s):
    """fields of an enum variant, from the text after its name"""
    if not s or s[0] not in "({":
        return []
    body = s[1:M.match_close(s, 0)]
    out = []
    for f in M.split_top(body):
        f = " ".join(f.split())
        if not f:
            continue
        m = re.match(r"(?:pub(?:\([^)]*\))? )?(\w+)\s*:(?!:)\s*(.*)$", f) if s[0] == "{" else None
        out.append((m.group(1), m.group(2)) if m else (None, f))
    return out


def strip_attrs(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == "#" and i + 1 < len(s) and s[i + 1] == "[":
            i = M.match_close(s, i + 1) + 1
            continue
        if s.startswith("//", i):
            j = s.find("\n", i)
            i = len(s) if j < 0 else j
            continue
        if s.startswith("/*", i):
            j = s.find("*/", i)
            i = len(s) if j < 0 else j + 2
            continue
        out.append(s[i]); i += 1
    return "".join(out)


# ================================================================== abstract state
class State:
    __slots__ = ("mem", "facts", "maps", "prom", "nprom", "eff", "frame", "cnt", "unk", "stack")

    def __init__(self):
        self.mem = {}
        self.facts = Facts()
        self.maps = {}      # persistent collection id term -> content term
        self.prom = {}      # promise id -> dict
        self.nprom = 0
        self.eff = ()
        self.frame = 0
        self.cnt = {}
        self.unk = ()
        self.stack = ()

    def fork(self, facts=None):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = facts if facts is not None else self.facts
        s.maps = dict(self.maps)
        s.prom = dict(self.prom)
        s.nprom = self.nprom; s.eff = self.eff; s.frame = self.frame
        s.cnt = dict(self.cnt); s.unk = self.unk; s.stack = self.stack
        return s

    def effect(self, *e):
        self.eff = self.eff + (e,)

    def assume(self, cond, val=True, loc=""):
        """list of states in which cond == val."""
        fs = self.facts.assume(cond, val, loc)
        if len(fs) == 1:
            if fs[0] is self.facts:
                return [self]
            s = self.fork(fs[0])
            return [s]
        return [self.fork(f) for f in fs]

    def branch(self, cond, loc=""):
        """(states where true, states where false)"""
        return self.assume(cond, True, loc), self.assume(cond, False, loc)


class Outcome:
    """One abstract execution class of an entry point."""
    __slots__ = ("kind", "st", "ret", "why", "loc", "entry")

    def __init__(self, kind, st, ret=None, why="", loc=""):
        self.kind = kind; self.st = st; self.ret = ret; self.why = why; self.loc = loc


class LoopRec:
    """One generic iteration of a loop: its entry state (with everything the loop changes unknown), the states
    after one iteration, what became unknown (phis: term -> (place, value before the loop)) and its next value."""
    __slots__ = ("fn", "head", "bodies", "phis", "loc", "entry", "skips", "mores", "step", "acted", "pointwise", "parts")

    def __init__(self, fn, head):
        self.fn = fn; self.head = head; self.bodies = []; self.phis = {}; self.loc = ""; self.entry = None
        self.skips = []; self.mores = set(); self.step = {}; self.acted = set(); self.pointwise = False; self.parts = None


def keyed_only(t, ph, k):
    """ph occurs in t only as the collection in which k is looked up."""
    if t is ph:
        return False
    if t.op in ("lookup", "mput", "mdel") and t.args[0] is ph and t.args[1] is k:
        return all(keyed_only(a, ph, k) for a in t.args[1:] if isinstance(a, Term))
    if t.op in ("agg", "upd", "poly", "clo"):
        return not any(x is ph for x in subterms(t)) or t.op == "agg" and all(
            keyed_only(x, ph, k) for x in t.args[3] if isinstance(x, Term))
    return all(keyed_only(x, ph, k) for a in t.args for x in (a if isinstance(a, tuple) else (a,)) if isinstance(x, Term))


# ================================================================== interpreter
class Interp:
    MAXSTATES = 60000

    def __init__(self, crate):
        self.c = crate
        self.prog = crate.prog
        self.panics = []
        self.nsteps = 0
        self.fns_seen = set()
        self.calls_seen = 0
        self.callees = set()
        self.unmodelled = {}
        self.loopcache = {}
        self.loopseq = 0
        self.skips = [[]]
        self.phirec = {}
        from models import MODELS
        self.models = MODELS
        self.statety = None
        self.fixed_args = None

    # ---------------------------------------------------------- values
    def deref(self, st, v):
        n = 0
        while v.op == "ref":
            v = self.load(st, v.args[0], v.args[1])
            n += 1
            if n > 50:
                raise AnalysisError("deref loop")
        return v

    def load(self, st, obj, path):
        v = st.mem.get(obj)
        if v is None:
            v = T("uninit", obj)
        for i, stp in enumerate(path):
            if v.op == "ref":
                v = self.deref(st, v)
            v = self.step(st, v, stp)
        return v

    def step(self, st, v, stp):
        k = stp[0]
        if k == "f":
            return fld(v, stp[1], stp[2])
        if k == "i":
            return self.index(st, v, stp[1])
        if k == "k":                # the value of a map under a key that is present
            while v.op == "mput" and v.args[1] is not stp[1] and v.args[1].op == "s" and stp[1].op == "s":
                v = v.args[0]
            if v.op == "mput" and v.args[1] is stp[1]:
                return v.args[2]
            return fld(T("lookup", v, stp[1]), "Some", 0)
        raise AnalysisError("step " + repr(stp))

    def index(self, st, v, ix):
        if v.op == "agg" and v.args[0] == "[]" and ix.op == "i" and ix.args[0] < len(v.args[3]):
            return v.args[3][ix.args[0]]
        return T("idx", v, ix)

    def store(self, st, obj, path, val):
        if not path:
            st.mem[obj] = val
            return
        old = st.mem.get(obj)
        if old is None:
            old = T("uninit", obj)
        st.mem[obj] = self._set(st, old, path, val)

    def _set(self, st, v, path, val):
        if not path:
            return val
        stp = path[0]
        if v.op == "ref":
            # transparent reference inside a path: write through
            self.store(st, v.args[0], v.args[1] + tuple(path), val)
            return v
        if stp[0] == "f":
            return setfld(v, stp[1], stp[2], self._set(st, fld(v, stp[1], stp[2]), path[1:], val))
        if stp[0] == "i":
            if v.op == "agg" and v.args[0] == "[]" and stp[1].op == "i":
                vals = list(v.args[3]); vals[stp[1].args[0]] = self._set(st, vals[stp[1].args[0]], path[1:], val)
                return T("agg", v.args[0], v.args[1], v.args[2], tuple(vals))
            return T("updidx", v, stp[1], val)
        if stp[0] == "k":
            nv = self._set(st, self.step(st, v, stp), path[1:], val)
            return T("mput", v.args[0] if v.op == "mput" and v.args[1] is stp[1] else v, stp[1], nv)
        raise AnalysisError("set")

    # place -> (obj, path) with derefs resolved
    def addr(self, st, fr, place, tys):
        loc, proj = place
        obj = ("L", fr, loc)
        path = ()
        ty = tys.get(loc, "")
        pend = None
        for pj in proj:
            k = pj[0]
            if k == "*":
                v = self.load(st, obj, path)
                if v.op == "ref":
                    obj, path = v.args[0], v.args[1]
                # otherwise a transparent (already dereferenced) value
                ty = deref_type(ty)
            elif k == "f":
                bt = base_type(ty) if pend is None else None
                if pend is None and bt in NEWTYPES and pj[1] == 0:
                    pass
                elif pend is None and (bt in ("Box", "Unique", "NonNull") or base_type(pj[2]) in ("Unique", "NonNull")):
                    pass
                else:
                    path = path + (("f", pend, pj[1]),)
                ty = pj[2]
                pend = None
            elif k == "v":
                pend = pj[1].split("::")[-1]
            elif k == "i":
                path = path + (("i", self.load(st, ("L", fr, pj[1]), ())),)
                ty = elem_type(ty)
            elif k == "ci":
                path = path + (("i", I(pj[1])),)
                ty = elem_type(ty)
            elif k == "sl":
                path = path + (("i", T("slice", pj[1], pj[2])),)
        return obj, path, ty

    def read(self, st, fr, place, tys):
        obj, path, ty = self.addr(st, fr, place, tys)
        return self.load(st, obj, path)

    def place_ty(self, place, tys):
        loc, proj = place
        ty = tys.get(loc, "")
        for pj in proj:
            if pj[0] == "*": ty = deref_type(ty)
            elif pj[0] == "f": ty = pj[2]
            elif pj[0] in ("i", "ci"): ty = elem_type(ty)
        return ty

    def operand_ty(self, op, tys):
        if op[0] == "k":
            m = re.match(r"^-?\d+_(\w+)$", op[1])
            return m.group(1) if m else ""
        return self.place_ty(op[1], tys)

    def operand(self, st, fr, op, tys, lits):
        if op[0] == "k":
            return self.const(st, op[1], lits)
        return self.read(st, fr, op[1], tys)

    def const(self, st, s, lits):
        m = re.match(r"^(-?\d+)_(\w+)$", s)
        if m:
            return I(int(m.group(1)))
        if s == "true": return TRUE
        if s == "false": return FALSE
        if s == "()": return UNIT
        if s.startswith('"') or s.startswith('b"'):
            i = s.index('"')
            return S(M.unescape(s[i + 1:M.skip_str(s, i) - 1]))
        if s.startswith("'"):
            return S(M.unescape(s[1:-1]))
        if s.startswith("@@"):
            d, ty = s[2:].rsplit("@", 1)
            v = self.def_const(d, ty)
            return v if v is not None else T("const", d)
        if s == "_" or s.startswith("_:"):
            for l in lits:
                m = re.search(r"Unevaluated\((.*), \[.*?\], Some\(promoted\[(\d+)\]\)\)", l)
                if m and not l.startswith("used"):
                    v = self.promoted(m.group(1), int(m.group(2)))
                    if v is not None:
                        # consume so that a second `const _` in the statement finds the next literal
                        lits.remove(l)
                        lits.append("used" + l)
                        return v
            for l in lits:
                m = re.search(r"Const \{ ty: (.*?), val: Unevaluated\((.*), \[.*?\], None\)", l)
                if m:
                    v = self.named_const(m.group(2))
                    if v is not None:
                        return v
            return T("const", "_", tuple(lits))
        # u128::MAX etc.
        m = re.match(r"^(?:core::num::<impl (\w+)>|std::(\w+)|(\w+))::(MAX|MIN)$", s)
        if m:
            ty = m.group(1) or m.group(2) or m.group(3)
            if ty in INTS:
                if m.group(4) == "MIN":
                    return I(0 if ty[0] == "u" else -(1 << (INTS[ty] - 1)))
                return I((1 << INTS[ty]) - 1 if ty[0] in "uc" else (1 << (INTS[ty] - 1)) - 1)
        v = self.named_const(s)
        if v is not None:
            return v
        if s.startswith("{0x") or s.startswith("{alloc"):
            return T("const", s)
        return T("fn", s)

    def def_const(self, d, ty):
        cc = self.c._const_cache
        if ("def", d) in cc:
            return cc[("def", d)]
        v = None
        last = d.split("::")[-1]
        f = self.prog.const_def(d)
        if f is not None:
            v = self.const_body(f)
        elif d.startswith(("core[", "std[", "alloc[")) and ty in INTS and last in ("MAX", "MIN", "BITS"):
            v = {"MAX": I((1 << INTS[ty]) - 1 if ty[0] in "uc" else (1 << (INTS[ty] - 1)) - 1),
                 "MIN": I(0 if ty[0] == "u" else -(1 << (INTS[ty] - 1)))}.get(last)
        cc[("def", d)] = v
        return v

    def named_const(self, path):
        p = strip_generics(re.sub(r"<impl (?!at)(.*?)>", r"\1", path))
        cc = self.c._const_cache
        if p in cc:
            return cc[p]
        f = None
        cs = self.prog.consts
        if p in cs:
            f = cs[p]
        else:
            c = [n for n in cs if n.endswith("::" + p) or p.endswith("::" + n)]
            if len(c) == 1:
                f = cs[c[0]]
            elif len(c) > 1:
                last = p.split("::")[-1]
                f = cs[min(c, key=len)]
        if f is None:
            segs = p.split("::")
            if len(segs) >= 2:
                ty, nm = segs[-2], segs[-1]
                for n in cs:
                    m = re.search(r"<impl at (.*?)>::(\w+)$", n)
                    if m and m.group(2) == nm:
                        f = cs[n]
                        break
        v = None
        if f is not None:
            v = self.const_body(f)
        cc[p] = v
        return v

    def promoted(self, fname, idx):
        key = (fname, idx)
        cc = self.c._const_cache
        if key in cc:
            return cc[key]
        f = self.prog.promoted.get((fname, idx))
        if f is None:
            # name styles differ: foundation::<impl LockupContract>::m  vs  foundation::<impl at ..>::m
            tgt = None
            clos = ""
            base = fname
            m = re.match(r"^(.*?)((?:::\{closure#\d+\})+)$", fname)
            if m:
                base, clos = m.group(1), m.group(2)
            r = self.c.resolve(base)
            if r is None and "::" in base:
                r = self.c.by_suffix.get(base, [None])[0]
            if r:
                f = self.prog.promoted.get((r + clos, idx))
        v = self.const_body(f) if f is not None else None
        cc[key] = v
        return v

    def const_body(self, f):
        st = State()
        st.frame = 900000
        try:
            outs = self.run_fn(st, f, [])
        except AnalysisError:
            return None
        outs = [o for o in outs]
        if len(outs) != 1:
            return None
        s2, v = outs[0]
        return self.freeze(s2, v)

    def freeze(self, st, v, d=0):
        """replace references by the (immutable) values they denote."""
        if d > 20:
            return v
        if v.op == "ref":
            return self.freeze(st, self.deref(st, v), d + 1)
        if v.op == "agg":
            return T("agg", v.args[0], v.args[1], v.args[2], tuple(self.freeze(st, x, d + 1) for x in v.args[3]))
        if v.op == "upd":
            return T("upd", self.freeze(st, v.args[0], d + 1), None,
                     tuple((k, self.freeze(st, x, d + 1)) for k, x in v.args[2]))
        if v.op in ("json", "borsh", "cat", "clo", "iter", "map_it", "filter_it", "filter_map_it", "sha256", "jmap"):
            return T(v.op, *[self.freeze(st, x, d + 1) if isinstance(x, Term) else
                             (tuple(self.freeze(st, y, d + 1) if isinstance(y, Term) else y for y in x)
                              if isinstance(x, tuple) else x) for x in v.args])
        return v

    # ---------------------------------------------------------- rvalues
    def rvalue(self, st, fr, rv, tys, lits, loc, dty):
        """-> list of (state, value)"""
        k = rv[0]
        if k == "use":
            return [(st, self.operand(st, fr, rv[1], tys, lits))]
        if k == "ref":
            obj, path, ty = self.addr(st, fr, rv[2], tys)
            v = self.load(st, obj, path) if False else None
            # transparent values: a reference to something reached through a non-ref deref is fine too
            return [(st, T("ref", obj, path))]
        if k == "bin":
            a = self.deref(st, self.operand(st, fr, rv[2], tys, lits))
            b = self.deref(st, self.operand(st, fr, rv[3], tys, lits))
            ty = self.operand_ty(rv[2], tys) or self.operand_ty(rv[3], tys)
            return [(st, self.binop(rv[1], a, b, base_type(ty)))]
        if k == "un":
            a = self.deref(st, self.operand(st, fr, rv[2], tys, lits))
            if rv[1] == "Not":
                if base_type(self.operand_ty(rv[2], tys)) in INTS:
                    return [(st, T("bitnot", a))]
                return [(st, tnot(a))]
            return [(st, mul(I(-1), a))]
        if k == "cast":
            v = self.operand(st, fr, rv[1], tys, lits)
            if rv[3].startswith("IntToInt"):
                v = self.deref(st, v)
                src, dst = base_type(self.operand_ty(rv[1], tys)), base_type(rv[2])
                return [(st, self.cast(v, src, dst))]
            return [(st, v)]
        if k == "disc":
            obj, path, ty = self.addr(st, fr, rv[1], tys)
            v = self.deref(st, self.load(st, obj, path))
            en = base_type(ty)
            if v.op == "agg":
                names = ENUMS.get(en) or ENUMS.get(v.args[0])
                if names and v.args[1] in names:
                    return [(st, I(names.index(v.args[1])))]
            return [(st, T("disc", v, en))]
        if k == "len":
            v = self.deref(st, self.read(st, fr, rv[1], tys))
            if v.op == "agg" and v.args[0] == "[]":
                return [(st, I(len(v.args[3])))]
            return [(st, T("len", v))]
        if k == "agg":
            vals = [self.operand(st, fr, o, tys, lits) for o in rv[3]]
            return [(st, self.mkagg(rv[1], rv[2], vals, dty))]
        if k == "repeat":
            v = self.operand(st, fr, rv[1], tys, lits)
            return [(st, T("repeat", v, rv[2]))]
        if k == "closure":
            vals = [self.operand(st, fr, o, tys, lits) for o in rv[2]]
            m = re.search(r"closure@(.*?)[\]}]$", rv[1])
            return [(st, T("clo", m.group(1) if m else rv[1], tuple(vals)))]
        return [(st, T("opaque", str(rv)))]

    def mkagg(self, path, names, vals, dty):
        if path == "()":
            return agg("()", None, None, vals) if vals else UNIT
        if path == "[]":
            return agg("[]", None, None, vals)
        p = strip_generics(path).strip(":")
        segs = [x for x in p.split("::") if x]
        last = segs[-1]
        own = segs[-2] if len(segs) > 1 else None
        if own in ENUMS and last in ENUMS[own]:
            return agg(own, last, tuple(names) if names else None, vals)
        dt = base_type(dty)
        if dt in ENUMS and last in ENUMS[dt]:
            return agg(dt, last, tuple(names) if names else None, vals)
        if last in ("Some", "None") and (own in (None, "Option")):
            return agg("Option", last, None, vals)
        if last in ("Ok", "Err") and (own in (None, "Result")):
            return agg("Result", last, None, vals)
        if last in NEWTYPES and len(vals) == 1:
            return vals[0]
        if last in ("Range", "RangeInclusive"):
            names = None
        return agg(last, None, tuple(names) if names else None, vals)

    def cast(self, v, src, dst):
        if v.op == "b":
            return I(1 if v.args[0] else 0)
        ws, wd = INTS.get(src), INTS.get(dst)
        if v.op == "i":
            if wd and dst[0] == "u":
                return I(v.args[0] % (1 << wd))
            return v
        if src == "bool":
            return T("b2i", v)
        if ws and wd and wd >= ws and (src[0] == "u"):
            return v
        return T("trunc", v, dst)

    def binop(self, op, a, b, ty):
        boolish = ty == "bool" or (a.op == "b") or (b.op == "b")
        if op in ("Add", "CheckedAdd"): r = add(a, b)
        elif op in ("Sub", "CheckedSub"): r = sub(a, b)
        elif op in ("Mul", "CheckedMul"): r = mul(a, b)
        elif op == "Div": return div(a, b)
        elif op == "Rem": return rem(a, b)
        elif op in ("Eq", "Ne"):
            r = self.eq(a, b, ty)
            return r if op == "Eq" else tnot(r)
        elif op == "Lt": return lt(a, b)
        elif op == "Le": return le(a, b)
        elif op == "Gt": return lt(b, a)
        elif op == "Ge": return le(b, a)
        elif op == "BitAnd" and boolish: return tand(a, b)
        elif op == "BitOr" and boolish: return tor(a, b)
        elif op == "BitXor" and boolish: return tnot(self.eq(a, b, "bool"))
        elif op in ("Shl", "CheckedShl") and a.op == "i" and b.op == "i": r = I(a.args[0] << b.args[0])
        elif op in ("Shr", "CheckedShr") and b.op == "i": r = div(a, I(1 << b.args[0]))
        else: r = T("bin" + op, a, b)
        if op.startswith("Checked"):
            return agg("()", None, None, (r, T("ovf", op[7:], a, b, ty)))
        return r

    def eq(self, a, b, ty=""):
        """boolean term for structural equality."""
        if a is b:
            return TRUE
        if ty in NUM_TYPES or a.op in ("i", "poly", "div") or b.op in ("i", "poly", "div"):
            return eqn(a, b)
        if ty == "bool" or a.op == "b" or b.op == "b":
            if a.op == "b":
                return b if a.args[0] else tnot(b)
            if b.op == "b":
                return a if b.args[0] else tnot(a)
            return T("eq", *sorted((a, b), key=lambda t: t.id))
        if a.op == "s" and b.op == "s":
            return FALSE if a.args[0] != b.args[0] else TRUE
        if a.op == "agg" and b.op == "agg":
            if a.args[1] != b.args[1]:
                return FALSE
            if len(a.args[3]) == len(b.args[3]):
                return tand(*[self.eq(x, y) for x, y in zip(a.args[3], b.args[3])])
        if b.op == "agg" and a.op != "agg":
            a, b = b, a
        if a.op == "agg" and a.args[1] is not None:
            en = a.args[0]
            return tand(is_(b, en, a.args[1]),
                        *[self.eq(x, fld(b, a.args[1], i)) for i, x in enumerate(a.args[3])])
        if a.op == "agg":
            return tand(*[self.eq(x, fld(b, None, i)) for i, x in enumerate(a.args[3])])
        return T("eq", *sorted((a, b), key=lambda t: t.id))

    # ---------------------------------------------------------- functions
    def tick(self):
        self.nsteps += 1
        if self.nsteps > 3000000:
            raise AnalysisError("analysis budget exceeded")

    def call_local(self, st, name, args, loc=""):
        f = self.prog.fns[name].parse()
        self.fns_seen.add(name)
        if len(st.stack) > 60 or st.stack.count(name) > 2:
            raise AnalysisError("recursion in " + name)
        st = st.fork()
        st.stack = st.stack + (name,)
        outs = self.run_fn(st, f, args)
        res = []
        for s, v in outs:
            s.stack = s.stack[:-1]
            res.append((s, v))
        return res

    def run_fn(self, st, f, args):
        f.parse()
        caller = st.frame
        top = st.cnt.get("frame", st.frame) + 1
        st.cnt["frame"] = top
        st.frame = top
        fr = top
        tys = f.locals
        for (l, _), v in zip(f.params, args):
            st.mem[("L", fr, l)] = v
        rets = []
        self.run_blocks(st, f, fr, 0, rets, None, None)
        out = []
        for s, _ in rets:
            v = s.mem.get(("L", fr, 0), UNIT)
            s.mem = {k: x for k, x in s.mem.items() if not (k[0] == "L" and k[1] == fr)} \
                if not self.refs_frame(v, fr) else s.mem
            s.frame = caller
            out.append((s, v))
        return self.merge(out)

    @staticmethod
    def refs_frame(v, fr):
        for t in subterms(v):
            if t.op == "ref" and t.args[0][0] == "L" and t.args[0][1] == fr:
                return True
        return False

    def merge(self, outs):
        """join states that agree on everything but facts: keep the common facts only when one
        state's facts include the other's (exact duplicates after logging branches etc.)."""
        if len(outs) < 2:
            return outs
        groups = {}
        for s, v in outs:
            key = (v, s.eff, s.nprom, tuple(sorted((k, id(x) if isinstance(x, Term) else 0) for k, x in s.mem.items())),
                   tuple(sorted((k.id, x.id) for k, x in s.maps.items())),
                   tuple((k, repr(p)) for k, p in sorted(s.prom.items())) if s.prom else ())
            groups.setdefault(key, []).append((s, v))
        res = []
        for g in groups.values():
            while len(g) > 1:
                done = True
                for i in range(len(g)):
                    for j in range(i + 1, len(g)):
                        m = self.join_facts(g[i][0].facts, g[j][0].facts)
                        if m is not None:
                            s = g[i][0].fork(m)
                            g = [x for n, x in enumerate(g) if n not in (i, j)] + [(s, g[i][1])]
                            done = False
                            break
                    if not done:
                        break
                if done:
                    break
            res.extend(g)
        return res

    @staticmethod
    def join_facts(a, b):
        """Exact join when the two fact sets differ in a single complementary fact (x  vs  not x)."""
        if len(a.trail) != len(b.trail):
            return None
        diff = [i for i in range(len(a.trail)) if a.trail[i][0] is not b.trail[i][0]]
        if len(diff) != 1:
            return None
        i = diff[0]
        x, y = a.trail[i][0], b.trail[i][0]
        nx = tnot(x) if x.op in ("b", "not", "le0") else T("not", x)
        comp = nx is y
        if not comp and x.op == "not" and x.args[0] is y:
            comp = True
        if not comp and x.op == "is" and y.op == "is" and x.args[0] is y.args[0]:
            names = ENUMS.get(x.args[2])
            comp = bool(names and len(names) == 2 and x.args[1] != y.args[1])
        if not comp and {x.op, y.op} == {"is", "not"}:
            p, q = (x, y) if x.op == "is" else (y, x)
            q = q.args[0]
            names = ENUMS.get(p.args[2])
            comp = bool(q.op == "is" and q.args[0] is p.args[0] and names and len(names) == 2
                        and q.args[1] == p.args[1])
        if not comp:
            return None
        f = Facts()
        for n, (t, loc) in enumerate(a.trail):
            if n == i:
                continue
            r = f._assume(t, loc)
            if len(r) != 1:
                return None
            f = r[0]
        return f

    # ---------------------------------------------------------- CFG
    def loops_of(self, f):
        lp = self.loopcache.get(f.name)
        if lp is not None:
            return lp
        succ = {b: term_succ(bl.term) for b, bl in f.blocks.items()}
        color, back = {}, []
        stack = [(0, iter(succ.get(0, ())))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s) == 1:
                    back.append((b, s))
                elif s not in color:
                    color[s] = 1
                    stack.append((s, iter(succ.get(s, ()))))
                    break
            else:
                color[b] = 2
                stack.pop()
        pred = {}
        for b, ss in succ.items():
            for s in ss:
                pred.setdefault(s, []).append(b)
        lp = {}
        for t, h in back:
            body = lp.setdefault(h, {h})
            st = [t]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(pred.get(x, ()))
        self.loopcache[f.name] = lp
        return lp

    def run_blocks(self, st, f, fr, start, rets, stop_head, inside):
        """Propagate from block `start`.  Appends (state, None) for returns.  When analysing a loop body,
        stop_head is the head block; reaching it again, or leaving `inside`, ends the propagation:
        those states are returned as [('back', st)] / [('exit', block, st)]."""
        loops = self.loops_of(f)
        work = [(start, st, start == stop_head)]
        ends = []
        n = 0
        while work:
            b, s, first = work.pop()
            n += 1
            if n > self.MAXSTATES:
                raise AnalysisError("too many abstract states in " + f.name)
            while True:
                self.tick()
                if stop_head is not None and not first:
                    if b == stop_head:
                        ends.append(("back", None, s)); break
                    if b not in inside:
                        ends.append(("exit", b, s)); break
                if b in loops and not (b == stop_head):
                    for kind, blk, s2 in self.run_loop(s, f, fr, b, loops[b], rets):
                        work.append((blk, s2, False))
                    break
                first = False
                nxt = self.block(s, f, fr, b, rets)
                if not nxt:
                    break
                if len(nxt) == 1:
                    b, s = nxt[0]
                    continue
                for x in nxt[1:]:
                    work.append((x[0], x[1], False))
                b, s = nxt[0]
        return ends

    def block(self, st, f, fr, b, rets):
        bl = f.blocks[b]
        tys = f.locals
        for stm in bl.stmts:
            if stm[0] == "=":
                _, place, rv, loc, lits = stm
                dty = self.place_ty(place, tys)
                (st, v), = self.rvalue(st, fr, rv, tys, list(lits), loc, dty)
                obj, path, _ = self.addr(st, fr, place, tys)
                self.store(st, obj, path, v)
            elif stm[0] == "setdisc":
                _, place, rhs, loc, lits = stm
                obj, path, ty = self.addr(st, fr, place, tys)
                self.store(st, obj, path, T("setdisc", self.load(st, obj, path), rhs))
        t = bl.term
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            rets.append((st, None))
            return []
        if k in ("unreachable", "panic"):
            return []
        if k == "drop":
            return [(t[2], st)]
        if k == "assert":
            v = self.deref(st, self.operand(st, fr, t[1], tys, []))
            want = t[2]
            return [(t[3], s) for s in self.do_assert(st, v, want, t[4], t[5])]
        if k == "switch":
            v = self.deref(st, self.operand(st, fr, t[1], tys, []))
            return self.switch(st, v, t[2], t[3], t[4], base_type(self.operand_ty(t[1], tys)))
        if k == "call":
            return self.call(st, f, fr, t, tys, rets)
        raise AnalysisError("terminator " + k)

    def do_assert(self, st, v, want, loc, text):
        if v.op == "ovf":
            _, op, a, b, ty = (None,) + v.args
            # no overflow on the continuing path
            self.panic(st, "overflow:" + op, loc, quiet=True)
            if op == "Sub":
                return st.assume(le(b, a), True, loc)
            return [st]
        good = st.assume(v, want, loc)
        if st.assume(v, not want, loc):
            self.panic(st, "assert:" + text[:60], loc, quiet=True)
        return good

    def switch(self, st, v, targets, other, loc, ty):
        out = []
        if v.op == "disc":
            base, en = v.args
            names = ENUMS.get(en)
            cur = [st]
            seen = []
            for val, blk in targets:
                nm = names[val] if names and val < len(names) else "#%d" % val
                seen.append(nm)
                for s in st.assume(is_(base, en, nm), True, loc):
                    out.append((blk, s))
            if other is not None:
                if names and set(seen) >= set(names):
                    return out
                cur = [st]
                for nm in seen:
                    cur = [y for x in cur for y in x.assume(is_(base, en, nm), False, loc)]
                for s in cur:
                    out.append((other, s))
            return out
        boolean = ty == "bool" or v.op in ("b", "le0", "eq0", "not", "and", "or", "is", "eq")
        if v.op == "i":
            for val, blk in targets:
                if val == v.args[0]:
                    return [(blk, st)]
            return [(other, st)] if other is not None else []
        if boolean and all(x in (0, 1) for x, _ in targets):
            for val, blk in targets:
                for s in st.assume(v, bool(val), loc):
                    out.append((blk, s))
            if other is not None:
                used = {x for x, _ in targets}
                for val in (0, 1):
                    if val not in used:
                        for s in st.assume(v, bool(val), loc):
                            out.append((other, s))
            return out
        cur = [st]
        for val, blk in targets:
            e = eqn(v, I(val))
            for s in st.assume(e, True, loc):
                out.append((blk, s))
            cur = [y for x in cur for y in x.assume(e, False, loc)]
        if other is not None:
            for s in cur:
                out.append((other, s))
        return out

    def panic(self, st, why, loc, quiet=False):
        self.panics.append((why, loc, st.facts.trail, st.stack, st.eff, quiet, st.maps))

    # ---------------------------------------------------------- calls
    def call(self, st, f, fr, t, tys, rets):
        _, dest, cal, argops, tgt, loc, lits = t
        self.calls_seen += 1
        lits = list(lits)
        if cal[0] == "dyn":
            fv = self.operand(st, fr, cal[1], tys, lits)
            args = [self.operand(st, fr, a, tys, lits) for a in argops]
            outs = self.apply(st, fv, args, loc)
        else:
            args = [self.operand(st, fr, a, tys, lits) for a in argops]
            outs = self.dispatch(st, cal[1], args, loc, self.place_ty(dest, tys),
                                 [self.operand_ty(a, tys) for a in argops])
        if tgt is None:
            return []
        res = []
        for s, v in outs:
            s = s if s is not st else s
            obj, path, _ = self.addr(s, fr, dest, tys)
            if len(outs) > 1 and s is st:
                s = s.fork()
            self.store(s, obj, path, v)
            res.append((tgt, s))
        return res

    def dispatch(self, st, raw, args, loc, rty, atys):
        c = self.c.callee(raw)
        self.callees.add((c.owner, c.method, st.stack[-1] if st.stack else ""))
        m = self.models.lookup(c, self, args)
        if m is not None and m.priority:
            return self.kept(m(self, st, args, c, loc, rty, atys), st, c, args, loc, rty, atys)
        name = self.c.resolve(raw, len(args))
        if name == "?":
            return self.opaque(st, c, args, loc, atys)
        if name is not None and not self.is_derived(name):
            return self.call_local(st, name, args, loc)
        if m is not None:
            return self.kept(m(self, st, args, c, loc, rty, atys), st, c, args, loc, rty, atys)
        return self.opaque(st, c, args, loc, atys)

    def kept(self, r, st, c, args, loc, rty, atys):
        """a model has to account for what the operation may change: if it leaves alone what was lent for writing, and
        gives no reference to it, or answers a writable reference with a mere value, the operation is unknown."""
        r = self.wrap(r, st)
        if not r:
            return r
        refs = any(isinstance(x, Term) and x.op in ("ref", "clo") for _, v in r for x in subterms(v))
        if refs:
            return r
        if "&mut " in rty:
            return self.opaque(st, c, args, loc, atys)
        if c.method in ITER_STEP:
            return r
        for i, a in enumerate(args):
            if i < len(atys) and atys[i].startswith("&mut ") and a.op == "ref" and all(
                    s.mem.get(a.args[0]) is st.mem.get(a.args[0]) and s.maps == st.maps and s.prom == st.prom
                    and len(s.eff) == len(st.eff) and s.cnt == st.cnt for s, _ in r):
                return self.opaque(st, c, args, loc, atys)
        return r

    def is_derived(self, name):
        return False

    @staticmethod
    def wrap(r, st):
        if r is None:
            return []
        if isinstance(r, Term):
            return [(st, r)]
        return r

    def opaque(self, st, c, args, loc, atys):
        nm = "::".join(([c.owner] if c.owner and (len(c.path) < 2 or c.path[-2] != c.owner) else []) + c.path[-2:])
        self.unmodelled[nm] = self.unmodelled.get(nm, 0) + 1
        vals = tuple(self.freeze(st, a) for a in args)
        st = st.fork()
        st.unk = st.unk + ((nm, loc),)
        if c.owner in ("env", "sys", "near_sys") or len(c.path) > 1 and c.path[-2] in ("env", "sys", "near_sys"):
            st.effect("sys", c.method, vals, loc)      # a host function outside the modelled interface
        r = T("call", nm, vals)
        for i, a in enumerate(args):
            if a.op == "ref" and i < len(atys) and (atys[i].startswith("&mut") or INTERIOR.search(atys[i])):
                old = self.deref(st, a)
                self.store(st, a.args[0], a.args[1], T("havoc", nm, i, vals))
            elif a.op in ("agg", "clo"):
                # references that the unknown callee receives inside tuples, closures and structures
                for x in subterms(a):
                    if isinstance(x, Term) and x.op == "ref":
                        self.store(st, x.args[0], x.args[1], T("havoc", nm, i, vals))
        return [(st, r)]

    def havoc_refs(self, st, nm, args):
        """an unknown function may change whatever it can reach through its arguments."""
        st = st.fork()
        st.unk = st.unk + ((nm, ""),)
        for a in args:
            for x in subterms(a):
                if isinstance(x, Term) and x.op == "ref":
                    self.store(st, x.args[0], x.args[1], T("havoc", nm, 0, ()))
        return st

    def apply(self, st, fv, args, loc):
        """call a closure / function value with the given (untupled) arguments."""
        fv = self.deref(st, fv)
        if fv.op == "clo":
            name = self.c.closures.get(fv.args[0])
            if name is None:
                return [(self.havoc_refs(st, "closure", list(args) + [fv]), T("call", "closure", tuple(args)))]
            f = self.prog.fns[name].parse()
            # self parameter: by ref or by value
            st = st.fork()
            n = st.cnt.get("clo", 0) + 1
            st.cnt["clo"] = n
            obj = ("C", n, 0)
            st.mem[obj] = agg("closure", None, None, fv.args[1])
            selfv = T("ref", obj, ()) if f.params and f.params[0][1].startswith("&") else st.mem[obj]
            return self.call_local(st, name, [selfv] + list(args), loc)
        if fv.op == "fn":
            raw = fv.args[0]
            # constructor used as a function
            segs = strip_generics(raw).split("::")
            if segs[-1][:1].isupper():
                return [(st, self.mkagg(raw, None, list(args), segs[-2] if len(segs) > 1 else ""))]
            return self.dispatch(st, raw, list(args), loc, "", [""] * len(args))
        return [(self.havoc_refs(st, "apply", list(args) + [fv]), T("call", "apply", (fv,) + tuple(args)))]

    # ---------------------------------------------------------- loops
    def run_loop(self, st, f, fr, head, body, rets):
        """havoc-to-fixpoint loop summary.  Returns exits [('exit', block, state)]."""
        rlen = len(rets)
        done = self.unroll(st, f, fr, head, body, rets)
        if done is not None:
            return done

        def runner(s1):
            del rets[rlen:]
            return self.run_blocks(s1, f, fr, head, rets, head, body)
        runner.early = lambda: len(rets) > rlen

        rec, ends, s0 = self.havoc_loop(st, f.name, head, runner)
        out = []
        for kind, blk, s in ends:
            if kind == "exit":
                out.append((kind, blk, self.loop_exit(rec, s0, s)))
        for i in range(rlen, len(rets)):
            rets[i] = (self.loop_exit(rec, s0, rets[i][0]),) + tuple(rets[i][1:])
        return out

    def unroll(self, st, f, fr, head, body, rets):
        """exact execution of a loop that consumes a sequence known element by element; None if it is not one."""
        import models

        def left(s):
            return {o: models.concrete(v) for o, v in s.mem.items()
                    if isinstance(v, Term) and (v.op == "iter" or v.op.endswith("_it")) and models.concrete(v)}
        if not left(st):
            return None
        rlen, plen, seq = len(rets), len(self.panics), self.loopseq
        out, work = [], [st]
        n = 0
        while work:
            s = work.pop()
            n += 1
            before = left(s)
            self.skips.append([])
            ends = self.run_blocks(s.fork(), f, fr, head, rets, head, body)
            self.skips.pop()
            for kind, blk, s2 in ends:
                if kind == "exit":
                    out.append((kind, blk, s2)); continue
                now = {o: models.concrete(v) for o, v in s2.mem.items() if o in before and isinstance(v, Term)}
                if n > 64 or not any(now.get(o) is not None and now[o] < k for o, k in before.items()):
                    del rets[rlen:]
                    del self.panics[plen:]
                    return None
                work.append(s2)
        return out

    def havoc_loop(self, st, fname, head, runner):
        """Run one generic iteration from a state in which everything the iteration changes is unknown."""
        self.loopseq += 1
        tag = "%s#%d.%d" % (short_name(fname), head, self.loopseq)
        st = st.fork()
        st.cnt["pass"] = st.cnt.get("pass", 0) + 1        # a second loop over the same elements starts again
        havoc = set()
        for rnd in range(8):
            s0 = st.fork()
            rec = LoopRec(fname, head)
            rec.entry = s0
            phis = {}
            for key in sorted(havoc, key=repr):
                kind = key[0]
                ph = T("phi", tag, repr(key))
                if kind == "mem":
                    _, obj, path = key
                    phis[ph] = (key, self.load(st, obj, path))
                    self.store(s0, obj, path, ph)
                elif kind == "map":
                    phis[ph] = (key, s0.maps.get(key[1]))
                    s0.maps[key[1]] = ph
            rec.phis = phis
            plen = len(self.panics)
            self.skips.append([])
            ends = runner(s0.fork())
            skips = self.skips.pop()
            new = set()
            for kind, blk, s in ends:
                if kind != "back":
                    continue
                for d in self.diff(s0, s, None, None, None):
                    if not any(covers(h, d) for h in havoc):
                        new.add(d)
            if not new:
                break
            havoc |= new
            # drop keys subsumed by shorter ones
            havoc = {h for h in havoc if not any(o != h and covers(o, h) for o in havoc)}
            del self.panics[plen:]
        else:
            raise AnalysisError("loop summary did not stabilise in " + fname)
        # the same iteration described by the element it is about
        import models
        idx = self.index_loop(rec, s0, ends)
        if idx is not None:
            ph, r = idx
            key = rec.phis[ph][0]
            s1 = s0.fork()
            self.store(s1, key[1], key[2], models.elem_of(r))
            more = models.more_of(s0, r)
            del self.panics[plen:]
            self.skips.append([])
            back = []
            for x in s1.assume(more, True, ""):
                for y, e in models.items(self, x, T("iter", r), "", more):
                    back += [z for z in runner(y.fork()) if z[0] == "back"]
            skips = self.skips.pop()
            out = []
            for kind, blk, s in ends:
                if kind == "back":
                    continue
                if s.facts.entails(le(r.args[3][1], ph)) is True:
                    out += [(kind, blk, x) for x in s.assume(more, False, "")]
                else:
                    out.append((kind, blk, s))
            ends = out + back
            rec.entry = s0 = s1
        elif self.pointwise_over(rec, st, s0, ends, skips) and not (hasattr(runner, "early") and runner.early()):
            rec.pointwise = True
            s1 = s0.fork()
            for ph, (key, ini) in rec.phis.items():
                s1.maps[key[1]] = ini or T("cont", key[1])
            del self.panics[plen:]
            self.skips.append([])
            back = [x for x in runner(s1.fork()) if x[0] == "back"]
            skips = self.skips.pop()
            ends = [x for x in ends if x[0] != "back"] + back
            rec.entry = s1
        rec.bodies = [s for kind, _, s in ends if kind == "back"]
        rec.skips = [s for s in skips if s.facts.trail[:len(s0.facts.trail)] == s0.facts.trail]
        n = len(s0.facts.trail)
        mores = None
        for s in rec.bodies:
            ms = {t for t, _ in s.facts.trail[n:] if t.op == "more"}
            mores = ms if mores is None else mores & ms
        rec.mores = mores or set()
        for ph in rec.phis:
            self.phirec[ph] = rec
        for ph, (key, ini) in rec.phis.items():
            vals = []
            for s in rec.bodies:
                vals.append(self.load(s, key[1], key[2]) if key[0] == "mem" else s.maps.get(key[1]))
            rec.step[ph] = vals
        rec.acted = set()
        for s in rec.bodies:
            for pid, pr in s0.prom.items():
                if s.prom.get(pid) != pr:
                    rec.acted.add(pid)
        return rec, ends, s0

    def loop_exit(self, rec, s0, s):
        """state after the loop: the generic iterations are recorded as one 'loop' effect."""
        s = s.fork()
        if rec.bodies:
            n = len(s0.eff)
            s.eff = s0.eff + (("loop", rec),) + s.eff[n:]
            for pid in rec.acted:
                r, acts, after = s0.prom[pid]
                k = len(acts)
                r2, acts2, after2 = s.prom[pid]
                s.prom[pid] = (r2, acts + (("loop", (), rec.loc, rec),) + acts2[k:], after2)
        self.canon_lists(rec, s)
        return self.none_equal(rec, s)

    def none_equal(self, rec, s):
        """a loop that goes on only past elements different from x and gets to the end: x is not among the elements."""
        import models
        if not rec.bodies or not any(s.facts.tf.get(t) is False for t in rec.mores):
            return s
        n = len(rec.entry.facts.trail)
        common = None
        for b in list(rec.bodies) + list(rec.skips):
            ts = [t for t, _ in b.facts.trail[n:] if t.op == "not"]
            common = ts if common is None else [t for t in common if t in ts]
        for t in common or ():
            x = models.contains_term(t.args[0])
            if x is not None:
                r = s.assume(x, False, rec.loc)
                s = r[0] if r else s
        return s

    def index_loop(self, rec, s0, ends):
        """(i, range) of a loop over i = lo..hi with step 1 and a fixed bound."""
        import models
        backs = [s for kind, _, s in ends if kind == "back"]
        n = len(s0.facts.trail)
        if not backs or any(t.op == "more" for b in backs for t, _ in b.facts.trail[n:]):
            return None
        for ph, (key, ini) in rec.phis.items():
            if key[0] != "mem" or not isinstance(ini, Term) or not all(
                    self.load(b, key[1], key[2]) is add(ph, I(1)) for b in backs):
                continue
            for t, _ in backs[0].facts.trail[n:]:
                if t.op != "le0" or poly(t.args[0]).get((ph,)) != 1:
                    continue
                hi = sub(add(ph, I(1)), t.args[0])            # i - hi + 1 <= 0
                if any(x in rec.phis for x in subterms(hi) if isinstance(x, Term)):
                    continue
                if all(b.facts.entails(lt(ph, hi)) is True for b in backs):
                    return ph, agg("Range", None, None, (ini, hi))
        return None

    def pointwise_over(self, rec, st, s0, ends, skips):
        """does every iteration, about one entry of a keyed collection, touch only what is stored under that entry's key?
        Then the order does not matter, and what an iteration finds there is what was there before the loop."""
        import models
        backs = [s for kind, _, s in ends if kind == "back"]
        n, ne = len(s0.facts.trail), len(s0.eff)
        roots = None
        for b in backs:
            ms = {t.args[0] for t, _ in b.facts.trail[n:] if t.op == "more"}
            roots = ms if roots is None else roots & ms
        if not roots or len(roots) != 1:
            return False
        root = roots.pop()
        k = fld(models.elem_of(root), None, 0)
        while root.op in ("rev_it", "iter"):
            root = root.args[0]
        was = root.op == "phi" and root.args[1].startswith("('map'")    # an earlier content
        if not (was or root.op == "cont" or any(v is root for v in st.maps.values())):
            return False
        if any(key[0] != "map" or not (ini is None or ini.op in ("cont", "phi")) for key, ini in rec.phis.values()):
            return False
        if any(kind != "back" and not any(t.op == "not" and t.args[0].op == "more" for t, _ in s.facts.trail[n:])
               for kind, _, s in ends):
            return False
        for b in backs:
            if b.prom != s0.prom:
                return False
            for e in b.eff[ne:]:
                if e[0] not in ("put", "del") or e[1].op != "place" and e[2] is not k:
                    return False
        for b in backs + [s for s in skips if s.facts.trail[:n] == s0.facts.trail]:
            seen = [t for t, _ in b.facts.trail[n:]] + [e[3] for e in b.eff[ne:] if e[0] == "put" and e[1].op != "place"]
            for ph in rec.phis:
                if not all(keyed_only(t, ph, k) for t in seen if isinstance(t, Term)):
                    return False
        return True

    def loop_source(self, rec, s):
        """(what the loop goes through completely on this exit, substitution for its index) or None"""
        import models
        done = [t for t in rec.mores if s.facts.tf.get(t) is False]
        if done:
            return models.root_of(done[0].args[0]), {}
        if rec.mores or not rec.bodies:
            return None
        # `while i < end { ...; i += 1 }`
        for ph, (key, ini) in rec.phis.items():
            if not isinstance(ini, Term) or not rec.step[ph] or rec.skips or not all(
                    isinstance(v, Term) and v is add(ph, I(1)) for v in rec.step[ph]):
                continue
            n = len(rec.entry.facts.trail)
            for t, _ in rec.bodies[0].facts.trail[n:]:
                if t.op != "le0":
                    continue
                p = poly(t.args[0])
                if p.get((ph,)) != 1:
                    continue
                hi = sub(add(ph, I(1)), t.args[0])            # i - hi + 1 <= 0
                if any(x in subterms(hi) for x in rec.phis):
                    continue
                if all(b.facts.entails(lt(ph, hi)) is True for b in rec.bodies) and s.facts.entails(le(hi, ph)) is True:
                    r = agg("Range", None, None, (ini, hi))
                    return models.root_of(r), {ph: models.elem_of(r)}
        return None

    def canon_lists(self, rec, s):
        """a list (or map) built by pushing (inserting) in the loop is described like an iterator `collect`."""
        import models
        cand = [(ph, key, ini) for ph, (key, ini) in rec.phis.items() if key[0] == "mem" and isinstance(ini, Term) and (
            ini.op == "mempty" or ini.op == "agg" and ini.args[0] == "[]" and not ini.args[3]
            or any(isinstance(v, Term) and v.op == "mput" for v in rec.step[ph]))]
        if not cand:
            return
        src = self.loop_source(rec, s)
        if src is None:
            return
        root, rep = src
        n = len(rec.entry.facts.trail)
        for ph, key, ini in cand:
            cases = []
            inplace = not (ini.op == "mempty" or ini.op == "agg")
            if inplace and ini is not root:
                continue
            for b, v in list(zip(rec.bodies, rec.step[ph])) + [(b, ph) for b in rec.skips]:
                conds = tuple(replace(t, rep) for t, _ in b.facts.trail[n:] if t.op != "more")
                if v is ph:
                    e = models.elem_of(root)
                    cases.append((conds, agg("()", None, None, (fld(e, None, 0), fld(e, None, 1))) if inplace else None))
                elif isinstance(v, Term) and v.op == "vpush" and v.args[0] is ph:
                    cases.append((conds, replace(v.args[1], rep)))
                elif inplace and not (isinstance(v, Term) and v.op == "mput" and v.args[0] is ph
                                      and v.args[1] is fld(models.elem_of(root), None, 0)):
                    cases = None
                    break
                elif isinstance(v, Term) and v.op == "mput" and v.args[0] is ph:
                    cases.append((conds, agg("()", None, None, (replace(v.args[1], rep), replace(v.args[2], rep)))))
                else:
                    cases = None
                    break
            if cases and self.load(s, key[1], key[2]) is ph:
                self.store(s, key[1], key[2], models.mk_collect("collect", root, tuple(cases)))

    def diff(self, a, b, fr, f, body):
        """places of state a whose value differs in b."""
        out = []
        for obj, va in a.mem.items():
            vb = b.mem.get(obj)
            if vb is None or va is vb:
                continue
            self._diffval(obj, (), va, vb, out)
        for c in set(a.maps) | set(b.maps):
            x, y = a.maps.get(c), b.maps.get(c)
            if x is None and y is T("cont", c):
                continue
            if x is not y:
                out.append(("map", c))
        return out

    def _diffval(self, obj, path, va, vb, out):
        if va is vb:
            return
        if va.op == "uninit":
            return
        if len(path) < 4:
            if va.op == "agg" and vb.op == "agg" and va.args[:2] == vb.args[:2] and len(va.args[3]) == len(vb.args[3]):
                for i, (x, y) in enumerate(zip(va.args[3], vb.args[3])):
                    self._diffval(obj, path + (("f", va.args[1], i),), x, y, out)
                return
            ba, oa = (va.args[0], dict(va.args[2])) if va.op == "upd" else (va, {})
            bb, ob = (vb.args[0], dict(vb.args[2])) if vb.op == "upd" else (vb, {})
            if ba is bb and (oa or ob):
                for k in sorted(set(oa) | set(ob), key=repr):
                    x = oa.get(k) or fld(ba, *k)
                    y = ob.get(k) or fld(bb, *k)
                    self._diffval(obj, path + (("f",) + k,), x, y, out)
                return
        out.append(("mem", obj, path))


def covers(h, d):
    if h[0] != d[0]:
        return False
    if h[0] == "map":
        return h[1] is d[1]
    return h[1] == d[1] and d[2][:len(h[2])] == h[2]


def short_name(n):
    m = re.search(r">::([^<>]*)$", n)
    return m.group(1) if m else n


def term_succ(t):
    k = t[0]
    if k == "goto": return [t[1]]
    if k == "switch": return [x for _, x in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "drop": return [t[2]] if t[2] is not None else []
    if k == "assert": return [t[3]]
    if k == "call": return [t[4]] if t[4] is not None else []
    return []


def deref_type(ty):
    t = ty.strip()
    m = re.match(r"^&(?:'\w+ )?(?:mut )?", t)
    if m and m.group(0):
        return t[len(m.group(0)):]
    m = re.match(r"^\*(?:const|mut) ", t)
    if m:
        return t[len(m.group(0)):]
    m = re.match(r"^(?:std::boxed::|alloc::boxed::)?Box<(.*)>$", t)
    if m:
        return m.group(1)
    return t


def elem_type(ty):
    t = deref_type(ty)
    m = re.match(r"^\[(.*?)(?:; .*)?\]$", t)
    if m:
        return m.group(1)
    m = re.search(r"Vec<(.*)>$", t)
    return m.group(1) if m else ""
