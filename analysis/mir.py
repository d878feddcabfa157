"""Parser for rustc's textual MIR (1.69) into a small in-memory program representation."""
import json, os, re

# ---------------------------------------------------------------- lexical helpers
OPEN, CLOSE = "([{", ")]}"


def split_top(s, sep=","):
    """Split at top level on sep, respecting (), [], {}, <>, and string literals."""
    out, depth, ang, cur, i, n = [], 0, 0, [], 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            j = skip_str(s, i)
            cur.append(s[i:j]); i = j; continue
        if c == "'" and i + 2 < n and (s[i + 1] == "\\" or s[i + 2] == "'"):
            j = s.index("'", i + 2 if s[i + 1] != "\\" else i + 3) + 1
            cur.append(s[i:j]); i = j; continue
        if c in OPEN: depth += 1
        elif c in CLOSE: depth -= 1
        elif c == "<" and not (i + 1 < n and s[i + 1] in " ="): ang += 1
        elif c == ">" and i > 0 and s[i - 1] != "-" and s[i - 1] != "=" and ang > 0: ang -= 1
        if c == sep and depth == 0 and ang == 0:
            out.append("".join(cur).strip()); cur = []
        else:
            cur.append(c)
        i += 1
    t = "".join(cur).strip()
    if t or out:
        out.append(t)
    if out and out[-1] == "":
        out.pop()
    return out


def skip_str(s, i):
    j = i + 1
    while s[j] != '"':
        j += 2 if s[j] == "\\" else 1
    return j + 1


def match_close(s, i):
    """s[i] is an opening bracket; index of its match."""
    d, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i = skip_str(s, i); continue
        if c == "'" and i + 2 < n and (s[i + 1] == "\\" or s[i + 2] == "'"):
            i = s.index("'", i + 2 if s[i + 1] != "\\" else i + 3) + 1
            continue
        if c in OPEN: d += 1
        elif c in CLOSE:
            d -= 1
            if d == 0:
                return i
        i += 1
    raise ValueError("unbalanced: " + s)


def unescape(s):
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c == "\\":
            d = s[i + 1]
            if d == "n": out.append("\n"); i += 2
            elif d == "t": out.append("\t"); i += 2
            elif d == "r": out.append("\r"); i += 2
            elif d == "0": out.append("\0"); i += 2
            elif d == "x": out.append(chr(int(s[i + 2:i + 4], 16))); i += 4
            elif d == "u":
                j = s.index("}", i); out.append(chr(int(s[i + 3:j], 16))); i = j + 1
            else: out.append(d); i += 2
        else:
            out.append(c); i += 1
    return "".join(out)


# ---------------------------------------------------------------- places / operands
class Parser:
    """Places are (local:int, proj:tuple) ; projections:
       ('*',) ('f', idx) ('v', variant) ('i', local) ('ci', n, fromend) ('sl', a, b)"""

    def place(self, s):
        p, i = self._place(s, 0)
        if s[i:].strip():
            raise ValueError("trailing in place: %r" % s)
        return p

    def _place(self, s, i):
        if s[i] == "*":
            (l, pr), k = self._place(s, i + 1)
            return (l, pr + (("*",),)), k
        if s[i] == "_":
            j = i + 1
            while j < len(s) and s[j].isdigit():
                j += 1
            base = (int(s[i + 1:j]), ())
            i = j
        elif s[i] == "(":
            e = match_close(s, i)
            inner = s[i + 1:e]
            if inner.startswith("*"):
                (l, pr), k = self._place(inner, 1)
                base = (l, pr + (("*",),))
            else:
                (l, pr), k = self._place(inner, 0)
                rest = inner[k:]
                m = re.match(r"\.(\d+): ", rest)
                if m:
                    base = (l, pr + (("f", int(m.group(1)), rest[m.end():]),))
                elif rest.startswith(" as "):
                    base = (l, pr + (("v", rest[4:].strip()),))
                elif rest == "":
                    base = (l, pr)
                else:
                    raise ValueError("place: " + s)
            i = e + 1
        else:
            raise ValueError("place: " + s)
        while i < len(s) and s[i] == "[":
            e = match_close(s, i)
            inner = s[i + 1:e]
            m = re.match(r"^_(\d+)$", inner)
            if m:
                pj = ("i", int(m.group(1)))
            else:
                m = re.match(r"^(-?)(\d+) of (\d+)$", inner)
                if m:
                    pj = ("ci", int(m.group(2)), bool(m.group(1)))
                else:
                    a, b = re.match(r"^(-?\d*)(?:\.\.|:)(-?\d*)$", inner).groups()
                    pj = ("sl", a, b)
            base = (base[0], base[1] + (pj,))
            i = e + 1
        return base, i

    def operand(self, s):
        s = s.strip()
        if s.startswith("move "):
            return ("mv", self.place(s[5:]))
        if s.startswith("const "):
            return ("k", s[6:])
        if re.match(r"^_\d", s) or (s.startswith("(") and _is_place(s)):
            return ("cp", self.place(s))
        if re.match(r"^[A-Za-z_<]", s):
            return ("k", s)          # function item / unit constructor
        raise ValueError("operand: %r" % s)


P = Parser()
BINOPS = {"Add", "Sub", "Mul", "Div", "Rem", "BitXor", "BitAnd", "BitOr", "Shl", "Shr", "Eq", "Lt", "Le",
          "Ne", "Ge", "Gt", "Offset", "CheckedAdd", "CheckedSub", "CheckedMul", "CheckedShl", "CheckedShr"}
UNOPS = {"Not", "Neg"}
HEAD = re.compile(r"^([A-Za-z]+)\(")


def parse_rvalue(s):
    if s.startswith("const ") :
        return ("use", ("k", s[6:]))
    m = HEAD.match(s)
    if m:
        h = m.group(1)
        if h in BINOPS and match_close(s, m.end() - 1) == len(s) - 1:
            a, b = split_top(s[m.end():-1])
            return ("bin", h, P.operand(a), P.operand(b))
        if h in UNOPS and s.endswith(")"):
            return ("un", h, P.operand(s[m.end():-1]))
        if h == "Len":
            return ("len", P.place(s[m.end():-1]))
        if h == "discriminant":
            return ("disc", P.place(s[m.end():-1]))
        if h == "ShallowInitBox":
            return ("use", P.operand(split_top(s[m.end():-1])[0]))
        if h in ("SizeOf", "AlignOf"):
            return ("opaque", s)
    if s.startswith("deref_copy "):
        return ("use", ("cp", P.place(s[11:])))
    if s.startswith("&raw mut "):
        return ("ref", "mut", P.place(s[9:]))
    if s.startswith("&raw const "):
        return ("ref", "const", P.place(s[11:]))
    if s.startswith("&mut "):
        return ("ref", "mut", P.place(s[5:]))
    if s.startswith("&shallow "):
        return ("ref", "const", P.place(s[9:]))
    if s.startswith("&"):
        return ("ref", "const", P.place(s[1:].strip()))
    # cast: "<operand> as <ty> (<kind>)"
    m = re.match(r"^(.*) as (.*) \(([A-Za-z]+(?:\(.*\))?)\)$", s)
    if m and (m.group(1).startswith(("move ", "_", "const ")) or
              (m.group(1).startswith("(") and _is_place(m.group(1)))):
        return ("cast", P.operand(m.group(1)), m.group(2), m.group(3))
    if s.startswith(("move ",)):
        return ("use", P.operand(s))
    if re.match(r"^_\d+(\[.*)?$", s) or (s.startswith("(") and _is_place(s)):
        return ("use", ("cp", P.place(s)))
    if s.startswith("[closure@") or s.startswith("{closure@"):
        e = match_close(s, 0)
        rest = s[e + 1:].strip()
        ops = []
        if rest.startswith("{"):
            for f in split_top(rest[1:-1].strip()):
                ops.append(P.operand(f.split(": ", 1)[1]))
        return ("closure", s[:e + 1], ops)
    if s.startswith("["):
        inner = s[1:-1]
        sc = split_top(inner, ";")
        if len(sc) == 2:
            return ("repeat", P.operand(sc[0]), sc[1])
        return ("agg", "[]", None, [P.operand(x) for x in split_top(inner)])
    if s.startswith("("):
        return ("agg", "()", None, [P.operand(x) for x in split_top(s[1:-1])])
    # struct / enum aggregates
    if s.endswith("}"):
        i = s.index(" {")
        # find the ' { ' that opens the fields at top level
        d = 0
        for j, c in enumerate(s):
            if c in "(<[" : d += 1
            elif c in ")]" or (c == ">" and s[j - 1] != "-"): d -= 1
            elif c == "{" and d == 0:
                i = j; break
        path = s[:i].strip()
        names, ops = [], []
        for f in split_top(s[i + 1:-1].strip()):
            k, v = f.split(": ", 1)
            names.append(k); ops.append(P.operand(v))
        return ("agg", path, names, ops)
    if s.endswith(")"):
        d = 0
        for j, c in enumerate(s):
            if c in "<[": d += 1
            elif c == "]" or (c == ">" and s[j - 1] != "-"): d -= 1
            elif c == "(" and d == 0:
                break
        path = s[:j]
        return ("agg", path, None, [P.operand(x) for x in split_top(s[j + 1:-1])])
    return ("agg", s, None, [])


def _is_place(s):
    try:
        P.place(s); return True
    except Exception:
        return False


class Block:
    __slots__ = ("stmts", "term", "cleanup")

    def __init__(self):
        self.stmts = []; self.term = None; self.cleanup = False


CONST_USE = re.compile(r"const _(?![\w:])")
SPAN = re.compile(r"^(.*?):(\d+):(\d+): (\d+):(\d+)$")
SCALARS = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool", "char"}


def span_key(s):
    m = SPAN.match(s)
    return (m.group(1), (int(m.group(2)), int(m.group(3))), (int(m.group(4)), int(m.group(5)))) if m else None


def resolve_consts(stmts, uses, after=None):
    """stmts: [(code, spans of the non-scalar unevaluated constants, span of the statement)].
    MIR text prints a named scalar constant as `const _`; the THIR of the same compilation gives the
    definition and span of every such operand.  Operands appear in source order, so the scalar constants
    of a statement are the not yet attributed uses inside its span (innermost statements first)."""
    out = [c for c, _, _ in stmts]
    taken = {}
    order = []
    for k, (code, lits, loc) in enumerate(stmts):
        n = len(CONST_USE.findall(code)) - len(lits)
        sp = span_key(loc)
        if code.startswith("assert("):
            n = len(CONST_USE.findall(code))
        if n <= 0 or sp is None:
            continue
        order.append(((sp[2][0] - sp[1][0], sp[2][1] - sp[1][1]), k, n, sp))
    order.sort()
    for _, k, n, sp in order:
        code, lits, loc = stmts[k]
        c = []
        for i, (d, ty, us) in enumerate(uses.get(sp[0], ())):
            if us[1] >= sp[1] and us[2] <= sp[2] and ty in SCALARS and taken.get(i, loc) == loc:
                c.append((us[1], i, d, ty))
        c.sort()
        if len(c) < n:
            continue
        c = c[:n]
        for _, i, _, _ in c:
            taken[i] = loc
        seq = [(x[0], "@@%s@%s" % (x[2], x[3])) for x in c]
        for l in lits:
            lk = span_key(l)
            seq.append((lk[1] if lk else (0, 0), "_"))
        seq.sort(key=lambda x: x[0])
        names = [x[1] for x in seq]
        it = iter(names)
        out[k] = CONST_USE.sub(lambda m: "const " + next(it, "_"), code)
    # inside a standard macro (`vec![X]`): the span of the statement is the macro's, that of the next statement around it
    # is the contract's
    for k, (code, lits, loc) in enumerate(stmts):
        n = len(CONST_USE.findall(code)) - len(lits)
        sp = span_key(loc)
        if n <= 0 or lits or sp is None or sp[0] in uses:
            continue
        for l2 in after(k) if after else ():
            s2 = span_key(l2)
            if s2 is None or s2[0] not in uses:
                continue
            c = sorted((us[1], i, d, ty) for i, (d, ty, us) in enumerate(uses[s2[0]])
                       if us[1] >= s2[1] and us[2] <= s2[2] and ty in SCALARS and i not in taken)
            if len(c) < n:
                continue
            for _, i, _, _ in c[:n]:
                taken[i] = loc
            it = iter("@@%s@%s" % (x[2], x[3]) for x in c[:n])
            out[k] = CONST_USE.sub(lambda m: "const " + next(it, "_"), code)
            break
    return out


class Fn:
    const_uses = {}

    def __init__(self, header, text, kind):
        self.header = header; self.text = text; self.kind = kind
        self.name = None; self.params = []; self.ret = ""
        self.parsed = False
        self.blocks = {}; self.locals = {}; self.debug = {}; self.locs = {}

    # ------------------------------------------------------------
    def parse(self):
        if self.parsed:
            return self
        self.parsed = True
        lines = self.text
        cur, last, lspan = None, None, ""
        marks = []
        i, n = 0, len(lines)
        while i < n:
            raw = lines[i]; i += 1
            st = raw.strip()
            if not st or st == "}":
                continue
            if st.startswith("//"):
                # constant annotations
                if st.startswith("// + span: "):
                    lspan = st[11:]
                if st.startswith("// + literal: ") and last is not None:
                    last.append(st[14:])
                    if "Unevaluated(" in st:
                        marks[-1][2].append(lspan)
                continue
            m = re.match(r"^bb(\d+)( \(cleanup\))?: \{$", st)
            if m:
                cur = Block(); cur.cleanup = bool(m.group(2))
                self.blocks[int(m.group(1))] = cur
                continue
            # strip trailing comment
            code, loc = cut_comment(st)
            if cur is None:
                m = re.match(r"^let (?:mut )?_(\d+): (.*);$", code)
                if m:
                    self.locals[int(m.group(1))] = m.group(2)
                    continue
                m = re.match(r"^debug (.*?) => (.*);$", code)
                if m:
                    self.debug.setdefault(m.group(1), m.group(2))
                continue
            # multi-line statements (string constants with newlines are escaped, so none)
            last = []
            if "const _" in code:
                marks.append((cur, code, [], loc, last, len(cur.stmts)))
                cur.stmts.append(None)
                continue
            marks.append((None, code, [], loc, last, 0))
            self.stmt(cur, code, loc, last)
        # statements with `const _` operands: substitute the named scalar constants (by span) and parse
        at = [i for i, m in enumerate(marks) if m[0] is not None]
        pend = [marks[i] for i in at]
        res = resolve_consts([(m[1], m[2], m[3]) for m in pend], self.const_uses,
                             lambda k: [m[3] for m in marks[at[k] + 1:at[k] + 60]])
        for m, code in zip(pend, res):
            b = Block()
            self.stmt(b, code, m[3], m[4])
            if b.stmts:
                m[0].stmts[m[5]] = b.stmts[0]
            if b.term is not None:
                m[0].term = b.term
        for b in self.blocks.values():
            b.stmts = [x for x in b.stmts if x is not None]
        return self

    def stmt(self, b, s, loc, lits):
        if s.startswith(("StorageLive", "StorageDead", "nop", "FakeRead", "AscribeUserType", "Coverage",
                         "Retag", "PlaceMention", "ConstEvalCounter", "Deinit")):
            return
        if s.endswith(";"):
            s = s[:-1]
        t = self.terminator(s, loc, lits)
        if t is not None:
            b.term = t
            return
        # assignment
        k = find_assign(s)
        lhs, rhs = s[:k], s[k + 3:]
        m = re.match(r"^discriminant\((.*)\)$", lhs)
        if m:
            b.stmts.append(("setdisc", P.place(m.group(1)), rhs, loc, lits))
            return
        b.stmts.append(("=", P.place(lhs), parse_rvalue(rhs), loc, lits))

    def terminator(self, s, loc, lits):
        if s == "return": return ("return", loc)
        if s == "unreachable": return ("unreachable", loc)
        if s in ("resume", "abort", "terminate"): return ("panic", "resume", loc)
        m = re.match(r"^goto -> bb(\d+)$", s)
        if m: return ("goto", int(m.group(1)), loc)
        m = re.match(r"^(?:falseEdge|falseUnwind) -> \[real: bb(\d+).*\]$", s)
        if m: return ("goto", int(m.group(1)), loc)
        if s.startswith("switchInt("):
            e = match_close(s, 9)
            op = P.operand(s[10:e])
            tg, other = [], None
            body = s[s.index("[", e) + 1:-1]
            for x in body.split(", "):
                k, v = x.split(": ")
                v = int(v.replace("bb", ""))
                if k == "otherwise": other = v
                else: tg.append((int(k.split("_")[0]), v))
            return ("switch", op, tg, other, loc)
        if s.startswith("drop("):
            e = match_close(s, 4)
            return ("drop", P.place(s[5:e]), target(s[e + 1:]), loc)
        if s.startswith("assert("):
            e = match_close(s, 6)
            a = split_top(s[7:e])[0]
            exp = True
            if a.startswith("!"):
                exp, a = False, a[1:]
            return ("assert", P.operand(a), exp, target(s[e + 1:]), loc, s[7:e])
        # calls:  PLACE = CALLEE(ARGS) -> bbN   |  PLACE = CALLEE(ARGS) (diverging)
        k = find_assign(s)
        if k < 0:
            return None
        lhs, rhs = s[:k], s[k + 3:]
        m = re.search(r"\) -> (\[.*\]|bb\d+)$", rhs)
        tgt = None
        if m:
            tgt = target(rhs[m.start() + 1:])
            call = rhs[:m.start() + 1]
        else:
            # diverging call?  must end in ')' and be a path call with "fn" literal
            if not rhs.endswith(")") or not any("fn(" in x for x in lits):
                # literal lines come after; defer decision
                if rhs.endswith(")") and is_divergent_call(rhs):
                    call = rhs
                else:
                    return None
            else:
                call = rhs
        # split callee and args: last top-level paren group
        d = 0
        j = len(call) - 1
        j = find_open(call)
        callee, args = call[:j], call[j + 1:-1]
        if callee.startswith("move ") or re.match(r"^_\d+$", callee):
            cal = ("dyn", P.operand(callee))
        else:
            cal = ("fn", callee)
        return ("call", P.place(lhs), cal, [P.operand(x) for x in split_top(args)], tgt, loc, lits)


def find_open(call):
    """index of the '(' matching the final ')'."""
    # scan forward, remembering last top-level group start
    i, n, last = 0, len(call), None
    d = 0
    ang = 0
    while i < n:
        c = call[i]
        if c == '"':
            i = skip_str(call, i); continue
        if c == "'" and i + 2 < n and (call[i + 1] == "\\" or call[i + 2] == "'"):
            i = call.index("'", i + 2 if call[i + 1] != "\\" else i + 3) + 1
            continue
        if c in OPEN:
            if d == 0 and c == "(":
                last = i
            d += 1
        elif c in CLOSE:
            d -= 1
        i += 1
    return last


DIVERGE = re.compile(r"^(?:[A-Za-z_<].*)(?:panic|begin_panic|panic_fmt|panic_str|panic_display|assert_failed|"
                     r"abort|unwrap_failed|expect_failed|panic_utf8|process_abort|unreachable|exit|panic_explicit|"
                     r"handle_alloc_error|capacity_overflow)(?:::<.*>)?\(")


def is_divergent_call(rhs):
    """A call printed without a target: its callee starts with a path whose first char is lower case,
    '<', or a known panic entry point; aggregates start with a type/variant name."""
    j = find_open(rhs)
    callee = rhs[:j]
    if rhs.startswith(("const ", "move ", "&", "(", "[")) or HEAD.match(rhs) and HEAD.match(rhs).group(1) in (
            BINOPS | UNOPS | {"Len", "discriminant", "CopyForDeref"}):
        return False
    last = re.sub(r"::<.*$", "", callee).split("::")[-1]
    if re.match(r"^(_\d|deref_copy )", rhs):
        return False
    return bool(last) and (last[0].islower() or last[0] == "_")


def find_assign(s):
    d, i, n = 0, 0, len(s)
    while i < n:
        c = s[i]
        if c in OPEN: d += 1
        elif c in CLOSE: d -= 1
        elif d == 0 and s.startswith(" = ", i):
            return i
        i += 1
    return -1


def target(s):
    m = re.search(r"return: bb(\d+)", s) or re.search(r"-> bb(\d+)", s) or re.search(r"^ ?bb(\d+)", s.strip())
    if not m:
        m = re.search(r"bb(\d+)", s)
    return int(m.group(1)) if m else None


def cut_comment(st):
    """Split '<code> // scope N at file:l:c: l:c' -> (code, loc)."""
    k = st.rfind(" // ")
    if k < 0:
        return st, ""
    tail = st[k + 4:]
    if tail.startswith(("scope ", "in scope ", "return place ")):
        return st[:k].rstrip(), tail[tail.index(" at ") + 4:]
    return st, ""


# ---------------------------------------------------------------- program
class Program:
    def __init__(self, crate, mir_path, src_root):
        self.crate = crate; self.src_root = src_root
        self.const_uses = {}   # file -> [(definition, type, span)]
        self.const_defs = {}   # definition -> span of its body
        self.const_by_def = {} # definition -> Fn
        cj = mir_path[:-4] + ".consts.json"
        if os.path.exists(cj):
            with open(cj) as f:
                j = json.load(f)
            for d, ty, sp in j["uses"]:
                k = span_key(sp)
                if k:
                    self.const_uses.setdefault(k[0], []).append((d, ty, k))
            for d, sp in j["defs"]:
                self.const_defs.setdefault(d, span_key(sp))
        self.fns = {}          # name -> Fn
        self.all_fns = []      # also those whose printed name is not unique (nested visitors of one derive)
        self.promoted = {}     # (fn name, idx) -> Fn
        self.consts = {}       # const name -> Fn
        self.const_list = []
        self._load(mir_path)
        self._index()

    def _load(self, path):
        with open(path, encoding="utf8") as f:
            lines = f.read().split("\n")
        i, n = 0, len(lines)
        ctfe = False
        while i < n:
            l = lines[i]
            if l.startswith("// MIR FOR CTFE"):
                ctfe = True; i += 1; continue
            if l and l[0] not in " /}\n" and l.endswith("{"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                hdr = l[:-1].strip()
                body = lines[i + 1:j]
                if not ctfe:
                    self._add(hdr, body)
                ctfe = False
                i = j + 1
                continue
            i += 1

    def _add(self, hdr, body):
        if hdr.startswith("fn "):
            f = Fn(hdr, body, "fn")
            k = hdr.index("(", 3)
            # name may contain <impl at ...> and closures `{closure#0}`; first '(' after name
            k = name_end(hdr)
            f.name = hdr[3:k]
            e = match_close(hdr, k)
            for p in split_top(hdr[k + 1:e]):
                m = re.match(r"^_(\d+): (.*)$", p)
                f.params.append((int(m.group(1)), m.group(2)))
            r = hdr[e + 1:].strip()
            f.ret = r[3:] if r.startswith("-> ") else "()"
            for (l, t) in f.params:
                f.locals[l] = t
            # first definition wins (MIR may print shims later)
            self.fns.setdefault(f.name, f)
            self.all_fns.append(f)
        elif hdr.startswith("promoted["):
            m = re.match(r"^promoted\[(\d+)\] in (.*): (.*) =$", hdr)
            f = Fn(hdr, body, "promoted"); f.name = hdr
            nm = m.group(2)
            # type separator ": " may also be inside the impl span; strip the type by trying prefixes
            self.promoted[(self._prom_name(hdr), int(m.group(1)))] = f
        else:
            m = re.match(r"^(?:const|static|static mut) (.*?): (.*) =$", hdr)
            f = Fn(hdr, body, "const")
            if m:
                nm = const_name(hdr)
                f.name = nm
                self.consts[nm] = f
                self.const_list.append(f)
            else:
                # constants printed as `Type::NAME: T = {`
                nm = hdr.split(": ")[0]
                f.name = nm
                self.consts[nm] = f
                self.const_list.append(f)

    @staticmethod
    def _prom_name(hdr):
        s = hdr[hdr.index(" in ") + 4:]
        # skip over <impl at a:b:c: d:e> groups
        i = 0
        d = 0
        while i < len(s):
            if s[i] == "<": d += 1
            elif s[i] == ">" and s[i - 1] != "-": d -= 1
            elif d == 0 and s.startswith(": ", i):
                return s[:i]
            i += 1
        return s

    def const_def(self, d):
        """Body of the constant with definition path d."""
        if d in self.const_by_def:
            return self.const_by_def[d]
        sp = self.const_defs.get(d)
        last = re.sub(r"#\d+$", "", d.split("::")[-1])
        r = None
        for f in self.const_list:
            if f.name.split("::")[-1] == last and sp is not None:
                for l in f.text:
                    m = re.search(r"// scope \d+ at (.*)$", l)
                    k = m and span_key(m.group(1))
                    if k and k[0] == sp[0] and k[1] <= sp[2] and sp[1] <= k[2]:
                        r = f
                        break
            if r:
                break
        self.const_by_def[d] = r
        return r

    def _index(self):
        for f in list(self.fns.values()) + list(self.promoted.values()) + self.const_list:
            f.const_uses = self.const_uses
        self.by_method = {}
        self.impl_hdr = {}
        for nm, f in self.fns.items():
            last = nm.split("::")[-1]
            self.by_method.setdefault(last, []).append(nm)

    def snippet(self, span):
        """Source text at 'src/x.rs:l:c: l:c'."""
        m = re.match(r"^(.*?):(\d+):(\d+): (\d+):(\d+)$", span)
        if not m:
            return ""
        p = os.path.join(self.src_root, m.group(1))
        try:
            L = open(p, encoding="utf8").read().split("\n")
        except OSError:
            return ""
        l1, c1, l2, c2 = map(int, m.groups()[1:])
        if l1 == l2:
            return L[l1 - 1][c1 - 1:c2 - 1]
        return " ".join([L[l1 - 1][c1 - 1:]] + L[l1:l2 - 1] + [L[l2 - 1][:c2 - 1]])


def name_end(hdr):
    d, i = 0, 3
    while i < len(hdr):
        c = hdr[i]
        if c == "<": d += 1
        elif c == ">" and hdr[i - 1] != "-": d -= 1
        elif c == "(" and d == 0:
            return i
        i += 1
    raise ValueError(hdr)


def const_name(hdr):
    s = re.sub(r"^(const|static mut|static) ", "", hdr)
    d, i = 0, 0
    while i < len(s):
        c = s[i]
        if c == "<": d += 1
        elif c == ">" and s[i - 1] != "-": d -= 1
        elif d == 0 and s.startswith(": ", i):
            return s[:i]
        i += 1
    return s
