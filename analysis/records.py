"""Records on the wire and in storage (rule X09).

Everything else in this analysis treats (de)serialisation of the repository's own types as faithful.  This rule is what
entitles it to: for each local type, the resolved bodies of its BorshSerialize/BorshDeserialize impls (derived or not)
are interpreted and `deserialize` has to read back, item by item, exactly what `serialize` wrote; its serde impls have to
name every declared field and variant, in both directions; and equality and cloning have to be structural."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from terms import *
import absint as ai, mir as M, rules

IOERR = re.compile(r"Result<\s*([\w:]+)\s*,\s*std::io::Error>")


class RecInterp(ai.Interp):
    """Interprets one impl; the serialisation framework's own calls are recorded or answered."""

    def __init__(self, cr, reads=None):
        super().__init__(cr)
        self.reads = reads
        self.short = []

    def val(self, st, v):
        return self.freeze(st, v)

    def dispatch(self, st, raw, args, loc, rty, atys):
        c = self.c.callee(raw)
        tr = ai.base_type(c.trait) if c.trait else ""
        if c.method == "serialize" and len(args) == 2 and tr in ("BorshSerialize", "Serialize"):
            st = st.fork()
            st.effect("item", norm_ty(c.selfty), self.val(st, args[0]), loc)
            return [(st, ok(UNIT))]
        if c.method == "write_all" and len(args) == 2:
            st = st.fork()
            st.effect("item", "bytes", self.val(st, args[1]), loc)
            return [(st, ok(UNIT))]
        if c.method == "deserialize" and tr == "BorshDeserialize" and self.reads is not None:
            st = st.fork()
            n = st.cnt.get("read", 0)
            st.cnt["read"] = n + 1
            want = norm_ty(c.selfty)
            if n >= len(self.reads):
                st.effect("over", want, loc)
                return [(st, ok(T("beyond", n)))]
            ty, v = self.reads[n]
            one = byte_of(v) if ty == "bytes" else None
            if ty == want:
                st.effect("read", n)
                return [(st, ok(v))]
            if want == "u8" and one is not None:
                st.effect("read", n)
                return [(st, ok(one))]
            st.effect("mismatch", ty, want, loc)
            return [(st, ok(T("misread", v)))]
        if tr in ("Serializer", "SerializeStruct", "SerializeStructVariant", "SerializeTupleVariant", "SerializeMap"):
            st = st.fork()
            if c.method in ("serialize_field", "serialize_entry"):
                st.effect("field", *[self.val(st, a) for a in args[1:]], loc)
                return [(st, ok(UNIT))]
            if c.method == "skip_field":
                st.effect("skip", self.val(st, args[1]), loc)
                return [(st, ok(UNIT))]
            if c.method == "end":
                return [(st, ok(UNIT))]
            st.effect("open", c.method, *[self.val(st, a) for a in args[1:]], loc)
            return [(st, ok(A("serializer")))]
        if c.method == "serialize_tagged_newtype":
            st = st.fork()
            st.effect("open", "tagged", *[self.val(st, a) for a in args[1:]], loc)
            return [(st, ok(UNIT))]
        return super().dispatch(st, raw, args, loc, rty, atys)


def norm_ty(t):
    """a type without lifetimes, references and module paths"""
    t = re.sub(r"&(?:'\w+ )?(?:mut )?", "", t or "")
    return re.sub(r"\b(?:\w+::)+", "", t).replace(" ", "")


def byte_of(v):
    """the byte of a one byte array [x] or x.to_le_bytes()"""
    while v.op == "call" and v.args[0].split("::")[-1] in ("to_le_bytes", "to_be_bytes", "as_slice", "as_ref") \
            and len(v.args[1]) == 1:
        v = v.args[1][0]
    if v.op == "agg" and v.args[0] == "[]" and len(v.args[3]) == 1:
        return v.args[3][0]
    return v if v.op == "i" else None


def run(cr, name, reads=None, nself=1):
    ip = RecInterp(cr, reads)
    st = ai.State()
    f = cr.prog.fns[name].parse()
    args = []
    for i, (l, ty) in enumerate(f.params):
        if ty.startswith("&"):
            st.mem[("R", i, 0)] = A("self") if i == 0 and reads is None else A("arg%d" % i)
            args.append(T("ref", ("R", i, 0), ()))
        else:
            args.append(A("arg%d" % i))
    return ip, ip.call_local(st, name, args)


# ---------------------------------------------------------------------- which impls a contract has
class Impl:
    def __init__(self, trait, ty, fn, derived):
        self.trait = trait; self.ty = ty; self.fn = fn; self.derived = derived


def tname(t):
    return ai.base_type(re.sub(r"^&(?:'\w+ )?(?:mut )?", "", t.strip()))


def impls(cr):
    """{(trait, type): Impl} for the local types"""
    out = {}
    local = set(cr.structs) | set(cr.enums)
    for nm, f in cr.prog.fns.items():
        m = re.search(r"<impl at (.*?)>::([^<>:]*)$", nm)
        if not m or "{closure" in nm or nm.count("<impl at") > 1:
            continue
        h = cr._impl_header(m.group(1))
        if not h[0]:
            continue
        derived = h[0].startswith("derive:")
        tr = h[0][7:] if derived else h[0]
        meth = m.group(2)
        ps = [t for _, t in f.params]
        if meth == "serialize" and len(ps) == 2:
            tr = "BorshSerialize" if ps[1].startswith("&mut") else "Serialize"
            ty = tname(ps[0])
        elif meth == "deserialize" and len(ps) == 1:
            e = IOERR.search(f.ret)
            tr = "BorshDeserialize" if e else "Deserialize"
            ty = tname(e.group(1)) if e else tname(re.match(r"Result<\s*([^,<]*)", f.ret).group(1)) if f.ret.startswith("Result<") else ""
        elif meth in ("eq", "ne", "clone", "drop", "partial_cmp", "cmp", "hash") and ps:
            ty = tname(ps[0])
            tr = {"eq": "PartialEq", "ne": "PartialEq", "clone": "Clone", "drop": "Drop", "hash": "Hash"}.get(meth, "Ord")
        else:
            continue
        if ty in local:
            out[(tr, ty, meth)] = Impl(tr, ty, nm, derived)
    return out


def fields_of(cr, ty, variant):
    if variant is None:
        return cr.structs.get(ty, [])
    return cr.variants.get(ty, {}).get(variant, [])


def variant_on(cr, st, ty, me=None):
    """the variants of `self` that the path admits"""
    if ty not in cr.enums:
        return [None]
    from facts import is_
    me = me or A("self")
    r = []
    for v in cr.enums[ty]:
        if st.facts.quick(is_(me, ty, v)) is not False:
            r.append(v)
    return r


def part(st, v):
    return fld(A("self"), *v) if isinstance(v, tuple) else v


def same(st, a, b):
    return a is b or st.facts.quick(tm_eq(a, b)) is True


def tm_eq(a, b):
    return T("eq", *sorted((a, b), key=lambda t: t.id))


# ---------------------------------------------------------------------- the rules
def borsh(acc, cr, ims):
    c = cr.name
    for (tr, ty, meth), im in sorted(ims.items()):
        if tr == "BorshDeserialize" and ("BorshSerialize", ty, "serialize") not in ims:
            acc.bad("X09", c, ty, "borsh", "%s can be decoded but not encoded" % ty)
        if tr != "BorshSerialize":
            continue
        de = ims.get(("BorshDeserialize", ty, "deserialize"))
        _, outs = run(cr, im.fn)
        seen, tags = set(), {}
        for st, ret in outs:
            items = [e[1:3] for e in st.eff if e[0] == "item"]
            where = next((e[-1] for e in st.eff if e[0] == "item"), "")
            vs = variant_on(cr, st, ty)
            if not (ret.op == "agg" and ret.args[1] == "Ok"):
                acc.bad("X09", c, ty, "borsh:refuses", "a %s may not be encodable" % ty, where)
                continue
            for v in vs:
                acc.obl("X09", "%s %s%s: encoded as %s" % (c, ty, "::" + v if v else "", " ".join(t for t, _ in items)))
                seen.add(v)
                nf = len(fields_of(cr, ty, v))
                if de is None:
                    vals = [x for _, x in items]
                    for i in range(nf):
                        if fld(A("self"), v, i) not in vals:
                            acc.bad("X09", c, ty, "borsh:lost:%s" % i, "field %s of %s is not part of its encoding"
                                    % (fields_of(cr, ty, v)[i][0] or i, v or ty), where)
                    if v is not None:
                        b = byte_of(items[0][1]) if items and items[0][0] == "bytes" else None
                        if b is None or b.op != "i" or b.args[0] in tags:
                            acc.bad("X09", c, ty, "borsh:tag", "%s::%s is encoded like another variant" % (ty, v), where)
                        else:
                            tags[b.args[0]] = v
                    continue
                ip, back = run(cr, de.fn, [(t, x) for t, x in items])
                if not back:
                    acc.bad("X09", c, ty, "borsh:unreadable", "an encoded %s%s cannot be decoded" % (ty, "::" + v if v else ""), where)
                for s2, r2 in back:
                    check_read(acc, cr, ty, v, nf, items, st, s2, r2, where)
                if ip.panics:
                    acc.bad("X09", c, ty, "borsh:panics", "decoding a %s may panic" % ty, where)
        for v in (cr.enums.get(ty) or [None]):
            if v not in seen:
                acc.bad("X09", c, ty, "borsh:never", "%s%s is never encoded" % (ty, "::" + v if v else ""))


def check_read(acc, cr, ty, v, nf, items, st, s2, r2, where):
    c, nm = cr.name, ty + ("::" + v if v else "")
    for e in s2.eff:
        if e[0] == "over":
            acc.bad("X09", c, ty, "borsh:short", "decoding a %s reads more than encoding it wrote" % nm, where); return
        if e[0] == "mismatch":
            acc.bad("X09", c, ty, "borsh:type", "decoding a %s reads a %s where a %s was written" % (nm, e[2], e[1]), where); return
    if not (r2.op == "agg" and r2.args[1] == "Ok"):
        acc.bad("X09", c, ty, "borsh:unreadable", "an encoded %s is refused when it is decoded" % nm, where); return
    if sum(1 for e in s2.eff if e[0] == "read") < len(items):
        acc.bad("X09", c, ty, "borsh:long", "decoding a %s reads less than encoding it wrote" % nm, where); return
    x = r2.args[3][0]
    if x is A("self"):
        return
    if x.op != "agg" or x.args[0] != ty or (v is not None and x.args[1] != v):
        acc.bad("X09", c, ty, "borsh:other", "an encoded %s is decoded as %s" % (nm, show(x)[:120]), where); return
    for i in range(max(nf, len(x.args[3]))):
        got = x.args[3][i] if i < len(x.args[3]) else None
        if got is None or not same(st, got, fld(A("self"), v, i)):
            fn = fields_of(cr, ty, v)
            acc.bad("X09", c, ty, "borsh:field:%d" % i, "field %s of %s is decoded as %s" % (
                fn[i][0] or i if i < len(fn) else i, nm, show(got)[:120] if got is not None else "nothing"), where)


def serde_out(acc, cr, ims):
    """every field and variant appears, with its own value, under its own name"""
    c = cr.name
    for (tr, ty, meth), im in sorted(ims.items()):
        if tr != "Serialize":
            continue
        _, outs = run(cr, im.fn)
        shapes = {}
        for st, ret in outs:
            evs = [e for e in st.eff if e[0] in ("item", "field", "skip", "open")]
            where = next((e[-1] for e in evs), "")
            if not (ret.op == "agg" and ret.args[1] == "Ok"):
                acc.bad("X09", c, ty, "serde:refuses", "a %s may not be serialisable" % ty, where)
                continue
            for v in variant_on(cr, st, ty):
                nm = ty + ("::" + v if v else "")
                fs = fields_of(cr, ty, v)
                acc.obl("X09", "%s %s: serialised" % (c, nm))
                keyed, plain, labels = {}, [], set()
                for e in evs:
                    a = e[1:-1]
                    labels |= {x.args[0] for x in a if isinstance(x, Term) and x.op == "s"}
                    if e[0] == "field" and len(a) == 2:
                        keyed[a[0].args[0] if a[0].op == "s" else show(a[0])] = a[1]
                    elif e[0] in ("item", "open", "field"):
                        plain += [x for x in a if isinstance(x, Term)]
                for i, (fname, fty) in enumerate(fs):
                    val = fld(A("self"), v, i)
                    if fname is None:
                        ok_ = any(val is x for x in plain) or any(val is x for x in keyed.values())
                    else:
                        ok_ = fname in keyed and same(st, keyed[fname], val)
                        if not ok_ and fname not in keyed and tname(fty) == "Option":
                            from facts import is_
                            ok_ = st.facts.quick(is_(val, "Option", "Some")) is False
                        for k, x in keyed.items():
                            if k != fname and k in {n for n, _ in fs} and x is val:
                                ok_ = False
                    if not ok_:
                        acc.bad("X09", c, ty, "serde:lost:%s" % (fname or i), "field %s of %s is not serialised under its name"
                                % (fname or i, nm), where)
                extra = set(keyed) - {n for n, _ in fs}
                if v is not None:
                    if v in labels:
                        shapes.setdefault(("name", v), set()).add(v)
                    else:
                        shapes.setdefault(tuple(sorted(n for n, _ in fs if n)), set()).add(v)
        for sh, vs in shapes.items():
            if len(vs) > 1:
                acc.bad("X09", c, ty, "serde:variant", "%s of %s are serialised alike" % (" and ".join(sorted(vs)), ty))


def tag_out(cr, ty, im):
    """how the serialised form names the variant: under a key, by an enclosing object, or not at all"""
    _, outs = run(cr, im.fn)
    modes = set()
    for st, ret in outs:
        evs = [e[1:-1] for e in st.eff if e[0] in ("item", "field", "open")]
        for v in variant_on(cr, st, ty):
            key = [e[0].args[0] for e in evs if len(e) == 2 and isinstance(e[0], Term) and e[0].op == "s" and e[1] is S(v)]
            modes.add("key " + key[0] if key else "name" if any(x is S(v) for e in evs for x in e) else "none")
    return modes.pop() if len(modes) == 1 else "mixed" if modes else None


def tag_in(cr, ty, im):
    f = cr.prog.fns[im.fn]
    txt = "\n".join(f.text)
    m = re.search(r"TaggedContentVisitor(?:::<.*?>)?::new\((.*?)\) ->", txt)
    if m:
        s = STR.findall(m.group(1))
        if not s:
            loc = dict(re.findall(r"(_\d+) = const \"((?:[^\"\\]|\\.)*)\"", txt))
            s = [loc[x] for x in re.findall(r"_\d+", m.group(1)) if x in loc]
        return "key " + s[0] if s else "mixed"
    names = [names_of(g) for g in visitors(cr).get((ty, "str"), [])]
    return "name" if any(set(n) >= set(cr.enums[ty]) for n in names) else "none"


def tagging(cr, ty):
    """the ways a type's variants are told apart, writing and reading"""
    ims = impls(cr)
    o, i = ims.get(("Serialize", ty, "serialize")), ims.get(("Deserialize", ty, "deserialize"))
    return tuple(x for x in (o and tag_out(cr, ty, o), i and tag_in(cr, ty, i)) if x)


def visitors(cr):
    if not hasattr(cr, "_visitors"):
        vis = cr._visitors = {}
        for f in cr.prog.all_fns:
            m = re.search(r"::visit_(str|map)$", f.name)
            if m and f.params:
                t = re.search(r"Deserialize<'de> for ([\w:]+)>", f.params[0][1])
                if t:
                    vis.setdefault((tname(t.group(1)), m.group(1)), []).append(f)
    return cr._visitors


STR = re.compile(r'const "((?:[^"\\]|\\.)*)"')


def consts_of_calls(f, what):
    """string constants handed to calls of `what` in f, in order"""
    out, loc = [], {}
    for l in f.text:
        l = l.strip().split("// ")[0]
        m = re.match(r"(_\d+) = const \"((?:[^\"\\]|\\.)*)\"", l)
        if m:
            loc[m.group(1)] = m.group(2)
        if re.search(r"\b%s\b" % what, l) and "->" in l:
            a = l[l.index(what):]
            s = STR.findall(a)
            if s:
                out += s
            else:
                out += [loc[x] for x in re.findall(r"_\d+", a[a.rindex("(") if "(" in a else 0:]) if x in loc][:1]
    return out


def serde_in(acc, cr, ims):
    """every field is read under its own name and may not be left out, every variant is accepted under its own name"""
    c = cr.name
    vis = visitors(cr)
    for (tr, ty, meth), im in sorted(ims.items()):
        if tr != "Deserialize":
            continue
        if not im.derived:
            acc.bad("X09", c, ty, "serde:hand-written", "the hand-written deserialisation of %s cannot be analysed" % ty)
            continue
        names = [names_of(f) for f in vis.get((ty, "str"), [])]
        req = [consts_of_calls(f, "missing_field") for f in vis.get((ty, "map"), [])]
        want = []
        if ty in cr.enums:
            tagged = any(set(n) >= set(cr.enums[ty]) for n in names)
            if tagged:
                want.append((ty, list(cr.enums[ty]), False))
            for v in cr.enums[ty]:
                fs = [n for n, _ in cr.variants[ty][v] if n]
                if fs:
                    want.append((ty + "::" + v, fs, True))
            if not tagged and any(not any(n for n, _ in cr.variants[ty][v]) and not cr.variants[ty][v] for v in cr.enums[ty]):
                acc.bad("X09", c, ty, "serde:variants", "not every variant of %s is accepted under its name" % ty)
        else:
            fs = [n for n, _ in cr.structs.get(ty, [])]
            if not fs:
                continue
            want.append((ty, fs, True))
        if ty in cr.enums and ("Serialize", ty, "serialize") in ims:
            o, i = tag_out(cr, ty, ims[("Serialize", ty, "serialize")]), tag_in(cr, ty, im)
            acc.obl("X09", "%s %s: variants told apart by %s" % (c, ty, o))
            if o != i:
                acc.bad("X09", c, ty, "serde:tag", "%s is written with variants told apart by %s and read by %s" % (ty, o, i))
        for what, fs, needed in want:
            acc.obl("X09", "%s %s: read as %s" % (c, what, ", ".join(fs)))
            n = next((n for n in names if subseq(fs, n)), None)
            if n is None:
                acc.bad("X09", c, ty, "serde:names:" + what.split("::")[-1], "%s is read from %s instead of %s" % (
                    what, " or ".join("/".join(x) for x in names) or "nothing", "/".join(fs)))
            else:
                names.remove(n)
            if needed:
                r = next((r for r in req if sorted(r) == sorted(fs)), None)
                if r is None:
                    acc.bad("X09", c, ty, "serde:optional:" + what.split("::")[-1],
                            "a %s without some of %s is accepted" % (what, "/".join(fs)))
                else:
                    req.remove(r)


def names_of(f):
    """the strings a field visitor compares its input with"""
    out = []
    for l in f.text:
        m = re.search(r"const \"((?:[^\"\\]|\\.)*)\"", l)
        if m:
            out.append(m.group(1))
    return out


def subseq(a, b):
    it = iter(b)
    return all(x in it for x in a)


def structural(acc, cr, ims):
    """clones are equal to the original, equality compares everything, and nothing runs when a value goes away"""
    c = cr.name
    for (tr, ty, meth), im in sorted(ims.items()):
        if tr == "Drop":
            acc.bad("X09", c, ty, "drop", "dropping a %s runs code that the contract analysis does not see" % ty)
        if tr == "Clone" and meth == "clone":
            _, outs = run(cr, im.fn)
            for st, r in outs:
                for v in variant_on(cr, st, ty):
                    acc.obl("X09", "%s %s: clone" % (c, ty))
                    nf = len(fields_of(cr, ty, v))
                    if r is A("self"):
                        continue
                    if r.op != "agg" or r.args[0] != ty or (v is not None and r.args[1] != v) or \
                            any(not same(st, x, fld(A("self"), v, i)) for i, x in enumerate(r.args[3])) or len(r.args[3]) != nf:
                        acc.bad("X09", c, ty, "clone", "the clone of a %s is %s" % (ty, show(r)[:160]))
        if tr in ("PartialEq", "Ord", "Hash") and not im.derived:
            acc.obl("X09", "%s %s: %s" % (c, ty, meth))
            if meth != "eq":
                acc.bad("X09", c, ty, meth, "the hand-written %s of %s cannot be analysed" % (meth, ty))
                continue
            equal(acc, cr, ty, im)


def equal(acc, cr, ty, im):
    from facts import is_
    c = cr.name
    _, outs = run(cr, im.fn)
    a, b = A("self"), A("arg1")
    for st, r in outs:
        for s in st.assume(r, True) if r.op not in ("b",) else ([st] if r is TRUE else []):
            for v in variant_on(cr, s, ty):
                if v is not None and s.facts.quick(is_(b, ty, v)) is not True:
                    acc.bad("X09", c, ty, "eq", "different variants of %s may compare equal" % ty); continue
                for i, (fname, _) in enumerate(fields_of(cr, ty, v)):
                    x, y = fld(a, v, i), fld(b, v, i)
                    if s.facts.quick(tm_eq(x, y)) is not True:
                        acc.bad("X09", c, ty, "eq", "two %s that differ in %s may compare equal" % (ty, fname or i))


def records(acc, crates=None):
    """The rule for the given contracts.  A violation is also one of every other property of that contract, because their
    analysis takes records to be stored and transmitted faithfully."""
    import cross
    for c in (cross.CONTRACTS if crates is None else [x for x in crates if x in cross.CONTRACTS]):
        cr = rules.crate(c)
        rules.activate(cr)
        ims = impls(cr)
        acc.fns |= {c + "::" + im.fn for im in ims.values()}
        for rule in (borsh, serde_out, serde_in, structural):
            rule(acc, cr, ims)
