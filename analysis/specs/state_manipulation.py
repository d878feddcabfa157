"""Reference clauses of the state manipulation helper."""
from specs.common import *
from terms import subterms


def make(variant):
    spec = Spec("state-manipulation", "", {}, variant=variant)

    def payload(m, ty):
        """the decoded call input: the buffer is as long as the input register and filled from it."""
        if m.mode == "panic":           # only malformed input, or none, is refused
            seen = set()
            for t, _ in m.facts.trail:
                subterms(t, seen)
            for x in seen:
                if x.op == "sys_register_len":
                    m.require(no(eqn(x, I(2 ** 64 - 1))), "S01", "there is an input")
            for t, v in m.facts.tf.items():
                if t.op in ("decodes", "base64_valid") and v is False:
                    m.reject("S01", "malformed input")
        if m.mode != "path":
            return None
        sys_ = [x for x in m.path.sys]
        src = None
        for t, v in m.facts.tf.items():
            if v and t.op == "decodes" and tbase(str(t.args[1])) == ty:
                src = t.args[0]
        calls = {}
        for x in sys_:
            if x[1] in calls or x[1] not in ("input", "register_len", "read_register"):
                m.fail("S01", "effect:host", "unexpected host call " + x[1], x[3])
            calls[x[1]] = x
        order = [x[1] for x in sys_]
        if src is None or order != ["input", "register_len", "read_register"] \
                or len({c[2][0] for c in calls.values()}) != 1 or calls["read_register"][2][1] is not src:
            m.fail("S01", "input", "the decoded value is not the call's input")
            m.reject("S01", "the request is the call's input")
        n = T("sys_register_len", (calls["input"][2][0],))
        if src.op != "fill" or src.args[1] not in (n, T("trunc", n, "usize")):
            m.fail("S01", "input:length", "the buffer is %s, not the size of the input" % show(src)[:200])
        return T("decode", src, ty)

    def writes(name, ty, field, pair):
        def fn(m):
            p = payload(m, ty)
            if p is None:
                return
            st = [x for x, _ in m.cr.structs.get(ty, [])]
            if field not in st:
                raise SpecError("%s has no field %s" % (ty, field))
            src = fld(p, None, st.index(field))

            def one(mm, el):
                parts = [fld(el.t, None, 0), fld(el.t, None, 1)] if pair else [el.t]
                want = []
                for x in parts:
                    d = T("base64_decode", x)
                    want += [T("strlen", d), d]
                got = mm.path.sys
                if len(got) != 1 or got[0][1] != name or len(got[0][2]) != len(want) + 1 \
                        or any(a is not b for a, b in zip(got[0][2], want)):
                    mm.fail("S01", "effect:" + name, "an entry leads to %s, expected exactly %s(%s)" % (
                        ["%s(%s)" % (x[1], ", ".join(show(y)[:100] for y in x[2])) for x in got], name,
                        ", ".join(show(y)[:100] for y in want)), got[0][3] if got else None)
            m.foreach(src, one, tags="S01")
        return fn
    if variant in ("all", "replace"):
        spec.entry("replace", "S01 S02", live="S01")(writes("storage_write", "ReplaceInput", "entries", True))
    if variant in ("all", "clean"):
        spec.entry("clean", "S01 S02", live="S01")(writes("storage_remove", "CleanInput", "keys", False))
    spec.exact_exports = "S02"
    return spec


SPECS = [make(v) for v in ("all", "clean", "replace")]
