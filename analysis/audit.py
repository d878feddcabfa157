"""Sensitivity audit of the clauses (thorough tier).

Each path summary of an entry point is perturbed the way a bug would change it: one condition forgotten, one state field
left unchanged or altered, one storage effect, promise, action, operand, chaining or result dropped or altered.  The clauses
of the entry point are evaluated on the perturbed summary; the audit reports how many perturbations they object to and lists
the others.  It measures what the clauses constrain; it decides nothing about the source."""
import copy, time
from terms import *
from facts import Facts
from rules import Check

LIMIT = 520          # seconds after the start of the check in which perturbations are still tried
PER_ENTRY = 600


def conditions(p):
    """the summary with one of its path conditions forgotten."""
    atoms = []
    for t, l in p.facts.trail:
        if not any(t is x for x, _ in atoms):
            atoms.append((t, l))
    for i, (t, l) in enumerate(atoms[:40]):
        f, ok = Facts(), True
        for j, (u, k) in enumerate(atoms):
            if j == i:
                continue
            r = f.assume(u, True, k)
            if len(r) != 1:
                ok = False; break
            f = r[0]
        if ok and not f.infeasible() and f.quick(t) is not True:
            q = copy.copy(p); q.facts = f
            yield "forget " + show(t)[:110], q, f


def leaves(t, base, path=()):
    """(path, setter) of every place where t differs from base."""
    if t.op == "upd":
        for (v, i), x in t.args[2]:
            yield from ((pa, (lambda y, s=s, v=v, i=i: setfld(t, v, i, s(y)))) for pa, s in
                        leaves(x, fld(base, v, i), path + ((v, i),)))
    else:
        yield path, lambda y: y


def at(t, path):
    for v, i in path:
        t = fld(t, v, i)
    return t


def variants(p):
    """(description, path, facts) perturbations of one path summary."""
    yield from conditions(p)
    if p.final is not None:
        q = copy.copy(p); q.final = None
        if p.final is not A("S"):
            yield "no commit", q, p.facts
            for path, put in list(leaves(p.final, A("S")))[:20]:
                if not path:
                    continue
                for what, v in (("keep", at(A("S"), path)), ("alter", A("something_else"))):
                    q = copy.copy(p); q.final = put(v)
                    yield "%s field %s" % (what, ".".join(str(i) for _, i in path)), q, p.facts
    for k, (c, key, v, loc) in enumerate(p.stores):
        q = copy.copy(p); q.stores = p.stores[:k] + p.stores[k + 1:]
        yield "drop storage effect %s" % show(c)[:40], q, p.facts
        if v[0] == "put":
            q = copy.copy(p); q.stores = p.stores[:k] + [(c, key, ("put", A("something_else")), loc)] + p.stores[k + 1:]
            yield "alter stored value %s" % show(c)[:40], q, p.facts
            for path, put in list(leaves(v[1], v[1].args[0] if v[1].op == "upd" else v[1]))[:8]:
                if path:
                    q = copy.copy(p)
                    q.stores = p.stores[:k] + [(c, key, ("put", put(at(v[1].args[0], path))), loc)] + p.stores[k + 1:]
                    yield "keep stored field %s.%s" % (show(c)[:40], path[0][1]), q, p.facts
        if key is not None:
            q = copy.copy(p); q.stores = p.stores[:k] + [(c, A("something_else"), v, loc)] + p.stores[k + 1:]
            yield "other storage key %s" % show(c)[:40], q, p.facts
    for k, pr in enumerate(p.proms):
        def with_(n):
            q = copy.copy(p); q.proms = p.proms[:k] + [n] + p.proms[k + 1:]
            return q
        q = copy.copy(p); q.proms = p.proms[:k] + p.proms[k + 1:]
        yield "drop promise %s" % str(pr)[:60], q, p.facts
        for i, a in enumerate(pr.acts):
            n = copy.copy(pr); n.acts = tuple(pr.acts[:i]) + tuple(pr.acts[i + 1:])
            yield "drop action %s" % a[0], with_(n), p.facts
            for j in range(len(a[1])):
                args = list(a[1]); args[j] = A("something_else")
                n = copy.copy(pr)
                n.acts = tuple(pr.acts[:i]) + ((a[0], tuple(args)) + tuple(a[2:]),) + tuple(pr.acts[i + 1:])
                yield "alter operand %d of %s" % (j, a[0]), with_(n), p.facts
        if pr.after is not None:
            n = copy.copy(pr); n.after = None
            yield "unchain promise", with_(n), p.facts
        n = copy.copy(pr); n.recv = A("someone_else")
        yield "other receiver", with_(n), p.facts
    for k, rec in enumerate(p.loops):
        for b, st in enumerate(rec.bodies):
            def body(eff, prom):
                st2 = copy.copy(st); st2.eff = eff; st2.prom = prom
                r2 = copy.copy(rec); r2.bodies = rec.bodies[:b] + [st2] + rec.bodies[b + 1:]
                q = copy.copy(p); q.loops = p.loops[:k] + [r2] + p.loops[k + 1:]
                return q
            n0 = len(rec.entry.eff)
            for i in range(n0, len(st.eff)):
                e = st.eff[i]
                if e[0] in ("put", "del") and e[1].op != "place":
                    yield "loop: drop %s %s" % (e[0], show(e[1])[:40]), body(st.eff[:i] + st.eff[i + 1:], st.prom), p.facts
            for pid, (recv, acts, after) in st.prom.items():
                was = rec.entry.prom.get(pid)
                for i in range(len(was[1]) if was else 0, len(acts)):
                    pr = dict(st.prom); pr[pid] = (recv, tuple(acts[:i]) + tuple(acts[i + 1:]), after)
                    yield "loop: drop action %s" % acts[i][0], body(st.eff, pr), p.facts
        if len(rec.bodies) > 1 and Check.loop_effects(rec, None):
            for b in range(len(rec.bodies)):
                r2 = copy.copy(rec); st = copy.copy(rec.entry); st.facts = rec.bodies[b].facts
                r2.bodies = rec.bodies[:b] + [st] + rec.bodies[b + 1:]
                q = copy.copy(p); q.loops = p.loops[:k] + [r2] + p.loops[k + 1:]
                yield "loop: iteration %d does nothing" % b, q, p.facts
    if p.ret is not None:
        q = copy.copy(p); q.ret = T("json", A("something_else"))
        yield "other result", q, p.facts


def audit(spec, cr, entry, pid, t0):
    s = cr.summ[entry]
    base = Check(spec, cr, entry)
    base.run()
    ok = {(tuple(sorted(r.tags)), r.facet) for r in base.results}
    n = d = 0
    missed = {}
    todo = [(p, w) for p in s.paths for w in variants(p)]
    stride = max(1, len(todo) // PER_ENTRY)
    for p, (what, q, f) in todo[::stride]:
        if time.time() - t0 > LIMIT:
            break
        c = Check(spec, cr, entry)
        c.s = s; c.inputs = base.inputs; c.t0 = time.process_time()
        c.MAXREF = 120
        try:
            c.refine(q, f, "path")
        except Exception:
            missed["error " + what] = 1
            continue
        if not c.nrefined and not c.results:
            continue
        n += 1
        if [r for r in c.results if (tuple(sorted(r.tags)), r.facet) not in ok]:
            d += 1
        else:
            missed[what] = missed.get(what, 0) + 1
    return {"entry": entry, "mutants": n, "detected": d, "missed": ["%s: %s (%d)" % (entry, w, missed[w]) for w in sorted(missed)][:40]}
