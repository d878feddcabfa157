#!/usr/bin/env python3
"""python3 check.py <PROPERTY> [--thorough]   decide one property on /repo's current source.

exit 0: every obligation of the property is discharged (known findings are printed, see known-findings.txt)
exit 1: a line "VIOLATION property=<id> replay=<file>" per run, details in that file and on the lines above it."""
import importlib, json, multiprocessing, os, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "analysis"))
sys.setrecursionlimit(20000)
import props, dump, rules, cross, audit, records
from rules import Check, Result, SpecError


T0 = time.time()


def specs_of(crate):
    m = importlib.import_module("specs." + crate.replace("-", "_"))
    return m.SPECS if hasattr(m, "SPECS") else [m.SPEC]


class Run:
    """All clause sets of the given contracts on their current source."""

    def __init__(self, crates, pid, thorough):
        self.pid = pid
        self.specs = []
        self.errors = []            # (crate, message): what could not be analysed
        dump.dump_all(crates)
        for c in crates:
            try:
                for s in specs_of(c):
                    self.specs.append((s, rules.crate(s.crate, s.variant)))
            except Exception as e:
                self.errors.append((c, "%s: %s" % (type(e).__name__, str(e)[:1500])))
        self.tasks = []
        for i, (s, cr) in enumerate(self.specs):
            for en in s.entries:
                self.tasks.append((i, en, True))
            for en in sorted(set(cr.exports) - set(s.entries)):
                self.tasks.append((i, en, False))
        self.thorough = thorough

    def one(self, task):
        i, en, known = task
        s, cr = self.specs[i]
        o = {"crate": s.crate, "variant": s.variant, "entry": en, "results": [], "count": {}, "known": known}
        try:
            if known:
                c = Check(s, cr, en).run()
            else:
                c = Check(s, cr, en, extra=True).run()
            o["results"] = [(sorted(r.tags), r.key, r.msg, r.loc) for r in c.results]
            o["count"] = c.count
            o.update(paths=c.npaths, refined=c.nrefined, panics=c.npanics, guards=sorted(c.guards))
            sm = cr.summ.get(en)
            if sm:
                o.update(fns=sorted(sm.fns), calls=sm.calls, unmodelled=sm.unk, steps=sm.steps)
                if self.thorough and known and (c.props | c.live) & {self.pid} or self.thorough and self.pid in c.count:
                    o["audit"] = audit.audit(s, cr, en, self.pid, T0)
        except Exception:
            o["results"].append((sorted(s.entries[en][1] | s.entries[en][2]) if known else sorted(s.new_export),
                                 "%s::%s|error" % (s.crate, en), traceback.format_exc()[-1500:], ""))
        return o

    def all(self):
        global RUN
        RUN = self
        with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
            # the heaviest entry points first
            out = pool.map(go, sorted(self.tasks, key=lambda t: -WEIGHT.get(t[1], 0)), 1)
        return sorted(out, key=lambda o: (o["crate"], o["variant"], o["entry"]))


WEIGHT = {"ping": 9, "deposit_and_stake": 9, "stake": 8, "unstake": 8, "stake_all": 8, "unstake_all": 8, "deposit": 8,
          "withdraw": 8, "withdraw_all": 8, "confirm": 9, "add_request_and_confirm": 9, "get_balance": 5,
          "get_owners_balance": 5, "get_liquid_owners_balance": 5, "get_locked_amount": 5, "transfer": 7,
          "termination_withdraw": 7}


def go(t):
    return RUN.one(t)


def load_known():
    """known-findings.txt: `property=<id>[,<id>] key=<exact key>  <what fails>`; `fixed:` lines suppress nothing."""
    out = {}
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for l in f:
            if l.startswith("property="):
                head, _, rest = l.rstrip("\n").partition(" key=")
                key, _, what = rest.partition("  ")
                for p in head[9:].split(","):
                    out.setdefault(p, {})[key] = what.strip()
    return out


def decide(pid, thorough):
    p = props.P[pid]
    viol = []           # (key, message, location)
    cov = {}
    run = Run(p["crates"], pid, thorough)
    for c, msg in run.errors:
        viol.append(("%s|not-analysed" % c, "the contract cannot be analysed: " + msg, ""))
    outs = run.all()
    obl = {}
    obligations = 0
    fns, entries, aud = set(), [], []
    tot = {"paths": 0, "refined": 0, "panics": 0, "calls": 0, "steps": 0}
    for o in outs:
        for tags, key, msg, loc in o["results"]:
            if pid in tags:
                viol.append((key, msg, loc))
        if o.get("audit"):
            aud.append(o["audit"])
        n = o["count"].get(pid, 0)
        if not n:
            continue
        obligations += n
        nm = o["crate"] + ("[%s]" % o["variant"] if o["variant"] else "") + "::" + o["entry"]
        entries.append({"entry": nm, "paths": o["paths"], "cases": o["refined"], "rejections": o["panics"],
                        "obligations": n, "guards": o["guards"][:12]})
        obl[nm] = n
        fns |= {o["crate"] + "::" + f for f in o.get("fns", ())}
        tot["paths"] += o["paths"]; tot["refined"] += o["refined"]; tot["panics"] += o["panics"]
        tot["steps"] += o.get("steps", 0)
        c = o.get("calls", 0)
        tot["calls"] += len(c) if not isinstance(c, int) else c
    # exports fixed by the build configuration
    for s, cr in run.specs:
        if getattr(s, "exact_exports", None) == pid:
            got, want = set(cr.exports), set(s.entries)
            obligations += 1
            obl["%s[%s] exports" % (s.crate, s.variant)] = 1
            for x in sorted(got ^ want):
                viol.append(("%s[%s]|export:%s" % (s.crate, s.variant, x),
                             "the %s build %s %s" % (s.variant, "also exports" if x in got else "does not export", x), ""))
    samples = []
    if p["cross"]:
        acc = cross.Acc()
        if not run.errors:
            try:
                cross.RULES[p["cross"]](acc)
            except Exception:
                viol.append(("%s|error" % pid, traceback.format_exc()[-1500:], ""))
        for r in acc.results:
            if pid in r.tags:
                viol.append((r.key, r.msg, r.loc))
        n = acc.count.get(pid, 0)
        fns |= acc.fns
        obligations += n
        samples += [str(x) for x in acc.samples.get(pid, [])[:40]]
        if not run.errors and n < p["floor"]:
            viol.append(("%s|floor" % pid, "only %d sites found, at least %d expected: the rule lost its anchors" % (n, p["floor"]), ""))
        cov["cross_sites"] = n
        for s, cr in run.specs:
            for en, sm in cr.summ.items():
                obl.setdefault(s.crate + "::" + en, 0)
                fns |= {s.crate + "::" + f for f in sm.fns}
                tot["paths"] += len(sm.paths); tot["steps"] += sm.steps
                tot["calls"] += sm.calls if isinstance(sm.calls, int) else len(sm.calls)
    if p["cross"] != "X09" and not run.errors:
        acc = cross.Acc()
        try:
            records.records(acc, p["crates"])
        except Exception:
            viol.append(("records|error", traceback.format_exc()[-1500:], ""))
        viol += [(r.key, r.msg, r.loc) for r in acc.results]
        cov["record_obligations"] = acc.count.get("X09", 0)
    if not obligations:
        viol.append(("%s|floor" % pid, "no obligation of this property was found in the source", ""))
    entries.sort(key=lambda e: -e["obligations"])
    bad = len({k for k, _, _ in viol})
    cov.update({
        "explanation": "Every path (trace partition) of each listed exported entry point of the current source, through all "
                       "functions it calls, was summarised by interprocedural disjunctive dataflow over rustc's MIR (wasm32 "
                       "build) and compared with the clauses of this property: required guards, exact state, storage, promise "
                       "and result effects, and absence of further rejections where the property promises progress. " + rule(p),
        "obligations": obligations, "violations": bad, "entry_points": len(obl),
        "paths": tot["paths"], "cases": tot["refined"], "rejecting_paths": tot["panics"], "call_sites": tot["calls"],
        "statements_interpreted": tot["steps"], "functions": len(fns), "exports_enumerated": len(outs),
        "samples": samples + entries[:60], "functions_analysed": sorted(fns)[:200]})
    if aud:
        k = sum(a["mutants"] for a in aud); d = sum(a["detected"] for a in aud)
        cov["sensitivity_audit"] = {"perturbed_summaries": k, "rejected_by_clauses": d,
                                    "not_rejected": [x for a in aud for x in a["missed"]][:60],
                                    "meaning": "each abstract path summary was perturbed (a guard, state write, storage effect, "
                                               "promise, action or result dropped or changed); the clauses must object"}
    return viol, cov


def rule(p):
    return {None: "Rule: clause sets in analysis/specs, equality up to path facts, loops by generic iteration.",
            "X01": "Rule: every promise call site is resolved to its receiver's exported method; argument names, wire types and result types must agree.",
            "X02": "Rule: gas attached >= largest gas the receiver attaches on any of its paths plus a margin; sums fit in one transaction.",
            "X03": "Rule: non-payable exports establish that no deposit is attached on every path that has effects; payable ones accept it; queries have no effects.",
            "X04": "Rule: every export that reads promise results establishes caller = contract on every path.",
            "X05": "Rule: initialisers establish that no state exists, all others load it, on every path.",
            "X06": "Rule: release profile keeps overflow checks and aborts; no narrowing or wrapping operation whose operand may not fit reaches an effect or decision.",
            "X07": "Rule: collection prefixes are constants, pairwise prefix-free and distinct from the state key.",
            "X09": "Rule: interpreting deserialize on what serialize wrote gives back every field of every variant; serde names are the declared ones in both directions, and none may be left out; clone and equality are structural; no Drop code.",
            "X10": "Rule: every action an exported method can make its account perform is one the table of documented operations allows it, for a caller whom the state names where the action spends the account's own means; no direct host effects."}[p["cross"]]


def main():
    t0 = time.time()
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    thorough = "--thorough" in sys.argv
    pid = args[0]
    if pid not in props.P or pid in props.NA:
        print("unknown or unclaimed property " + pid)
        print("VIOLATION property=%s replay=none" % pid)
        return 1
    known = load_known().get(pid, {})
    if not thorough:
        Check.FOCUS = (pid, t0, frozenset(known))
    viol, cov = decide(pid, thorough)
    new, seen = [], set()
    for k, msg, loc in viol:
        if k in seen:
            continue
        seen.add(k)
        if k in known:
            print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known[k], k))
        else:
            new.append({"key": k, "message": msg, "location": loc})
    cov["violations"] = len(new)
    cov["known_findings"] = sorted(set(known) & seen)
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": "other", "coverage": cov, "violations": len(new), "wall_s": round(time.time() - t0, 2),
          "assumptions": ["rustc 1.69 MIR for wasm32 (overflow checks on) represents the deployed contract",
                          "models of near-sdk, borsh, serde and std operations in analysis/models.py",
                          "deserialised state satisfies the type invariants of its structures",
                          "loops are summarised by one generic iteration with havocked loop-carried values"]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not new:
        print("property %s: %d obligations at %d entry points, %d paths, all discharged (%.1f s)" % (
            pid, cov["obligations"], cov["entry_points"], cov["paths"], time.time() - t0))
        return 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    rp = os.path.join(VERIF, "replays", pid + ".json")
    with open(rp, "w") as f:
        json.dump({"property": pid, "violations": new}, f, indent=1)
    for v in new:
        print("%s\n    at %s\n    %s" % (v["key"], v["location"] or "?", v["message"]))
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        print("VIOLATION property=%s replay=none" % (sys.argv[1] if len(sys.argv) > 1 else "?"))
        rc = 1
    sys.stdout.flush()
    os._exit(rc)
