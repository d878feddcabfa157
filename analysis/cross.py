"""Rules that relate entry points and contracts to each other (X*): interface agreement, gas adequacy, payability,
callback privacy, arithmetic safety and storage layout.  They range over every exported entry point of every contract,
including ones that no clause set mentions."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from terms import *
from facts import Facts, is_
import absint as ai, mir as M, rules, dump
from rules import Result, tm, ident, tbase, tgen

T_ = 10 ** 12
MARGIN = 5 * T_
CONTRACTS = [c for c in dump.CRATES if c != "state-manipulation"]

# who is called, by (calling contract, method); the calling contract itself is the receiver of its callbacks
PEER = {
    ("lockup", "is_whitelisted"): "whitelist", ("lockup", "get_result"): "voting",
    ("lockup", "get_account_staked_balance"): "staking-pool", ("lockup", "get_account_unstaked_balance"): "staking-pool",
    ("lockup", "get_account_total_balance"): "staking-pool", ("lockup", "deposit"): "staking-pool",
    ("lockup", "deposit_and_stake"): "staking-pool", ("lockup", "withdraw"): "staking-pool",
    ("lockup", "stake"): "staking-pool", ("lockup", "unstake"): "staking-pool", ("lockup", "unstake_all"): "staking-pool",
    ("staking-pool-factory", "new"): "staking-pool", ("staking-pool-factory", "add_staking_pool"): "whitelist",
    ("lockup-factory", "new"): "lockup", ("multisig-factory", "new"): "multisig2", ("staking-pool", "vote"): "voting",
}
PAYABLE = {
    "staking-pool": {"deposit", "deposit_and_stake"}, "staking-pool-factory": {"create_staking_pool"},
    "lockup-factory": {"create"}, "multisig-factory": {"create"}, "whitelist": set(), "voting": set(),
    "multisig": set(), "lockup": set(), "multisig2": set(),
    "w-near": {"near_deposit", "near_withdraw", "ft_transfer", "ft_transfer_call", "storage_deposit", "storage_withdraw",
               "storage_unregister"},
}
VIEWS = re.compile(r"^(get_\w+|is_\w+|are_\w+|list_\w+|ft_balance_of|ft_total_supply|ft_metadata|storage_balance_\w+"
                   r"|storage_minimum_balance)$")


class Acc:
    def __init__(self):
        self.results = []; self.count = {}; self.samples = {}
        self.fns = set()

    def obl(self, tag, what):
        self.count[tag] = self.count.get(tag, 0) + 1
        self.samples.setdefault(tag, []).append(what)

    def bad(self, tags, crate, entry, facet, msg, loc=""):
        r = Result(rules.tg(tags), crate, entry, facet, msg, loc)
        if r.key not in {x.key for x in self.results}:
            self.results.append(r)


def calls(path):
    """[(promise, method term, argument term, deposit, gas, loc)] with a known action list"""
    for p in path.proms:
        for a in p.acts:
            if a[0] == "function_call" and len(a[1]) >= 4:
                yield (p,) + tuple(a[1][:4]) + (a[2] if len(a) > 2 else "",)


# ---------------------------------------------------------------------- signatures of the resolved program
ALIAS_RE = re.compile(r"\btype\s+(\w+)\s*=\s*([^;]+);")
WIRE = {"AccountId": "string", "String": "string", "ValidAccountId": "string", "str": "string",
        "U128": "decimal", "U64": "decimal", "I128": "decimal", "I64": "decimal", "WrappedBalance": "decimal",
        "WrappedTimestamp": "decimal", "WrappedDuration": "decimal", "EpochHeight": "num",
        "Base58PublicKey": "public key", "PublicKey": "public key", "Base64VecU8": "base64", "Base58CryptoHash": "base58",
        "u8": "num", "u16": "num", "u32": "num", "u64": "num", "u128": "num", "bool": "bool", "()": "()"}


def wire(cr, ty, depth=0):
    """JSON shape of a type."""
    ty = ty.strip().lstrip("&").strip()
    ty = re.sub(r"^'\w+\s+", "", ty)
    b = tbase(ty)
    g = tgen(ty)
    if ty.startswith("(") and ty != "()":
        return tuple(wire(cr, x, depth) for x in M.split_top(ty[1:-1]))
    if b in ("Option", "Vec", "HashSet", "HashMap"):
        return (b,) + tuple(wire(cr, x, depth) for x in g)
    if b == "PromiseOrValue":
        return wire(cr, g[0], depth)
    al = dict(ALIAS_RE.findall(cr.rs))
    if b in al and not g and depth < 6:
        return wire(cr, al[b], depth + 1)
    if b in WIRE:
        return WIRE[b]
    if b in cr.structs and depth < 6:
        return ("struct",) + tuple(sorted((n, wire(cr, t, depth + 1)) for n, t in cr.structs[b]))
    if b in cr.enums:
        import records
        return ("enum", records.tagging(cr, b)[:1]) + tuple(
            (v,) + tuple((n, wire(cr, t, depth + 1)) for n, t in cr.variants[b][v]) for v in sorted(cr.enums[b]))
    return b


def ext_sigs(cr, method):
    """argument lists of the cross-contract stubs named `method` (ext_contract modules)."""
    out = []
    for m in re.finditer(r"\bpub fn %s(?:<[^>]*>)?\s*\(([^)]*__account_id[^)]*)\)" % re.escape(method), cr.rs):
        args = []
        for a in M.split_top(m.group(1)):
            if ":" in a:
                n, t = a.split(":", 1)
                if not n.strip().startswith("__"):
                    args.append((n.strip(), t.strip()))
        out.append(args)
    return out


def return_type(cr, method):
    """declared result of the exported method."""
    for m in re.finditer(r"\bpub fn %s\s*\(\s*(?:&\s*(?:mut\s+)?self|self|mut self)" % re.escape(method), cr.rs):
        o = cr.rs.index("(", m.start())
        c = M.match_close(cr.rs, o)
        r = re.match(r"\s*->\s*([^{;]+)\{", cr.rs[c + 1:c + 300])
        return " ".join(r.group(1).split()) if r else "()"
    return None


# ---------------------------------------------------------------------- X01
def interfaces(acc):
    for c in CONTRACTS:
        cr = rules.crate(c)
        for e in cr.exports:
            s = rules.summary(cr, e)
            seen = set()
            for p in s.paths:
                for pr, meth, args, dep, gas, loc in calls(p):
                    if meth.op != "s":
                        continue
                    name = meth.args[0]
                    me = pr.recv is A("self_account")
                    if not me and pr.recv.op not in ("cat",) and (c, name) not in PEER and c in ("multisig", "multisig2"):
                        continue
                    tgt = c if me else PEER.get((c, name))
                    if tgt is None:
                        acc.bad("X01", c, e, "interface:" + name, "calls %s of a contract this rule does not know" % name, loc)
                        continue
                    k = (tgt, name, args.id, pr.after)
                    if k in seen:
                        continue
                    seen.add(k)
                    tc = rules.crate(tgt)
                    acc.obl("X01", "%s.%s -> %s.%s" % (c, e, tgt, name))
                    if name not in tc.exports:
                        acc.bad("X01", c, e, "interface:" + name, "calls %s.%s, which %s does not export" % (tgt, name, tgt), loc)
                        continue
                    agree_args(acc, cr, c, e, tc, tgt, name, args, loc)
                    if pr.after is not None and me:
                        prev = [q for q in p.proms if q.pid == pr.after]
                        if prev:
                            agree_result(acc, cr, c, e, prev[0], name, loc)


def agree_args(acc, cr, c, e, tc, tgt, name, args, loc):
    have = rules.args_dict(args)
    want = dict(rules.input_fields(tc, name))
    for n, ty in want.items():
        if n not in have and tbase(ty) != "Option":
            acc.bad("X01", c, e, "interface:%s.%s" % (name, n), "%s.%s needs argument `%s`, which the call does not send"
                    % (tgt, name, n), loc)
    for n in have:
        if n not in want:
            acc.bad("X01", c, e, "interface:%s.%s" % (name, n), "the call sends argument `%s`, which %s.%s does not take"
                    % (n, tgt, name), loc)
    x = args.args[0] if args.op in ("json", "borsh") and isinstance(args.args[0], Term) else None
    sigs = []
    if x is not None and x.op == "agg" and x.args[2]:
        if x.args[0] == "Input":
            sigs = [d for d in (dict(s) for s in ext_sigs(cr, name)) if set(d) == set(have)]
        elif x.args[0] in cr.structs:
            sigs = [dict(cr.structs[x.args[0]])]
    for sg in sigs:
        for n, ty in sg.items():
            if n in want and wire(cr, ty) != wire(tc, want[n]):
                acc.bad("X01", c, e, "interface:%s.%s" % (name, n), "argument `%s` is sent as %s, but %s.%s decodes %s"
                        % (n, ty, tgt, name, want[n]), loc)


def agree_result(acc, cr, c, e, prev, cb, loc):
    """the type the callback decodes is what the preceding call returns."""
    last = [a for a in prev.acts if a[0] == "function_call"]
    if not last or last[-1][1][0].op != "s":
        return
    m = last[-1][1][0].args[0]
    tgt = c if prev.recv is A("self_account") else PEER.get((c, m))
    if tgt is None or cb not in cr.exports:
        return
    s = rules.summary(cr, cb)
    tys = set()
    for p in s.paths:
        for t, v in p.facts.tf.items():
            if t.op == "decodes" and any(isinstance(x, Term) and x.op == "presult" for x in subterms(t.args[0])):
                tys.add(str(t.args[1]))
    rt = return_type(rules.crate(tgt), m)
    for ty in tys:
        acc.obl("X01", "%s.%s result of %s.%s" % (c, cb, tgt, m))
        w = wire(rules.crate(tgt), rt) if rt is not None else None
        if isinstance(w, tuple) and "<" not in ty and w[0] in ("Option", "Vec"):
            w = (w[0],)                     # the description of the decoded value keeps the outer type only
        if w != wire(cr, ty):
            acc.bad("X01", c, cb, "interface:result", "decodes %s, but %s.%s returns %s" % (ty, tgt, m, rt), loc)


# ---------------------------------------------------------------------- X02
_NEED = {}


def need(c, e):
    """gas that one execution of c.e hands on (greatest over its executions)."""
    k = (c, e)
    if k not in _NEED:
        _NEED[k] = 0
        cr = rules.crate(c)
        if e in cr.exports:
            best = 0
            for p in rules.summary(cr, e).paths:
                g = 0
                for pr, meth, args, dep, gas, loc in calls(p):
                    if gas.op == "i":
                        g += gas.args[0]
                best = max(best, g)
            _NEED[k] = best
    return _NEED[k]


def gas(acc):
    for c in CONTRACTS:
        cr = rules.crate(c)
        for e in cr.exports:
            done = set()
            for p in rules.summary(cr, e).paths:
                for pr, meth, args, dep, g, loc in calls(p):
                    if meth.op != "s" or g.op != "i":
                        continue
                    name = meth.args[0]
                    me = pr.recv is A("self_account")
                    tgt = c if me else PEER.get((c, name))
                    if tgt is None or (tgt, name, g) in done:
                        continue
                    done.add((tgt, name, g))
                    n = need(tgt, name)
                    acc.obl("X02", "%s.%s -> %s.%s: %d Tgas for %d Tgas handed on" % (c, e, tgt, name, g.args[0] // T_, n // T_))
                    if g.args[0] < n + MARGIN:
                        acc.bad("X02", c, e, "gas:" + name, "%s.%s gets %d Tgas but hands on %d Tgas itself"
                                % (tgt, name, g.args[0] // T_, n // T_), loc)
            if need(c, e) > 300 * T_ - MARGIN:
                acc.bad("X02", c, e, "gas:total", "hands on %d Tgas, more than a transaction can carry" % (need(c, e) // T_))


# ---------------------------------------------------------------------- X03 X04
def effects(p):
    return p.final is not None and p.final is not A("S") or p.stores or p.proms or \
        any(rules.Check.loop_effects(l, p) for l in p.loops)


def mentions(p, op):
    for t in p.facts.tf:
        for x in subterms(t):
            if isinstance(x, Term) and x.op == op:
                return True
    for pr in p.proms:
        for a in pr.acts:
            for v in a[1]:
                if any(isinstance(x, Term) and x.op == op for x in subterms(v)):
                    return True
    for v in (p.final, p.ret):
        if v is not None and any(isinstance(x, Term) and x.op == op for x in subterms(v)):
            return True
    return False


def payability(acc):
    for c in CONTRACTS:
        cr = rules.crate(c)
        pay = PAYABLE[c]
        for e in cr.exports:
            s = rules.summary(cr, e)
            for p in s.paths:
                if VIEWS.match(e):
                    acc.obl("X03", "%s.%s is read-only" % (c, e))
                    if effects(p):
                        acc.bad("X03", c, e, "view", "a query changes state or schedules calls", p.where())
                elif e not in pay:
                    acc.obl("X03", "%s.%s refuses deposits" % (c, e))
                    if p.facts.entails(eqn(A("deposit"), I(0))) is not True:
                        acc.bad("X03", c, e, "payable", "accepts an attached deposit and keeps it", p.where())
                else:
                    acc.obl("X03", "%s.%s is payable" % (c, e))
            if e in pay and all(p.facts.entails(eqn(A("deposit"), I(0))) is True for p in s.paths):
                acc.bad("X03", c, e, "payable", "no longer accepts a deposit")
            for p in s.paths:
                if mentions(p, "presult"):
                    acc.obl("X04", "%s.%s" % (c, e))
                    if p.facts.entails(ident(A("caller"), A("self_account"))) is not True:
                        acc.bad("X04", c, e, "private", "reads the result of a call it did not make: anyone may call it",
                                p.where())
        for e in pay:
            if e not in cr.exports:
                acc.bad("X03", c, e, "payable", "payable method %s is gone" % e)


# ---------------------------------------------------------------------- X05
def initialised(acc):
    """exactly one exported method creates the state, and only while there is none; every other one needs it."""
    for c in CONTRACTS:
        if c == "multisig-factory":
            continue
        cr = rules.crate(c)
        some = is_(T("state"), "Option", "Some")
        for e in cr.exports:
            for p in rules.summary(cr, e).paths:
                if p.facts.entails(some) is True:
                    acc.obl("X05", "%s.%s" % (c, e))
                    continue
                if e == "new" and p.facts.entails(tnot_(some)) is True:
                    acc.obl("X05", "%s.%s" % (c, e))
                    continue
                if p.final is None and not p.stores and not p.proms:
                    continue
                acc.bad("X05", c, e, "init", "runs on a contract without state, or replaces existing state", p.where())


def tnot_(t):
    return T("not", t)


# ---------------------------------------------------------------------- X06
# operations that lose high bits and have no value model (wrapping_add and friends are modelled: an operand range that
# does not provably fit leaves a `trunc` value, which is reported where it is used)
RAW = re.compile(r"^(wrapping_(?!add$|sub$|mul$)\w+|overflowing_\w+|unchecked_(?:shl|shr|neg)|to_int_unchecked)$")


def arithmetic(acc):
    import tomllib
    for c in CONTRACTS:
        cr = rules.crate(c)
        with open(os.path.join(dump.REPO, c, "Cargo.toml"), "rb") as f:
            prof = tomllib.load(f).get("profile", {}).get("release", {})
        acc.obl("X06", "%s release profile" % c)
        if prof.get("overflow-checks") is not True:
            acc.bad("X06", c, "Cargo.toml", "overflow-checks", "the release profile does not enable overflow checks")
        fns = set()
        for e in cr.exports:
            s = rules.summary(cr, e)
            fns |= set(s.fns)
            for p in s.paths:
                acc.obl("X06", "%s.%s" % (c, e))
                bad = None
                vals = [p.final, p.ret] + [v for _, _, w, _ in p.stores for v in w[1:]] + \
                    [v for pr in p.proms for a in pr.acts for v in a[1]] + list(p.facts.tf) + [t for t, _ in p.facts.trail]
                for v in vals:
                    if not isinstance(v, Term):
                        continue
                    for x in subterms(v):
                        if isinstance(x, Term) and x.op == "trunc" and not harmless(x):
                            bad = x
                if bad is not None:
                    acc.bad("X06", c, e, "truncation", "a value may lose high bits before it is used: %s" % show(bad)[:160],
                            p.where())
            for o, meth, fn in s.callees:
                if RAW.match(meth or ""):
                    acc.bad("X06", c, ai.short_name(fn), "wrapping:" + meth, "%s in %s wraps instead of aborting" % (meth, fn))
        acc.fns |= fns


def harmless(x):
    """collection lengths are below 2^32."""
    return x.args[0].op in ("mlen", "len", "strlen")


# ---------------------------------------------------------------------- X07
def colls(t, out):
    """every position that holds a collection (the same collection in two places counts twice)."""
    if isinstance(t, (tuple, list)):
        for x in t:
            colls(x, out)
    if not isinstance(t, Term):
        return
    if t.op == "coll":
        out.append(t)
    elif t.op == "ftnew":
        out.append(T("coll", "FungibleToken", t.args[0]))
    else:
        for x in t.args:
            colls(x, out)


def prefix(cr, t):
    """bytes under which a collection stores its entries."""
    if t.op == "s":
        return t.args[0].encode("latin1")
    if t.op == "agg" and t.args[1] is not None and t.args[0] in cr.enums and not t.args[3]:
        return bytes([cr.enums[t.args[0]].index(t.args[1])])
    return None


def storage(acc):
    for c in CONTRACTS:
        if c == "multisig-factory":
            continue
        cr = rules.crate(c)
        if "new" not in cr.exports:
            acc.bad("X07", c, "new", "anchor", "no initialiser")
            continue
        for p in rules.summary(cr, "new").paths:
            if p.final is None:
                continue
            cs = []
            colls(p.final, cs)
            pre = []
            for x in cs:
                b = prefix(cr, x.args[1]) if isinstance(x.args[1], Term) else None
                acc.obl("X07", "%s %s" % (c, show(x)))
                if b is None:
                    acc.bad("X07", c, "new", "prefix", "storage prefix of %s is not a constant" % show(x), p.where())
                    continue
                for y, q in pre:
                    if q.startswith(b) or b.startswith(q):
                        acc.bad("X07", c, "new", "prefix", "%s and %s share storage keys" % (show(x), show(y)), p.where())
                if b"STATE".startswith(b) or not b:
                    acc.bad("X07", c, "new", "prefix", "%s can overwrite the contract state" % show(x), p.where())
                pre.append((x, b))
        for e in cr.exports:
            if e == "new":
                continue
            for p in rules.summary(cr, e).paths:
                for k, _, _, loc in p.stores:
                    if k.op == "coll":
                        acc.bad("X07", c, e, "prefix", "uses the collection %s created outside the initialiser" % show(k), loc)


# ---------------------------------------------------------------------- X10
# what an account may be made to do, and by which methods; `!`: by whoever calls, since it is paid for by the caller or
# prescribed by the bookkeeping; otherwise the caller has to be an account the contract's state names, or the contract
SP_STAKE = {m + "!" for m in ("new", "ping", "deposit", "deposit_and_stake", "stake", "stake_all", "unstake", "unstake_all", "withdraw",
                              "withdraw_all")} | {"resume_staking", "pause_staking", "update_reward_fee_fraction",
                                                  "update_staking_key", "on_stake_action"}
AUTHORITY = {
    "lockup": {"add_full_access_key": {"add_full_access_key"}, "transfer": {"transfer", "termination_withdraw"},
               "pay": {"deposit_to_staking_pool", "deposit_and_stake"}},
    "lockup-factory": {"create_account": {"create!"}, "deploy_contract": {"create!"}, "transfer": {"create!", "on_lockup_create"}},
    "whitelist": {}, "voting": {},
    "staking-pool": {"stake": SP_STAKE, "transfer": {"withdraw", "withdraw_all"}},
    "staking-pool-factory": {"create_account": {"create_staking_pool!"}, "deploy_contract": {"create_staking_pool!"},
                             "transfer": {"create_staking_pool!", "on_staking_pool_create"}},
    "multisig": {"loop": {"confirm!", "add_request_and_confirm!"}},
    "multisig2": {"loop": {"confirm!", "add_request_and_confirm!", "new!"}},
    "multisig-factory": {k: {"create!"} for k in ("create_account", "deploy_contract", "transfer")},
    "w-near": {"transfer": {"near_withdraw"}},
}


def acts_of(p):
    """(kind, receiver, location) of everything a path makes an account do, other than calls without a payment"""
    for pr in p.proms:
        for a in pr.acts:
            k = a[0]
            if k == "function_call":
                if len(a[1]) > 2 and a[1][2] is I(0):
                    continue
                k = "pay"
            yield k, pr.recv, a[2] if len(a) > 2 and isinstance(a[2], str) else ""


def named(p, recv):
    """the caller is the contract, an account that the state names, or the one the action goes to"""
    if recv is A("caller"):
        return True
    for t in p.facts.tf:
        if t.op != "eq" or A("caller") not in t.args:
            continue
        o = t.args[0] if t.args[1] is A("caller") else t.args[1]
        if o is A("self_account") or any(x is A("S") for x in subterms(o) if isinstance(x, Term)):
            return True
    return False


def authority(acc):
    for c in CONTRACTS:
        cr = rules.crate(c)
        table = AUTHORITY[c]
        for e in cr.exports:
            acc.obl("X10", "%s.%s" % (c, e))
            for p in rules.summary(cr, e).paths:
                for k, recv, loc in acts_of(p):
                    ok = table.get(k, ())
                    if e not in ok and e + "!" not in ok:
                        acc.bad("X10", c, e, "authority:" + k, "%s may %s, which is none of its documented operations"
                                % (e, {"pay": "pay with a call", "loop": "schedule actions chosen by data"}.get(k, k.replace("_", " "))), loc)
                    elif e not in ok:
                        continue
                    elif not named(p, recv):
                        acc.bad("X10", c, e, "authority:anyone:" + k, "%s may %s for a caller that the state does not name"
                                % (e, k.replace("_", " ")), loc)
                if any(x[0] == "sys" and re.match(r"promise_|storage_(write|remove)", x[1]) for x in p.st.eff):
                    acc.bad("X10", c, e, "authority:host", "%s calls the host outside the SDK" % e, p.where())
        for k, es in table.items():
            for e in es:
                if e.rstrip("!") not in cr.exports:
                    acc.bad("X10", c, e.rstrip("!"), "anchor", "documented operation %s is gone" % e.rstrip("!"))


RULES = {"X01": interfaces, "X02": gas, "X03": payability, "X04": payability, "X05": initialised, "X06": arithmetic,
         "X07": storage, "X09": lambda acc: __import__("records").records(acc),
         "X10": authority}
