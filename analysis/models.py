"""Transfer functions for the SDK / std operations the contracts call."""
import re
from terms import *
from facts import is_, ENUMS


class Model:
    __slots__ = ("fn", "priority")

    def __init__(self, fn, priority):
        self.fn = fn; self.priority = priority

    def __call__(self, *a):
        return self.fn(*a)


class Registry:
    def __init__(self):
        self.by = {}          # (owner or None, method) -> Model

    def add(self, keys, fn, priority=False):
        for k in keys.split():
            if "::" in k:
                o, m = k.rsplit("::", 1)
            else:
                o, m = None, k
            self.by[(o, m)] = Model(fn, priority)

    def lookup(self, c, interp, args):
        own = c.owner
        m = c.method
        keys = []
        if c.trait:
            from absint import base_type
            tr = base_type(c.trait)
            keys.append((own + "@" + tr, m) if own else None)
            keys.append((own, m))
            keys.append(("@" + tr, m))
            keys.append(("@", m))
        elif own:
            keys.append((own, m))
            if own in ("u8", "u16", "u32", "u64", "u128", "usize", "i32", "i64", "U256"):
                keys.append(("int", m))
            if own == "str" or own.startswith("["):
                keys.append(("str", m))
        if len(c.path) >= 2:
            keys.append((c.path[-2], m))
        if not c.trait and not own:
            keys.append((None, m))
        for k in keys:
            if k in self.by:
                return self.by[k]
        return None


MODELS = Registry()


def model(keys, priority=False):
    def d(fn):
        MODELS.add(keys, fn, priority)
        return fn
    return d


def D(ip, st, v):
    return ip.deref(st, v)


def gen_types(g):
    from mir import split_top
    return split_top(g) if g else []


# ------------------------------------------------------------------ environment
ENVS = {
    "predecessor_account_id": "caller", "signer_account_id": "signer", "current_account_id": "self_account",
    "signer_account_pk": "signer_pk", "attached_deposit": "deposit", "account_balance": "balance",
    "account_locked_balance": "locked_balance", "block_timestamp": "now", "block_index": "block_index",
    "block_height": "block_index", "epoch_height": "epoch", "prepaid_gas": "prepaid_gas", "used_gas": "used_gas",
    "storage_usage": "storage_usage", "random_seed": "random_seed", "validator_total_stake": "total_stake",
    "promise_results_count": "promise_results_count", "storage_byte_cost": "storage_byte_cost",
}


def _env(name):
    def fn(ip, st, args, c, loc, rty, atys):
        return A(name)
    return fn


for _k, _v in ENVS.items():
    MODELS.add(_k + " env::" + _k, _env(_v))


@model("env::validator_stake validator_stake")
def _(ip, st, args, c, loc, rty, atys):
    return T("vstake", ip.freeze(st, args[0]))


@model("env::sha256 sha256 env::keccak256 keccak256")
def _(ip, st, args, c, loc, rty, atys):
    return T(c.method, ip.freeze(st, args[0]))


@model("env::panic env::panic_str panic panic_str panic_fmt begin_panic assert_failed panic_display unreachable_display "
       "panicking::panic panicking::panic_fmt panicking::assert_failed panicking::unreachable_display unwrap_failed abort "
       "env::abort panicking::panic_display process::abort panic_explicit panicking::panic_str wasm32::unreachable "
       "rt::begin_panic unreachable hint::unreachable_unchecked panic_utf8")
def _(ip, st, args, c, loc, rty, atys):
    msg = ip.freeze(st, args[-1]) if args else UNIT
    ip.panic(st, c.method + ":" + (msg.args[0] if msg.op == "s" else show(msg))[:80], loc)
    return []


@model("log env::log env::log_str log_str env::log_utf8 setup_panic_hook env::setup_panic_hook set_blockchain_interface "
       "env::set_blockchain_interface testing_env! utils::log")
def _(ip, st, args, c, loc, rty, atys):
    return UNIT


@model("env::input input")
def _(ip, st, args, c, loc, rty, atys):
    return some(A("input"))


@model("env::state_exists state_exists")
def _(ip, st, args, c, loc, rty, atys):
    return is_(T("state"), "Option", "Some")


@model("env::state_read state_read")
def _(ip, st, args, c, loc, rty, atys):
    a, b = st.branch(is_(T("state"), "Option", "Some"), loc)
    return [(s, some(A("S"))) for s in a] + [(s, NONE) for s in b]


@model("env::state_write state_write")
def _(ip, st, args, c, loc, rty, atys):
    st = st.fork()
    st.effect("commit", ip.freeze(st, args[0]), loc)
    return [(st, UNIT)]


@model("env::value_return value_return")
def _(ip, st, args, c, loc, rty, atys):
    st = st.fork()
    st.effect("return", ip.freeze(st, args[0]), loc)
    return [(st, UNIT)]


@model("env::promise_result promise_result")
def _(ip, st, args, c, loc, rty, atys):
    return T("presult", D(ip, st, args[0]))


@model("env::promise_return promise_return")
def _(ip, st, args, c, loc, rty, atys):
    st = st.fork()
    st.effect("promise_return", D(ip, st, args[0]), loc)
    return [(st, UNIT)]


def psuccess():
    return is_(T("presult", I(0)), "PromiseResult", "Successful")


@model("is_promise_success near_sdk::is_promise_success")
def _(ip, st, args, c, loc, rty, atys):
    out = []
    for s in st.assume(eqn(A("promise_results_count"), I(1)), True, loc):
        out.append((s, psuccess()))
    for s in st.assume(eqn(A("promise_results_count"), I(1)), False, loc):
        ip.panic(s, "Contract expected a result on the callback", loc)
    return out


@model("assert_self near_sdk::assert_self")
def _(ip, st, args, c, loc, rty, atys):
    e = T("eq", *sorted((A("caller"), A("self_account")), key=lambda t: t.id))
    a, b = st.branch(e, loc)
    for s in b:
        ip.panic(s, "Method is private", loc)
    return [(s, UNIT) for s in a]


@model("assert_one_yocto near_sdk::assert_one_yocto")
def _(ip, st, args, c, loc, rty, atys):
    a, b = st.branch(eqn(A("deposit"), I(1)), loc)
    for s in b:
        ip.panic(s, "Requires attached deposit of exactly 1 yoctoNEAR", loc)
    return [(s, UNIT) for s in a]


@model("env::is_valid_account_id is_valid_account_id")
def _(ip, st, args, c, loc, rty, atys):
    v = ip.freeze(st, args[0])
    if v in (A("caller"), A("signer"), A("self_account")):
        return TRUE         # the protocol only lets valid names act
    return T("valid_account", v)


# ------------------------------------------------------------------ serialisation
@model("serde_json::from_slice from_slice serde_json::from_str from_str serde_json::from_value from_value "
       "BorshDeserialize::try_from_slice @BorshDeserialize::try_from_slice try_from_slice")
def _(ip, st, args, c, loc, rty, atys):
    from absint import base_type
    src = ip.freeze(st, args[0])
    g = [x for x in gen_types(c.gen) if not x.startswith("'")]
    ty = g[0] if g else ""
    bt = base_type(ty) if ty else (base_type(c.selfty) if c.selfty else "")
    if src is A("input"):
        val = A("ARG")
        tag = T("decoded", A("input"))
    else:
        val = T("decode", src, bt)
        tag = T("decoded", src, bt)
    b = T("decodes", src, bt)
    t, f = st.branch(b, loc)
    return [(s, ok(val)) for s in t] + [(s, err(T("decode_error", src))) for s in f]


@model("serde_json::to_vec serde_json::to_string @BorshSerialize::try_to_vec @BorshSerialize::serialize serde_json::to_value to_value")
def _(ip, st, args, c, loc, rty, atys):
    v = ip.freeze(st, args[0])
    if c.method in ("to_value",):
        return ok(v)
    if c.method == "serialize" and len(args) == 2:        # appends to a buffer
        w = args[1]
        while w.op == "ref":
            x = ip.load(st, *w.args)
            if x.op != "ref":
                break
            w = x
        if w.op == "ref":
            old = D(ip, st, w)
            st = st.fork()
            b = T("borsh", v)
            ip.store(st, w.args[0], w.args[1], b if old is agg("[]", None, None, ()) else T("vextend_from_slice", ip.freeze(st, old), b))
            return [(st, ok(UNIT))]
    return ok(T("borsh" if c.method == "try_to_vec" else "json", v))


@model("to_vec")
def _(ip, st, args, c, loc, rty, atys):
    v = ip.freeze(st, args[0])
    # serde_json::to_vec (returns Result) vs slice::to_vec
    if rty and "Result<" in rty.split("Vec")[0]:
        return ok(json_of(v))
    return v


@model("to_string")
def _(ip, st, args, c, loc, rty, atys):
    v = ip.freeze(st, args[0])
    if rty and "Result<" in rty:
        return ok(json_of(v))
    return v


def json_of(v):
    if v.op == "agg" and (v.args[1] == "Object" or v.args[0] == "Object"):
        return T("json", v.args[3][0])
    return T("json", v)


@model("Map::new")
def _(ip, st, args, c, loc, rty, atys):
    return T("jmap", ())


@model("Map::insert")
def _(ip, st, args, c, loc, rty, atys):
    m = D(ip, st, args[0])
    k, v = ip.freeze(st, args[1]), ip.freeze(st, args[2])
    st = st.fork()
    if m.op == "jmap":
        d = dict(m.args[0]); d[k] = v
        ip.store(st, args[0].args[0], args[0].args[1], T("jmap", tuple(sorted(d.items(), key=lambda x: show(x[0])))))
    return [(st, NONE)]


@model("Value@ToString::to_string")
def _(ip, st, args, c, loc, rty, atys):
    return json_of(ip.freeze(st, args[0]))


# ------------------------------------------------------------------ promises
def new_promise(st, recv):
    pid = st.nprom
    st.nprom += 1
    st.prom[pid] = (recv, (), None)
    return T("promise", pid)


def pact(st, p, *action):
    pid = p.args[0]
    r, acts, after = st.prom[pid]
    st.prom[pid] = (r, acts + (action,), after)


@model("Promise::new")
def _(ip, st, args, c, loc, rty, atys):
    st = st.fork()
    return [(st, new_promise(st, ip.freeze(st, args[0])))]


def _paction(ip, st, args, c, loc, rty, atys):
    p = D(ip, st, args[0])
    st = st.fork()
    if p.op != "promise":
        return ip.opaque(st, c, args, loc, atys)
    pact(st, p, c.method, tuple(ip.freeze(st, a) for a in args[1:]), loc)
    return [(st, p)]


MODELS.add("Promise::create_account Promise::deploy_contract Promise::function_call Promise::transfer Promise::stake "
           "Promise::add_full_access_key Promise::add_full_access_key_with_nonce Promise::add_access_key "
           "Promise::add_access_key_with_nonce Promise::delete_key Promise::delete_account "
           "Promise::function_call_weight", _paction)


@model("Promise::then")
def _(ip, st, args, c, loc, rty, atys):
    a, b = D(ip, st, args[0]), D(ip, st, args[1])
    st = st.fork()
    if a.op != "promise" or b.op != "promise":
        return ip.opaque(st, c, args, loc, atys)
    r, acts, after = st.prom[b.args[0]]
    st.prom[b.args[0]] = (r, acts, a.args[0])
    return [(st, b)]


@model("Promise::and")
def _(ip, st, args, c, loc, rty, atys):
    a, b = D(ip, st, args[0]), D(ip, st, args[1])
    st = st.fork()
    pid = st.nprom
    st.nprom += 1
    st.prom[pid] = (T("joint", a, b), (), None)
    return [(st, T("promise", pid))]


@model("Promise::as_return")
def _(ip, st, args, c, loc, rty, atys):
    return D(ip, st, args[0])


@model("PromiseOrValue@From::from Promise@Into::into")
def _(ip, st, args, c, loc, rty, atys):
    v = D(ip, st, args[0])
    if rty and "PromiseOrValue" in rty or c.owner == "PromiseOrValue":
        return agg("PromiseOrValue", "Promise", None, (v,))
    return v


# ------------------------------------------------------------------ identity-like
def ident(ip, st, args, c, loc, rty, atys):
    return args[0]


def identv(ip, st, args, c, loc, rty, atys):
    return ip.freeze(st, args[0]) if D(ip, st, args[0]).op != "promise" else D(ip, st, args[0])


MODELS.add("@Clone::clone @ToOwned::to_owned", identv)
MODELS.add("Option::cloned Option::copied", lambda ip, st, args, c, loc, rty, atys: opt_map(ip, st, args, loc, lambda s, v: [(s, ip.freeze(s, v))]))
MODELS.add("@Into::into @From::from @TryInto::try_into_ @AsRef::as_ref @AsMut::as_mut @Deref::deref @DerefMut::deref_mut "
           "@Borrow::borrow @BorrowMut::borrow_mut", lambda ip, st, args, c, loc, rty, atys:
           conv(ip, st, args, c, loc, rty, atys))


def conv(ip, st, args, c, loc, rty, atys):
    from absint import base_type, INTS
    v = args[0]
    if c.method in ("into", "from"):
        d = D(ip, st, v)
        if base_type(rty) == "Option" and atys and base_of(atys[0]) != "Option":
            return some(d)
        if base_type(rty) in VALS and atys and base_type(atys[0]) != base_type(rty):
            return T("bykey", ip.freeze(st, d))
        if d.op == "b":
            return I(1 if d.args[0] else 0)
        return d
    return v


@model("@TryInto::try_into @TryFrom::try_from")
def _(ip, st, args, c, loc, rty, atys):
    from absint import base_type, INTS
    v = ip.freeze(st, args[0])
    src = base_type(atys[0]) if atys else ""
    m = re.search(r"(?:TryInto|TryFrom)<(.*)>$", c.trait or "")
    tgt = base_type(m.group(1)) if m else ""
    if c.method == "try_from":
        tgt = base_type(c.selfty)
    if tgt in INTS:
        if src in INTS and INTS[tgt] >= INTS[src]:
            return ok(v)
        cond = le(v, I((1 << INTS[tgt]) - 1))
        a, b = st.branch(cond, loc)
        return [(s, ok(v)) for s in a] + [(s, err(T("try_from_error", v))) for s in b]
    if v is A("signer_pk"):
        return ok(v)          # the host only reports well-formed keys
    b = T("convertible", v, tgt)
    t, f = st.branch(b, loc)
    return [(s, ok(v)) for s in t] + [(s, err(T("convert_error", v))) for s in f]


MODELS.add("str::as_bytes String::as_bytes String::into_bytes str::to_string str::to_owned String::as_str str::trim_ "
           "slice::to_vec str::to_vec String::into_boxed_str Vec::as_slice Vec::into_boxed_slice Box::new Box::from "
           "str::as_ref String::as_ref Vec::as_ref slice::into_vec str::into_vec AccountId::as_str AccountId::as_bytes "
           "AccountId::new_unchecked AccountId::into_string AccountId::from AccountId::as_ref "
           "ValidAccountId::as_ref ValidAccountId::to_string AccountId::to_string String::from_utf8_unchecked str::from_utf8_unchecked Vec::as_ptr slice::as_ptr String::clone",
           lambda ip, st, args, c, loc, rty, atys: identv(ip, st, args, c, loc, rty, atys))


def displayed(ip, st, v, ty, loc):
    """the text a value is displayed as, where the contract's own Display says so -> [(state, text)]; None: the standard one."""
    from absint import base_type
    while ty.startswith("&"):
        ty = re.sub(r"^&('\w+ )?(mut )?", "", ty)
    nm = ip.c.trait_impls.get((base_type(ty), "Display", "fmt"))
    if nm is None:
        return None
    st = st.fork()
    n = st.cnt.get("tmp", 0) + 1
    st.cnt["tmp"] = n
    to = ("T", n, 0)
    st.mem[to] = S("")
    out = []
    for s, r in ip.call_local(st, nm, [v, T("ref", to, ())], loc):
        t, f = s.branch(is_(D(ip, s, r), "Result", "Ok"), loc)
        for q in f:
            ip.panic(q, "a Display implementation returned an error", loc)
        out += [(q, ip.freeze(q, q.mem[to])) for q in t]
    return out


@model("@ToString::to_string")
def _(ip, st, args, c, loc, rty, atys):
    r = displayed(ip, st, args[0], c.selfty or "", loc)
    return r if r is not None else identv(ip, st, args, c, loc, rty, atys)


@model("Formatter::write_str Formatter::write_fmt Formatter::write_char @Write::write_str @Write::write_fmt @Write::write_char")
def _(ip, st, args, c, loc, rty, atys):
    if args[0].op != "ref" or c.trait and base_of(atys[0]) not in ("String", "Formatter"):
        return ip.opaque(st, c, args, loc, atys)
    v = ip.freeze(st, args[1])
    if v.op == "i":
        v = S(chr(v.args[0]))
    st = st.fork()
    ip.store(st, args[0].args[0], args[0].args[1], cat(D(ip, st, args[0]), v))
    return [(st, ok(UNIT))]


@model("@Display::fmt")
def _(ip, st, args, c, loc, rty, atys):
    if args[1].op != "ref":
        return ip.opaque(st, c, args, loc, atys)
    v = ip.freeze(st, args[0])
    st = st.fork()
    ip.store(st, args[1].args[0], args[1].args[1], cat(D(ip, st, args[1]), v))
    return [(st, ok(UNIT))]


def base_of(ty):
    from absint import base_type
    while ty.startswith("&"):
        ty = re.sub(r"^&('\w+ )?(mut )?", "", ty)
    return base_type(ty)


TEXT = {"json", "hex_encode", "base64_encode", "bs58_encode"}


@model("String::from_utf8 str::from_utf8")
def _(ip, st, args, c, loc, rty, atys):
    v = ip.freeze(st, args[0])
    if v.op in TEXT or v.op == "s" or v in (A("caller"), A("signer"), A("self_account")):
        return ok(v)
    t, f = st.branch(T("utf8", v), loc)
    return [(s, ok(v)) for s in t] + [(s, err(T("utf8_error", v))) for s in f]


@model("AccountId@FromStr::from_str AccountId::try_from str::parse String::parse")
def _(ip, st, args, c, loc, rty, atys):
    v = ip.freeze(st, args[0])
    t, f = st.branch(T("valid_account" if "AccountId" in (rty or "") + c.gen else "parses", v), loc)
    return [(s, ok(v)) for s in t] + [(s, err(T("parse_error", v))) for s in f]


@model("String::new")
def _(ip, st, args, c, loc, rty, atys):
    return S("")


@model("String::len str::len")
def _(ip, st, args, c, loc, rty, atys):
    v = D(ip, st, args[0])
    return I(len(v.args[0].encode())) if v.op == "s" else T("strlen", ip.freeze(st, v))


@model("String::is_empty str::is_empty")
def _(ip, st, args, c, loc, rty, atys):
    v = D(ip, st, args[0])
    return B(len(v.args[0]) == 0) if v.op == "s" else eqn(T("strlen", ip.freeze(st, v)), I(0))


@model("str::find str::contains str::starts_with str::ends_with str::split str::matches str::rfind String::contains String::find")
def _(ip, st, args, c, loc, rty, atys):
    v, p = ip.freeze(st, args[0]), ip.freeze(st, args[1])
    if p.op == "i" and 0 <= p.args[0] < 128:
        p = S(chr(p.args[0]))
    if c.method == "contains":
        return is_(T("strfind", v, p), "Option", "Some")
    if c.method in ("find",):
        return T("strfind", v, p)
    if c.method == "rfind":
        t, f = st.branch(is_(T("strfind", v, p), "Option", "Some"), loc)
        return [(s, some(T("strrfind", v, p))) for s in t] + [(s, NONE) for s in f]
    return T("str_" + c.method, v, p)


@model("String::push_str String::push")
def _(ip, st, args, c, loc, rty, atys):
    v = D(ip, st, args[0])
    st = st.fork()
    ip.store(st, args[0].args[0], args[0].args[1], cat(v, ip.freeze(st, args[1])))
    return [(st, UNIT)]


@model("String@AddAssign::add_assign")
def _(ip, st, args, c, loc, rty, atys):
    a, b = ip.freeze(st, args[0]), ip.freeze(st, args[1])
    st = st.fork()
    ip.store(st, args[0].args[0], args[0].args[1], cat(a, b))
    return [(st, UNIT)]


@model("String@Add::add")
def _(ip, st, args, c, loc, rty, atys):
    return cat(ip.freeze(st, args[0]), ip.freeze(st, args[1]))


@model("slice::join str::join Vec::join slice::concat str::concat")
def _(ip, st, args, c, loc, rty, atys):
    v = ip.freeze(st, args[0])
    sep = ip.freeze(st, args[1]) if len(args) > 1 else S("")
    if v.op == "agg" and v.args[0] == "[]":
        out = []
        for i, x in enumerate(v.args[3]):
            if i:
                out.append(sep)
            out.append(x)
        return cat(*out)
    return T("join", v, sep)


# formatting
@model("ArgumentV1::new_display ArgumentV1::new_debug Argument::new_display Argument::new_debug ArgumentV1::new_lower_hex "
       "ArgumentV1::new_upper_hex")
def _(ip, st, args, c, loc, rty, atys):
    v = ip.freeze(st, args[0])
    if "display" in c.method:
        g = [x for x in gen_types(c.gen) if not x.startswith("'")]
        r = displayed(ip, st, args[0], g[0] if g else (atys[0] if atys else ""), loc)
        return r if r is not None else v
    return T("fmt_" + c.method[4:], v)


@model("Arguments::new_v1 Arguments::new_const Arguments::new_v1_formatted")
def _(ip, st, args, c, loc, rty, atys):
    pcs = ip.freeze(st, args[0])
    vals = ip.freeze(st, args[1]) if len(args) > 1 else agg("[]", None, None, ())
    if pcs.op == "agg" and vals.op == "agg" and c.method != "new_v1_formatted":
        p, v = list(pcs.args[3]), list(vals.args[3])
        out = []
        for i in range(max(len(p), len(v))):
            if i < len(p): out.append(p[i])
            if i < len(v): out.append(v[i])
        return cat(*out)
    return T("fmt", pcs, vals)


@model("format fmt::format alloc::fmt::format")
def _(ip, st, args, c, loc, rty, atys):
    return ip.freeze(st, args[0])


@model("hex::encode base64::encode bs58::encode")
def _(ip, st, args, c, loc, rty, atys):
    return T(c.path[-2] + "_encode", ip.freeze(st, args[0]))


@model("base64::decode hex::decode")
def _(ip, st, args, c, loc, rty, atys):
    v = ip.freeze(st, args[0])
    t, f = st.branch(T(c.path[-2] + "_valid", v), loc)
    return [(s, ok(T(c.path[-2] + "_decode", v))) for s in t] + [(s, err(T("decode_error", v))) for s in f]


# ------------------------------------------------------------------ numbers
def nums(ip, st, args):
    return [D(ip, st, a) for a in args]


@model("int::saturating_sub")
def _(ip, st, args, c, loc, rty, atys):
    a, b = nums(ip, st, args)
    return sat_sub(a, b)


@model("int::saturating_add")
def _(ip, st, args, c, loc, rty, atys):
    from absint import INTS
    a, b = nums(ip, st, args)
    w = INTS.get(c.owner, 128)
    return tmin(add(a, b), I((1 << w) - 1))


@model("int::saturating_mul")
def _(ip, st, args, c, loc, rty, atys):
    from absint import INTS
    a, b = nums(ip, st, args)
    return tmin(mul(a, b), I((1 << INTS.get(c.owner, 128)) - 1))


@model("int::checked_sub")
def _(ip, st, args, c, loc, rty, atys):
    a, b = nums(ip, st, args)
    t, f = st.branch(le(b, a), loc)
    return [(s, some(sub(a, b))) for s in t] + [(s, NONE) for s in f]


@model("int::checked_add int::checked_mul")
def _(ip, st, args, c, loc, rty, atys):
    from absint import INTS
    a, b = nums(ip, st, args)
    r = add(a, b) if c.method == "checked_add" else mul(a, b)
    t, f = st.branch(le(r, I((1 << INTS.get(c.owner, 128)) - 1)), loc)
    return [(s, some(r)) for s in t] + [(s, NONE) for s in f]


@model("int::checked_div int::checked_rem")
def _(ip, st, args, c, loc, rty, atys):
    a, b = nums(ip, st, args)
    t, f = st.branch(eqn(b, I(0)), loc)
    return [(s, some(div(a, b) if c.method == "checked_div" else rem(a, b))) for s in f] + [(s, NONE) for s in t]


@model("int::pow")
def _(ip, st, args, c, loc, rty, atys):
    a, b = nums(ip, st, args)
    if a.op == "i" and b.op == "i":
        return I(a.args[0] ** b.args[0])
    return T("pow", a, b)


@model("int::div_ceil")
def _(ip, st, args, c, loc, rty, atys):
    a, b = nums(ip, st, args)
    return div(sub(add(a, b), I(1)), b)


@model("int::abs_diff")
def _(ip, st, args, c, loc, rty, atys):
    a, b = nums(ip, st, args)
    return add(sat_sub(a, b), sat_sub(b, a))


@model("int::as_u128 int::as_u64 int::as_u32 int::low_u128 int::low_u64")
def _(ip, st, args, c, loc, rty, atys):
    a, = nums(ip, st, args)
    if c.method.startswith("low"):
        return T("trunc", a, c.method)
    return a


@model("int::wrapping_add int::wrapping_sub int::wrapping_mul int::unchecked_add int::unchecked_sub int::unchecked_mul")
def _(ip, st, args, c, loc, rty, atys):
    """the exact result where it provably fits, else a value that lost its high bits."""
    a, b = nums(ip, st, args)
    r = {"add": add, "sub": sub, "mul": mul}[c.method.split("_")[1]](a, b)
    from absint import INTS
    top = (1 << INTS.get(c.owner, 256)) - 1
    f = st.facts
    if f.entails(le(r, I(top))) is True and f.entails(le(I(0), r)) is True:
        return r
    return T("trunc", r, c.owner or "int")


@model("int::zero int::max_value")
def _(ip, st, args, c, loc, rty, atys):
    from absint import INTS
    if c.method == "zero":
        return I(0)
    return I((1 << INTS.get(c.owner, 256)) - 1)


@model("int::one")
def _(ip, st, args, c, loc, rty, atys):
    return I(1)


@model("int::is_zero")
def _(ip, st, args, c, loc, rty, atys):
    return eqn(nums(ip, st, args)[0], I(0))


def _arith(op):
    def fn(ip, st, args, c, loc, rty, atys):
        a, b = nums(ip, st, args)
        if op == "sub":
            ip.panic(st, "overflow:sub", loc, quiet=True)
            return [(s, sub(a, b)) for s in st.assume(le(b, a), True, loc)]
        if op in ("div", "rem"):
            ip.panic(st, "div by zero", loc, quiet=True)
            return [(s, (div if op == "div" else rem)(a, b)) for s in st.assume(eqn(b, I(0)), False, loc)]
        return {"add": add, "mul": mul}[op](a, b)
    return fn


for _op, _tr in (("add", "Add"), ("sub", "Sub"), ("mul", "Mul"), ("div", "Div"), ("rem", "Rem")):
    for _ty in ("U256", "u128", "u64", "u32", "usize", "Gas"):
        MODELS.add("%s@%s::%s" % (_ty, _tr, _op), _arith(_op))


def _assign(op):
    def fn(ip, st, args, c, loc, rty, atys):
        a, b = D(ip, st, args[0]), D(ip, st, args[1])
        out = []
        sts = [st]
        if op == "add" and "String" in c.selfty:
            st = st.fork()
            ip.store(st, args[0].args[0], args[0].args[1], cat(ip.freeze(st, a), ip.freeze(st, b)))
            return [(st, UNIT)]
        if op == "sub":
            sts = st.assume(le(b, a), True, loc)
        if op in ("div", "rem"):
            sts = st.assume(eqn(b, I(0)), False, loc)
        for s in sts:
            s = s.fork()
            r = {"add": add, "sub": sub, "mul": mul, "div": div, "rem": rem}[op](a, b)
            ip.store(s, args[0].args[0], args[0].args[1], r)
            out.append((s, UNIT))
        return out
    return fn


for _op, _tr in (("add", "AddAssign"), ("sub", "SubAssign"), ("mul", "MulAssign"), ("div", "DivAssign")):
    MODELS.add("@%s::%s_assign" % (_tr, _op), _assign(_op))


@model("cmp::min @Ord::min")
def _(ip, st, args, c, loc, rty, atys):
    a, b = nums(ip, st, args)
    return tmin(a, b)


@model("cmp::max @Ord::max")
def _(ip, st, args, c, loc, rty, atys):
    a, b = nums(ip, st, args)
    return tmax(a, b)


@model("@Ord::clamp")
def _(ip, st, args, c, loc, rty, atys):
    a, lo, hi = nums(ip, st, args)
    return tmax(lo, tmin(a, hi))


@model("@PartialOrd::lt @PartialOrd::le @PartialOrd::gt @PartialOrd::ge")
def _(ip, st, args, c, loc, rty, atys):
    a, b = nums(ip, st, args)
    return {"lt": lt(a, b), "le": le(a, b), "gt": lt(b, a), "ge": le(b, a)}[c.method]


@model("@Ord::cmp @PartialOrd::partial_cmp")
def _(ip, st, args, c, loc, rty, atys):
    a, b = nums(ip, st, args)
    out = []
    w = (lambda v: some(v)) if c.method == "partial_cmp" else (lambda v: v)
    o = lambda n: w(agg("Ordering", n, None, ()))
    t, f = st.branch(lt(a, b), loc)
    out += [(s, o("Less")) for s in t]
    for s in f:
        t2, f2 = s.branch(eqn(a, b), loc)
        out += [(x, o("Equal")) for x in t2] + [(x, o("Greater")) for x in f2]
    return out


@model("@PartialEq::eq @PartialEq::ne")
def _(ip, st, args, c, loc, rty, atys):
    from absint import base_type
    a, b = ip.freeze(st, args[0]), ip.freeze(st, args[1])
    r = ip.eq(a, b, base_type(c.selfty))
    return r if c.method == "eq" else tnot(r)


@model("mem::replace mem::take mem::swap")
def _(ip, st, args, c, loc, rty, atys):
    st = st.fork()
    if c.method == "swap":
        a, b = D(ip, st, args[0]), D(ip, st, args[1])
        ip.store(st, args[0].args[0], args[0].args[1], b)
        ip.store(st, args[1].args[0], args[1].args[1], a)
        return [(st, UNIT)]
    old = D(ip, st, args[0])
    new = args[1] if c.method == "replace" else default_of(atys[0] if atys else "")
    ip.store(st, args[0].args[0], args[0].args[1], new)
    return [(st, old)]


def default_of(ty):
    from absint import base_type
    b = base_type(ty)
    if b in ("HashMap", "HashSet", "BTreeMap", "BTreeSet"): return T("mempty")
    if b == "Vec": return agg("[]", None, None, ())
    if b == "String": return S("")
    if b == "Option": return NONE
    if b == "bool": return FALSE
    from absint import NUM_TYPES
    if b in NUM_TYPES: return I(0)
    return T("default", b)


@model("@Default::default")
def _(ip, st, args, c, loc, rty, atys):
    return default_of(c.selfty)


@model("mem::drop drop mem::forget")
def _(ip, st, args, c, loc, rty, atys):
    return UNIT


# ------------------------------------------------------------------ Option / Result
def opt_cases(ip, st, v, loc):
    """v: Option value (not ref). -> [(state, payload)], [states none]"""
    t, f = st.branch(is_(v, "Option", "Some"), loc)
    return [(s, fld(v, "Some", 0)) for s in t], f


def opt_map(ip, st, args, loc, fn):
    v = D(ip, st, args[0])
    out = []
    some_, none_ = opt_cases(ip, st, v, loc)
    for s, x in some_:
        for s2, y in fn(s, x):
            out.append((s2, some(y)))
    return out + [(s, NONE) for s in none_]


@model("Option::is_some Option::is_none Result::is_ok Result::is_err")
def _(ip, st, args, c, loc, rty, atys):
    v = D(ip, st, args[0])
    en, va = {"is_some": ("Option", "Some"), "is_none": ("Option", "Some"),
              "is_ok": ("Result", "Ok"), "is_err": ("Result", "Ok")}[c.method]
    r = is_(v, en, va)
    return tnot(r) if c.method in ("is_none", "is_err") else r


@model("Option::as_ref Option::as_mut Option::as_deref Option::as_deref_mut Result::as_ref Result::as_mut")
def _(ip, st, args, c, loc, rty, atys):
    a = args[0]
    v = D(ip, st, a)
    opt = c.owner != "Result"
    if a.op != "ref":
        return v
    # resolve nested refs
    obj, path = a.args
    w = ip.load(st, obj, path)
    while w.op == "ref":
        obj, path = w.args
        w = ip.load(st, obj, path)
    if opt:
        t, f = st.branch(is_(v, "Option", "Some"), loc)
        return [(s, some(T("ref", obj, path + (("f", "Some", 0),)))) for s in t] + [(s, NONE) for s in f]
    t, f = st.branch(is_(v, "Result", "Ok"), loc)
    return [(s, ok(T("ref", obj, path + (("f", "Ok", 0),)))) for s in t] + \
           [(s, err(T("ref", obj, path + (("f", "Err", 0),)))) for s in f]


def _unwrap(ip, st, args, c, loc, rty, atys):
    v = D(ip, st, args[0])
    opt = c.owner != "Result"
    en, va, nv = ("Option", "Some", "None") if opt else ("Result", "Ok", "Err")
    t, f = st.branch(is_(v, en, va), loc)
    m = c.method
    out = [(s, fld(v, va, 0)) for s in t]
    for s in f:
        if m in ("unwrap", "expect"):
            ip.panic(s, m + " of " + show(v)[:80] + (": " + str(args[1].args[0]) if len(args) > 1 and
                                                      args[1].op == "s" else ""), loc)
        elif m == "unwrap_or":
            out.append((s, args[1]))
        elif m == "unwrap_or_default":
            d = local_default(ip, s, c, rty, loc)
            out += d
        elif m == "unwrap_or_else":
            out += ip.apply(s, args[1], [] if opt else [fld(v, "Err", 0)], loc)
    return out


def local_default(ip, st, c, rty, loc):
    from absint import base_type
    ty = base_type(rty)
    nm = ip.c.trait_impls.get((ty, "Default", "default"))
    if nm:
        return ip.call_local(st, nm, [], loc)
    # derived Default
    for (tr, n) in ip.c.by_tm.get((ty, "default"), []):
        return ip.call_local(st, n, [], loc)
    for n, f in ip.prog.fns.items():
        if n.endswith(">::default") and base_type(f.ret) == ty:
            return ip.call_local(st, n, [], loc)
    return [(st, default_of(rty))]


MODELS.add("Option::unwrap Option::expect Option::unwrap_or Option::unwrap_or_else Option::unwrap_or_default "
           "Result::unwrap Result::expect Result::unwrap_or Result::unwrap_or_else Result::unwrap_or_default", _unwrap)


@model("Option::map Option::and_then Option::map_or Option::map_or_else Option::ok_or Option::ok_or_else Option::filter "
       "Option::or Option::or_else Option::is_some_and Option::xor Option::and Option::inspect")
def _(ip, st, args, c, loc, rty, atys):
    v = D(ip, st, args[0])
    so, no = opt_cases(ip, st, v, loc)
    m = c.method
    out = []
    for s, x in so:
        if m == "map":
            out += [(s2, some(y)) for s2, y in ip.apply(s, args[1], [x], loc)]
        elif m == "and_then":
            out += ip.apply(s, args[1], [x], loc)
        elif m in ("map_or", "map_or_else"):
            out += ip.apply(s, args[2], [x], loc)
        elif m in ("ok_or", "ok_or_else"):
            out.append((s, ok(x)))
        elif m == "is_some_and":
            out += ip.apply(s, args[1], [x], loc)
        elif m == "filter":
            s = s.fork()
            n = s.cnt.get("tmp", 0) + 1
            s.cnt["tmp"] = n
            s.mem[("T", n, 0)] = x
            for s2, b in ip.apply(s, args[1], [T("ref", ("T", n, 0), ())], loc):
                b = D(ip, s2, b)
                t, f = s2.branch(b, loc)
                out += [(q, some(x)) for q in t] + [(q, NONE) for q in f]
        elif m in ("or", "or_else"):
            out.append((s, some(x)))
        elif m == "and":
            out.append((s, args[1]))
        else:
            out.append((s, some(x)))
    for s in no:
        if m in ("map", "and_then", "filter", "and", "inspect", "xor"):
            out.append((s, NONE))
        elif m == "map_or":
            out.append((s, args[1]))
        elif m == "map_or_else":
            out += ip.apply(s, args[1], [], loc)
        elif m == "ok_or":
            out.append((s, err(args[1])))
        elif m == "ok_or_else":
            out += [(s2, err(e)) for s2, e in ip.apply(s, args[1], [], loc)]
        elif m == "is_some_and":
            out.append((s, FALSE))
        elif m == "or":
            out.append((s, args[1]))
        elif m == "or_else":
            out += ip.apply(s, args[1], [], loc)
    return out


@model("Result::map Result::map_err Result::ok Result::err Result::and_then Result::map_or Result::or_else Result::is_ok_and")
def _(ip, st, args, c, loc, rty, atys):
    v = D(ip, st, args[0])
    t, f = st.branch(is_(v, "Result", "Ok"), loc)
    m = c.method
    out = []
    for s in t:
        x = fld(v, "Ok", 0)
        if m == "map": out += [(q, ok(y)) for q, y in ip.apply(s, args[1], [x], loc)]
        elif m == "map_err": out.append((s, ok(x)))
        elif m == "ok": out.append((s, some(x)))
        elif m == "err": out.append((s, NONE))
        elif m == "and_then": out += ip.apply(s, args[1], [x], loc)
        elif m == "map_or": out += ip.apply(s, args[2], [x], loc)
        elif m == "is_ok_and": out += ip.apply(s, args[1], [x], loc)
        else: out.append((s, ok(x)))
    for s in f:
        e = fld(v, "Err", 0)
        if m in ("map", "and_then"): out.append((s, err(e)))
        elif m == "map_err": out += [(q, err(y)) for q, y in ip.apply(s, args[1], [e], loc)]
        elif m == "ok": out.append((s, NONE))
        elif m == "err": out.append((s, some(e)))
        elif m == "map_or": out.append((s, args[1]))
        elif m == "is_ok_and": out.append((s, FALSE))
        else: out += ip.apply(s, args[1], [e], loc)
    return out


@model("Option::take Option::replace Option::insert Option::get_or_insert")
def _(ip, st, args, c, loc, rty, atys):
    v = D(ip, st, args[0])
    st = st.fork()
    new = NONE if c.method == "take" else some(args[1])
    ip.store(st, args[0].args[0], args[0].args[1], new)
    if c.method in ("insert",):
        return [(st, T("ref", args[0].args[0], args[0].args[1] + (("f", "Some", 0),)))]
    return [(st, v)]


# ? operator
@model("@Try::branch")
def _(ip, st, args, c, loc, rty, atys):
    from absint import base_type
    v = D(ip, st, args[0])
    b = base_type(c.selfty)
    good, bad = ("Some", "None") if b == "Option" else ("Ok", "Err")
    t, f = st.branch(is_(v, b, good), loc)
    return [(s, agg("ControlFlow", "Continue", None, (fld(v, good, 0),))) for s in t] + \
           [(s, agg("ControlFlow", "Break", None, (NONE if b == "Option" else err(fld(v, "Err", 0)),))) for s in f]


@model("@FromResidual::from_residual")
def _(ip, st, args, c, loc, rty, atys):
    return D(ip, st, args[0])


@model("bool::then bool::then_some")
def _(ip, st, args, c, loc, rty, atys):
    t, f = st.branch(D(ip, st, args[0]), loc)
    out = []
    for s in t:
        if c.method == "then_some": out.append((s, some(args[1])))
        else: out += [(q, some(y)) for q, y in ip.apply(s, args[1], [], loc)]
    return out + [(s, NONE) for s in f]


# ------------------------------------------------------------------ collections
def content(ip, st, recv):
    """(kind, key) kind 'p' persistent: identity term; 'v' value-type place."""
    v = D(ip, st, recv)
    return v


PERS = {"UnorderedMap", "LookupMap", "UnorderedSet", "LookupSet", "Vector", "TreeMap"}
VALS = {"HashMap", "HashSet", "BTreeMap", "BTreeSet"}


def get_content(ip, st, c, recv):
    v = D(ip, st, recv)
    if c.owner in PERS:
        if v.op in ("keys", "values"):
            return v, v             # a vector that backs a map
        return v, st.maps.get(v, T("mempty") if v.op == "coll" else T("cont", v))
    return v, v


def set_content(ip, st, c, recv, new, ident):
    if c.owner in PERS:
        st.maps[ident] = new
    else:
        ip.store(st, recv.args[0], recv.args[1], new)


def lookup(ip, st, cont, k, loc):
    """resolve a lookup through the pending updates -> [(state, optional value term)]"""
    if cont.op == "mempty":
        return [(st, NONE)]
    if cont.op in ("mput", "mdel"):
        base, k2 = cont.args[0], cont.args[1]
        e = ip.eq(k, k2)
        t, f = st.branch(e, loc)
        out = [(s, some(cont.args[2]) if cont.op == "mput" else NONE) for s in t]
        for s in f:
            out += lookup(ip, s, base, k, loc)
        return out
    return [(st, mlookup(cont, k))]


@model(" ".join("%s::new" % x for x in PERS))
def _(ip, st, args, c, loc, rty, atys):
    return T("coll", c.owner, literal(ip.freeze(st, args[0])) if args else UNIT)


@model(" ".join("%s::new %s::default %s::with_capacity" % (x, x, x) for x in VALS))
def _(ip, st, args, c, loc, rty, atys):
    return T("mempty")


ALLC = PERS | VALS


def _get(ip, st, args, c, loc, rty, atys):
    ident_, cont = get_content(ip, st, c, args[0])
    k = ip.freeze(st, args[1])
    if c.owner == "Vector":
        return T("lookup", cont, k)
    return lookup(ip, st, cont, k, loc)


MODELS.add(" ".join("%s::get" % x for x in ALLC), _get)


def _contains(ip, st, args, c, loc, rty, atys):
    return [(s, is_(v, "Option", "Some")) for s, v in _get(ip, st, args, c, loc, rty, atys)]


MODELS.add(" ".join("%s::contains %s::contains_key" % (x, x) for x in ALLC), _contains)


def _insert(ip, st, args, c, loc, rty, atys):
    ident_, cont = get_content(ip, st, c, args[0])
    k = ip.freeze(st, args[1])
    v = ip.freeze(st, args[2]) if len(args) > 2 else UNIT
    old = lookup(ip, st, cont, k, loc)
    isset = c.owner in ("UnorderedSet", "LookupSet", "HashSet", "BTreeSet")
    out = []
    for s, o in old:
        s = s.fork()
        set_content(ip, s, c, args[0], T("mput", cont, k, v), ident_)
        s.effect("put", ident_ if c.owner in PERS else place_name(args[0]), k, v, c.owner, loc)
        out.append((s, tnot(is_(o, "Option", "Some")) if isset else o))
    return out


def place_name(r):
    return T("place", str(r.args[0][0]), tuple(str(x) for x in r.args[1])) if r.op == "ref" else r


MODELS.add(" ".join("%s::insert %s::set" % (x, x) for x in ALLC), _insert)


def _remove(ip, st, args, c, loc, rty, atys):
    ident_, cont = get_content(ip, st, c, args[0])
    k = ip.freeze(st, args[1])
    old = lookup(ip, st, cont, k, loc)
    isset = c.owner in ("UnorderedSet", "LookupSet", "HashSet", "BTreeSet")
    out = []
    for s, o in old:
        s = s.fork()
        set_content(ip, s, c, args[0], T("mdel", cont, k), ident_)
        s.effect("del", ident_ if c.owner in PERS else place_name(args[0]), k, None, c.owner, loc)
        out.append((s, is_(o, "Option", "Some") if isset else o))
    return out


MODELS.add(" ".join("%s::remove %s::take" % (x, x) for x in ALLC), _remove)


@model(" ".join("%s::clear" % x for x in ALLC))
def _(ip, st, args, c, loc, rty, atys):
    ident_, cont = get_content(ip, st, c, args[0])
    st = st.fork()
    set_content(ip, st, c, args[0], T("mempty"), ident_)
    st.effect("clear", ident_ if c.owner in PERS else place_name(args[0]), None, None, c.owner, loc)
    return [(st, UNIT)]


def _present(ip, st, ref, k, loc):
    """[(state, True/False)]: is key k in the map at ref; where it is, the map is described with that entry on top."""
    out = []
    for s, o in lookup(ip, st, D(ip, st, ref), k, loc):
        t, f = s.branch(is_(o, "Option", "Some"), loc)
        for q in t:
            q = q.fork()
            m = D(ip, q, ref)
            if not (m.op == "mput" and m.args[1] is k):
                ip.store(q, ref.args[0], ref.args[1], T("mput", m, k, fld(o, "Some", 0)))
            out.append((q, True))
        out += [(q, False) for q in f]
    return out


def slot(ref, k):
    return T("ref", ref.args[0], tuple(ref.args[1]) + (("k", k),))


@model("HashMap::get_mut BTreeMap::get_mut")
def _(ip, st, args, c, loc, rty, atys):
    k = ip.freeze(st, args[1])
    return [(s, some(slot(args[0], k)) if y else NONE) for s, y in _present(ip, st, args[0], k, loc)]


@model("HashMap::entry BTreeMap::entry")
def _(ip, st, args, c, loc, rty, atys):
    return T("entry", args[0], ip.freeze(st, args[1]))


@model("Entry::or_insert Entry::or_insert_with Entry::or_default Entry::and_modify")
def _(ip, st, args, c, loc, rty, atys):
    e = D(ip, st, args[0])
    if e.op != "entry":
        return ip.opaque(st, c, args, loc, atys)
    ref, k = e.args
    out = []
    for s, y in _present(ip, st, ref, k, loc):
        if c.method == "and_modify":
            out += [(s2, e) for s2, _ in ip.apply(s, args[1], [slot(ref, k)], loc)] if y else [(s, e)]
            continue
        if y:
            out.append((s, slot(ref, k)))
            continue
        if c.method == "or_insert":
            vs = [(s, ip.freeze(s, args[1]))]
        elif c.method == "or_default":
            m = re.search(r"Entry<.*,\s*(\w+)>", atys[0] if atys else "")
            vs = [(s, I(0))] if m and m.group(1) in ("u8", "u16", "u32", "u64", "u128", "usize") else None
            if vs is None:
                return ip.opaque(st, c, args, loc, atys)
        else:
            vs = ip.apply(s, args[1], [], loc)
        for s2, v in vs:
            s2 = s2.fork()
            ip.store(s2, ref.args[0], ref.args[1], T("mput", D(ip, s2, ref), k, ip.freeze(s2, v)))
            out.append((s2, slot(ref, k)))
    return out


@model("HashMap::retain BTreeMap::retain HashSet::retain BTreeSet::retain Vec::retain")
def _(ip, st, args, c, loc, rty, atys):
    old = ip.freeze(st, args[0])
    root = root_of(old)
    n = len(st.facts.trail)
    summ = []
    for s, e in items(ip, st, T("iter", old), loc):
        if e is None:
            continue
        s = s.fork()
        k = s.cnt.get("tmp", 0) + 1
        s.cnt["tmp"] = k + 1
        a, b = ("T", k, 0), ("T", k + 1, 0)
        if c.owner in ("HashMap", "BTreeMap"):
            s.mem[a], s.mem[b] = fld(e, None, 0), fld(e, None, 1)
            av = [T("ref", a, ()), T("ref", b, ())]
        else:
            s.mem[a] = e
            av = [T("ref", a, ())]
        for s2, r in ip.apply(s, args[1], av, loc):
            t, f = s2.branch(D(ip, s2, r), loc)
            if len(s2.eff) != len(st.eff) or s2.prom != st.prom:
                return ip.opaque(st, c, args, loc, atys)
            for q in t:
                v = agg("()", None, None, (s2.mem[a], ip.freeze(q, q.mem[b]))) if len(av) == 2 else e
                summ.append((tuple(x for x, _ in q.facts.trail[n:]), v))
            for q in f:
                summ.append((tuple(x for x, _ in q.facts.trail[n:]), None))
    st = st.fork()
    new = mk_collect("collect", root, tuple(summ))
    if c.owner.endswith("Set") and old is root and len(summ) == 2 and all(len(cs) == 1 for cs, _ in summ):
        gone = [cs[0] for cs, v in summ if v is None]
        stay = [cs[0] for cs, v in summ if v is elem_of(root)]
        k = key_asked(gone[0], root, c.owner) if len(gone) == 1 and stay == [tnot(gone[0])] else None
        if k is not None:       # all but one
            new = T("mdel", old, k)
    ip.store(st, args[0].args[0], args[0].args[1], new)
    return [(st, UNIT)]


def mlen(ip, st, cont, loc):
    if cont.op == "mempty":
        return [(st, I(0))]
    if cont.op in ("mput", "mdel"):
        out = []
        for s, o in lookup(ip, st, cont.args[0], cont.args[1], loc):
            t, f = s.branch(is_(o, "Option", "Some"), loc)
            for q in t:
                out += [(z, n if cont.op == "mput" else sub(n, I(1))) for z, n in mlen(ip, q, cont.args[0], loc)]
            for q in f:
                out += [(z, add(n, I(1)) if cont.op == "mput" else n) for z, n in mlen(ip, q, cont.args[0], loc)]
        return out
    while cont.op in ("keys", "values"):
        cont = cont.args[0]
    return [(st, T("mlen", cont))]


@model(" ".join("%s::len %s::is_empty" % (x, x) for x in ALLC))
def _(ip, st, args, c, loc, rty, atys):
    ident_, cont = get_content(ip, st, c, args[0])
    r = mlen(ip, st, cont, loc)
    if c.method == "is_empty":
        return [(s, eqn(n, I(0))) for s, n in r]
    return r


@model(" ".join("%s::%s" % (x, m) for x in ALLC for m in
                ("keys", "values", "iter", "to_vec", "keys_as_vector", "values_as_vector", "into_keys", "as_vector")))
def _(ip, st, args, c, loc, rty, atys):
    ident_, cont = get_content(ip, st, c, args[0])
    kind = {"keys": "keys", "into_keys": "keys", "values": "values", "keys_as_vector": "keys", "values_as_vector": "values",
            "as_vector": "keys"}.get(c.method)
    if c.owner in ("UnorderedSet", "HashSet", "BTreeSet", "Vector"):
        return cont
    return T(kind or "entries", cont)


@model(" ".join("%s::drain" % x for x in ("HashMap", "BTreeMap", "HashSet", "Vec", "String")))
def _(ip, st, args, c, loc, rty, atys):
    """takes everything out."""
    old = D(ip, st, args[0])
    if len(args) > 1 and D(ip, st, args[1]).op != "fn" and D(ip, st, args[1]) is not UNIT or args[0].op != "ref":
        if "RangeFull" not in (atys[1] if len(atys) > 1 else ""):
            return ip.opaque(st, c, args, loc, atys)
    old = ip.freeze(st, old)
    st = st.fork()
    ip.store(st, args[0].args[0], args[0].args[1], T("mempty") if c.owner not in ("Vec", "String") else
             agg("[]", None, None, ()) if c.owner == "Vec" else S(""))
    return [(st, T("entries", old) if c.owner in ("HashMap", "BTreeMap") else T("iter", old))]


@model("Vector::len_ Vector::iter_")
def _(ip, st, args, c, loc, rty, atys):
    return T("mlen", D(ip, st, args[0]))


# Vec
@model("Vec::new Vec::with_capacity")
def _(ip, st, args, c, loc, rty, atys):
    return agg("[]", None, None, ())


def pieces(st, v, loc):
    """how many pieces a string splits into."""
    x, pat = v.args
    k = 0 if v.op == "str_matches" else 1
    t, f = st.branch(is_(T("strfind", x, pat), "Option", "Some"), loc)
    return [(s, add(T("max", I(1), T("strcount", x, pat)), I(k))) for s in t] + [(s, I(k)) for s in f]


@model("Vec::len slice::len str::len_")
def _(ip, st, args, c, loc, rty, atys):
    v = D(ip, st, args[0])
    if v.op == "agg" and v.args[0] == "[]":
        return I(len(v.args[3]))
    if v.op == "s":
        return I(len(v.args[0].encode()))
    if v.op in ("str_split", "str_matches"):
        return pieces(st, v, loc)
    x = v
    while x.op in ("keys", "values", "entries"):
        x = x.args[0]
    if x.op == "cont" or x.op == "phi" and x.args[1].startswith("('map'"):
        return T("mlen", x)
    return T("len", ip.freeze(st, v))


@model("Vec::is_empty slice::is_empty")
def _(ip, st, args, c, loc, rty, atys):
    v = D(ip, st, args[0])
    if v.op == "agg" and v.args[0] == "[]":
        return B(len(v.args[3]) == 0)
    return eqn(T("len", ip.freeze(st, v)), I(0))


@model("Vec::push Vec::extend_from_slice Vec::append")
def _(ip, st, args, c, loc, rty, atys):
    v = D(ip, st, args[0])
    x = ip.freeze(st, args[1])
    st = st.fork()
    if c.method == "push" and v.op == "agg" and v.args[0] == "[]":
        nv = agg("[]", None, None, v.args[3] + (x,))
    else:
        nv = T("v" + c.method, ip.freeze(st, v), x)
    ip.store(st, args[0].args[0], args[0].args[1], nv)
    return [(st, UNIT)]


@model("RangeInclusive::new", priority=True)
def _(ip, st, args, c, loc, rty, atys):
    return agg("RangeInclusive", None, None, (D(ip, st, args[0]), D(ip, st, args[1])))


@model("Range::contains RangeInclusive::contains RangeFrom::contains RangeTo::contains RangeToInclusive::contains", priority=True)
def _(ip, st, args, c, loc, rty, atys):
    r, x = ip.freeze(st, args[0]), ip.freeze(st, args[1])
    a = r.args[3] if r.op == "agg" else (fld(r, None, 0), fld(r, None, 1))
    lo = a[0] if c.owner in ("Range", "RangeInclusive", "RangeFrom") else None
    hi = a[1] if c.owner in ("Range", "RangeInclusive") else a[0] if lo is None else None
    return tand(TRUE if lo is None else le(lo, x),
                TRUE if hi is None else le(x, hi) if c.owner.endswith("Inclusive") else lt(x, hi))


@model("Vec::contains slice::contains")
def _(ip, st, args, c, loc, rty, atys):
    return T("vcontains", ip.freeze(st, args[0]), ip.freeze(st, args[1]))


@model("@Index::index @IndexMut::index_mut slice::get Vec::get slice::first Vec::first slice::last slice::get_unchecked")
def _(ip, st, args, c, loc, rty, atys):
    v = ip.freeze(st, args[0])
    k = head_range(ip.freeze(st, args[1])) if len(args) > 1 else S(c.method)
    if k.op == "elem" and k.args[0].op == "iter" and k is elem_of(rng(v)):
        w = (lambda x: x) if c.method in ("index", "index_mut") else some
        return [(s, w(e)) for s, e in items(ip, st, T("iter", v), loc, True) if e is not None]
    if c.method == "index_mut" and args[0].op == "ref" and not (k.op == "agg" and k.args[0].startswith("Range")):
        return [(st, T("ref", args[0].args[0], args[0].args[1] + (("i", k),)))]
    if c.method in ("index", "index_mut"):
        return ip.index(st, v, k) if k.op == "i" else T("idx", v, k)
    if v.op == "agg" and v.args[0] == "[]" and c.method in ("get", "first"):
        i = k.args[0] if k.op == "i" else 0 if c.method == "first" else None
        if i is not None:
            return some(v.args[3][i]) if i < len(v.args[3]) else NONE
    if v.op == "sha256" and k.op == "agg" and k.args[0] == "RangeTo" and k.args[3][0].op == "i" and k.args[3][0].args[0] <= 32:
        return some(T("idx", v, k))
    return T("vget", v, k)


def head_range(k):
    """0..n, 0..=n-1 and ..=n-1 are ..n"""
    end = lambda n: agg("RangeTo", None, ("end",), (n,))
    if k.op == "agg" and k.args[0] == "Range" and k.args[3][0] is I(0):
        return end(k.args[3][1])
    if k.op == "agg" and k.args[0] == "RangeInclusive" and k.args[3][0] is I(0):
        return end(add(k.args[3][1], I(1)))
    if k.op == "agg" and k.args[0] == "RangeToInclusive":
        return end(add(k.args[3][0], I(1)))
    return k


@model("slice::split_at str::split_at")
def _(ip, st, args, c, loc, rty, atys):
    v, n = ip.freeze(st, args[0]), D(ip, st, args[1])
    return agg("()", None, None, (T("idx", v, agg("RangeTo", None, ("end",), (n,))),
                                  T("idx", v, agg("RangeFrom", None, ("start",), (n,)))))


@model("Vec::truncate")
def _(ip, st, args, c, loc, rty, atys):
    v, n = D(ip, st, args[0]), D(ip, st, args[1])
    if v.op == "sha256" and n.op == "i":
        st = st.fork()
        if n.args[0] < 32:
            ip.store(st, args[0].args[0], args[0].args[1], T("idx", v, agg("RangeTo", None, ("end",), (n,))))
        return [(st, UNIT)]
    return ip.opaque(st, c, args, loc, atys)


def slots(ip, st, ref, values=False):
    """the entries of a map, their values lent for writing. Nothing else can touch the map meanwhile (the borrow is
    exclusive) and no key comes twice, so an entry is what it was before."""
    return T("slots_it", T("iter", T("entries", ip.freeze(st, ref))), ref, values)


@model("HashMap::iter_mut BTreeMap::iter_mut HashMap::values_mut BTreeMap::values_mut")
def _(ip, st, args, c, loc, rty, atys):
    if args[0].op != "ref":
        return ip.opaque(st, c, args, loc, atys)
    return slots(ip, st, args[0], c.method == "values_mut")


# iteration
@model("@IntoIterator::into_iter Vec::iter slice::iter Vec::into_iter Option::iter ")
def _(ip, st, args, c, loc, rty, atys):
    if args[0].op == "ref" and atys and re.match(r"&('\w+ )?mut (\w+::)*(HashMap|BTreeMap)<", atys[0]):
        return slots(ip, st, args[0])
    v = D(ip, st, args[0])
    if v.op == "iter" or v.op.endswith("_it"):
        return v
    if c.owner == "Option" or atys and re.match(r"(&(mut )?('\w+ )?)?(\w+::)*Option<", atys[0]):
        t, f = st.branch(is_(v, "Option", "Some"), loc)
        return [(s, T("iter", agg("[]", None, None, (ip.freeze(s, fld(v, "Some", 0)),)))) for s in t] + \
            [(s, T("iter", agg("[]", None, None, ()))) for s in f]
    return T("iter", ip.freeze(st, v))


@model("@Iterator::map @Iterator::filter @Iterator::filter_map @Iterator::cloned @Iterator::copied @Iterator::rev "
       "@Iterator::enumerate @Iterator::take @Iterator::skip @Iterator::by_ref")
def _(ip, st, args, c, loc, rty, atys):
    v = D(ip, st, args[0])
    m = c.method
    if m in ("cloned", "copied", "by_ref"):
        return v
    v = as_iter(v)
    if m in ("map", "filter", "filter_map"):
        return T(m + "_it", v, ip.freeze(st, D(ip, st, args[1])) if D(ip, st, args[1]).op != "clo" else args_clo(ip, st, args[1]))
    xs = [D(ip, st, a) for a in args[1:]]
    if m in ("skip", "take"):
        # a position in a collection: contracts hold fewer than 2^32 elements (DESIGN section 5)
        xs = [x.args[0] if x.op == "trunc" and x.args[1] == "usize" else x for x in xs]
    return T(m + "_it", v, *xs)


def args_clo(ip, st, a):
    return D(ip, st, a)


def as_iter(v):
    if v.op in ("iter", "map_it", "filter_it", "filter_map_it", "rev_it", "enumerate_it", "take_it", "skip_it", "slots_it"):
        return v
    return T("iter", v)


MAXSEQ = 16


def concrete(it):
    """number of underlying elements of an iterator over a sequence that is known element by element, else None."""
    while it.op in ("map_it", "filter_it", "filter_map_it", "rev_it", "enumerate_it"):
        it = it.args[0]
    if it.op != "iter" or it.args[0].op != "agg":
        return None
    src = it.args[0]
    if src.args[0] == "[]":
        return len(src.args[3]) if len(src.args[3]) <= MAXSEQ else None
    if src.args[0] in ("Range", "RangeInclusive") and all(x.op == "i" for x in src.args[3][:2]):
        n = src.args[3][1].args[0] - src.args[3][0].args[0] + (src.args[0] == "RangeInclusive")
        return max(n, 0) if n <= MAXSEQ else None
    return None


def pop(ip, st, it, loc, back=False):
    """next element of a concrete() iterator -> [(state, element or None at the end, rest)]"""
    if it.op == "iter":
        src = it.args[0]
        if src.args[0] == "[]":
            es = src.args[3]
        else:
            es = tuple(I(k) for k in range(src.args[3][0].args[0], src.args[3][0].args[0] + concrete(it)))
        if not es:
            return [(st, None, it)]
        rest = es[:-1] if back else es[1:]
        return [(st, es[-1] if back else es[0], T("iter", agg("[]", None, None, rest)))]
    if it.op == "rev_it":
        return [(s, e, T("rev_it", r)) for s, e, r in pop(ip, st, it.args[0], loc, not back)]
    if it.op == "enumerate_it":
        k = it.args[1].args[0] if len(it.args) > 1 else 0
        out = []
        for s, e, r in pop(ip, st, it.args[0], loc, back):
            i = k + concrete(it.args[0]) - 1 if back else k
            out.append((s, None if e is None else agg("()", None, None, (I(i), e)),
                        T("enumerate_it", r, I(k if back else k + 1))))
        return out
    out = []
    for s, e, r in pop(ip, st, it.args[0], loc, back):
        rest = T(it.op, r, *it.args[1:])
        if e is None:
            out.append((s, None, rest)); continue
        if it.op == "map_it":
            out += [(s2, x, rest) for s2, x in ip.apply(s, it.args[1], [e], loc)]
        elif it.op == "filter_it":
            s = s.fork()
            n = s.cnt.get("tmp", 0) + 1
            s.cnt["tmp"] = n
            s.mem[("T", n, 0)] = e
            for s2, b in ip.apply(s, it.args[1], [T("ref", ("T", n, 0), ())], loc):
                t, f = s2.branch(D(ip, s2, b), loc)
                out += [(q, e, rest) for q in t]
                for q in f:
                    out += pop(ip, q, rest, loc, back)
        else:
            for s2, o in ip.apply(s, it.args[1], [e], loc):
                o = D(ip, s2, o)
                t, f = s2.branch(is_(o, "Option", "Some"), loc)
                out += [(q, fld(o, "Some", 0), rest) for q in t]
                for q in f:
                    out += pop(ip, q, rest, loc, back)
    return out


def walk(ip, st, it, loc, step, acc):
    """run step(state, element, acc) -> [(state, acc, stop?)] over a concrete() iterator -> [(state, acc)]"""
    out, work = [], [(st, it, acc)]
    while work:
        s, i, a = work.pop()
        for s2, e, rest in pop(ip, s, i, loc):
            if e is None:
                out.append((s2, a)); continue
            for s3, a3, stop in step(s2, e, a):
                if stop:
                    out.append((s3, a3))
                else:
                    work.append((s3, rest, a3))
    return out


def walk_method(ip, st, m, it, args, loc):
    """iterator consumers over a concrete sequence: element by element."""
    def mut_ref(s, e):
        s = s.fork()
        n = s.cnt.get("tmp", 0) + 1
        s.cnt["tmp"] = n
        s.mem[("T", n, 0)] = e
        return s, T("ref", ("T", n, 0), ())
    if m == "for_each":
        return walk(ip, st, it, loc, lambda s, e, a: [(q, a, False) for q, _ in ip.apply(s, args[1], [e], loc)], UNIT)
    if m == "fold":
        return walk(ip, st, it, loc, lambda s, e, a: [(q, x, False) for q, x in ip.apply(s, args[2], [a, e], loc)], D(ip, st, args[1]))
    if m == "sum":
        return walk(ip, st, it, loc, lambda s, e, a: [(s, add(a, D(ip, s, e)), False)], I(0))
    if m == "count":
        return walk(ip, st, it, loc, lambda s, e, a: [(s, add(a, I(1)), False)], I(0))
    if m in ("collect", "from_iter"):
        return [(s, a) for s, a in walk(ip, st, it, loc, lambda s, e, a: [
            (s, agg("[]", None, None, a.args[3] + (ip.freeze(s, e),)), False)], agg("[]", None, None, ()))]
    if m == "last":
        return walk(ip, st, it, loc, lambda s, e, a: [(s, some(e), False)], NONE)
    if m in ("max", "min"):
        f = tmax if m == "max" else tmin

        def step(s, e, a):
            e = D(ip, s, e)
            return [(s, some(e if a is NONE else f(fld(a, "Some", 0), e)), False)]
        return walk(ip, st, it, loc, step, NONE)
    if m in ("any", "all"):
        def step(s, e, a):
            out = []
            for q, r in ip.apply(s, args[1], [e], loc):
                t, f = q.branch(D(ip, q, r), loc)
                out += [(x, TRUE, m == "any") for x in t] + [(x, FALSE, m == "all") for x in f]
            return [(x, b if stop else B(m == "all"), stop) for x, b, stop in out]
        return walk(ip, st, it, loc, step, B(m == "all"))
    if m == "find":
        def step(s, e, a):
            out = []
            s, r0 = mut_ref(s, e)
            for q, r in ip.apply(s, args[1], [r0], loc):
                t, f = q.branch(D(ip, q, r), loc)
                out += [(x, some(e), True) for x in t] + [(x, NONE, False) for x in f]
            return out
        return walk(ip, st, it, loc, step, NONE)
    if m == "find_map":
        def step(s, e, a):
            out = []
            for q, o in ip.apply(s, args[1], [e], loc):
                o = D(ip, q, o)
                t, f = q.branch(is_(o, "Option", "Some"), loc)
                out += [(x, o, True) for x in t] + [(x, NONE, False) for x in f]
            return out
        return walk(ip, st, it, loc, step, NONE)
    return None


def key_asked(t, root, ty):
    """for a condition `e == x` on the elements e of a set (or the keys of a map): x, else None."""
    if t.op != "eq0" and t.op != "eq":
        return None
    e = elem_of(root)
    if re.search(r"[mM]ap\b", ty):
        e = fld(e, None, 0)
    elif not re.search(r"[sS]et\b", ty):
        return None
    if t.op == "eq":
        x = t.args[1] if t.args[0] is e else t.args[0] if t.args[1] is e else None
    else:
        x = sub(e, t.args[0])
        if e in subterms(x):
            x = add(e, t.args[0])
    if x is None or elem_of(root) in subterms(x):
        return None
    return x


def contains_term(t, root=None):
    """for a condition `e == x` on a generic element e: the condition that x is among the elements; None for others."""
    if t.op == "eq0":
        es = [y for y in subterms(t) if isinstance(y, Term) and y.op == "elem"]
        if len(es) != 1:
            return None
        e = es[0]
        x = sub(e, t.args[0])
        if any(y is e for y in subterms(x)):
            x = add(e, t.args[0])
    elif t.op == "eq":
        e, x = t.args
        if e.op != "elem":
            e, x = x, e
    else:
        return None
    if e.op != "elem" or e.args[0].op != "iter" or (root is not None and e.args[0].args[0] is not root):
        return None
    r = e.args[0].args[0]
    if any(isinstance(y, Term) and y.op in ("elem", "phi") for y in subterms(x)):
        return None
    if r.op == "chars":
        if x.op == "i" and 0 <= x.args[0] < 128:
            x = S(chr(x.args[0]))
        return is_(T("strfind", r.args[0], x), "Option", "Some") if x.op == "s" else None
    if x.op == "i" and 0 <= x.args[0] < 128 and r.op not in ("agg", "cont"):      # the bytes of a string
        return is_(T("strfind", r, S(chr(x.args[0]))), "Option", "Some")
    return None


@model("str::chars str::bytes String::chars String::bytes")
def _(ip, st, args, c, loc, rty, atys):
    return T("iter", T("chars", ip.freeze(st, args[0])))


def rng(v):
    return agg("Range", None, None, (I(0), T("len", v)))


def root_of(x):
    """what an iterator chain (or iterable value) ranges over."""
    while True:
        if x.op in ("map_it", "filter_it", "filter_map_it", "enumerate_it", "slots_it"):
            x = x.args[0]
        elif x.op == "iter":
            x = x.args[0]
        elif x.op in ("collect", "from_iter", "collected"):
            x = x.args[0]
        elif x.op in ("keys", "values", "entries"):
            x = x.args[0]
        elif x.op == "agg" and x.args[0] == "Range" and x.args[3][0] is I(0) and x.args[3][1].op == "len":
            x = x.args[3][1].args[0]
        elif x.op in ("rev_it", "take_it", "skip_it"):
            return T(x.op, root_of(x.args[0]), *x.args[1:])
        else:
            return x


def elem_of(root):
    while root.op in ("rev_it", "take_it", "skip_it"):      # a generic element of a part is one of the whole
        root = root.args[0]
    return T("elem", T("iter", root))


def mk_collect(m, root, cases):
    cases = tuple((tuple(c), v) for c, v in cases)
    if m in ("collect", "from_iter") and len(cases) == 1 and not cases[0][0] and cases[0][1] is not None:
        v = cases[0][1]
        e = elem_of(root)
        if v is e:
            return root
        k0, v0 = fld(e, None, 0), fld(e, None, 1)
        if v is k0:
            return T("keys", root)
        if v is v0:
            return T("values", root)
        if v.op == "agg" and v.args[0] == "()" and len(v.args[3]) == 2 and v.args[3][0] is k0 and v.args[3][1] is v0:
            return root
    return T(m, root, cases)


def items(ip, st, it, loc, mine=None):
    """One generic element of an iterator chain -> [(state, element or None if filtered)]
    mine: the condition under which this element exists, where the caller assumed one; True: the one being talked about."""
    if it.op == "iter":
        src = it.args[0]
        root = root_of(it)
        k = 0 if mine is True else sum(1 for t, v in st.facts.tf.items() if v and t.op == "more" and t.args[0] is root and t is not mine)
        if k:
            # other elements of the same source are being talked about: this one is not the same
            return items(ip, st, T("iter", T("after", src, k)), loc, mine)
        if src.op == "agg" and src.args[0] in ("Range", "RangeInclusive"):
            lo, hi = src.args[3][0], src.args[3][1]
            e = T("elem", it)
            hi_c = lt(e, hi) if src.args[0] == "Range" else le(e, hi)
            return [(s, e) for s in st.assume(tand(le(lo, e), hi_c), True, loc)]
        if src.op in ("collect", "from_iter"):
            # element of a collected list: the collected cases of the underlying source
            out = []
            for conds, v in src.args[1]:
                ss = [st]
                for c in conds:
                    ss = [q for s in ss for q in s.assume(c, True, loc)]
                out += [(s, v) for s in ss]
            return out
        if src.op in ("keys", "values", "entries") and src.args[0].op in ("collect", "from_iter"):
            i = {"keys": 0, "values": 1}.get(src.op)
            return [(s, v if i is None or v is None else fld(v, None, i)) for s, v in items(ip, st, T("iter", src.args[0]), loc, mine)]
        e = elem_of(root_of(it))
        if src.op in ("keys", "values"):
            return [(st, fld(e, None, 0 if src.op == "keys" else 1))]
        if src.op == "entries":
            return [(st, agg("()", None, None, (fld(e, None, 0), fld(e, None, 1))))]
        return [(st, e)]
    if it.op == "enumerate_it":
        out = []
        for s, e in items(ip, st, it.args[0], loc, mine):
            out.append((s, None if e is None else agg("()", None, None, (elem_of(rng(root_of(it))), e))))
        return out
    if it.op == "slots_it":
        out = []
        ref = it.args[1]
        for s, e in items(ip, st, it.args[0], loc, mine):
            if e is None:
                out.append((s, None)); continue
            s = s.fork()
            k = fld(e, None, 0)
            ip.store(s, ref.args[0], ref.args[1], T("mput", D(ip, s, ref), k, fld(e, None, 1)))
            out.append((s, slot(ref, k) if it.args[2] else agg("()", None, None, (k, slot(ref, k)))))
        return out
    if it.op in ("rev_it", "take_it", "skip_it"):
        return items(ip, st, it.args[0], loc, mine)
    if it.op == "map_it":
        out = []
        for s, e in items(ip, st, it.args[0], loc, mine):
            if e is None:
                out.append((s, None)); continue
            out += ip.apply(s, it.args[1], [e], loc)
        return out
    if it.op in ("filter_it", "filter_map_it"):
        out = []
        for s, e in items(ip, st, it.args[0], loc, mine):
            if e is None:
                out.append((s, None)); continue
            if it.op == "filter_it":
                s = s.fork()
                n = s.cnt.get("tmp", 0) + 1
                s.cnt["tmp"] = n
                s.mem[("T", n, 0)] = e
                for s2, b in ip.apply(s, it.args[1], [T("ref", ("T", n, 0), ())], loc):
                    t, f = s2.branch(D(ip, s2, b), loc)
                    out += [(q, e) for q in t] + [(q, None) for q in f]
            else:
                for s2, o in ip.apply(s, it.args[1], [e], loc):
                    o = D(ip, s2, o)
                    t, f = s2.branch(is_(o, "Option", "Some"), loc)
                    out += [(q, fld(o, "Some", 0)) for q in t] + [(q, None) for q in f]
        return out
    return [(st, T("elem", it))]


def more_of(st, it):
    return T("more", root_of(it), (st.cnt.get("pass", 0), st.cnt.get(("next", it), 0)))


@model("@Iterator::next @DoubleEndedIterator::next_back")
def _(ip, st, args, c, loc, rty, atys):
    it = as_iter(D(ip, st, args[0]))
    if concrete(it) is not None and args[0].op == "ref":
        out = []
        for s, e, rest in pop(ip, st, it, loc, c.method == "next_back"):
            s = s.fork()
            ip.store(s, args[0].args[0], args[0].args[1], rest)
            out.append((s, NONE if e is None else some(e)))
        return out
    if c.method == "next_back":
        it = T("rev_it", it)
    more = more_of(st, it)
    t, f = st.branch(more, loc)
    out = []
    for s in t:
        s = s.fork()
        n = s.cnt.get(("next", it), 0)
        s.cnt[("next", it)] = n + 1
        for s2, e in items(ip, s, it, loc, more):
            if e is not None:
                out.append((s2, some(e)))
            else:
                ip.skips[-1].append(s2)
    for s in f:
        out.append((s, NONE))
    return out


def iterloop(ip, st, it, loc, step, acc=None):
    """for_each / fold / ...: a loop over `it` whose body is step(state, element, acc) -> [(state, new acc)]."""
    st = st.fork()
    place = None
    if acc is not None:
        n = st.cnt.get("tmp", 0) + 1
        st.cnt["tmp"] = n
        place = ("T", n, 0)
        st.mem[place] = acc

    def runner(s1):
        ends = []
        more = more_of(s1, it)
        for s in s1.assume(more, True, loc):
            for s2, e in items(ip, s, it, loc, more):
                if e is None:
                    ip.skips[-1].append(s2)
                    continue
                for s3, r in step(s2, e, s2.mem[place] if place else None):
                    s3 = s3.fork()
                    if place:
                        s3.mem[place] = r
                    ends.append(("back", None, s3))
        return ends
    rec, ends, s0 = ip.havoc_loop(st, "for_each", 0, runner)
    rec.loc = loc
    out = []
    for s in s0.assume(more_of(s0, it), False, loc):
        s = ip.loop_exit(rec, s0, s)
        out.append((s, ip.load(s, place, ()) if place else UNIT))
    return out


@model("@Iterator::collect @Iterator::for_each @Iterator::any @Iterator::all @Iterator::count @Iterator::sum @Iterator::find "
       "@Iterator::fold @Iterator::position @Iterator::last @Iterator::max @Iterator::min @FromIterator::from_iter "
       "@Extend::extend @Iterator::partition @Iterator::find_map @Iterator::nth")
def _(ip, st, args, c, loc, rty, atys):
    if c.method == "extend" or args[0].op != "ref" or not (atys and atys[0].startswith("&mut ")):
        return consume(ip, st, args, c, loc, rty, atys)
    it = as_iter(D(ip, st, args[0]))
    out = []
    for s, v in ip.wrap(consume(ip, st, args, c, loc, rty, atys), st):
        s = s.fork()        # what the iterator still has to give is not what it had
        ip.store(s, args[0].args[0], args[0].args[1], T("iter", T("rest", it, v)))
        out.append((s, v))
    return out


def consume(ip, st, args, c, loc, rty, atys):
    m = c.method
    it = as_iter(D(ip, st, args[0])) if m != "extend" else as_iter(D(ip, st, args[1]))
    if concrete(it) is not None and m not in ("extend", "partition", "nth", "position"):
        r = walk_method(ip, st, m, it, args, loc)
        if r is not None:
            return r
    if m in ("count", "nth") and root_of(it).op in ("str_split", "str_matches") and it in (root_of(it), T("iter", root_of(it))):
        # pieces of a string: more than one exactly when the separator occurs
        x, pat = root_of(it).args
        k = 0 if root_of(it).op == "str_matches" else 1
        if m == "count":
            return pieces(st, root_of(it), loc)
        t, f = st.branch(is_(T("strfind", x, pat), "Option", "Some"), loc)
        n = D(ip, st, args[1])
        if n is I(k):
            return [(s, some(T("piece", x, pat, n))) for s in t] + [(s, NONE) for s in f]
    if m == "extend" and c.owner in ALLC and c.owner != "Vector" and args[0].op == "ref":
        def put_one(s, e, a):
            e = D(ip, s, e)
            kv = [e] if c.owner.endswith("Set") else [fld(e, None, 0), fld(e, None, 1)]
            return [(q, UNIT) for q, _ in _insert(ip, s, [args[0]] + kv, c, loc, rty, atys)]
        if concrete(it) is not None:
            return walk(ip, st, it, loc, lambda s, e, a: [(q, UNIT, False) for q, _ in put_one(s, e, a)], UNIT)
        return iterloop(ip, st, it, loc, put_one)
    if m == "extend" and c.owner == "Vec" or m == "extend" and "Vec<" in (atys[0] if atys else ""):
        # the same as adding each element in a loop
        def add_one(s, e, a):
            s = s.fork()
            old = D(ip, s, args[0])
            x = ip.freeze(s, e)
            if old.op == "agg" and old.args[0] == "[]" and concrete(it) is not None:
                nv = agg("[]", None, None, old.args[3] + (x,))
            else:
                nv = T("vpush", ip.freeze(s, old), x)
            ip.store(s, args[0].args[0], args[0].args[1], nv)
            return [(s, UNIT)]
        if args[0].op == "ref" and "Vec<" in (atys[0] if atys else "Vec<"):
            if concrete(it) is not None:
                return walk(ip, st, it, loc, lambda s, e, a: [(q, UNIT, False) for q, _ in add_one(s, e, a)], UNIT)
            return iterloop(ip, st, it, loc, add_one)
        return ip.opaque(st, c, args, loc, atys)
    if m == "for_each":
        return iterloop(ip, st, it, loc, lambda s, e, a: ip.apply(s, args[1], [e], loc))
    if m == "fold":
        return iterloop(ip, st, it, loc, lambda s, e, a: ip.apply(s, args[2], [a, e], loc), D(ip, st, args[1]))
    if m == "sum":
        return iterloop(ip, st, it, loc, lambda s, e, a: [(s, add(a, D(ip, s, e)))], I(0))
    if m in ("any", "all", "find", "position", "find_map"):
        summ = []
        for s, e in items(ip, st, it, loc):
            if e is None:
                continue
            a = [e]
            if m == "find":
                s = s.fork()
                n = s.cnt.get("tmp", 0) + 1
                s.cnt["tmp"] = n
                s.mem[("T", n, 0)] = e
                a = [T("ref", ("T", n, 0), ())]
            for s2, r in ip.apply(s, args[1], a, loc):
                summ.append((tuple(x for x, _ in s2.facts.trail[len(st.facts.trail):]), ip.freeze(s2, r)))
                if len(s2.eff) != len(st.eff) or s2.prom != st.prom:
                    return ip.opaque(st, c, args, loc, atys)
        r = root_of(it)
        if m in ("any", "all") and len(summ) == 1 and not summ[0][0]:
            eqt = summ[0][1] if m == "any" else tnot(summ[0][1])
            x = contains_term(eqt, r)
            if x is not None:
                return x if m == "any" else tnot(x)
            k = key_asked(eqt, r, " ".join(atys[:1]) + c.raw)
            if k is not None:
                return [(s, is_(o, "Option", "Some") if m == "any" else tnot(is_(o, "Option", "Some")))
                        for s, o in lookup(ip, st, r, k, loc)]
        return T("iter_" + m, r, tuple(summ))
    if m in ("collect", "count", "from_iter", "last", "max", "min", "nth"):
        summ = []
        n = len(st.facts.trail)
        for s, e in items(ip, st, it, loc):
            summ.append((tuple(x for x, _ in s.facts.trail[n:]), ip.freeze(s, e) if e is not None else None))
            for x in s.unk[len(st.unk):]:
                st = st.fork(); st.unk = st.unk + (x,)
            if len(s.eff) != len(st.eff) or s.prom != st.prom:
                return ip.opaque(st, c, args, loc, atys)
        r = mk_collect(m, root_of(it), tuple(summ))
        if m in ("collect", "from_iter") and base_of(rty) in VALS and (
                not re.search(r"[mM]ap\b|[sS]et\b|_map::|_set::", " ".join(atys[:1])) or r.op == "values"):
            r = T("bykey", r)           # equal ones fall together
        return [(st, r)]
    return ip.opaque(st, c, args, loc, atys)


@model("@FnOnce::call_once @FnMut::call_mut @Fn::call", priority=True)
def _(ip, st, args, c, loc, rty, atys):
    """a closure or function value passed as a parameter."""
    t = D(ip, st, args[1]) if len(args) > 1 else UNIT
    n = len(t.args[3]) if t.op == "agg" else 0
    return ip.apply(st, args[0], [t.args[3][i] for i in range(n)], loc)


# ------------------------------------------------------------------ near-contract-standards fungible token
@model("FungibleToken::new", priority=True)
def _(ip, st, args, c, loc, rty, atys):
    return T("ftnew", ip.freeze(st, args[0]))


@model("FungibleToken::storage_balance_bounds @StorageManagement::storage_balance_bounds", priority=True)
def _(ip, st, args, c, loc, rty, atys):
    # registration price: storage of one account entry; independent of the balances
    return agg("StorageBalanceBounds", None, ("min", "max"), (A("ft_registration"), some(A("ft_registration"))))


def _ftop(ip, st, args, c, loc, rty, atys):
    old = D(ip, st, args[0])
    vals = tuple(ip.freeze(st, a) for a in args[1:])
    st = st.fork()
    if atys and atys[0].startswith("&mut") or args[0].op == "ref" and c.method in FT_MUT:
        ip.store(st, args[0].args[0], args[0].args[1], T("ftop", c.method, old, vals))
    return [(st, T("ftret", c.method, old, vals))]


FT_MUT = {"internal_deposit", "internal_withdraw", "internal_transfer", "internal_register_account", "ft_transfer",
          "ft_transfer_call", "ft_resolve_transfer", "storage_deposit", "storage_withdraw", "storage_unregister",
          "internal_storage_unregister", "internal_ft_resolve_transfer"}
MODELS.add(" ".join("FungibleToken::%s @FungibleTokenCore::%s @FungibleTokenResolver::%s @StorageManagement::%s" % (x, x, x, x)
                    for x in sorted(FT_MUT | {"ft_total_supply", "ft_balance_of", "storage_balance_of",
                                              "internal_unwrap_balance_of"})), _ftop)


# ------------------------------------------------------------------ raw host functions (state-manipulation)
SYS = "input register_len read_register storage_write storage_remove storage_read storage_has_key panic_utf8 log_utf8".split()


def _sys(ip, st, args, c, loc, rty, atys):
    vals = tuple(ip.freeze(st, a) for a in args)
    st = st.fork()
    st.effect("sys", c.method, vals, loc)
    if c.method in ("panic", "panic_utf8"):
        return []
    return [(st, T("sys_" + c.method, vals))]


MODELS.add(" ".join("near_sys::" + x for x in SYS + ["panic"]), _sys, True)


def _bare(name):
    """printed without the crate name where unambiguous: near_sys's only in the contract that has no near-sdk."""
    old = MODELS.by.get((None, name))

    def fn(ip, st, args, c, loc, rty, atys):
        if old is None or ip.c.name == "state-manipulation":
            return _sys(ip, st, args, c, loc, rty, atys)
        return old(ip, st, args, c, loc, rty, atys)
    MODELS.add(name, fn)


for _k in SYS:
    _bare(_k)


@model("alloc::exchange_malloc exchange_malloc", priority=True)
def _(ip, st, args, c, loc, rty, atys):
    """memory of a box, e.g. of the list that `vec![..]` fills in."""
    st = st.fork()
    n = st.cnt.get("tmp", 0) + 1
    st.cnt["tmp"] = n
    st.mem[("T", n, 0)] = T("uninit", ("T", n, 0))
    return [(st, T("ref", ("T", n, 0), ()))]


def literal(v):
    """a list of constant bytes is the literal of these bytes."""
    if v.op == "agg" and v.args[0] == "[]" and v.args[3] and all(x.op == "i" and 0 <= x.args[0] < 128 for x in v.args[3]):
        return S("".join(chr(x.args[0]) for x in v.args[3]))
    return v


@model("from_elem vec::from_elem")
def _(ip, st, args, c, loc, rty, atys):
    return T("fill", ip.freeze(st, args[0]), ip.freeze(st, args[1]))
