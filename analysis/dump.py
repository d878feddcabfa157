"""Build step: lower every contract of /repo's *current working tree* to MIR.

The contracts are type-checked with the project's own toolchain (rustc 1.69) for
wasm32-unknown-unknown, i.e. exactly the cfg the deployed contract is built with,
so the exported entry points that near_bindgen generates are part of the program.
Nothing of the contracts is executed; rustc only prints its intermediate representation.
"""
import hashlib, json, os, re, shutil, subprocess, sys, fcntl, glob

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
MIR = os.path.join(BUILD, "mir")
# crates that share compiled dependencies share a target directory; the groups are built in parallel
GROUPS = {"lockup": "a", "lockup-factory": "e", "w-near": "f", "multisig-factory": "g", "multisig2": "c",
          "state-manipulation": "d"}


def ws(crate):
    return os.path.join(BUILD, GROUPS.get(crate, "b"), "ws")


def target(crate):
    return os.path.join(BUILD, GROUPS.get(crate, "b"), "target")

CRATES = ["lockup", "lockup-factory", "whitelist", "staking-pool", "staking-pool-factory",
          "multisig", "multisig2", "multisig-factory", "voting", "w-near", "state-manipulation"]
GIT_DEPS = {"multisig", "staking-pool", "staking-pool-factory"}
FEATURES = {"state-manipulation": {
    "all": ["--all-features"],
    "clean": ["--no-default-features", "--features", "clean"],
    "replace": ["--no-default-features", "--features", "replace"]}}


class BuildError(Exception):
    pass


def env(crate):
    tc = "/root/.rustup/toolchains/1.69.0-x86_64-unknown-linux-gnu/bin"
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="1.70.0", RUSTC=tc + "/rustc", RUSTDOC=tc + "/rustdoc",
             RUSTC_WRAPPER="", RUSTFLAGS="", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=target(crate), RUSTC_BOOTSTRAP="1",
             PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e.pop("CARGO_BUILD_TARGET", None)
    return e


def crate_hash(crate):
    h = hashlib.sha256()
    h.update(b"v4")
    roots = [os.path.join(REPO, crate)]
    # include_bytes!/include_str! of sibling crates only change data, but hash res names anyway
    for root in roots:
        for dp, dn, fn in sorted(os.walk(root)):
            dn[:] = sorted(d for d in dn if d not in ("target", ".git", "tests", "res"))
            for f in sorted(fn):
                p = os.path.join(dp, f)
                h.update(os.path.relpath(p, REPO).encode())
                try:
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                except OSError:
                    pass
    return h.hexdigest()[:24]


def sync(crate):
    WS = ws(crate)
    os.makedirs(WS, exist_ok=True)
    dst = os.path.join(WS, crate)
    subprocess.run(["rsync", "-rlpc", "--delete", "--exclude", "/target",
                    os.path.join(REPO, crate) + "/", dst + "/"], check=True)
    # resources that other contracts embed
    if crate.endswith("-factory"):
        for d in sorted(os.listdir(REPO)):
            r = os.path.join(REPO, d, "res")
            if os.path.isdir(r) and d != crate:
                os.makedirs(os.path.join(WS, d, "res"), exist_ok=True)
                subprocess.run(["rsync", "-rlpc", r + "/", os.path.join(WS, d, "res") + "/"], check=True)
    ct = os.path.join(dst, "Cargo.toml")
    if crate in GIT_DEPS:
        with open(ct) as f:
            t = f.read()
        t = "".join(l for l in t.splitlines(True)
                    if not re.match(r"^[A-Za-z0-9_-]+ *= *\{ *git *=", l))
        with open(ct, "w") as f:
            f.write(t)


def thir_consts(lines):
    """Every use of a named constant in the type-checked program (definition path, type, span) and
    the span of every body; MIR text prints such operands as `const _`."""
    uses, defs = [], []
    st, d, ty, body, first = 0, None, None, None, False
    for l in lines:
        if l.startswith("DefId("):
            m = re.match(r"^DefId\(\d+:\d+ ~ (.*)\):", l)
            body, first = (m.group(1) if m else None), True
            continue
        if "span: " not in l and st == 0 and "NamedConst {" not in l:
            continue
        s = l.strip()
        if st == 0:
            if s == "kind: NamedConst {":
                st = 1
            elif first and body and s.startswith("span: "):
                defs.append([body, s[6:].rstrip(",").split(" (#")[0]])
                first = False
        elif s.startswith("def_id: "):
            d = re.match(r"^DefId\(\d+:\d+ ~ (.*)\)$", s[8:].rstrip(",")).group(1)
        elif s.startswith("ty: "):
            ty = s[4:].rstrip(",")
        elif s.startswith("span: "):
            uses.append([d, ty, s[6:].rstrip(",").split(" (#")[0]])
            st = 0
    return {"uses": uses, "defs": defs}


def dump(crate, variant=""):
    """Return (mir_path, expanded_path) for the crate, rebuilding when its source changed."""
    os.makedirs(MIR, exist_ok=True)
    WS = ws(crate)
    with open(os.path.join(BUILD, ".lock-" + GROUPS.get(crate, "b")), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        name = crate + ("." + variant if variant else "")
        out = os.path.join(MIR, name + ".mir")
        exp = os.path.join(MIR, name + ".rs")
        stamp = os.path.join(MIR, name + ".hash")
        hv = crate_hash(crate)
        if os.path.exists(stamp) and open(stamp).read() == hv and os.path.exists(out) and os.path.exists(exp):
            return out, exp
        if os.path.exists(stamp):
            os.remove(stamp)
        sync(crate)
        feats = FEATURES.get(crate, {}).get(variant, [])
        for unpretty, dst in (("mir", out), ("expanded", exp), ("thir-flat", os.path.join(MIR, name + ".thir"))):
            cmd = ["cargo", "rustc", "--profile", "check", "--lib", "--target", "wasm32-unknown-unknown",
                   "--offline"] + feats + ["--", "-Zunpretty=" + unpretty,
                                           "-Zmir-opt-level=0", "-Coverflow-checks=on"]
            if crate == "state-manipulation":
                cmd.insert(-1, "-Cpanic=abort")
            e = env(crate)
            if crate == "state-manipulation":
                e.pop("RUSTFLAGS", None)
            # cargo decides freshness by mtime; make sure the crate itself is always re-lowered
            for f in glob.glob(os.path.join(WS, crate, "src", "**", "*.rs"), recursive=True):
                os.utime(f)
            p = subprocess.run(cmd, cwd=os.path.join(WS, crate), env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE)
            if p.returncode != 0 or not p.stdout:
                raise BuildError("cargo rustc (%s) failed for %s:\n%s" % (
                    unpretty, name, p.stderr.decode("utf8", "replace")[-4000:]))
            if unpretty == "thir-flat":
                with open(os.path.join(MIR, name + ".consts.json"), "w") as f:
                    json.dump(thir_consts(p.stdout.decode("utf8", "replace").split("\n")), f)
                continue
            with open(dst, "wb") as f:
                f.write(p.stdout)
        with open(stamp, "w") as f:
            f.write(hv)
        return out, exp


def dump_all(crates):
    """Lower the crates, groups in parallel; errors surface again when the crate is loaded."""
    import threading
    todo = {}
    for c in crates:
        todo.setdefault(GROUPS.get(c, "b"), []).append(c)

    def work(cs):
        for c in cs:
            for v in FEATURES.get(c, {"": []}):
                try:
                    dump(c, v)
                except Exception:
                    pass
    th = [threading.Thread(target=work, args=(cs,)) for cs in todo.values()]
    for t in th:
        t.start()
    for t in th:
        t.join()


if __name__ == "__main__":
    want = sys.argv[1:] or CRATES
    for c in want:
        for v in FEATURES.get(c, {"": []}):
            print(c, v, *dump(c, v), flush=True)
