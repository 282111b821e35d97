"""Front end: turn /repo's current working tree into type-checked MIR (JSON), without running any of it.

spec/*.md --specr-transpile--> minirust-rs  --\
tooling/{miniutil,minimize,minirun}      ------> cargo check with driver/main.rs as RUSTC_WORKSPACE_WRAPPER -> *.json
Everything happens in a scratch directory; /repo and /opt/vp are only read.
"""
import os, shutil, subprocess, sys, json, hashlib, tempfile, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MINIRUST_REPO", "/repo")
CACHE = os.environ.get("SA_CACHE", os.path.join(VERIF, ".cache"))
CRATES = ["minirust-rs", "miniutil", "minimize", "minirun", "intrinsics"]
WHERE = {"intrinsics": os.path.join("minimize", "intrinsics")}


def source(c): return os.path.join(REPO, "tooling", WHERE.get(c, c))


class FrontError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="nightly-2026-04-01", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             NO_COLOR="1", RUST_BACKTRACE="0", CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0")
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin"
    for k in ("CI", "RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTC"):
        e.pop(k, None)
    return e


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise FrontError("%s failed:\n%s" % (" ".join(cmd[:3]), p.stdout[-3000:]))
    return p.stdout


def build_driver(e):
    src = os.path.join(VERIF, "driver", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(CACHE, "mirdump-" + h)
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = out + ".%d" % os.getpid()
        run(["rustc", "-O", "--edition", "2024", "-Awarnings", src, "-o", tmp], env=e)
        os.rename(tmp, out)
    return out


def tree_hash(crates):
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "spec"), os.path.join(REPO, "specr.toml"), os.path.join(VERIF, "driver")]
    roots += [os.path.join(source(c), "src") for c in crates if c != "minirust-rs"]
    roots += [os.path.join(source(c), "Cargo.toml") for c in crates if c != "minirust-rs"]
    for r in roots:
        if os.path.isfile(r):
            h.update(r.encode()); h.update(open(r, "rb").read())
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def dump(crates):
    """-> dict crate -> path of JSON dump. Results are keyed by a hash of the analysed sources."""
    os.makedirs(CACHE, exist_ok=True)
    e = env()
    order = [c for c in CRATES if c in crates or c == "minirust-rs" or (c == "miniutil" and ("minimize" in crates or "minirun" in crates))]
    key = tree_hash(order)
    outdir = os.path.join(CACHE, "mir-" + key)
    want = {c: os.path.join(outdir, c.replace("-", "_") + ".json") for c in crates}
    lock = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if all(os.path.exists(p) for p in want.values()):
            return want
        drv = build_driver(e)
        ws = os.path.join(CACHE, "ws")
        if os.path.exists(ws):
            shutil.rmtree(ws)
        os.makedirs(ws)
        # generate minirust-rs from the spec, as ./mini does
        cfg = open(os.path.join(REPO, "specr.toml")).read()
        lines = []
        for l in cfg.splitlines():
            if l.startswith("input"): l = 'input = "%s"' % os.path.join(REPO, "spec")
            if l.startswith("output"): l = 'output = "%s"' % os.path.join(ws, "minirust-rs")
            lines.append(l)
        open(os.path.join(ws, "specr.toml"), "w").write("\n".join(lines) + "\n")
        run(["specr-transpile", os.path.join(ws, "specr.toml")], env=e, cwd=ws)
        for c in order:
            if c == "minirust-rs": continue
            d = os.path.join(ws, c)
            shutil.copytree(source(c), d, ignore=shutil.ignore_patterns("target", "tests", "intrinsics"))
            t = open(os.path.join(d, "Cargo.toml")).read()
            if "[[test]]" in t:   # targets whose files are not copied
                t = t[:t.index("[[test]]")]
                open(os.path.join(d, "Cargo.toml"), "w").write(t)
        open(os.path.join(ws, "Cargo.toml"), "w").write(
            '[workspace]\nresolver = "2"\nmembers = [%s]\n' % ", ".join('"%s"' % c for c in order))
        shutil.copy(os.path.join(REPO, "tooling", "Cargo.lock"), os.path.join(ws, "Cargo.lock"))
        tmp = tempfile.mkdtemp(dir=CACHE)
        sysroot = run(["rustc", "--print", "sysroot"], env=e).strip()
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["MIRDUMP_DIR"] = tmp
        e["CARGO_TARGET_DIR"] = os.path.join(CACHE, "target")
        # force re-analysis of the members: cargo's freshness check would silently skip the wrapper
        fp = os.path.join(CACHE, "target", "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.rsplit("-", 1)[0] in [c for c in CRATES]:
                    shutil.rmtree(os.path.join(fp, d))
        cmd = ["cargo", "check", "--offline"]
        for c in order: cmd += ["-p", c]
        run(cmd, env=e, cwd=ws)
        for c in order:
            if not os.path.exists(os.path.join(tmp, c.replace("-", "_") + ".json")):
                raise FrontError("no MIR was produced for " + c)
        shutil.copytree(os.path.join(ws, "minirust-rs", "src"), os.path.join(tmp, "gen"))
        if os.path.exists(outdir): shutil.rmtree(outdir)
        os.rename(tmp, outdir)
        # keep only few dumps
        ds = sorted((os.path.getmtime(os.path.join(CACHE, d)), d) for d in os.listdir(CACHE) if d.startswith("mir-"))
        for _, d in ds[:-6]:
            shutil.rmtree(os.path.join(CACHE, d))
        return want
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == "__main__":
    t = time.time()
    print(dump(sys.argv[1:] or CRATES), time.time() - t)
