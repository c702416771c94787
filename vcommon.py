"""Shared machinery of the checks: build engine and harness, run symx, replay, write evidence."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, "build")
REPO = "/repo"
SYMX = os.path.join(BUILD, "symx")
VPRUN = os.path.join(BUILD, "vprun")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def build_engine():
    with Lock("engine"):
        r = sh(["bash", os.path.join(VERIF, "engine/build.sh"), SYMX])
        if r.returncode:
            raise RuntimeError("engine build failed:\n" + r.stdout[-3000:])
        src = os.path.join(VERIF, "harness/vprun.c")
        if not os.path.exists(VPRUN) or os.path.getmtime(VPRUN) < os.path.getmtime(src):
            r = sh(["gcc", "-O1", "-rdynamic", "-o", VPRUN, src, "-ldl"])
            if r.returncode:
                raise RuntimeError("vprun build failed:\n" + r.stdout)


def cargo_env(target, rustflags=""):
    env = {k: v for k, v in os.environ.items() if k in ("HOME", "USER", "LANG", "TMPDIR")}
    env.update(
        PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        RUSTUP_TOOLCHAIN="nightly-2022-02-16", CARGO_HOME="/opt/svm-env/cargo-home",
        CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
        CARGO_TARGET_DIR=target, RUSTFLAGS=rustflags, RUSTC_WRAPPER="")
    for k in ("RUSTUP_HOME",):
        if k in os.environ:
            env[k] = os.environ[k]
    return env


def fixture():
    """svm-genesis-config embeds this (git-ignored) module; build it when it is not there."""
    d = os.path.join(REPO, "simple-coin-transfer-template")
    name = "simple_coin_transfer_template.wasm"
    with Lock("fixture"):
        if os.path.exists(os.path.join(d, name)):
            return
        target = os.path.join(BUILD, "target-fixture")
        r = sh(["cargo", "build", "--release", "--offline", "--locked", "--target", "wasm32-unknown-unknown"],
               cwd=d, env=cargo_env(target))
        if r.returncode:
            raise RuntimeError("fixture build failed:\n" + r.stdout[-3000:])
        shutil.copy(os.path.join(target, "wasm32-unknown-unknown/release", name), os.path.join(d, name))


def build_group(group):
    """Whole-program bitcode and native library of one harness crate, from /repo's current tree."""
    d = os.path.join(VERIF, "harness", group)
    target = os.path.join(BUILD, "target-" + group)
    env = cargo_env(target, "-C no-vectorize-loops -C no-vectorize-slp -C embed-bitcode=yes")
    if group not in ("sdk", "codec", "gas", "json", "tools"):
        fixture()
    with Lock("group-" + group):
        t = time.time()
        r = sh(["cargo", "rustc", "--release", "--offline", "--lib", "--", "--emit=llvm-bc"], cwd=d, env=env)
        if r.returncode:
            raise RuntimeError("harness build failed (%s):\n%s" % (group, r.stdout[-6000:]))
        deps = os.path.join(target, "release/deps")
        return os.path.join(deps, "vp%s.bc" % group), os.path.join(deps, "libvp%s.so" % group), time.time() - t


def run_symx(bc, entries, out, secs, procs=8, extra=()):
    cmd = [SYMX, bc, "--out", out, "--secs", str(secs), "--procs", str(procs)] + list(extra)
    for e in entries:
        cmd += ["--entry", e]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    try:
        d = json.loads(r.stdout)
    except Exception:
        raise RuntimeError("symx failed (%d): %s\n%s" % (r.returncode, r.stderr[-2000:], r.stdout[-500:]))
    if r.returncode:
        raise RuntimeError("symx failed: " + r.stderr[-2000:])
    return d


def native(lib, entry, model, valgrind=False, timeout=30):
    """Replays one model on the compiled code. Returns (status, output)."""
    scratch = tempfile.mkdtemp(prefix="vpreplay")
    try:
        cmd = [VPRUN, lib, entry, os.path.abspath(model)]
        if valgrind:
            cmd = ["valgrind", "-q", "--error-exitcode=43", "--leak-check=no"] + cmd
            timeout *= 5
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=scratch,
                               env={"PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0"})
        except subprocess.TimeoutExpired:
            return "timeout", ""
        out = r.stdout.decode(errors="replace")
        err = r.stderr.decode(errors="replace")
        if r.returncode == 0:
            st = "held"
        elif r.returncode == 42:
            st = "failed"
        elif r.returncode == 77:
            st = "assume"
        elif r.returncode in (2, 78):
            st = "error"
        elif r.returncode == 43 and valgrind:
            st = "failed"
        else:
            st = "failed"  # crash: signal or abort
        return st, out + err
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def known_findings():
    p = os.path.join(VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                res.append(json.loads(l))
    return res
