"""Paths, subprocess helpers and the build of the bounded companion."""
import fcntl, hashlib, os, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
NIGHTLY = "nightly-2024-11-07"
STABLE = "stable"


def env(toolchain=None, **kw):
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    e.pop("RUSTC_WRAPPER", None)
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    if toolchain:
        e["RUSTUP_TOOLCHAIN"] = toolchain
    e.update(kw)
    return e


def sh(cmd, cwd=None, e=None, timeout=600, errfile=None):
    """Runs cmd in its own process group; returns (rc, stdout, stderr); rc None on timeout."""
    err = open(errfile, "w") if errfile else subprocess.PIPE
    p = subprocess.Popen(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=err, text=True, errors="replace", start_new_session=True)
    try:
        o, r = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, r = p.communicate()
        rc = None
    if errfile:
        err.close()
        r = open(errfile, errors="replace").read()
    return rc, o, r


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


# name -> (toolchain, features of fallible_collections, features of the explorer)
VARIANTS = {
    "tree": (NIGHTLY, ["unstable", "std_io"], ["tree", "io"]),
    "hash": (STABLE, ["hashmap", "std_io"], ["hash", "io"]),
    "hashbrown": (STABLE, ["hashmap"], ["hash"]),
    "inspect": (NIGHTLY, ["unstable", "std_io"], ["tree", "io", "inspect"]),
}


def read(p):
    with open(p, errors="replace") as f:
        return f.read()


def write_if_changed(path, text):
    if os.path.exists(path) and read(path) == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def inspect_copy():
    """A copy of the crate with the inspector appended to two files (its only change)."""
    dst = os.path.join(BUILD, "copy")
    want = {}
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for n in files:
            p = os.path.join(root, n)
            want[os.path.relpath(p, REPO)] = read(p)
    want["Cargo.toml"] = read(os.path.join(REPO, "Cargo.toml"))
    for n, f in (("src/btree/node.rs", "node.rs"), ("src/btree/map.rs", "map.rs")):
        if n in want:
            want[n] += read(os.path.join(VERIF, "explore/inspect", f))
    for root, _, files in os.walk(os.path.join(dst, "src")):
        for n in files:
            p = os.path.join(root, n)
            if os.path.relpath(p, dst) not in want:
                os.unlink(p)
    for n, t in want.items():
        write_if_changed(os.path.join(dst, n), t)
    return dst


def build_explorer(variant):
    """Builds the explorer of a variant against /repo's working tree. Returns (binary or None, log)."""
    tc, dep, feat = VARIANTS[variant]
    d = os.path.join(BUILD, "ex-" + variant)
    dep_path = inspect_copy() if variant == "inspect" else REPO
    toml = f'''[package]
name = "explore"
version = "0.1.0"
edition = "2021"
[[bin]]
name = "explore"
path = "{VERIF}/explore/src/main.rs"
[features]
tree = []
hash = []
inspect = []
io = []
[dependencies]
fallible_collections = {{ path = "{dep_path}", default-features = false, features = [{", ".join('"%s"' % f for f in dep)}] }}
[profile.dev]
opt-level = 1
debug = 0
incremental = false
[workspace]
'''
    write_if_changed(os.path.join(d, "Cargo.toml"), toml)
    # cargo notices changes by modification time only: forget what it knows of the two crates
    fp = os.path.join(d, "target/debug/.fingerprint")
    if os.path.isdir(fp):
        for n in os.listdir(fp):
            if n.startswith(("fallible_collections-", "explore-")):
                shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
    rc, o, r = sh(["cargo", "build", "--offline", "--features", ",".join(feat)], cwd=d, e=env(tc), timeout=600)
    binary = os.path.join(d, "target/debug/explore")
    if rc != 0:
        return None, r[-4000:]
    return binary, ""
