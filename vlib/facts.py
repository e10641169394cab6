"""Extraction of facts from the current tree of the repository under analysis.

build_driver() compiles the rustc_private driver (driver/main.rs); get() runs `cargo check` with the
driver injected through RUSTC_WORKSPACE_WRAPPER and returns the parsed JSON of every workspace crate.
Facts are stored under a key that is the content hash of all Rust sources and manifests, so an
unchanged tree is not re-type-checked, and any change of any source file is.
"""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
EXPECT = ["varisat_internal_macros", "varisat_formula", "varisat_dimacs", "varisat_internal_proof",
          "varisat_checker", "varisat", "varisat_lrat", "varisat-bin"]


class FactsError(Exception):
    pass


def env():
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(("RUSTC", "RUSTFLAGS", "CARGO", "RUSTUP_TOOLCHAIN", "RUSTDOC"))}
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sysroot():
    r = run(["rustc", "+nightly", "--print", "sysroot"], env=env())
    if r.returncode != 0:
        raise FactsError("no nightly toolchain: " + r.stdout)
    return r.stdout.strip().splitlines()[-1]


def driver_path():
    src = open(os.path.join(VERIF, "driver", "main.rs"), "rb").read()
    h = hashlib.sha256(src).hexdigest()[:16]
    return os.path.join(BUILD, "vfacts-" + h)


def build_driver():
    p = driver_path()
    if os.path.exists(p):
        return p
    os.makedirs(BUILD, exist_ok=True)
    tmp = p + ".tmp%d" % os.getpid()
    r = run(["rustc", "+nightly", "--edition", "2021", "-O",
             os.path.join(VERIF, "driver", "main.rs"), "-o", tmp], env=env())
    if r.returncode != 0:
        raise FactsError("driver does not build:\n" + r.stdout[-4000:])
    os.rename(tmp, p)
    return p


def source_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if not (root == REPO and d in ("target", ".git", "manual")) and d != ".git")
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock", ".md")):
                out.append(os.path.join(root, f))
    return out


def source_hash():
    h = hashlib.sha256()
    for p in source_files():
        if p.endswith(".md"):
            continue
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        h.update(open(p, "rb").read())
        h.update(b"\0")
    h.update(driver_path().encode())
    return h.hexdigest()[:24]


def ensure():
    """Returns the directory with the facts of the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = build_driver()
        key = source_hash()
        fdir = os.path.join(BUILD, "facts", key)
        if os.path.exists(os.path.join(fdir, "DONE")):
            return fdir, key, True
        shutil.rmtree(fdir, ignore_errors=True)
        os.makedirs(fdir)
        target = os.path.join(BUILD, "target")
        # cargo's freshness cache would skip the wrapper for unchanged workspace crates
        for pat in ("debug/build/varisat*", "debug/.fingerprint/varisat*", "debug/incremental/*"):
            for d in glob.glob(os.path.join(target, pat)):
                shutil.rmtree(d, ignore_errors=True)
        e = env()
        e["VFACTS_OUT"] = fdir
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
        r = run(["cargo", "+nightly", "check", "--offline", "--locked", "--workspace", "--target-dir", target],
                env=e, cwd=REPO)
        missing = [c for c in EXPECT if not os.path.exists(os.path.join(fdir, c + ".json"))]
        if r.returncode != 0 or missing:
            shutil.rmtree(fdir, ignore_errors=True)
            raise FactsError("cargo check failed or crates missing %r:\n%s" % (missing, r.stdout[-4000:]))
        open(os.path.join(fdir, "DONE"), "w").close()
        # keep only a few fact sets
        olds = sorted(glob.glob(os.path.join(BUILD, "facts", "*")), key=os.path.getmtime)
        for d in olds[:-4]:
            shutil.rmtree(d, ignore_errors=True)
        return fdir, key, False


def load():
    fdir, key, cached = ensure()
    docs = {}
    for c in EXPECT:
        with open(os.path.join(fdir, c + ".json")) as f:
            docs[c] = json.load(f)
    return docs, key, cached


if __name__ == "__main__":
    t = time.time()
    d, k, c = load()
    print("facts", k, "cached" if c else "fresh", {n: len(x["bodies"]) for n, x in d.items()}, "%.1fs" % (time.time() - t))
