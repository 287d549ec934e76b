"""Builds the MIR dumper and runs it over /repo's current working tree (lib and bin)."""
import hashlib, json, os, shutil, subprocess, sys, fcntl, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CAMBRIAN_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))


class ExtractError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER"):
            e.pop(k)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["RUSTC_WRAPPER"] = ""
    e["PATH"] = os.path.expanduser("~/.cargo/bin") + ":" + e.get("PATH", "")
    return e


def _run(cmd, env, cwd, what):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ExtractError("%s failed:\n%s" % (what, r.stdout[-6000:]))
    return r.stdout


def src_hash():
    h = hashlib.sha256()
    files = []
    for base in ("src",):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            files += [os.path.join(d, f) for f in fs]
    for f in ("Cargo.toml", "Cargo.lock", "build.rs"):
        files.append(os.path.join(REPO, f))
    for f in ("Cargo.toml", "src/main.rs"):
        files.append(os.path.join(VERIF, "driver", f))
    for f in sorted(files):
        if os.path.exists(f):
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()[:24]


def build_driver():
    env = _env()
    tgt = os.path.join(CACHE, "driver")
    env["CARGO_TARGET_DIR"] = tgt
    _run(["cargo", "build", "--offline", "--quiet"], env, os.path.join(VERIF, "driver"), "building the MIR dumper")
    return os.path.join(tgt, "debug", "mirdump")


def dump():
    """Returns (lib, bin) dumps for the current tree.  Keyed by the content of every source file,
    so a dump is only reused for byte-identical sources."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = src_hash()
        out = os.path.join(CACHE, "dump-" + key)
        if not os.path.exists(os.path.join(out, "ok")):
            drv = build_driver()
            for old in glob.glob(os.path.join(CACHE, "dump-*")):
                shutil.rmtree(old, ignore_errors=True)
            os.makedirs(out)
            env = _env()
            sysroot = _run(["rustc", "--print", "sysroot"], env, VERIF, "rustc").strip()
            env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib") + ":" + env.get("LD_LIBRARY_PATH", "")
            tgt = os.path.join(CACHE, "target")
            env["CARGO_TARGET_DIR"] = tgt
            env["RUSTC_WORKSPACE_WRAPPER"] = drv
            env["MIRDUMP_OUT"] = out
            # dependencies probe for nightly-only features; make them see a stable compiler
            env["RUSTFLAGS"] = "-Zallow-features="
            # never let cargo consider the crate up to date: its dump is what we are after
            for pat in ((".fingerprint", "cambrian-*"), ("build", "cambrian"), ("build", "cambrian-*")):
                for f in glob.glob(os.path.join(tgt, "debug", *pat)):
                    shutil.rmtree(f, ignore_errors=True)
            _run(["cargo", "check", "--offline", "--lib", "--bins"], env, REPO, "type-checking /repo")
            for f in ("cambrian-lib.json", "cambrian-bin.json"):
                if not os.path.exists(os.path.join(out, f)):
                    raise ExtractError("no MIR dump %s was produced" % f)
            open(os.path.join(out, "ok"), "w").close()
    return tuple(os.path.join(out, f) for f in ("cambrian-lib.json", "cambrian-bin.json"))


if __name__ == "__main__":
    print(dump())
