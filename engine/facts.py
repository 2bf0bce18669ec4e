"""Builds the rustc driver and extracts the facts (instance-resolved MIR as JSON) from /repo's working tree."""
import hashlib, json, os, shutil, subprocess, sys, fcntl, pickle

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOLCHAIN = "nightly"

# name -> (cargo feature flags, extra rustflags)
CONFIGS = {
    # every feature on; code as a release build compiles it
    "std": (["--all-features"], "-Cdebug-assertions=off -Coverflow-checks=off"),
    # no_std: the crate's own spin mutex instead of parking_lot's
    "nostd": (["--no-default-features", "--features", "alloc,static"], "-Cdebug-assertions=off -Coverflow-checks=off"),
    # every feature on; debug assertions and overflow checks compiled in
    "debug": (["--all-features"], "-Cdebug-assertions=on -Coverflow-checks=on"),
}


class FactsError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def _run(cmd, env, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def sysroot():
    rc, out = _run(["rustc", "+" + TOOLCHAIN, "--print", "sysroot"], _env())
    if rc != 0:
        raise FactsError("no nightly toolchain: " + out)
    return out.strip()


def _hash_files(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()


def repo_sources():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        for f in sorted(fs):
            out.append(os.path.join(d, f))
    out.append(os.path.join(REPO, "Cargo.toml"))
    b = os.path.join(REPO, "build.rs")
    if os.path.exists(b):
        out.append(b)
    return out


def build_driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    key = _hash_files([src])[:16]
    out = os.path.join(BUILD, "driver-" + key)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    rc, log = _run(["rustc", "+" + TOOLCHAIN, "-O", "--edition", "2021", src, "-o", out + ".tmp"], _env())
    if rc != 0:
        raise FactsError("driver does not build:\n" + log)
    os.rename(out + ".tmp", out)
    return out


def make_ws(config):
    """Mirror of /repo as a cargo workspace (see /opt/vp/mkws.sh): symlinks, and a manifest without the loom lines."""
    ws = os.path.join(BUILD, "ws-" + config)
    os.makedirs(ws, exist_ok=True)
    for f in os.listdir(ws):
        p = os.path.join(ws, f)
        if os.path.islink(p):
            os.unlink(p)
    for f in os.listdir(REPO):
        if f in (".git", "target", "Cargo.toml", "Cargo.lock"):
            continue
        os.symlink(os.path.join(REPO, f), os.path.join(ws, f))
    with open(os.path.join(REPO, "Cargo.toml")) as f:
        lines = [l for l in f if not l.replace(" ", "").startswith("loom=")]
    with open(os.path.join(ws, "Cargo.toml"), "w") as f:
        f.writelines(lines)
    shutil.copy(os.path.join(VERIF, "driver", "Cargo.lock"), os.path.join(ws, "Cargo.lock"))
    return ws


def extract(config):
    """Returns the path of the facts JSON for `config`, rebuilt from /repo's working tree if its sources changed."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = build_driver()
        key = _hash_files(repo_sources() + [os.path.join(VERIF, "driver", "main.rs"), os.path.join(VERIF, "engine", "facts.py")])[:24]
    with open(os.path.join(BUILD, "lock-" + config), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = os.path.join(BUILD, "facts-%s-%s.json" % (config, key))
        if os.path.exists(out):
            return out
        for f in os.listdir(BUILD):
            if f.startswith("facts-%s-" % config):
                os.unlink(os.path.join(BUILD, f))
        ws = make_ws(config)
        feats, flags = CONFIGS[config]
        target = os.path.join(BUILD, "target-" + config)
        # cargo's freshness cache would skip the driver
        fp = os.path.join(target, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("thingbuf-"):
                    shutil.rmtree(os.path.join(fp, d))
        bp = os.path.join(target, "debug", "build", "thingbuf")
        if os.path.isdir(bp):
            shutil.rmtree(bp)
        env = _env()
        env["CARGO_TARGET_DIR"] = target
        env["RUSTFLAGS"] = flags
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
        env["FACTS_OUT"] = out + ".tmp"
        env["FACTS_CRATE"] = "thingbuf"
        env["CARGO_INCREMENTAL"] = "0"
        rc, log = _run(["cargo", "+" + TOOLCHAIN, "check", "-p", "thingbuf", "--lib", "--offline"] + feats, env, cwd=ws)
        if rc != 0 or not os.path.exists(out + ".tmp"):
            raise FactsError("thingbuf does not build in configuration %s:\n%s" % (config, log))
        os.rename(out + ".tmp", out)
        return out


if __name__ == "__main__":
    for c in sys.argv[1:] or CONFIGS:
        print(c, extract(c))
