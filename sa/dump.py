"""Build the THIR exporter and run it on /repo's current working tree.

The exporter (driver/) is a rustc wrapper: it type-checks the crate with the real
build's flags and writes the typed, name-resolved program (THIR) as JSON.  Nothing
of the crate is executed.  The result is cached under build/ by the content of the
files that the compiler reads, so that a changed tree is always analysed afresh.
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VBH_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


def sh(cmd, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def sysroot():
    rc, out = sh(["rustc", "+nightly", "--print", "sysroot"])
    if rc:
        raise SystemExit("no nightly toolchain: " + out)
    return out.strip().splitlines()[-1]


def tree_key():
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml")) or f == "Cargo.lock":
                files.append(os.path.join(root, f))
    files.append(os.path.join(VERIF, "driver/src/main.rs"))
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def build_driver(sr):
    src = os.path.join(VERIF, "driver/src/main.rs")
    out = os.path.join(BUILD, "vbh-driver")
    stamp = out + ".src"
    text = open(src).read()
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == text:
        return out
    rc, o = sh(["rustc", "+nightly", "--edition", "2021", "-O", "-C", "prefer-dynamic", src, "-o", out],
               {"LD_LIBRARY_PATH": sr + "/lib"})
    if rc:
        sys.stdout.write(o)
        raise SystemExit("cannot build the THIR exporter")
    open(stamp, "w").write(text)
    return out


def dump():
    """Return the exported program (a dict) for the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_key()
        path = os.path.join(BUILD, "thir-%s.json" % key)
        if not os.path.exists(path):
            sr = sysroot()
            drv = build_driver(sr)
            target = os.path.join(BUILD, "target")
            lockdir = os.path.join(BUILD, "lockfile")
            os.makedirs(lockdir, exist_ok=True)
            shutil.copy(os.path.join(VERIF, "lock/Cargo.lock"), os.path.join(lockdir, "Cargo.lock"))
            # cargo skips the wrapper where it deems the crate fresh: forget the crate
            for sub in (".fingerprint", "build"):
                fp = os.path.join(target, "debug", sub)
                for d in os.listdir(fp) if os.path.isdir(fp) else ():
                    if d.startswith("validate-btc-header"):
                        shutil.rmtree(os.path.join(fp, d))
            tmp = path + ".tmp"
            if os.path.exists(tmp):
                os.remove(tmp)
            env = {
                "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "",
                "CARGO_RESOLVER_LOCKFILE_PATH": os.path.join(lockdir, "Cargo.lock"),
                "VBH_CRATE": "validate_btc_header", "VBH_OUT": tmp,
                "RUSTC_WORKSPACE_WRAPPER": drv, "LD_LIBRARY_PATH": sr + "/lib",
                "CARGO_TARGET_DIR": target, "CARGO_INCREMENTAL": "0",
            }
            env.setdefault("RUSTUP_TOOLCHAIN", "")
            e = dict(os.environ)
            e.pop("RUSTUP_TOOLCHAIN", None)
            e.update({k: v for k, v in env.items() if k != "RUSTUP_TOOLCHAIN"})
            for attempt in (0, 1):
                p = subprocess.run(["cargo", "+nightly", "check", "--offline", "--lib"], env=e, cwd=REPO,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode or os.path.exists(tmp):
                    break
                shutil.rmtree(target, ignore_errors=True)
            if p.returncode or not os.path.exists(tmp):
                sys.stdout.write(p.stdout)
                raise SystemExit("cannot export the program of " + REPO)
            for f in os.listdir(BUILD):
                if f.startswith("thir-") and f != os.path.basename(path) and not f.endswith(".tmp"):
                    os.remove(os.path.join(BUILD, f))
            os.rename(tmp, path)
        with open(path) as f:
            d = json.load(f)
    if d.get("failed"):
        raise SystemExit("the exporter could not read: %s" % d["failed"])
    return d


if __name__ == "__main__":
    d = dump()
    print("bodies", len(d["bodies"]), "adts", len(d["adts"]), "impls", len(d["impls"]))
