"""Builds everything a check needs, offline, into /verif/build."""
import fcntl, hashlib, os, shutil, subprocess, threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, "build")


class BuildError(Exception):
    pass


def sh(cmd, cwd, env=None, what=""):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s failed:\n%s" % (what or " ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            fs = [p]
        else:
            fs = []
            for d, ds, ns in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                fs += [os.path.join(d, n) for n in sorted(ns)]
        for f in fs:
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()


def stamp_ok(f, v):
    return os.path.exists(f) and open(f).read() == v


def engine():
    t = os.path.join(BUILD, "engine")
    exe = os.path.join(t, "release", "symex")
    s = os.path.join(BUILD, "engine.stamp")
    h = tree_hash([os.path.join(ROOT, "engine", x) for x in ("src", "Cargo.toml", "build.rs")])
    if os.path.exists(exe) and stamp_ok(s, h):
        return exe
    sh(["cargo", "build", "--release", "--offline"], os.path.join(ROOT, "engine"), {"CARGO_TARGET_DIR": t}, "engine build")
    open(s, "w").write(h)
    return exe


def sysroot():
    o = os.path.join(BUILD, "sysroot")
    s = os.path.join(BUILD, "sysroot.stamp")
    h = tree_hash([os.path.join(ROOT, "bin", x) for x in ("mkstd.py", "mksysroot.sh")])
    if os.path.exists(o) and stamp_ok(s, h):
        return o
    sh([os.path.join(ROOT, "bin", "mksysroot.sh"), o], ROOT, None, "sysroot build")
    # what was compiled against the previous standard library is of no use
    shutil.rmtree(os.path.join(BUILD, "wasm"), ignore_errors=True)
    open(s, "w").write(h)
    return o


def parallel(*fs):
    res = [None] * len(fs)
    err = []

    def run(i, f):
        try:
            res[i] = f()
        except Exception as e:  # noqa
            err.append(e)
    ts = [threading.Thread(target=run, args=(i, f)) for i, f in enumerate(fs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if err:
        raise err[0] if isinstance(err[0], BuildError) else BuildError(repr(err[0]))
    return res


def build(feature):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        srchash = tree_hash(["/repo/src", "/repo/Cargo.toml"])
        # cargo decides by time stamps; a restored older file must not be missed
        st = os.path.join(BUILD, "repo.stamp")
        if not stamp_ok(st, srchash):
            for d in ("wasm/wasm64-unknown-unknown/release", "native/debug"):
                for sub in (".fingerprint", "deps", "incremental"):
                    dd = os.path.join(BUILD, d, sub)
                    if os.path.isdir(dd):
                        for n in os.listdir(dd):
                            if n.startswith(("mysql_cdc", "libmysql_cdc", "harness", "libharness", "replay")):
                                q = os.path.join(dd, n)
                                shutil.rmtree(q) if os.path.isdir(q) else os.remove(q)
            open(st, "w").write(srchash)
        hd = os.path.join(ROOT, "harness")

        def native():
            sh(["cargo", "build", "--offline", "--bin", "replay", "--no-default-features", "--features", "native," + feature], hd,
               {"CARGO_TARGET_DIR": os.path.join(BUILD, "native")}, "native harness build")
            out = os.path.join(BUILD, "replay-" + feature)
            shutil.copyfile(os.path.join(BUILD, "native", "debug", "replay"), out + ".tmp")
            os.chmod(out + ".tmp", 0o755)
            os.rename(out + ".tmp", out)
            return out

        def wasm():
            s = sysroot()
            sh(["cargo", "+nightly", "build", "--release", "--offline", "--target", "wasm64-unknown-unknown", "--lib",
                "--no-default-features", "--features", feature], hd,
               {"CARGO_TARGET_DIR": os.path.join(BUILD, "wasm"), "RUSTFLAGS": "--sysroot %s -Clink-arg=--allow-undefined" % s}, "wasm harness build")
            out = os.path.join(BUILD, feature + ".wasm")
            shutil.copyfile(os.path.join(BUILD, "wasm/wasm64-unknown-unknown/release/harness.wasm"), out)
            return out
        e, w, n = parallel(engine, wasm, native)
        return {"symex": e, "wasm": w, "replay": n, "srchash": srchash}


if __name__ == "__main__":
    import sys
    for f in sys.argv[1:] or ["all"]:
        print(build(f))
