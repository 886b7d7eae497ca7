"""Builds what the checks need from /repo's current tree: the engine, the harness as LLVM IR, and
the native replay binaries (release and dev profile)."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ELM_REPO", "/repo")
ENGINE = V + "/engine/target/release/symx"
JOBS = os.cpu_count() or 4


def src_hash():
    h = hashlib.sha256()
    roots = [REPO + "/src", V + "/harness/src", V + "/regex-shim/src", V + "/replay/src", V + "/bins/help/src", V + "/bins/replay/src"]
    files = [REPO + "/Cargo.toml", REPO + "/Cargo.lock", V + "/build.py"]
    files += ["%s/%s/Cargo.%s" % (V, d, e) for e in ("toml", "lock")
              for d in ("harness", "regex-shim", "replay", "bins/help", "bins/check", "bins/dump", "bins/replay")]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def cargo(d, args, flags, target=None):
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTFLAGS=flags,
               CARGO_TARGET_DIR=target or d + "/target")
    for k in ("RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    p = subprocess.run(["cargo"] + args, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError("cargo %s in %s:\n%s" % (" ".join(args), d, p.stdout[-4000:]))


def stale(d, h):  # d: a target directory
    """cargo decides by time stamps; this decides by content"""
    mark = d + "/src.hash"
    if os.path.exists(mark) and open(mark).read() == h:
        return False
    for prof in ("release", "debug"):
        for n in ("elm-parser-*", "elm_parser-*", "elm-harness-*", "replay-*", "elm-help-*", "elm-tool-*", "tool-replay-*"):
            for f in glob.glob("%s/%s/.fingerprint/%s" % (d, prof, n)):
                shutil.rmtree(f, ignore_errors=True)
    return True


IRFLAGS = "--cfg elm_verif -C no-vectorize-loops -C no-vectorize-slp"


def build(what=("engine", "ir", "replay", "check", "dump", "tools"), log=sys.stderr):
    t0 = time.time()
    os.makedirs(V + "/build", exist_ok=True)
    lock = open(V + "/build/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    h = src_hash()
    errs = []

    def run(f):
        def g():
            try:
                f()
            except Exception as e:  # noqa
                errs.append(str(e))
        t = threading.Thread(target=g)
        t.start()
        return t

    def mark(d):
        os.makedirs(d, exist_ok=True)
        open(d + "/src.hash", "w").write(h)

    def engine():
        cargo(V + "/engine", ["build", "--release", "--offline"], "")

    def ir():
        d = V + "/harness"
        ll = glob.glob(d + "/target/release/deps/elm_harness.ll")
        if stale(d + "/target", h) or not ll:
            cargo(d, ["rustc", "--release", "--offline", "--", "--emit=llvm-ir"], IRFLAGS)
            mark(d + "/target")

    def tool(t):
        """the tool's own source as a library, with its `main` reachable for the entries"""
        d = "%s/bins/%s" % (V, t)
        ll = glob.glob("%s/target/release/deps/elm_tool_%s.ll" % (d, t))
        if stale(d + "/target", h) or not ll:
            gen = d + "/gen"
            shutil.rmtree(gen, ignore_errors=True)
            os.makedirs(gen)
            for n in os.listdir(REPO + "/src"):
                if n != "lib.rs":
                    os.symlink("%s/src/%s" % (REPO, n), gen + "/" + n)
            src = open("%s/src/%s.rs" % (REPO, t)).read()
            open(gen + "/lib.rs", "w").write(src + "\nextern crate elm_help;\n#[no_mangle]\npub fn verif_tool_main() {\n    let _ = main();\n}\n")
            cargo(d, ["rustc", "--release", "--offline", "--", "--emit=llvm-ir"], IRFLAGS)
            mark(d + "/target")

    def tools():
        d = V + "/bins/tools"
        s = stale(d, h)
        for prof in ([], ["--release"]):
            if s or not os.path.exists("%s/%s/elm-parser-dump" % (d, "release" if prof else "debug")):
                cargo(REPO, ["build", "--bins", "--offline", "--locked"] + prof, "", d)
        mark(d)

    def tool_replay():
        d = V + "/bins/replay"
        s = stale(d + "/target", h)
        for prof in ([], ["--release"]):
            if s or not os.path.exists("%s/target/%s/tool-replay" % (d, "release" if prof else "debug")):
                cargo(d, ["build", "--offline"] + prof, "--cfg elm_verif")
        mark(d + "/target")

    def replay():
        d = V + "/replay"
        s = stale(d + "/target", h)
        if s or not os.path.exists(d + "/target/release/replay"):
            cargo(d, ["build", "--release", "--offline"], "--cfg elm_verif")
        if s or not os.path.exists(d + "/target/debug/replay"):
            cargo(d, ["build", "--offline"], "--cfg elm_verif")
        mark(d + "/target")

    ts = []
    if "engine" in what:
        ts.append(run(engine))
    if "ir" in what:
        ts.append(run(ir))
    for t in ("check", "dump"):
        if t in what:
            ts.append(run(lambda t=t: tool(t)))
    if "tools" in what:
        ts.append(run(tools))
        ts.append(run(tool_replay))
    if "replay" in what:
        ts.append(run(replay))
    for t in ts:
        t.join()
    lock.close()
    if errs:
        raise RuntimeError("\n".join(errs))
    return h, time.time() - t0


if __name__ == "__main__":
    try:
        h, t = build()
    except RuntimeError as e:
        print(e)
        sys.exit(2)
    print("built %s in %.1fs" % (h[:12], t))
