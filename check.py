"""check.py PROPERTY: decides one property of /repo's current tree by symbolic execution.

exit 0: it held on every path explored; exit 1 with a VIOLATION line: a counterexample from the
solver was confirmed by running the real, natively built code on it; exit 2: no answer.
VERIF_TIER=thorough adds the deeper entries; VERIF_SEED picks the leaves that are replayed."""
import json, os, re, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

import build as B
import props as P

V = B.V
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
T0 = time.time()


def log(*a):
    print(*a, flush=True)


def symx(entry, ll, out, secs, samples, cap):
    c = [B.ENGINE, "--ll", ll, "--out", out, "--jobs", str(B.JOBS), "--seed", str(SEED), "--time", str(secs),
         "--samples", str(samples), "--cap", str(cap), "--warm", "warm", "--maxfails", "4", entry]
    if os.path.exists(out):
        os.remove(out)
    p = subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        said = p.communicate(timeout=secs + 60)[0]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        subprocess.run(["rm", "-rf", out + ".parts"])
        return None
    if not os.path.exists(out):
        raise RuntimeError("symx %s ended with %d: %s" % (entry, p.returncode, said[-1500:]))
    return json.load(open(out))


def native(exe, entry, wit, show=False, timeout=20):
    env = dict(os.environ)
    env.pop("REPLAY_SHOW", None)
    if show:
        env["REPLAY_SHOW"] = "1"
    try:
        p = subprocess.run([exe, entry, wit], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(end="hang", notes="-", out="-", msg="no answer within %d s" % timeout, err="")
    t = p.stdout.decode("utf8", "replace").rstrip("\n").split(" ", 3)
    err = p.stderr.decode("utf8", "replace")
    if p.returncode != 0 or len(t) < 3:
        return dict(end="crash", notes="-", out="-", msg="exit status %d" % p.returncode, err=err[-2000:])
    return dict(end=t[0], notes=t[1], out=t[2], msg=t[3] if len(t) > 3 else "", err=err)


def lines(conf, out):
    """directories are read in any order"""
    return sorted(bytes.fromhex(out).split(b"\n")) if conf.get("any_order") and out != "-" else out


BAD = ("fail", "panic", "crash", "hang")


def known(prop):
    """lines `known: property=<id> key=<key> <text>` of known-findings.txt"""
    r = {}
    f = V + "/known-findings.txt"
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3).strip()
    return r


def main(prop):
    if prop not in P.PROPS:
        log("no such property", prop)
        return 2
    conf = P.PROPS[prop]
    ev = dict(property=prop, tier=TIER, seed=SEED, level="model_checking")
    try:
        h, tb = B.build(conf.get("build", ("engine", "ir", "replay")))
    except RuntimeError as e:
        log("cannot build:", str(e)[-3000:])
        return 2
    ll = V + "/" + conf.get("ll", "harness/target/release/deps/elm_harness.ll")
    exes = ["%s/%s" % (V, conf.get("exe", "replay/target/%s/replay") % m) for m in ("release", "debug")]
    names = P.entries(prop, exes[0])
    todo = [n for n in names if TIER == "thorough" or not P.is_deep(n)]
    # the entries with few symbolic bytes first: they give an answer also where a change makes the others explode
    todo.sort(key=lambda n: not n.endswith(("_digits", "_special", "_twin", "_breaks")))
    if not todo:
        log("no entries")
        return 2
    limit = P.LIMIT[TIER]
    per = P.PER[TIER]
    samples = 12 if TIER == "quick" else 60
    tmp = tempfile.mkdtemp(prefix="check-", dir=V + "/build")
    tot = dict(steps=0, forks=0, queries=0, sat=0, unsat=0, solver_nanos=0, multi=0)
    fns, entries, shown = set(), {}, []
    paths = discarded = unexplored = replayed = 0
    internals, violations, unconfirmed, skipped, matched_known = [], [], [], [], {}
    kn = known(prop)
    try:
        pool = ThreadPoolExecutor(B.JOBS)
        for n in todo:
            left = limit - (time.time() - T0)
            if left < 2 or (violations and TIER == "quick"):
                skipped.append(n)
                continue
            o = symx(n, ll, tmp + "/o.json", int(min(per, left)) or 1, samples, conf.get("cap", 100_000_000))
            if o is None:
                # no answer within its time: nothing of it is counted
                skipped.append(n)
                continue
            if o["failed_workers"]:
                raise RuntimeError("a worker of the engine failed on %s" % n)
            e = o["entries"][n]
            for k in tot:
                tot[k] += o["stats"].get(k, 0)
            fns.update(o["functions"])
            internals += o["internal"]
            np = sum(v for k, v in e["ends"].items() if k not in ("discard", "internal"))
            paths += np
            discarded += e["ends"].get("discard", 0)
            un = e["sums"].get("unexplored", 0) + e["ends"].get("internal", 0)
            unexplored += un
            entries[n] = dict(paths=np, discarded=e["ends"].get("discard", 0), branches_left_unexplored=un,
                              outcomes=e["covers"], max_symbolic_bytes=e["max"].get("inputs", 0),
                              max_instructions=e["max"].get("steps", 0), wall_s=o["wall_s"])
            # leaves without a violation: the real code must behave as the engine said
            def rs(s):
                return [(x, native(x, n, s["witness"])) for x in (exes if TIER == "thorough" else exes[:1])]
            for s, rr in zip(e["samples"], pool.map(rs, e["samples"])):
                for x, r in rr:
                    replayed += 1
                    if (r["end"], r["notes"], lines(conf, r["out"])) != (s["end"], s["notes"], lines(conf, s["out"])):
                        unconfirmed.append(dict(entry=n, witness=s["witness"], engine=s, native=r, exe=x))
            if e["samples"] and len(shown) < 20:
                s = e["samples"][len(shown) % len(e["samples"])]
                t = native(exes[0], n, s["witness"], show=True)["err"]
                m = re.findall(r"^text: (.*)$", t, re.M)
                shown.append(dict(entry=n, witness=s["witness"], outcome=s["end"], text=m[0][:400] if m else ""))
            # candidate violations
            for f in e["fails"]:
                hit = None
                for x in exes:
                    r = native(x, n, f["witness"], show=True)
                    if r["end"] in BAD:
                        hit = (x, r)
                        break
                if hit:
                    texts = re.findall(r"^text: (.*)$", hit[1]["err"], re.M)
                    key = "%s:%s" % (n, f["witness"])
                    if key in kn:
                        matched_known[key] = kn[key]
                        continue
                    violations.append(dict(entry=n, witness=f["witness"], kind=hit[1]["end"], exe=hit[0],
                                           message=hit[1]["msg"] or f["message"], engine=f["message"], texts=texts[:4]))
                elif f["kind"] == "cap":
                    # many steps, but the real code answers: this path is not decided
                    unexplored += 1
                    entries[n]["branches_left_unexplored"] += 1
                elif "regex-shim: unsupported" in f["message"]:
                    unexplored += 1
                    internals.append("%s: %s" % (n, f["message"][:200]))
                else:
                    unconfirmed.append(dict(entry=n, witness=f["witness"], engine=f, native=r))
    except Exception as e:  # noqa
        if not violations:
            log("no answer:", repr(e)[:3000])
            return 2
        internals.append(repr(e)[:300])
    finally:
        subprocess.run(["rm", "-rf", tmp])
    rc = 0
    for k, t in matched_known.items():
        log("KNOWN-FINDING: property=%s %s" % (prop, t))
    if violations:
        os.makedirs(V + "/build/replays", exist_ok=True)
        for i, v in enumerate(violations[:5]):
            f = "%s/build/replays/%s-%d.txt" % (V, prop, i)
            with open(f, "w") as o:
                o.write("property  %s  %s\nentry     %s\nwitness   %s\nkind      %s\nmessage   %s\n" % (
                    prop, conf["title"], v["entry"], v["witness"], v["kind"], v["message"]))
                for t in v["texts"]:
                    o.write("text      %s\n" % t)
                o.write("replay    REPLAY_SHOW=1 %s %s %s\n" % (v["exe"], v["entry"], v["witness"]))
            log("%s: %s %s" % (v["entry"], v["kind"], v["message"]))
            for t in v["texts"][:2]:
                log("  text:", t[:300])
            log("VIOLATION property=%s replay=%s" % (prop, f))
        rc = 1
    elif unconfirmed:
        for u in unconfirmed[:5]:
            log("engine and native code disagree:", json.dumps(u)[:1200])
        rc = 2
    else:
        empty = [n for n, e in entries.items() if not e["outcomes"] and not e["branches_left_unexplored"]]
        got = set(k for e in entries.values() for k in e["outcomes"])
        miss = [c for c in conf.get("covers", ["1"]) if c not in got]
        if empty or miss:
            log("vacuous: no assertion reached in", empty, "outcomes missing", miss)
            rc = 2
    real = sorted(f for f in fns if "elm_parser" in f or "nom::" in f or f.startswith("regex"))
    ev["coverage"] = dict(
        states=paths, transitions=tot["steps"], traces_validated_against_impl=replayed, samples=shown or violations[:3],
        exhaustive=unexplored == 0 and not skipped and not internals and rc == 0,
        rule="one state = one leaf of the symbolic execution tree: a class of inputs, described by a satisfiable path "
             "condition, that drive the compiled code through the same branches; transitions = LLVM instructions "
             "executed symbolically; each leaf's assertion was decided for all values of its class",
        bounds=conf["bounds"], entries=entries, paths_discarded_by_assumptions=discarded,
        branches_left_unexplored=unexplored, entries_skipped_for_time=skipped, engine_gaps=internals[:10],
        solver=dict(name="Z3 (libz3)", branch_decisions=tot["forks"], queries=tot["queries"], sat=tot["sat"],
                    unsat=tot["unsat"], seconds=round(tot["solver_nanos"] / 1e9, 2)),
        functions_encoded=len(fns), functions_of_the_code_under_test=[f[:160] for f in real][:400],
        source_sha256=h, build_s=round(tb, 1), known_findings=list(matched_known.values()))
    ev["assumptions"] = P.ASSUMPTIONS + conf.get("assumptions", [])
    ev["wall_s"] = round(time.time() - T0, 2)
    ev["violations"] = len(violations)
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1)
    log("%s %s: %d paths, %d queries (%.1f s of solver), %d replayed natively, %d unexplored, %d skipped, %.1f s -> %d" % (
        prop, TIER, paths, tot["queries"], tot["solver_nanos"] / 1e9, replayed, unexplored, len(skipped), ev["wall_s"], rc))
    return rc


if __name__ == "__main__":
    if len(sys.argv) != 2:
        sys.exit("usage: check.py PROPERTY")
    sys.exit(main(sys.argv[1]))
