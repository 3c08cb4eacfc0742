#!/usr/bin/env python3
"""check.py <property> [--replay FILE]: decides one property by seeded simulation.

exit 0: held on everything explored; exit 1: VIOLATION line; anything else: error."""
import concurrent.futures as cf, json, os, re, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
import build as B
from table import TABLE, COMPONENTS, ASSUME  # noqa

ENV = dict(os.environ, OPENBLAS_NUM_THREADS="1", LC_ALL="C", TZ="UTC")
for k in list(ENV):
    if k.startswith(("ASAN_", "UBSAN_", "LD_PRELOAD", "MALLOC_", "GLIBC_TUNABLES")):
        ENV.pop(k)


def err(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def replay(exe, plan, extra=(), timeout=400):
    try:
        p = subprocess.run([exe, "--replay", plan] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           env=ENV, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"status": "broken", "cls": "", "msg": "replay timed out", "hash": ""}
    try:
        return json.loads(p.stdout.decode(errors="replace").strip().splitlines()[-1])
    except Exception:
        return {"status": "broken", "cls": "", "msg": "no outcome (exit %d)" % p.returncode, "hash": ""}


def write(path, lines):
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")


def minimise(exe, prop, lines, cls, tmp, budget):
    """ddmin over plan lines, then over their arguments; the violation class must stay the same."""
    t0 = time.time()
    n = [0]
    pool = cf.ThreadPoolExecutor(8)

    def test(cand):
        n[0] += 1
        f = os.path.join(tmp, "cand-%d.plan" % n[0])
        write(f, ["property " + prop] + cand)
        r = replay(exe, f, timeout=130)
        os.unlink(f)
        return r["status"] == "violation" and r["cls"] == cls

    def first_good(cands):
        for i in range(0, len(cands), 8):
            if time.time() - t0 > budget:
                return None
            for c, ok in zip(cands[i:i + 8], pool.map(test, cands[i:i + 8])):
                if ok:
                    return c
        return None

    cur = list(lines)
    k = 2
    while len(cur) > 1 and time.time() - t0 < budget:
        size = max(1, len(cur) // k)
        cands = [cur[:i] + cur[i + size:] for i in range(0, len(cur), size)]
        g = first_good([c for c in cands if c])
        if g is not None:
            cur = g
            k = max(2, k - 1)
        elif size == 1:
            break
        else:
            k = min(len(cur), k * 2)
    # arguments: counts towards small values, optional features off
    for rounds in range(3):
        changed = False
        for i, l in enumerate(cur):
            if time.time() - t0 > budget:
                break
            ws = l.split(" ")
            cands = []
            for j, w in enumerate(ws[1:], 1):
                m = re.fullmatch(r"(n|rep|words|chunk|pdfs|L|R|lm|deep|frames|times|threads|max|kind|mode)=(\d+)", w)
                if not m or int(m.group(2)) == 0:
                    continue
                v = int(m.group(2))
                for nv in (0 if m.group(1) in ("lm", "deep", "kind", "mode", "L", "R") else 1, v // 2, v - 1):
                    if 0 <= nv < v:
                        cands.append(cur[:i] + [" ".join(ws[:j] + ["%s=%d" % (m.group(1), nv)] + ws[j + 1:])] + cur[i + 1:])
            g = first_good(cands)
            if g is not None:
                cur = g
                changed = True
        if not changed:
            break
    pool.shutdown()
    return cur, n[0]


def rules(exe):
    p = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, env=ENV)
    return dict(l.split("\t", 1) for l in p.stdout.decode().splitlines() if "\t" in l)


def title(prop):
    for l in open(os.path.join(HERE, "properties.jsonl")):
        d = json.loads(l)
        if d["id"] == prop:
            return d["title"]
    return ""


def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) cls=(\S+) match=/(.*)/ plan=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append({"cls": m.group(2), "re": m.group(3), "plan": m.group(4), "what": m.group(5)})
    return out


def main():
    prop = sys.argv[1]
    if prop not in TABLE:
        err("unknown property " + prop)
    T = TABLE[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    try:
        exe = B.build(T["bin"])
    except RuntimeError as e:
        err("cannot build the simulation of this tree: %s" % e)
    t_build = time.time() - t0
    if "--replay" in sys.argv:
        f = sys.argv[sys.argv.index("--replay") + 1]
        r = replay(exe, f)
        print(json.dumps(r, indent=1))
        if r["status"] == "violation":
            print("VIOLATION property=%s replay=%s" % (prop, f))
            sys.exit(1)
        sys.exit(0 if r["status"] == "ok" else 2)

    tmp = tempfile.mkdtemp(prefix="cesim-%s-" % prop)
    try:
        code = explore(prop, T, seed, tier, exe, tmp, t0, t_build)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def explore(prop, T, seed, tier, exe, tmp, t0, t_build):
    W = int(os.environ.get("CESIM_WORKERS", "8"))
    count, tlim = T[tier]
    count = int(os.environ.get("CESIM_COUNT", count))
    tlim = float(os.environ.get("CESIM_TIME", tlim))
    print("property %s: seed %d, tier %s, up to %d runs on %d workers" % (prop, seed, tier, count, W), flush=True)
    t1 = time.time()
    kn = known(prop)
    for k in kn:
        r = replay(exe, os.path.join(HERE, k["plan"]))
        if r["status"] == "violation":
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    procs = []
    for w in range(W):
        cmd = [exe, "--prop", prop, "--seed", str(seed), "--from", str(w), "--step", str(W), "--count", str((count - w + W - 1) // W),
               "--time", str(tlim), "--tier", tier, "--outdir", tmp, "--twice", str(T.get("twice", 16)), "--maxviol", "50" if kn else "2"]
        out = open(os.path.join(tmp, "out-%d" % w), "w+")
        procs.append((subprocess.Popen(cmd, stdout=out, stderr=subprocess.DEVNULL, env=ENV), out))
    viols, stats, broken = [], [], []
    for p, out in procs:
        try:
            rc = p.wait(timeout=tlim + 330)
        except subprocess.TimeoutExpired:
            p.kill()
            rc = -9
        out.seek(0)
        text = out.read()
        out.close()
        got = False
        for l in text.splitlines():
            if l.startswith("VIOL "):
                f = l[5:].split("\t")
                viols.append({"idx": int(f[0]), "plan": f[1], "cls": f[2], "msg": f[3], "hash": f[4]})
            elif l.startswith(("BROKEN", "NONDET")):
                broken.append(l)
            elif l.startswith("STATS "):
                stats.append(json.loads(l[6:]))
                got = True
        if not got and not broken:
            broken.append("worker ended without a result (%s)" % rc)
    t_run = time.time() - t1
    # A run that differed when repeated inside its worker is repeated from fresh processes, whose memory layout is the same each time:
    # only if these differ too is something undecided by the seed.
    layout = 0
    for b in [b for b in broken if b.startswith("NONDET ")]:
        f = os.path.join(tmp, "nondet-%s-%s.plan" % (prop, b.split()[1]))
        r1, r2 = replay(exe, f), replay(exe, f)
        if r1["status"] == r2["status"] == "ok" and r1["hash"] == r2["hash"]:
            broken.remove(b)
            layout += 1
    new = []
    for v in sorted(viols, key=lambda v: v["idx"]):
        if any(k["cls"] == v["cls"] and re.search(k["re"], v["msg"]) for k in kn):
            continue
        new.append(v)
    reported = None
    notes = []
    for v in new[:6]:
        r1, r2 = replay(exe, v["plan"]), replay(exe, v["plan"])
        # the file must reproduce the violation exactly, from fresh processes
        same = all(r["status"] == "violation" and r["cls"] == v["cls"] for r in (r1, r2)) and r1["hash"] == r2["hash"]
        if not same:
            notes.append("run %d (%s: %s) does not replay: %s %s / %s %s" % (v["idx"], v["cls"], v["msg"], r1["status"], r1["cls"], r2["status"], r2["cls"]))
            continue
        reported = v
        break
    if reported:
        v = reported
        lines = [l for l in open(v["plan"]).read().splitlines() if l and not l.startswith("property ")]
        n0 = len(lines)
        budget = float(os.environ.get("CESIM_MINIMISE", "70" if tier == "quick" else "300"))
        tries = 0
        if budget > 0:
            if any(l.startswith("sched ") for l in lines):
                rec = os.path.join(tmp, "rec.plan")
                replay(exe, v["plan"], ["--record", rec])
                if os.path.exists(rec) and replay(exe, rec)["cls"] == v["cls"]:
                    lines = [l for l in open(rec).read().splitlines() if l and not l.startswith("property ")]
            if v["cls"] != "hang":
                lines, tries = minimise(exe, prop, lines, v["cls"], tmp, budget)
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-seed%d-run%d.plan" % (prop, seed, v["idx"]))
        out = os.path.join(tmp, "final.plan")
        write(out, ["property " + prop] + lines)
        ra, rb = replay(exe, out), replay(exe, out)
        if not (ra["status"] == rb["status"] == "violation" and ra["cls"] == rb["cls"] and ra["hash"] == rb["hash"]):
            shutil.copy(v["plan"], out)  # minimised file is not exact: keep the original, which is
            lines = [l for l in open(out).read().splitlines() if l and not l.startswith("property ")]
            ra = replay(exe, out)
        head = ["# property %s: %s" % (prop, title(prop)), "# violation %s: %s" % (ra["cls"], ra["msg"]),
                "# seed %d run %d tier %s; %d plan lines minimised to %d in %d replays" % (seed, v["idx"], tier, n0, len(lines), tries),
                "# replay: python3 /verif/check.py %s --replay %s" % (prop, path)]
        write(path, head + ["property " + prop] + lines)
        print("violation class: %s" % ra["cls"])
        print("violation: %s" % ra["msg"])
        print("seed %d run %d; minimised from %d to %d plan lines" % (seed, v["idx"], n0, len(lines)))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if broken:
        for b in broken[:5]:
            print("ERROR: " + b[:2000])
        return 2
    if new:
        for n in notes:
            print("ERROR: " + n)
        return 2

    # ---- evidence
    def u64s(kind):
        s = set()
        for w in range(W):
            p = os.path.join(tmp, "%s-%d.bin" % (kind, w))
            if os.path.exists(p):
                d = open(p, "rb").read()
                s.update(struct.unpack("<%dQ" % (len(d) // 8), d))
        return s
    ctr = {}
    for s in stats:
        for k, (v, mx) in s["counters"].items():
            ctr[k] = max(ctr.get(k, 0), v) if mx else ctr.get(k, 0) + v
    runs = sum(s["runs"] for s in stats)
    nontriv = sum(s["nontrivial"] for s in stats)
    faults = {k[6:]: v for k, v in sorted(ctr.items()) if k.startswith("fault.")}
    probes = {k: v for k, v in sorted(ctr.items()) if not k.startswith("fault.")}
    samples = [x for s in stats for x in s["samples"]][:2]
    states = u64s("states")
    hashes = u64s("hashes")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(hashes),
            "rule": rules(exe).get(prop, "") + "; distinct: different hash of the run's event log",
            "samples": samples,
            "nontrivial_runs": nontriv,
            "simulated_runs_per_hour": int(runs / max(t_run, 1e-3) * 3600),
            "seeds_note": "every run has its own seed, derived from the batch seed and the run's index",
            "simulated_audio_seconds": round(ctr.get("audio_samples_simulated", 0) / 16000.0, 3),
            "simulated_basic_blocks": ctr.get("sim.scheduling_points", 0),
            "simulated_time_note": "the code under test has no timers; simulated time is audio time (samples fed / 16 kHz) and executed basic blocks",
            "events_logged": sum(s["events"] for s in stats),
            "faults_injected": faults,
            "probes": probes,
            "distinct_states": len(states),
            "distinct_states_measure": T["states"],
            "code_edges_reached_max_per_worker": max([s["edges_reached"] for s in stats] or [0]),
            "code_edges_instrumented": max([s["edges_total"] for s in stats] or [0]),
            "determinism_reexecutions": sum(s["twice"] for s in stats),
            "layout_dependent_reexecutions": layout,
            "real_components": COMPONENTS[T["bin"]]["real"],
            "stub_components": COMPONENTS[T["bin"]]["stub"],
            "workers": W,
            "build_s": round(t_build, 2),
        },
        "assumptions": ASSUME + T.get("assume", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 0,
    }
    if runs < min(count, 20):
        print("ERROR: only %d simulated runs" % runs)
        return 2
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s held: %d runs (%d distinct non-trivial), %d distinct states, faults %s, %.1fs" %
          (prop, runs, len(hashes), len(states), faults, time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
