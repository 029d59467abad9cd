#!/usr/bin/env python3
"""Decides one property by seeded deterministic simulation.

  check.py C01 [quick|thorough]     explore, exit 0 (held) or 1 (VIOLATION line)
  check.py replay FILE              replay a recorded violation in a fresh process
  check.py determinism C01 [N]      run N seeds twice and compare everything
"""
import json, os, random, subprocess, sys, time, threading, queue, tempfile, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B
import campaigns as C

CPUS = sorted(os.sched_getaffinity(0))
NW = max(1, min(8, len(CPUS)))
ST = {0: "running", 1: "ok", 2: "violation", 3: "loud-stop", 4: "internal"}

def known():
    find, fixed = [], []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#"): continue
            kind, _, rest = line.partition(":")
            head, _, text = rest.partition("::")
            d = dict(kv.split("=", 1) for kv in head.split() if "=" in kv)
            d["text"] = text.strip(); d["line"] = line
            (find if kind == "finding" else fixed).append(d)
    return find, fixed

def suppress_args(prop):
    a = []
    for f in known()[0]:
        if f.get("property") == prop and "race" in f: a += ["--suppress", f["race"]]
    return a

class Runner:
    """A zygote process answering spec files."""
    def __init__(self, exe, cpu, limit, extra, trace=False):
        self.cmd = [exe, "--mode", "spec", "--limit", str(limit), "--cpu", str(cpu)] + extra + (["--trace", "1"] if trace else [])
        self.p = None
    def start(self):
        env = dict(os.environ); env.pop("SIM_REEXEC", None)
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
    def run(self, path, save=""):
        for attempt in range(3):
            if self.p is None or self.p.poll() is not None: self.start()
            try:
                self.p.stdin.write(path + (" " + save if save else "") + "\n"); self.p.stdin.flush()
                line = self.p.stdout.readline()
                if line:
                    r = json.loads(line, strict=False)
                    if r["status"] != 4: return r
            except (BrokenPipeError, ValueError):
                pass
            self.close()
        return {"status": 4, "cls": "runner", "hash": "", "sched": "", "msg": "runner died"}
    def close(self):
        if self.p:
            try: self.p.kill(); self.p.wait()
            except Exception: pass
            self.p = None

def write_spec(path, spec):
    with open(path, "w") as f:
        f.write("mode %s\nseed %d\n" % (spec["mode"], spec["seed"]))
        for k, v in sorted(spec["params"].items()): f.write("param %s %d\n" % (k, v))
        for i in sorted(spec["off"]): f.write("off %d\n" % i)
        for x in spec["fault"]: f.write("fault %s %d %d\n" % tuple(x))
        for x in spec["dev"]: f.write("dev %d %d %d %d\n" % tuple(x))

def read_spec(path):
    s = {"mode": "seed", "seed": 0, "params": {}, "off": set(), "fault": [], "dev": [], "meta": {}}
    for line in open(path, errors="replace"):
        w = line.split()
        if not w: continue
        if w[0] == "mode": s["mode"] = w[1]
        elif w[0] == "seed": s["seed"] = int(w[1])
        elif w[0] == "param": s["params"][w[1]] = int(w[2])
        elif w[0] == "off": s["off"].update(int(x) for x in w[1:])
        elif w[0] == "fault": s["fault"].append([w[1], int(w[2]), int(w[3])])
        elif w[0] == "dev": s["dev"].append([int(x) for x in w[1:5]])
        elif w[0] == "#" and len(w) > 2 and w[1].endswith(":"): s["meta"][w[1][:-1]] = line.split(":", 1)[1].strip()
        if line.startswith("# notes"): break
    return s

class Pool:
    def __init__(self, exe, limit, extra, tmp):
        self.rs = [Runner(exe, CPUS[i % len(CPUS)], limit, extra) for i in range(NW)]
        self.tmp = tmp
        self.n = 0
    def one(self, spec, save="", k=0):
        self.n += 1
        p = os.path.join(self.tmp, "s%d" % k)
        write_spec(p, spec)
        return self.rs[k].run(p, save)
    def many(self, specs, ok):
        """Index and result of the first spec (in order) for which ok(result)."""
        res = [None] * len(specs)
        i = 0
        while i < len(specs):
            batch = list(range(i, min(i + NW, len(specs))))
            ths = []
            def work(j, k): res[j] = self.one(specs[j], "", k)
            for k, j in enumerate(batch):
                t = threading.Thread(target=work, args=(j, k)); t.start(); ths.append(t)
            for t in ths: t.join()
            for j in batch:
                if ok(res[j]): return j, res[j]
            i += len(batch)
        return -1, None
    def close(self):
        for r in self.rs: r.close()

def ddmin(items, make, pool, ok, deadline):
    """Smallest found sublist for which ok(run(make(sub)))."""
    if items:
        j, _ = pool.many([make([])], ok)
        if j == 0: return []
    n = 2
    while len(items) >= 2 and time.time() < deadline:
        n = min(n, len(items))
        sz = -(-len(items) // n)
        chunks = [items[i:i + sz] for i in range(0, len(items), sz)]
        cands = [[x for kk, c in enumerate(chunks) if kk != k for x in c] for k in range(len(chunks))]
        if n <= 16: cands = chunks + cands if n > 2 else cands
        hit = -1
        for s in range(0, len(cands), NW):
            if time.time() > deadline: break
            j, _ = pool.many([make(c) for c in cands[s:s + NW]], ok)
            if j >= 0: hit = s + j; break
        if hit >= 0:
            new = cands[hit]
            n = max(2, n - 1) if len(new) > len(items) / 2 else 2
            items = new
        elif n >= len(items): break
        else: n = min(len(items), n * 2)
    return items

def minimise(exe, spec0, cls, limit, extra, budget):
    """spec0: seed mode spec. Returns (replay spec, result, stats)."""
    tmp = tempfile.mkdtemp(prefix="simmin.")
    pool = Pool(exe, limit, extra, tmp)
    end = time.time() + budget
    ok = lambda r: r is not None and r["status"] == 2 and r["cls"] == cls
    try:
        spec = dict(spec0, mode="seed", off=set(), fault=[], dev=[])
        r = pool.one(spec)
        if not ok(r): return None, r, {}
        first = r
        nops = r.get("max_op", 0)
        if nops > 0:
            on = ddmin(list(range(nops)), lambda keep: dict(spec, off=set(range(nops)) - set(keep)), pool, ok, time.time() + budget * 0.3)
            spec = dict(spec, off=set(range(nops)) - set(on))
        save = os.path.join(tmp, "full")
        r = pool.one(spec, save)
        if not ok(r) : return None, r, {}
        full = read_spec(save)
        full["off"] = set(spec["off"]); full["params"] = dict(spec["params"])
        rr = pool.one(full)
        if not ok(rr) or r.get("overflow"):
            # Cannot be expressed as deviations (too many); keep the seed form.
            return spec, r, {"form": "seed", "deviations": r.get("ndev"), "original_events": first.get("events")}
        stats = {"form": "trace", "deviations_before": len(full["dev"]), "faults_before": len(full["fault"]), "ops": nops - len(full["off"]), "ops_before": nops}
        cur = full
        cur = dict(cur, fault=ddmin(cur["fault"], lambda x: dict(cur, fault=x), pool, ok, time.time() + budget * 0.15)) if cur["fault"] else cur
        base = cur
        cur = dict(base, dev=ddmin(base["dev"], lambda x: dict(base, dev=x), pool, ok, max(end, time.time() + 5))) if cur["dev"] else cur
        r = pool.one(cur)
        if not ok(r):
            cur = full; r = pool.one(full)
        stats.update({"deviations": len(cur["dev"]), "faults": len(cur["fault"]), "trials": pool.n})
        return cur, r, stats
    finally:
        pool.close()
        shutil.rmtree(tmp, ignore_errors=True)

def explore(exe, base, count, tlimit, params, limit, extra, stop_after, tmp, cpu_shift=0):
    env = dict(os.environ); env.pop("SIM_REEXEC", None)
    ps, outs = [], []
    for w in range(NW):
        n = count // NW + (1 if w < count % NW else 0)
        if n == 0: continue
        out = os.path.join(tmp, "out.%d.%d" % (w, cpu_shift))
        cmd = [exe, "--first", str(base + w), "--stride", str(NW), "--count", str(n), "--time", str(tlimit), "--out", out,
               "--stop-after", str(stop_after), "--limit", str(limit), "--cpu", str(CPUS[(w + cpu_shift) % len(CPUS)])] + extra
        for k, v in sorted(params.items()): cmd += ["--param", "%s=%d" % (k, v)]
        ps.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"), env=env)); outs.append(out)
    hard = time.time() + tlimit + limit + 30
    for p in ps:
        try: p.wait(max(1, hard - time.time()))
        except subprocess.TimeoutExpired: p.kill(); p.wait()
    res = []
    for o in outs:
        if not os.path.exists(o): continue
        for line in open(o, errors="replace"):
            try: res.append(json.loads(line, strict=False))
            except ValueError: pass
        e = open(o + ".err", errors="replace").read()
        if e and os.environ.get("SIM_DEBUG"): sys.stderr.write(e[-2000:])
    return res, [p.returncode for p in ps]

def same(a, b):
    return all(a.get(k) == b.get(k) for k in ("status", "cls", "hash", "sched", "steps", "events", "vtime", "cnt"))

def write_replay(prop, camp, spec, res, stats, exe, extra):
    d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.replay" % (prop, camp["harness"], spec["seed"]))
    tmp = path + ".tmp"
    write_spec(tmp, spec)
    r = Runner(exe, CPUS[0], camp.get("limit", 60), extra, trace=True)
    save = path + ".notes"
    r.run(tmp, save); r.close()
    notes = ""
    if os.path.exists(save):
        t = open(save, errors="replace").read()
        if "# notes" in t: notes = t[t.index("# notes"):]
        os.remove(save)
    with open(path, "w") as f:
        f.write("# property: %s\n# harness: %s\n# class: %s\n# hash: %s\n" % (prop, camp["harness"], res["cls"], res["hash"]))
        f.write("# minimised: %s\n" % json.dumps(stats))
        for l in (res.get("msg") or "").split("\n"): f.write("#| %s\n" % l)
        f.write(open(tmp).read())
        if notes: f.write("\n".join("#> " + l for l in notes.split("\n")[1:]) + "\n")
    os.remove(tmp)
    return path

def gate(exe, spec, res, camp, extra, loose=False):
    """Fresh processes, different CPUs: must fail identically (loose: must fail)."""
    tmp = tempfile.mkdtemp(prefix="simgate.")
    try:
        for k in range(2):
            p = os.path.join(tmp, "g"); write_spec(p, spec)
            r = Runner(exe, CPUS[(k * 3 + 1) % len(CPUS)], camp.get("limit", 60), extra)
            x = r.run(p); r.close()
            if loose:
                if x["status"] != 2: return False
                continue
            if x["status"] != 2 or x["cls"] != res["cls"]: return False
            if x["hash"] != res["hash"] and not x["cls"].startswith("liveness:hang"): return False
        return True
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def match_known(prop, r):
    for f in known()[0]:
        if f.get("property") != prop: continue
        if "class" in f and r["cls"] == f["class"] and f.get("contains", "") in r.get("msg", ""): return f
    return None

def run_check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = C.PROPERTIES[prop]
    tmp = tempfile.mkdtemp(prefix="sim.%s." % prop)
    extra = suppress_args(prop)
    agg = {"cnt": {}, "runs": 0, "ok": 0, "loud": 0, "internal": 0, "vtime": 0, "steps": 0, "events": 0, "preempt": 0}
    scheds, hashes, nontrivial = set(), set(), set()
    samples, violations, camps_ev = [], [], []
    det_checked = det_bad = 0
    for f in known()[0]:
        if f.get("property") == prop: print("KNOWN-FINDING: property=%s %s" % (prop, f["text"]))
    try:
        exes = {}
        for c in P["campaigns"]:
            if c["harness"] not in exes:
                exes[c["harness"]], info = B.build(c["harness"])
                if c.get("setup_error"): pass
        build_s = time.time() - t0
        x0 = time.time()
        for ci, c in enumerate(P["campaigns"]):
            exe = exes[c["harness"]]
            limit = c.get("limit", 60)
            if tier == "quick": count, tlimit = c["quick"], c.get("quick_s", 150)
            else: count, tlimit = 10**9, float(os.environ.get("SIM_THOROUGH_S", c.get("thorough_s", 600)))
            base = (seed * 1000003 + ci * 101) * 1000000
            w0 = time.time()
            res, rcs = explore(exe, base, count, tlimit, c.get("params", {}), limit, extra, 2, tmp)
            w1 = time.time()
            if not res:
                print("check error: harness %s produced no run (exit codes %s)" % (c["harness"], rcs)); return 2
            bad = []
            for r in res:
                agg["runs"] += 1
                st = r["status"]
                if st == 1: agg["ok"] += 1
                elif st == 3: agg["loud"] += 1
                elif st == 2:
                    if not match_known(prop, r): bad.append(r)
                else: agg["internal"] += 1
                for k in ("vtime", "steps", "events", "preempt"): agg[k] += r.get(k, 0)
                for k, v in r.get("cnt", {}).items(): agg["cnt"][k] = agg["cnt"].get(k, 0) + v
                scheds.add((ci, r["sched"])); hashes.add((ci, r["hash"]))
                if r["preempt"] > 0 or any(k.startswith("fault.") for k in r.get("cnt", {})): nontrivial.add((ci, r["hash"]))
            for r in res[:2] + res[-1:]:
                samples.append({"campaign": c["harness"], "params": c.get("params", {}), "seed": r["seed"], "result": ST[r["status"]], "threads": r["threads"],
                                "scheduling_steps": r["steps"], "preemptions": r["preempt"], "simulated_ns": r["vtime"], "counters": r["cnt"], "event_hash": r["hash"]})
            camps_ev.append({"harness": c["harness"], "params": c.get("params", {}), "runs": len(res), "wall_s": round(w1 - w0, 2), "runs_per_hour": int(len(res) / max(w1 - w0, 1e-3) * 3600)})
            if bad: violations += [(c, r) for r in bad]; break
            # The same seeds again, on other CPUs and in other processes.
            n = min(len(res), max(8, len(res) // 50))
            again, _ = explore(exe, base, n, 60, c.get("params", {}), limit, extra, 10**6, tmp, cpu_shift=3)
            first = {r["seed"]: r for r in res}
            for r in again:
                if r["seed"] in first:
                    det_checked += 1
                    if not same(first[r["seed"]], r): det_bad += 1
        wall_x = time.time() - x0
        verdict, replay_path, unrepro = 0, None, 0
        seen = set()
        violations.sort(key=lambda v: v[1].get("events", 0))
        for c, r in violations:
            if r["cls"] in seen or len(seen) >= 4: continue
            exe = exes[c["harness"]]
            spec = {"mode": "seed", "seed": r["seed"], "params": dict(c.get("params", {})), "off": set(), "fault": [], "dev": []}
            if not gate(exe, spec, r, c, extra):
                unrepro += 1
                print("note: seed %d (%s) did not reproduce identically" % (r["seed"], r["cls"])); continue
            seen.add(r["cls"])
            left = max(15, min(c.get("min_s", 60), 780 - (time.time() - t0)))
            ms, mr, stats = minimise(exe, spec, r["cls"], c.get("limit", 60), extra, left)
            if ms is None or not gate(exe, ms, mr, c, extra):
                ms, mr, stats = spec, r, {"form": "seed"}
            replay_path = write_replay(prop, c, ms, mr, stats, exe, extra)
            verdict = 1
            print("property %s violated: %s" % (prop, mr["cls"]))
            print("\n".join("  " + l for l in (mr.get("msg") or "").split("\n")[:30]))
            print("  seed %d, minimised %s" % (r["seed"], json.dumps(stats)))
            print("VIOLATION property=%s replay=%s" % (prop, replay_path))
            break
        if verdict == 0:
            # A change may make the program depend on what the simulator does
            # not control (uninitialised memory, addresses): still a failure, if
            # the seed fails every time.
            for c, r in violations[:6]:
                spec = {"mode": "seed", "seed": r["seed"], "params": dict(c.get("params", {})), "off": set(), "fault": [], "dev": []}
                if not gate(exes[c["harness"]], spec, r, c, extra, loose=True): continue
                replay_path = write_replay(prop, c, spec, r, {"form": "seed", "identical": False}, exes[c["harness"]], extra)
                verdict = 1
                print("property %s violated: %s" % (prop, r["cls"]))
                print("\n".join("  " + l for l in (r.get("msg") or "").split("\n")[:30]))
                print("  seed %d fails in every run, but not by the same event sequence" % r["seed"])
                print("VIOLATION property=%s replay=%s" % (prop, replay_path))
                break
        if violations and verdict == 0: verdict = 2
        faults = {k[6:]: v for k, v in sorted(agg["cnt"].items()) if k.startswith("fault.")}
        probes = {k[6:]: v for k, v in sorted(agg["cnt"].items()) if k.startswith("probe.")}
        other = {k: v for k, v in sorted(agg["cnt"].items()) if not k.startswith(("fault.", "probe."))}
        ev = {"property": prop, "tier": tier, "seed": seed, "level": P.get("level", "exploration"),
              "coverage": {
                  "evaluations": agg["runs"], "distinct_nontrivial": len(nontrivial),
                  "rule": "one evaluation is one simulated run decided by its seed; non-trivial: at least one preemption or one injected fault fired; distinct by the hash over the full event sequence",
                  "samples": samples[:12],
                  "runs_per_hour": int(agg["runs"] / max(wall_x, 1e-3) * 3600),
                  "simulated_seconds": agg["vtime"] / 1e9,
                  "scheduling_steps": agg["steps"], "memory_events": agg["events"], "preemptions": agg["preempt"],
                  "distinct_interleavings": len(scheds),
                  "distinct_interleavings_measure": "hash over the sequence of (operation kind, thread) scheduling points and thread switches",
                  "loud_stops_judged_by_oracle": agg["loud"],
                  "faults_injected": faults, "probes_reached": probes, "counters": other,
                  "determinism": {"seeds_run_twice_in_other_processes": det_checked, "different": det_bad},
                  "runs_without_answer": agg["internal"],
                  "campaigns": camps_ev, "components_real": P["real"], "components_stubbed": P["stub"], "build_s": round(build_s, 1)},
              "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if verdict == 1 else 0}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        print("%s %s: %d runs, %d distinct non-trivial, %d interleavings, faults %s, determinism %d/%d, build %.0f s, total %.0f s -> exit %d" % (
            prop, tier, agg["runs"], len(nontrivial), len(scheds), json.dumps(faults), det_checked - det_bad, det_checked, build_s, time.time() - t0, verdict))
        if os.environ.get("SIM_DEBUG"): print("probes", probes, "other", other, "loud", agg["loud"], "internal", agg["internal"])
        if det_bad: print("warning: %d of %d re-run seeds differed" % (det_bad, det_checked))
        return verdict
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def replay(path):
    s = read_spec(path)
    prop, har = s["meta"]["property"], s["meta"]["harness"]
    exe, _ = B.build(har)
    extra = suppress_args(prop)
    r = Runner(exe, CPUS[0], 120, extra)
    x = r.run(os.path.abspath(path)); r.close()
    print("class %s (recorded %s), hash %s (recorded %s)" % (x["cls"], s["meta"].get("class"), x["hash"], s["meta"].get("hash")))
    if x["status"] == 2:
        print(x.get("msg", "")); print("VIOLATION property=%s replay=%s" % (prop, path)); return 1
    return 0

def determinism(prop, n):
    tmp = tempfile.mkdtemp(prefix="simdet.")
    bad = tot = 0
    for c in C.PROPERTIES[prop]["campaigns"]:
        exe, _ = B.build(c["harness"])
        ref = None
        for shift in range(4):
            res, _ = explore(exe, 7000000, n, 600, c.get("params", {}), c.get("limit", 60), [], 10**9, tmp, cpu_shift=shift)
            m = {r["seed"]: r for r in res}
            if ref is None: ref = m
            else:
                for k, r in m.items():
                    if k in ref:
                        tot += 1
                        if not same(ref[k], r): bad += 1; print("differs:", c["harness"], k)
    shutil.rmtree(tmp, ignore_errors=True)
    print("%s: %d comparisons, %d differ" % (prop, tot, bad))
    return 1 if bad else 0

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == "replay": return replay(a[1])
    if a[0] == "determinism": return determinism(a[1], int(a[2]) if len(a) > 2 else 200)
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run_check(a[0], tier)

if __name__ == "__main__":
    try:
        sys.exit(main())
    except RuntimeError as e:
        print("check error:", e); sys.exit(2)
