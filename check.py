#!/usr/bin/env python3
"""Decides one property by seeded simulation:  check.py PROP [quick|thorough]  |  check.py --replay FILE

exit 0: held on every run; exit 1: VIOLATION line printed; exit 2: the check itself failed."""
import concurrent.futures, glob, hashlib, json, os, re, subprocess, sys, time
from collections import Counter

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "_build"))
OUT = os.path.join(ROOT, "_out")
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS, HARNESSES  # noqa: E402

CXX = "g++"
BASE_FLAGS = ("-std=c++20 -O0 -g1 -fsanitize=address -D_GLIBCXX_ASSERTIONS -DBOOST_ENABLE_ASSERT_HANDLER "
              "-DBOOST_ASIO_NO_DEPRECATED -w -pthread").split()
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LANG": "C", "HOME": "/root", "TZ": "UTC"}


def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def tree_hash():
    fs = [p for d in ("include", "src") for p in glob.glob(os.path.join(REPO, d, "**", "*"), recursive=True) if os.path.isfile(p)]
    fs += [p for d in ("sim", "harness") for p in glob.glob(os.path.join(ROOT, d, "*")) if os.path.isfile(p)]
    return file_hash(fs)


def build(names):
    """Compiles the harnesses and the library sources they need from REPO's working tree."""
    os.makedirs(BUILD, exist_ok=True)
    th = tree_hash()
    jobs, links = {}, []
    for n in names:
        h = HARNESSES[n]
        race = h.get("race", False)
        flags = [f for f in BASE_FLAGS if not (race and f.startswith("-fsanitize"))] + ["-I" + os.path.join(REPO, "include")] + h.get("flags", [])
        fk = hashlib.sha256((th + " ".join(flags) + str(race)).encode()).hexdigest()[:16]
        # the race detector replaces the runtime of -fsanitize=thread (sim/race.cpp); the simulator itself
        # isn't instrumented and keeps to its own copies of templates by being a shared object
        groups = [([os.path.join(ROOT, s) for s in h.get("sim", ["sim/sim.cpp"])], ["-fPIC"] if race else []),
                  ([os.path.join(ROOT, s) for s in h["srcs"]] + [os.path.join(REPO, "src", s + ".cpp") for s in h["lib"]],
                   ["-fPIC", "-fsanitize=thread"] if race else [])]
        objs = [[], []]
        for gi, (srcs, more) in enumerate(groups):
            for s in srcs:
                o = os.path.join(BUILD, fk + "-" + hashlib.sha256(s.encode()).hexdigest()[:8] + "-" + os.path.basename(s)[:-4] + ".o")
                objs[gi].append(o)
                if not os.path.exists(o):
                    jobs[o] = [CXX] + flags + more + ["-c", s, "-o"]
        exe = os.path.join(BUILD, n + "-" + fk)
        links.append((n, exe, objs, h.get("libs", []), race))

    def comp(item):
        o, cmd = item
        tmp = o + ".%d.tmp" % os.getpid()
        r = subprocess.run(cmd + [tmp], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            os.replace(tmp, o)
        return r.returncode, " ".join(cmd), r.stdout

    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        for rc, cmd, out in ex.map(comp, jobs.items()):
            if rc != 0:
                die("compilation failed: %s\n%s" % (cmd, out[-3000:]))
        def link(l):
            n, exe, (sim, code), libs, race = l
            if os.path.exists(exe):
                return 0, ""
            tmp = exe + ".%d.tmp" % os.getpid()
            if race:
                so = exe + ".so"
                r = subprocess.run([CXX, "-shared", "-Wl,-Bsymbolic", "-pthread"] + sim + ["-o", so + ".%d.tmp" % os.getpid(), "-ldl"], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode != 0:
                    return r.returncode, r.stdout
                os.replace(so + ".%d.tmp" % os.getpid(), so)
                cmd = [CXX, "-rdynamic", "-pthread"] + code + [so, "-o", tmp, "-ldl"] + libs
            else:
                cmd = [CXX, "-fsanitize=address", "-pthread"] + code + sim + ["-o", tmp, "-ldl"] + libs
            r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                os.replace(tmp, exe)
            return r.returncode, r.stdout
        for rc, out in ex.map(link, links):
            if rc != 0:
                die("link failed:\n" + out[-3000:])
    return {l[0]: l[1] for l in links}


def sh(cmd, timeout=None, inp=None):
    return subprocess.run(cmd, env=ENV, input=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)


def base_seed(seed, prop, harness):
    return int.from_bytes(hashlib.sha256(("%d:%s:%s" % (seed, prop, harness)).encode()).digest()[:7], "big")


def run_batch(exe, prop, tier, base, count, budget, tag):
    per = (count + NPROC - 1) // NPROC
    outs = [os.path.join(OUT, "%s-%s-%d.%d" % (prop, tag, w, os.getpid())) for w in range(NPROC)]
    ps = [subprocess.Popen([exe, "batch", prop, str(tier), str(base), str(w), str(per), str(NPROC), str(budget), outs[w]],
                           env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for w in range(NPROC)]
    for p in ps:
        try:
            p.wait(timeout=budget + 120)
        except subprocess.TimeoutExpired:
            for q in ps:
                q.kill()
            die("worker did not finish")
    res = []
    for w, o in enumerate(outs):
        if ps[w].returncode != 0 or not os.path.exists(o):
            die("worker %d failed (%s)" % (w, ps[w].returncode))
        r = {"hashes": [], "viol": [], "stats": None, "bits": 0}
        with open(o) as f:
            for line in f:
                k, _, v = line.rstrip("\n").partition(" ")
                if k == "h":
                    a, b, c = v.split()
                    r["hashes"].append((a, b == "1", int(c)))
                elif k == "v":
                    r["viol"].append(json.loads(v))
                elif k == "s":
                    r["stats"] = json.loads(v)
                elif k == "b":
                    r["bits"] = int(v, 16) if v else 0
        os.unlink(o)
        if r["stats"] is None:
            die("worker %d left no statistics" % w)
        res.append(r)
    return res


def replay_many(exe, prop, tier, lists, timeout=120, log=False):
    inp = "".join(" ".join(map(str, c)) + "\n" for c in lists)
    try:
        r = sh([exe, "replay", prop, str(tier), "-"] + (["-l"] if log else []), timeout=timeout, inp=inp)
    except subprocess.TimeoutExpired:
        return []
    return [json.loads(l) for l in r.stdout.splitlines() if l.startswith("{")]


def shrink(exe, prop, tier, choices, cls, budget):
    """Delta debugging over the choice list; 0 is the simplest choice everywhere, missing choices are 0."""
    end = time.time() + budget
    best = list(choices)
    tries = 0

    def attempt(cands):
        nonlocal best, tries
        parts = [cands[i::NPROC] for i in range(NPROC) if cands[i::NPROC]]
        with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
            rs = list(ex.map(lambda p: replay_many(exe, prop, tier, p), parts))
        good = []
        for p, r in zip(parts, rs):
            for c, x in zip(p, r):
                tries += 1
                if x["outcome"] == "violation" and x["cls"] == cls:
                    used = x["choices"]
                    while used and used[-1] == 0:
                        used.pop()
                    good.append(used)
        if good:
            g = min(good, key=lambda c: (len(c), sum(c), c))
            if (len(g), sum(g), g) < (len(best), sum(best), best):
                best = g
                return True
        return False

    changed = True
    while changed and time.time() < end:
        changed = False
        n = len(best)
        size = max(1, n // 2)
        while size >= 1 and time.time() < end:
            cands = []
            for i in range(0, len(best), size):
                cands.append(best[:i] + best[i + size:])
                if any(best[i:i + size]):
                    cands.append(best[:i] + [0] * len(best[i:i + size]) + best[i + size:])
            if size == 1:
                for i, v in enumerate(best):
                    for nv in {v // 2, v - 1}:
                        if 0 < nv < v:
                            cands.append(best[:i] + [nv] + best[i + 1:])
            if cands and attempt(cands):
                changed = True
                size = min(size, max(1, len(best) // 2))
            else:
                size //= 2
    return best, tries


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k.get("status") == "known"]


def matches(k, prop, harness, v):
    return (k["property"] == prop and k["harness"] == harness and k["cls"] == v["cls"]
            and re.search(k.get("msg", ""), v["msg"]) is not None)


def check(prop, tier_name):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = 1 if tier_name == "thorough" else 0
    cfg = PROPS[prop]
    os.makedirs(OUT, exist_ok=True)
    exes = build(list(cfg["harnesses"]))
    t_build = time.time() - t0
    total_w = sum(cfg["harnesses"].values())
    budget = float(os.environ.get("VERIF_BUDGET", cfg["thorough_s"] if tier else cfg["quick_s"]))
    max_runs = cfg["thorough_runs"] if tier else cfg["quick_runs"]
    agg = {"runs": 0, "steps": 0, "events": 0, "faulty": 0, "foreign": 0, "sim_s": 0.0}
    faults, probes = Counter(), Counter()
    distinct, states, samples, per_h = set(), 0, [], {}
    nontrivial = set()
    viol, known_hit = [], {}
    deterministic, trouble = 0, []
    t_run0 = time.time()
    for h, w in cfg["harnesses"].items():
        exe = exes[h]
        base = base_seed(seed, prop, h)
        res = run_batch(exe, prop, tier, base, max(NPROC, int(max_runs * w / total_w)), budget * w / total_w, h)
        bits = 0
        hn = {"runs": 0}
        for r in res:
            s = r["stats"]
            for k in agg:
                agg[k] += s[k]
            hn["runs"] += s["runs"]
            faults.update(s["faults"]); probes.update(s["probes"])
            bits |= r["bits"]
            for a, f, e in r["hashes"]:
                distinct.add((h, a))
                if e >= 4:
                    nontrivial.add((h, a))
            for v in r["viol"]:
                v["harness"] = h
                viol.append(v)
        hn["states"] = bin(bits).count("1")
        states += hn["states"]
        per_h[h] = hn
        # determinism: the same seeds in other processes have to give the same histories
        again = run_batch(exe, prop, tier, base, 8 * NPROC, 60, h + "-again")
        for a, b in zip(res, again):
            n = min(len(a["hashes"]), len(b["hashes"]))
            if a["hashes"][:n] != b["hashes"][:n]:
                trouble.append("determinism: the same seeds gave different histories in harness %s" % h)
                break
            deterministic += n
    t_run = time.time() - t_run0
    for h in cfg["harnesses"]:
        r = subprocess.run([exes[h], "index", prop, str(tier), str(base_seed(seed, prop, h)), "0", "-l"], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        try:
            j = json.loads(r.stdout)
            samples.append({"harness": h, "seed": j["seed"], "history": j["log"].splitlines()[:60]})
        except (ValueError, KeyError):
            pass

    errors = [v for v in viol if v["outcome"] == "error"]
    if errors:
        trouble.append("harness error: %s" % errors[0]["msg"])
    kf = known_findings()
    fresh = []
    for v in viol:
        if v["outcome"] == "error":
            continue
        k = next((k for k in kf if matches(k, prop, v["harness"], v)), None)
        if k:
            known_hit.setdefault(k["id"], k)
        else:
            fresh.append(v)
    for k in kf:
        if k["property"] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
    status = 0
    reports = []
    if fresh:
        status = 1
        byclass = {}
        for v in fresh:
            key = (v["harness"], v["cls"])
            if key not in byclass or v["nchoices"] < byclass[key]["nchoices"]:
                byclass[key] = v
        cands = sorted(byclass.items(), key=lambda kv: kv[1]["nchoices"])
        problem = ""
        for (h, cls), _ in cands:
            # the shortest ones first; one that doesn't reproduce exactly is not reported
            for v in sorted((v for v in fresh if v["harness"] == h and v["cls"] == cls), key=lambda v: v["nchoices"])[:3]:
                r, why = report(exes[h], prop, tier, h, v)
                if r:
                    reports.append(r)
                    break
                problem = why
            if len(reports) >= 3:
                break
        if not reports:
            trouble.append(problem)
    # a violation that reproduces exactly counts whatever else went wrong; without one, trouble is no verdict
    if trouble and not reports:
        die(trouble[0])
    ev = {
        "property": prop, "tier": tier_name, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(nontrivial),
            "rule": "Each case is one simulated run: a seed decides the configuration, every scheduling choice, completion, clock movement and fault. "
                    "Two runs are distinct when the hashes of their event histories differ; a run is non-trivial when its history has at least four events. " + cfg.get("rule", ""),
            "samples": samples,
            "runs_per_hour": int(agg["runs"] / max(t_run, 1e-6) * 3600),
            "seeds_per_hour": int(agg["runs"] / max(t_run, 1e-6) * 3600),
            "distinct_histories": len(distinct),
            "abstract_states_reached": states,
            "simulated_seconds": round(agg["sim_s"], 6),
            "scheduler_steps": agg["steps"], "history_events": agg["events"],
            "runs_with_faults": agg["faulty"], "inconclusive_runs": agg["foreign"],
            "faults_injected": dict(sorted(faults.items())),
            "rare_conditions": dict(sorted(probes.items())),
            "seeds_rerun_for_determinism": deterministic,
            "per_harness": per_h,
            "real_components": cfg["real"], "stubs": cfg["stub"],
            "build_s": round(t_build, 2),
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
    }
    if reports:
        ev["violations"] = reports
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in reports:
        print("VIOLATION property=%s replay=%s" % (prop, r["replay"]))
        print("  class %s (harness %s, seed %s): %s" % (r["class"], r["harness"], r["seed"], r["message"][:300].split("\n")[0]))
    print("%s %s: %d runs, %d distinct histories, %d faulty runs, %.1f s (build %.1f s): %s" %
          (prop, tier_name, agg["runs"], len(distinct), agg["faulty"], time.time() - t0, t_build, "VIOLATED" if status else "held"))
    return status


def report(exe, prop, tier, h, v):
    # gate: the seed has to give the same class twice in fresh processes
    for _ in range(2):
        r = json.loads(sh([exe, "run", prop, str(tier), str(v["seed"])]).stdout)
        if r["cls"] != v["cls"] or r["hash"] != v["hash"]:
            return None, "seed %s of harness %s did not reproduce %s (got %s)" % (v["seed"], h, v["cls"], r["cls"])
    choices, tries = v["choices"], 0
    if v["cls"] != "hang":
        choices, tries = shrink(exe, prop, tier, v["choices"], v["cls"], 20 if tier == 0 else 60)
    rr = [replay_many(exe, prop, tier, [choices], log=True) for _ in range(2)]
    if not all(rr) or len({(x[0]["cls"], x[0]["hash"]) for x in rr}) != 1 or rr[0][0]["cls"] != v["cls"]:
        return None, "replay of %s is not exact" % v["cls"]
    x = rr[0][0]
    path = os.path.join(OUT, "%s-%s-%s.replay.json" % (prop, h, x["hash"]))
    with open(path, "w") as f:
        json.dump({"property": prop, "harness": h, "tier": tier, "seed": v["seed"], "class": v["cls"], "hash": x["hash"],
                   "message": x["msg"], "choices": choices, "original_choices": len(v["choices"]), "shrink_tries": tries,
                   "history": x["log"].splitlines()}, f, indent=1)
    return {"class": v["cls"], "harness": h, "seed": v["seed"], "message": x["msg"], "replay": path,
            "choices": len(choices), "original_choices": len(v["choices"])}, ""


def replay(path):
    d = json.load(open(path))
    os.makedirs(OUT, exist_ok=True)
    exe = build([d["harness"]])[d["harness"]]
    r = replay_many(exe, d["property"], d["tier"], [d["choices"]], log=True)
    if not r:
        die("replay did not finish")
    r = r[0]
    print(r["log"])
    if r["outcome"] == "violation" and r["cls"] == d["class"]:
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        print("  class %s: %s%s" % (r["cls"], r["msg"].split("\n")[0], "" if r["hash"] == d["hash"] else " (history differs from the recorded one)"))
        return 1
    print("replay did not violate the property (outcome %s %s)" % (r["outcome"], r["cls"]))
    return 0


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        die("usage: check.py PROP [quick|thorough] | --replay FILE")
    sys.exit(check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
