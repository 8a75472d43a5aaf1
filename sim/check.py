#!/usr/bin/env python3
"""Decides one property by seeded search over simulated executions.

  check.py PROP              search (VERIF_SEED, VERIF_TIER), exit 0 / 1 / 2
  check.py --replay FILE     execute one recorded plan, exit 1 if it still fails
"""
import collections
import concurrent.futures
import json
import os
import re
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as builder  # noqa: E402
from settings import PROPS, REAL, STUB, ASSUMPTIONS  # noqa: E402

WORKERS = int(os.environ.get("SIM_WORKERS", "8"))
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known-findings.txt")


class ToolError(Exception):
    pass


def run_plan(exe, path, limit=150):
    """one plan in a fresh process"""
    try:
        r = subprocess.run([exe, "run", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        raise ToolError("the simulator did not answer")
    if r.returncode != 0 or not r.stdout.strip():
        raise ToolError("the simulator failed: exit %d %s" % (r.returncode, r.stderr[-500:]))
    return json.loads(r.stdout.strip().splitlines()[-1])


def gen_plan(exe, prop, seed, idx):
    r = subprocess.run([exe, "gen", prop, str(seed), str(idx)], stdout=subprocess.PIPE, text=True, check=True)
    return r.stdout


# ------------------------------------------------------------------ known findings
def load_known(prop):
    out = []
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*?)/ plan=(\S+) (.*)$", line.strip())
        if m and m.group(1) == prop:
            out.append({"cls": m.group(2), "re": re.compile(m.group(3)), "plan": m.group(4), "text": m.group(5)})
    return out


def match_known(known, d, where):
    for k in known:
        if k["cls"] == d["cls"] and k["re"].search(d["msg"] + " | " + where):
            return k
    return None


def symbolise(exe, d):
    pcs = [d.get("pc1", "0"), d.get("pc2", "0")]
    pcs = [p for p in pcs if p and p != "0"]
    if not pcs:
        return ""
    r = subprocess.run(["addr2line", "-Cfpse", exe] + ["0x" + p for p in pcs], stdout=subprocess.PIPE, text=True)
    return "; ".join(x.strip() for x in r.stdout.splitlines())


# ------------------------------------------------------------------ search
def search(exes, prop, seed, conf, tier, known, tmp):
    total = conf["runs"][tier]
    cap = conf["cap"][tier]
    rows = []  # (variant, idx, elapsed, result)
    found = None
    t0 = time.time()
    variants = list(exes)
    # a build with few, long runs gets its own number of runs and part of the time
    extra = conf.get("extra", {})
    part = {v: extra[v][1] if v in extra else (1 - sum(x[1] for x in extra.values())) / (len(variants) - len(extra)) for v in variants}
    share = {v: cap * part[v] for v in variants}
    for v in variants:
        n = extra[v][0] * total // conf["runs"]["quick"] if v in extra else total // (len(variants) - len(extra))
        procs = []
        per = (n + WORKERS - 1) // WORKERS
        for w in range(WORKERS):
            out = os.path.join(tmp, "o.%s.%d" % (v, w))
            open(out, "w").close()
            procs.append((subprocess.Popen([exes[v], "search", prop, str(seed), str(w), str(WORKERS), str(per), str(share[v]), out],
                                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), open(out), [""]))
        stop_at = None
        deadline = time.time() + share[v] + 150
        while True:
            alive = False
            for p, f, rest in procs:
                ended = p.poll() is not None
                rest[0] += f.read()
                *lines, rest[0] = rest[0].split("\n")
                for line in lines:
                    i, el, js = line.split(" ", 2)
                    d = json.loads(js)
                    rows.append((v, int(i), float(el), d))
                    if d["outcome"] == 2 and stop_at is None and not match_known(known, d, ""):
                        stop_at = time.time() + 1.5
                if not ended:
                    alive = True
                elif p.returncode != 0 and p.returncode not in (-15, -9):
                    raise ToolError("search worker failed: exit %d %s" % (p.returncode, p.stderr.read()[-400:]))
            if not alive:
                break
            if stop_at is not None and time.time() > stop_at:
                for p, f, rest in procs:
                    p.terminate()
                for p, f, rest in procs:
                    p.wait()
                stop_at = float("inf")
                found = True
            if time.time() > deadline:
                for p, f, rest in procs:
                    p.kill()
                raise ToolError("search workers did not stop in time")
            time.sleep(0.1)
        for p, f, rest in procs:
            f.close()
        if found:
            break
    return rows, time.time() - t0


# ------------------------------------------------------------------ minimisation
class Server:
    def __init__(self, exe, tmp):
        self.p = subprocess.Popen([exe, "server"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.f = os.path.join(tmp, "cand.plan")
        self.n = 0

    def run(self, lines):
        with open(self.f, "w") as f:
            f.write("\n".join(lines) + "\n")
        self.p.stdin.write(self.f + "\n")
        self.p.stdin.flush()
        self.n += 1
        s = self.p.stdout.readline()
        if not s:
            raise ToolError("the simulator server ended")
        return json.loads(s)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def minimise(exe, text, d0, budget, tmp):
    """returns (lines, stats): a smaller plan with the same kind of failure"""
    t_end = time.time() + budget
    srv = Server(exe, tmp)
    head = [l for l in text.splitlines() if l.split(" ")[0] in ("prop", "variant", "seed", "idx")]
    body = [l for l in text.splitlines() if l and l.split(" ")[0] not in ("prop", "variant", "seed", "idx")]

    def fails(b):
        if time.time() > t_end:
            return False
        d = srv.run(head + b)
        return d["outcome"] == 2 and d["cls"] == d0["cls"]

    def ddmin(b, pick):
        """removes lines chosen by pick from b while it keeps failing"""
        items = [i for i, l in enumerate(b) if pick(l)]
        n = 2
        while items and time.time() < t_end:
            size = max(1, len(items) // n)
            done = False
            k = 0
            while k < len(items) and time.time() < t_end:
                drop = set(items[k:k + size])
                c = [l for i, l in enumerate(b) if i not in drop]
                if fails(c):
                    b = c
                    items = [i for i, l in enumerate(b) if pick(l)]
                    done = True
                else:
                    k += size
            if size == 1 and not done:
                break
            n = min(len(items), n * 2) if not done else max(2, n)
            if n == 0:
                break
        return b

    def shrink_numbers(b):
        for i in range(len(b)):
            p = b[i].split(" ")
            if p[0] not in ("mesh", "op", "fault", "c"):
                continue
            first = {"mesh": 1, "op": 2, "fault": 2, "c": 2}[p[0]]
            for j in range(first, len(p)):
                try:
                    v = float(p[j])
                except ValueError:
                    continue
                if p[0] == "c" and p[1] in ("xs", "rseed"):
                    continue
                cand = ["0", "1", "2", "3"] if v > 3 else [str(x) for x in range(int(v)) if x < v] if v > 0 else []
                if v > 20:
                    cand.append(str(int(v / 2)))
                for c in cand:
                    if float(c) == v or time.time() > t_end:
                        continue
                    q = b[:i] + [" ".join(p[:j] + [c] + p[j + 1:])] + b[i + 1:]
                    if fails(q):
                        b = q
                        p = b[i].split(" ")
                        break
        return b

    kind = lambda *ks: (lambda l: l.split(" ")[0] in ks)
    b = body
    b = ddmin(b, kind("fault"))
    b = ddmin(b, kind("op"))
    b = ddmin(b, kind("c"))
    b = shrink_numbers(b)
    # fix the schedule and drop the switches that do not matter
    path = os.path.join(tmp, "full.plan")
    with open(path, "w") as f:
        f.write("\n".join(head + b) + "\n")
    full = run_plan(exe, path)
    before = len(full.get("log", []))
    switched = None
    if full["outcome"] == 2 and not full.get("logfull") and before > 0:
        e = [l for l in b if not re.match(r"c (sched|sparam|sdepth|vary) ", l)] + (["c vary 1"] if "c vary 1" in b else []) + ["explicit 1"] + \
            ["sw %d %d" % (s, t) for s, t in full["log"]]
        if fails(e):
            e = ddmin(e, kind("sw"))
            e = ddmin(e, kind("op"))
            e = ddmin(e, kind("sw"))
            b = e
            switched = sum(1 for l in b if l.startswith("sw "))
    elif before == 0:
        switched = 0
    srv.close()
    return head + b, {"candidates": srv.n, "lines_before": len(body), "lines_after": len(b), "switches_before": before, "switches_after": switched}


# ------------------------------------------------------------------ main
def report_violation(prop, exes, v, idx, seed, d, tmp, budget):
    exe = exes[v]
    text = gen_plan(exe, prop, seed, idx)
    path = os.path.join(tmp, "v.plan")
    with open(path, "w") as f:
        f.write(text)
    a, b = run_plan(exe, path), run_plan(exe, path)
    timed = d["cls"] == "hang"
    for x in (a, b):
        if x["outcome"] != 2 or x["cls"] != d["cls"] or (not timed and x["hash"] != d["hash"]):
            raise ToolError("the failure of run %d does not repeat exactly: %s/%s %s/%s" % (idx, d["cls"], d["hash"], x["cls"], x["hash"]))
    try:
        lines, stats = minimise(exe, text, d, budget, tmp)
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        m, m2 = run_plan(exe, path), run_plan(exe, path)
        if m["outcome"] != 2 or m["cls"] != d["cls"] or m2["cls"] != m["cls"] or (not timed and m["hash"] != m2["hash"]):
            raise ToolError("not repeatable")
    except ToolError:
        lines, stats, m = text.splitlines(), {"note": "not minimised"}, a
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    out = os.path.join(EVID, "replay", "%s-%d-%d.plan" % (prop, seed, idx))
    where = symbolise(exe, m)
    with open(out, "w") as f:
        f.write("# %s: %s\n" % (m["cls"], m["msg"]))
        if where:
            f.write("# at %s\n" % where)
        f.write("# found with seed %d, run %d, variant %s; replay: python3 sim/check.py --replay %s\n" % (seed, idx, v, os.path.relpath(out, ROOT)))
        f.write("# minimisation: %s\n" % json.dumps(stats))
        f.write("expect %s %s\n" % (m["cls"], m["hash"]))
        f.write("\n".join(lines) + "\n")
    return out, m, where, stats


def replay(path):
    text = open(path).read()
    m = re.search(r"^variant (\S+)$", text, re.M)
    prop = re.search(r"^prop (\S+)$", text, re.M).group(1)
    v = m.group(1) if m else "native"
    exe = builder.build([v])[v]
    d = run_plan(exe, path)
    exp = re.search(r"^expect (\S+) (\S+)$", text, re.M)
    print(json.dumps({k: d[k] for k in ("outcome", "cls", "msg", "hash", "steps", "switches", "fired")}, indent=1))
    where = symbolise(exe, d)
    if where:
        print("at", where)
    if d["outcome"] == 3:
        return 2
    if d["outcome"] == 2:
        if exp:
            same = d["cls"] == exp.group(1) and d["hash"] == exp.group(2)
            print("reproduces the recorded execution exactly" if same else "fails, but not exactly as recorded (the code differs)")
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    conf = PROPS[prop]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    evfile = os.path.join(EVID, prop + ".json")
    if os.path.exists(evfile):
        os.unlink(evfile)
    exes = builder.build(conf["variants"])
    t_build = time.time() - t0
    known = load_known(prop)
    with tempfile.TemporaryDirectory(prefix="sim-") as tmp:
        code = decide(prop, seed, tier, conf, exes, known, tmp, evfile, t0, t_build)
    return code


def decide(prop, seed, tier, conf, exes, known, tmp, evfile, t0, t_build):
    # the listed findings are executed again on every run
    shown = []
    for k in known:
        p = os.path.join(ROOT, k["plan"])
        m = re.search(r"^variant (\S+)$", open(p).read(), re.M)
        exe = exes[m.group(1) if m else "native"]
        d = run_plan(exe, p)
        if d["outcome"] == 2 and match_known([k], d, symbolise(exe, d)):
            shown.append(k)
    rows, t_search = search(exes, prop, seed, conf, tier, known, tmp)
    tool = [r for r in rows if r[3]["outcome"] == 3]
    bad = []
    suppressed = 0
    for r in rows:
        if r[3]["outcome"] == 2:
            if match_known(known, r[3], symbolise(exes[r[0]], r[3])):
                suppressed += 1
            else:
                bad.append(r)
    ok = [r for r in rows if r[3]["outcome"] == 1]
    # the same plan in another process, on its own, must give the same execution
    step = max(1, len(ok) // (16 if tier == "quick" else 64))
    again = sorted(ok, key=lambda r: (r[0], r[1]))[::step]

    def once_more(n):
        v, idx, el, d = again[n]
        path = os.path.join(tmp, "r%d.plan" % n)
        with open(path, "w") as f:
            f.write(gen_plan(exes[v], prop, seed, idx))
        x = run_plan(exes[v], path)
        same = x["outcome"] == 1 and x["hash"] == d["hash"] and x["steps"] == d["steps"]
        return (v, idx, same, "%s %s %d steps, then %d %s %s %s %d steps" % (d["outcome"], d["hash"], d["steps"], x["outcome"], x["cls"], x["msg"][:200], x["hash"], x["steps"]))

    unlike = []
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
        for v, idx, same, both in ex.map(once_more, range(len(again))):
            if not same:
                unlike.append("run %d of variant %s: %s" % (idx, v, both))
    repeat = len(again) - len(unlike)

    fired = collections.Counter()
    probes = collections.Counter()
    tot = collections.Counter()
    for v, i, el, d in rows:
        fired.update(d["fired"])
        probes.update(d["probes"])
        for k in ("steps", "mtsteps", "switches", "regions", "allocs", "ioops", "clockreads", "randoms", "simns", "lib_calls", "oracle_checks"):
            tot[k] += d[k]
    nontrivial = [d for v, i, el, d in rows if d["outcome"] != 3 and conf["nontrivial"](d)]
    distinct = {tuple(d[k] for k in conf["key"]) for d in nontrivial}
    stats = None
    if bad:
        bad.sort(key=lambda r: (r[3]["cls"] == "hang", list(exes).index(r[0]), r[1]))
        # a failure that repeats exactly comes first
        for n, (v, idx, el, d) in enumerate(bad[:6]):
            try:
                out, m, where, stats = report_violation(prop, exes, v, idx, seed, d, tmp, 25 if tier == "quick" else 120)
                break
            except ToolError:
                if n == len(bad[:6]) - 1:
                    raise
    elif 4 * len(unlike) > len(again):
        raise ToolError("executions are not repeatable: " + unlike[0])
    samples = []
    for v, i, el, d in rows[:: max(1, len(rows) // 4)][:4]:
        samples.append({"run": i, "variant": v, "what": d["sample"], "hash": d["hash"], "steps": d["steps"], "switches": d["switches"], "fired": d["fired"]})
    if ok:
        samples.append({"plan_of_run": ok[0][1], "plan": gen_plan(exes[ok[0][0]], prop, seed, ok[0][1]).splitlines()})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(rows), "distinct_nontrivial": len(distinct), "rule": conf["rule"], "samples": samples,
            "runs_planned": conf["runs"][tier], "simulated_runs_per_hour": int(len(rows) * 3600 / max(t_search, 1e-3)),
            "seeds": "base seed %d, run numbers 0..%d; every run draws everything from (seed, run number)" % (seed, max([r[1] for r in rows] or [0])),
            "simulated_time_s": tot["simns"] / 1e9, "simulated_steps": tot["steps"], "steps_with_several_threads": tot["mtsteps"],
            "context_switches": tot["switches"], "parallel_regions": tot["regions"], "allocations": tot["allocs"], "file_operations": tot["ioops"],
            "clock_reads": tot["clockreads"], "random_draws": tot["randoms"], "library_calls": tot["lib_calls"], "oracle_checks": tot["oracle_checks"],
            "faults_fired": dict(fired), "probes": dict(probes),
            "distinct_schedules": len({d["schedhash"] for v, i, el, d in rows}),
            "distinct_outcomes": len({d["shapehash"] for v, i, el, d in rows}),
            "distinct_executions": len({d["hash"] for v, i, el, d in rows}),
            "executions_repeated_identically": repeat, "executions_not_repeated": unlike, "known_findings_seen": suppressed,
            "variants": {v: sum(1 for r in rows if r[0] == v) for v in exes},
            "components_real": REAL, "components_stub": STUB,
            "search_s": round(t_search, 2), "build_s": round(t_build, 2),
        },
        "assumptions": ASSUMPTIONS + conf.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(bad),
    }
    if stats:
        ev["coverage"]["minimisation"] = stats
    with open(evfile + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(evfile + ".tmp", evfile)
    print("%s: %d runs, %d distinct non-trivial, %d violations, %.1f s (search %.1f s)" % (prop, len(rows), len(distinct), len(bad), ev["wall_s"], t_search))
    for k in shown:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    if bad:
        print("%s: %s%s" % (m["cls"], m["msg"], (" at " + where) if where else ""))
        print("VIOLATION property=%s replay=%s" % (prop, out))
        return 1
    if tool:
        print("error of the check: %d runs: %s (run %d)" % (len(tool), tool[0][3]["msg"], tool[0][1]))
        return 2
    if len(rows) < conf.get("min", {}).get(tier, 20):
        print("error of the check: too few runs (%d)" % len(rows))
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        print("error of the check:", e)
        sys.exit(2)
    except RuntimeError as e:
        print("error of the check:", e)
        sys.exit(2)
