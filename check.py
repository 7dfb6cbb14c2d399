#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's current tree.

TLC explores the property's TLA+ specification (exhaustively within the bounds
of a .cfg, and by seeded random simulation), printing every transition or state
as a behaviour with the observation the specification prescribes; the Go driver,
rebuilt from /repo each run, replays all of them into the real code.

exit 0 : everything explored agreed     exit 1 : VIOLATION line printed
any other exit : the check itself failed (no verdict)
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS  # noqa: E402

PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
CPUS = os.cpu_count() or 4
T0 = time.time()


class Failed(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off")
    e.setdefault("HOME", "/root")
    return e


def build(work, race):
    out = os.path.join(work, "drive-race" if race else "drive")
    src = os.path.join(work, "harness")
    if not os.path.isdir(src):
        shutil.copytree(os.path.join(HERE, "harness"), src)
        if os.environ.get("VERIF_REPO"):  # development only: another working tree than /repo
            mod = os.path.join(src, "go.mod")
            text = open(mod).read()
            open(mod, "w").write(text.replace("=> /repo", "=> " + os.environ["VERIF_REPO"]))
    cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "./drive"]
    r = subprocess.run(cmd, cwd=src, env=goenv(), capture_output=True, text=True)
    if r.returncode != 0:
        raise Failed("harness does not build:\n" + r.stdout + r.stderr)
    return out


def run_tlc(work, job, idx):
    """One TLC run; returns (behaviour file, statistics)."""
    d = os.path.join(work, "tlc%d" % idx)
    shutil.copytree(os.path.join(HERE, "specs"), d)
    cfg = job["cfg"]
    if job.get("const"):  # constants that depend on tier
        text = open(os.path.join(d, cfg)).read()
        for k, v in job["const"].items():
            text, n = re.subn(r"(?m)(\b%s\s*(?:=|<-)\s*)(\S.*?)(?=\s+\w+\s*(?:=|<-)|\s*$)" % re.escape(k), lambda m: re.sub(r"=|<-", "<-" if re.match(r"[A-Z][a-zA-Z]*$", v) and v not in ("TRUE", "FALSE") else "=", m.group(1)) + v, text)
            if n == 0:
                raise Failed("constant %s not in %s" % (k, cfg))
        open(os.path.join(d, cfg), "w").write(text)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx%s" % job.get("mem", "3g"), "-Xss64m", "-cp",
           "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
           "-config", cfg, "-metadir", os.path.join(d, "md"), "-workers", str(job.get("workers", 2)),
           "-seed", str(SEED * 7919 + idx), "-fp", "0"]
    if job["kind"] == "sim":
        cmd += ["-simulate", "num=%d" % job["num"], "-depth", str(job["depth"])]
    cmd.append(job["spec"])
    beh = os.path.join(work, "beh%d" % idx)
    log = os.path.join(work, "tlc%d.log" % idx)
    n = 0
    t = time.time()
    p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    timeout = job.get("timeout", 780 if TIER == "quick" else 20000)
    import threading
    killer = threading.Timer(timeout, p.kill)
    killer.start()
    seen = set() if job.get("dedup", job["kind"] == "sim") else None
    with open(beh, "w") as fb, open(log, "w") as fl:
        for line in p.stdout:
            if line.startswith('"@@'):
                text = json.loads(line.rstrip("\n"))[2:]
                if seen is not None:
                    h = hash(text)
                    if h in seen:
                        continue
                    seen.add(h)
                fb.write(text + "\n")
                n += 1
            else:
                fl.write(line)
    rc = p.wait()
    killer.cancel()
    text = open(log).read()
    if rc != 0 or "Error:" in text:
        raise Failed("TLC failed on %s %s (exit %d):\n%s" % (job["spec"], cfg, rc, text[-3000:]))
    if n == 0:
        raise Failed("TLC produced no behaviour for %s %s:\n%s" % (job["spec"], cfg, text[-2000:]))
    st = {"spec": job["spec"], "cfg": cfg, "kind": job["kind"], "behaviours": n, "wall_s": round(time.time() - t, 1)}
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
    if m:
        st["transitions"], st["states"] = int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"The number of states generated: (\d+)", text)
    if m:
        st["transitions"] = int(m[-1])
        st.setdefault("states", int(m[-1]))
    return beh, st


def replay(work, job, idx, beh, nlines, driver):
    shards = max(1, min(job.get("shards", CPUS), (nlines + 199) // 200))

    def one(sh):
        out = os.path.join(work, "res%d.%d" % (idx, sh))
        prog = os.path.join(work, "prog%d.%d" % (idx, sh))
        r = subprocess.run([driver, "-machine", job["machine"], "-in", beh, "-shard", str(sh), "-shards", str(shards),
                            "-out", out, "-progress", prog, "-limit", job.get("limit", "20s")] + (["-all"] if job.get("all") else []),
                           capture_output=True, text=True, errors="replace", env=dict(goenv(), GOGC="100"))
        if r.returncode == 0 and os.path.exists(out):
            return json.load(open(out)), None
        line = -1
        try:
            line = int(open(prog).read().strip() or -1)
        except (OSError, ValueError):
            pass
        return None, (r.returncode, line, r.stderr[-3000:])

    with ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(one, range(shards)))
    total = {"behaviours": 0, "steps": 0, "ops": {}, "mismatches": [], "count": 0, "sample": [], "kinds": {}, "died": False}
    for sh, (res, err) in enumerate(rs):
        if err:
            rc, line, msg = err
            # the driver died while replaying `line`: does the real code do that by itself, every time?
            if rc == 2 and "fatal error" not in msg and "panic" not in msg or "harnessError" in msg or line < 0:
                raise Failed("driver failed (exit %s, line %s): %s" % (rc, line, msg))
            if total["died"]:
                continue
            again = [subprocess.run([driver, "-machine", job["machine"], "-in", beh, "-only", str(line), "-out",
                                     os.path.join(work, "again"), "-limit", "40s"], capture_output=True, text=True,
                                    errors="replace", env=goenv()) for _ in range(2)]
            if all(a.returncode not in (0,) for a in again) and all("harnessError" not in a.stderr for a in again):
                total["died"] = True
                steps = None
                for i, l in enumerate(open(beh)):
                    if i == line:
                        steps = json.loads(l)
                total["mismatches"].append({"line": line, "step": -1, "op": steps[-1]["op"], "path": "!dies", "want": "an answer",
                                            "got": "process ended or did not answer: exit %d: %s" % (again[0].returncode, again[0].stderr[:600]),
                                            "behaviour": steps})
                total["count"] += 1
                continue
            raise Failed("driver died once (exit %s, line %s) and not again: %s" % (rc, line, msg))
        total["behaviours"] += res["behaviours"]
        total["steps"] += res["steps"]
        total["count"] += res["mismatch_count"]
        total["mismatches"] += res["mismatches"]
        total["sample"] += res["sample"][:1]
        for k, v in res["ops"].items():
            total["ops"][k] = total["ops"].get(k, 0) + v
        for k, v in res["kinds"].items():
            total["kinds"][k] = total["kinds"].get(k, 0) + v
    return total


def together(work, job, idx, beh, driver):
    """The behaviours replayed by several callers at the same time, under the race detector."""
    part = -(-os.path.getsize(beh) // (job.get("bytes", 3000000) * (10 if TIER == "thorough" else 1)))
    some = beh + ".some"
    with open(beh) as f, open(some, "w") as g:
        g.writelines(l for i, l in enumerate(f) if i % part == 0)
    beh = some

    def run(n, k):
        out = os.path.join(work, "res%d.t%d.%d" % (idx, n, k))
        r = subprocess.run([driver, "-machine", job["machine"], "-in", beh, "-together", str(n), "-shard", str(k), "-shards", "4", "-out", out,
                            "-limit", "150s" if TIER == "quick" else "1500s"],
                           capture_output=True, text=True, errors="replace", env=dict(goenv(), GORACE="exitcode=66 halt_on_error=1"))
        return r, json.load(open(out)) if r.returncode == 0 else None

    total = {"behaviours": 0, "steps": 0, "ops": {}, "mismatches": [], "count": 0, "sample": [], "kinds": {}, "died": False}

    def bad(path, want, r):
        total["count"] += 1
        total["mismatches"].append({"line": 0, "step": 0, "op": "together", "path": path, "want": want, "got": r.stderr[:4000], "behaviour": json.loads(open(beh).readline())})
    for k in range(4):  # several processes: what is shared may be written only when it is first used
        r, res = run(job["together"], k)
        if res:
            for f in ("behaviours", "steps"):
                total[f] += res[f]
            total["count"] += res["mismatch_count"]
            total["mismatches"] += res["mismatches"]
            total["sample"] += res["sample"][:1]
            for f in ("ops", "kinds"):
                for o, c in res[f].items():
                    total[f][o] = total[f].get(o, 0) + c
        elif r.returncode == 66 and "DATA RACE" in r.stderr:
            bad(".race", "callers share nothing", r)
        elif "harnessError" in r.stderr:
            raise Failed("driver failed (exit %s): %s" % (r.returncode, r.stderr[-3000:]))
        else:
            alone, res = run(1, k)
            if not res:  # dies with one caller as well: no matter of several callers
                raise Failed("the behaviours cannot be replayed by a single caller (exit %s): %s" % (alone.returncode, alone.stderr[:1500]))
            bad("!dies", "an answer, as one caller gets", r)
    if total["mismatches"]:
        total["ops"] = dict({o: 1 for o in job.get("must_ops", [])}, **total["ops"])
    return total


def run_trace(work, job, idx, drivers):
    """Record concurrent runs of the real code and let TLC explain each trace by the specification."""
    bad, events, states = [], 0, 0
    n = job["num"]
    t0 = time.time()

    def one(k):
        race = k % 2 == 0
        tr = os.path.join(work, "trace%d.%d" % (idx, k))
        def rec(limit):
            return subprocess.run([drivers[race], "-record", str(k // 2), "-seed", str(SEED), "-out", tr], capture_output=True, text=True,
                                  env=dict(goenv(), GORACE="exitcode=66"), timeout=limit)
        try:
            r = rec(30)
        except subprocess.TimeoutExpired:
            try:
                r = rec(60)
            except subprocess.TimeoutExpired:
                return {"op": "concurrent", "path": ".hang", "want": "every caller gets its answers", "got": "callers blocked for a minute, twice",
                        "behaviour": [{"op": "concurrent", "a": [SEED, k // 2], "w": None}]}, 0, 0
        if r.returncode == 66 and "DATA RACE" in r.stderr:
            return {"op": "concurrent", "path": ".race", "want": "no data race", "got": r.stderr[:3000], "behaviour": [{"op": "concurrent", "a": [SEED, k // 2], "w": None}]}, 0, 0
        if r.returncode != 0:
            raise Failed("recording failed: %d %s" % (r.returncode, r.stderr[-2000:]))
        d = os.path.join(work, "tr%d.%d" % (idx, k))
        shutil.copytree(os.path.join(HERE, "specs"), d)
        shutil.copy(tr, os.path.join(d, "trace.json"))
        p = subprocess.run(["java", "-XX:+UseParallelGC", "-Xmx2g", "-Xss64m", "-cp",
                            "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
                            "-config", job["cfg"], "-metadir", os.path.join(d, "md"), "-workers", "1", job["spec"]],
                           cwd=d, capture_output=True, text=True, timeout=600)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
        t = json.load(open(tr))
        ev = sum(len(x) for x in t["threads"])
        shutil.rmtree(d)
        if p.returncode == 0 and "No error has been found" in p.stdout:
            return None, ev, int(m[-1][1])
        if "Accepted" in p.stdout and m:
            return {"op": "concurrent", "path": ".order", "want": "an order of the calls explaining every result",
                    "got": "none: " + m[-1][0] + " states tried", "behaviour": [{"op": "concurrent", "a": [SEED, k // 2], "w": t}]}, ev, int(m[-1][1])
        raise Failed("TLC failed on trace:\n" + p.stdout[-2000:] + p.stderr[-500:])

    with ThreadPoolExecutor(4) as ex:
        for m, e, s in ex.map(one, range(n)):
            events += e
            states += s
            if m:
                bad.append(m)
    st = {"spec": job["spec"], "cfg": job["cfg"], "kind": "trace", "behaviours": n, "replayed": n, "steps": events, "states": states,
          "transitions": events, "mismatches": len(bad), "wall_s": round(time.time() - t0, 1)}
    return st, {"behaviours": n, "steps": events, "ops": {}, "mismatches": [dict(b, line=0, step=0) for b in bad], "count": len(bad), "sample": [], "kinds": {}}


def known():
    path = os.path.join(HERE, "known_findings.txt")
    ks = []
    if os.path.exists(path):
        for l in open(path):
            if l.startswith("known: "):
                m = re.match(r"known: property=(\S+) (\{.*\}) :: (.*)$", l.strip())
                ks.append((m.group(1), json.loads(m.group(2)), m.group(3)))
    return [(k, w) for p, k, w in ks if p == PROP]


def matches(entry, mm):
    """An entry names operation, arguments, field, and the wrong answer: all must be equal."""
    if entry.get("op") != mm["op"] or entry.get("path") != mm["path"]:
        return False
    step = mm["behaviour"][-1]
    if "a" in entry and entry["a"] != step["a"]:
        return False
    if "history" in entry and entry["history"] != [[s["op"], s["a"]] for s in mm["behaviour"]]:
        return False
    g = mm["got"]
    if isinstance(g, dict) and "panic" in g:
        g = {"panic": g["panic"]}
    return entry.get("got", g) == g


def main():
    spec = CHECKS[PROP]
    jobs = [dict(j, **(j.get("thorough", {}) if TIER == "thorough" else {})) for j in spec["jobs"]
            if TIER == "thorough" or not j.get("thorough_only")]
    work = tempfile.mkdtemp(prefix="verif-%s-" % PROP)
    try:
        drivers = {r: build(work, r) for r in ([False, True] if any(j["kind"] == "trace" or j.get("together") for j in jobs) else [False])}
        stats, totals, bad, errors = [], [], [], []
        par = spec.get("parallel", 3)
        with ThreadPoolExecutor(par) as ex:
            def run(i, j):
                if j["kind"] == "trace":
                    return run_trace(work, j, i, drivers)
                beh, st = run_tlc(work, j, i)
                return (beh, st, together(work, j, i, beh, drivers[True])) if j.get("together") else (beh, st, None)
            futs = [ex.submit(run, i, j)
                    for i, j in enumerate(jobs)]
            for i, (j, fu) in enumerate(zip(jobs, futs)):
              try:
                if j["kind"] == "trace":
                    st, t = fu.result()
                    stats.append(st)
                    totals.append(t)
                    bad += [dict(m, spec=j["spec"], cfg=j["cfg"], machine="record") for m in t["mismatches"]]
                    continue
                beh, st, t = fu.result()
                t = t or replay(work, j, i, beh, st["behaviours"], drivers[False])
                for op in j.get("must_ops", []):
                    if not t["ops"].get(op):
                        raise Failed("vacuous: %s/%s never performed %s" % (j["spec"], j["cfg"], op))
                st["replayed"], st["steps"], st["mismatches"] = t["behaviours"], t["steps"], t["count"]
                st["operations"] = t["ops"]
                if t["kinds"]:
                    st["kinds"] = t["kinds"]
                stats.append(st)
                totals.append(t)
                bad += [dict(m, spec=j["spec"], cfg=j["cfg"], machine=j["machine"]) for m in t["mismatches"]]
                os.unlink(beh)
              except Failed as e:
                errors.append(str(e))
        new, old = [], {}
        kn = known()
        for m in bad:
            for e, what in kn:
                if matches(e, m):
                    old[what] = old.get(what, 0) + 1
                    break
            else:
                new.append(m)
        ev = {"property": PROP, "tier": TIER, "seed": SEED, "level": "model_checking",
              "coverage": {"states": sum(s.get("states", 0) for s in stats),
                           "transitions": sum(s.get("transitions", 0) for s in stats),
                           "traces_validated_against_impl": sum(s["replayed"] for s in stats),
                           "steps_compared": sum(s["steps"] for s in stats),
                           "runs": stats,
                           "samples": [t["sample"][0] for t in totals if t["sample"]][:4]},
              "assumptions": spec.get("assumptions", []),
              "wall_s": round(time.time() - T0, 1), "violations": len(new)}
        if errors:
            ev["errors"] = errors
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", PROP + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for w, n in sorted(old.items()):
            print("KNOWN-FINDING: property=%s %s" % (PROP, w))
        for s in stats:
            print("%s %s: %s states, %s behaviours replayed, %d mismatching (TLC %.1fs)" % (s["spec"], s["cfg"], s.get("states"), s["replayed"], s["mismatches"], s["wall_s"]))
        if new:
            rp = os.path.join(HERE, "evidence", PROP + ".replay.json")
            new.sort(key=lambda m: len(json.dumps(m["behaviour"])))
            with open(rp, "w") as f:
                json.dump(new, f, indent=1)
            seen = set()
            for m in new:
                k = (m["op"], m["path"])
                if k in seen or len(seen) >= int(os.environ.get("VERIF_SHOW", "12")):
                    continue
                seen.add(k)
                print("-- %s%s after %s\n   want %s\n   got  %s" % (m["op"], m["path"], json.dumps([[s["op"], s["a"]] for s in m["behaviour"]])[-1500:],
                                                            json.dumps(m["want"])[:600], json.dumps(m["got"])[:900]))
            print("VIOLATION property=%s replay=%s" % (PROP, rp))
            return 1
        if errors:
            raise Failed("\n".join(errors))
        print("OK property=%s (%d behaviours, %.1fs)" % (PROP, ev["coverage"]["traces_validated_against_impl"], ev["wall_s"]))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


try:
    sys.exit(main())
except Failed as e:
    print("CHECK-ERROR property=%s %s" % (PROP, e))
    sys.exit(3)
