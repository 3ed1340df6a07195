#!/usr/bin/env python3
"""Decide one property: generate behaviours from the Quint specification, replay
them on the real code of /repo, compare every result with the specification.

  run.py Cxx [--tier quick|thorough] [--calibrate] [--replay FILE] [--seed N]
exit 0: held; exit 1 + VIOLATION line: broken; exit 2: the check itself failed.
"""
import argparse, concurrent.futures, hashlib, importlib, json, math, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
sys.path.insert(0, os.path.join(VERIF, "lib"))

# as the repository's build (compiler default standard, cstring preincluded), plus what a later version of the header may rely on
CXX = ["g++", "-std=gnu++17", "-w"] + [x for h in ("cstring", "cstdint", "algorithm", "cmath", "limits", "numeric", "iterator", "functional", "utility")
                                      for x in ("-include", h)]
class CheckError(Exception):
    pass

# ------------------------------------------------------------------ building
def spec_hash(spec):
    seen, todo = {}, [spec]
    while todo:
        f = todo.pop()
        if f in seen: continue
        src = open(os.path.join(SPEC, f)).read()
        seen[f] = src
        for m in re.findall(r'from\s+"\./([^"]+)"', src): todo.append(m + ".qnt")
    return hashlib.sha256("\0".join(k + "\0" + seen[k] for k in sorted(seen)).encode()).hexdigest()[:16]

def build_harness(name, flags, tag=""):
    """Compile harness/<name>.cpp against /repo's working tree."""
    d = os.path.join(BUILD, "bin", "%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, name + tag)
    cmd = CXX + ["-I", os.path.join(REPO, "include"), "-I", HARN] + flags + \
          [os.path.join(HARN, name + ".cpp"), "-o", exe]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        raise CheckError("harness %s does not compile:\n%s" % (name, "\n".join(r.stderr.splitlines()[:12])))
    return exe

# --------------------------------------------------------------- generation
def unbig(v):
    if isinstance(v, dict):
        if "#bigint" in v: return int(v["#bigint"])
        if "#map" in v: return {json.dumps(unbig(k)): unbig(x) for k, x in v["#map"]}
        if "#set" in v: return [unbig(x) for x in v["#set"]]
        if "#tup" in v: return [unbig(x) for x in v["#tup"]]
        return {k: unbig(x) for k, x in v.items()}
    if isinstance(v, list): return [unbig(x) for x in v]
    return v

def big_hook(d):
    if "#bigint" in d and len(d) == 1: return int(d["#bigint"])
    return d

def generate(spec, main, steps, seed, invs, keep="ev", init="init", step="step", whole=False):
    """One behaviour of the specification, as the list of its events."""
    out = os.path.join(BUILD, "itf", "%s-%s-%d-%d-%d.json" % (main, step, seed, steps, os.getpid()))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cmd = ["quint", "run", os.path.join(SPEC, spec), "--main", main, "--max-steps", str(steps), "--max-samples", "1",
           "--seed", str(seed), "--out-itf=" + out, "--verbosity", "1", "--init", init, "--step", step]
    for i in invs: cmd += ["--invariant", i]
    last = None
    for attempt in range(2):
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=850)
        last = r
        if r.returncode == 0 and os.path.exists(out): break
    if last.returncode != 0 or not os.path.exists(out):
        raise CheckError("specification run failed (%s): %s" % (" ".join(cmd), (last.stdout + last.stderr)[-2000:]))
    with open(out) as f: d = json.load(f, object_hook=big_hook)
    os.unlink(out)
    st = d["states"]
    if whole: return st
    return [s[keep] for s in st[1:]]

# ----------------------------------------------------------------- replaying
P = 96
INF = 1 << (P + 128)             # written for infinity
def fx(x):                      # fixed point -> exact double
    return math.ldexp(float(x), -P)

def to_fixed(x):
    return int(math.ldexp(x, P)) if abs(x) < 2.0**900 else None

class Replay:
    def __init__(self, exe, env=None, timeout=300, raw=False, wrap=[]):
        self.exe, self.env, self.timeout, self.raw, self.wrap = exe, env, timeout, raw, wrap
    def run(self, lines, tag):
        d = os.path.join(BUILD, "io"); os.makedirs(d, exist_ok=True)
        fi = os.path.join(d, tag + ".in"); fo = os.path.join(d, tag + ".out")
        with open(fi, "w") as f: f.write("\n".join(lines) + "\n")
        if os.path.exists(fo): os.unlink(fo)
        env = dict(os.environ); env.update(self.env or {})
        hang = False
        try:
            r = subprocess.run(self.wrap + [self.exe, fi, fo], capture_output=True, text=True, timeout=self.timeout, env=env, errors="replace")
            rc, err, self.out = r.returncode, r.stderr, r.stdout
        except subprocess.TimeoutExpired as e:
            rc, err, self.out, hang = -999, "timeout", "", True
        if rc in (64, 65): raise CheckError("harness: " + err[-500:])
        res = []
        if os.path.exists(fo):
            with open(fo) as f: data = f.read()
            rows = data.split("\n")
            rows.pop()          # text after the last newline: incomplete row
            res = rows if self.raw else [[float.fromhex(t) for t in l.split()] for l in rows]
        for p in (fi, fo):
            if os.path.exists(p): os.unlink(p)
        return res, rc, err, hang

def enc_default(ev):
    return ev["op"] + " " + " ".join(fx(x).hex() for x in ev["a"])

def cmp_default(ev, res, stats, circ={}):
    """None if the results agree with the specification, else a description."""
    e, t = ev["e"], ev["t"]
    if len(e) == 0 or len(res) == 0 or len(res) % len(e):   # several groups: several forms of the same call
        return "returned %d values, expected %d" % (len(res), len(e))
    c = circ.get(ev["op"], {})
    for j in range(len(res)):
        i = j % len(e)
        if t[i] == -1: continue
        x = res[j]
        if t[i] == -2:
            if x == x: return "value %d is %r, expected NaN" % (i, x)
            continue
        if abs(e[i]) == INF and t[i] == 0:
            if x != math.copysign(math.inf, e[i]): return "value %d is %r, expected %r" % (i, x, math.copysign(math.inf, e[i]))
            continue
        if x != x or x in (math.inf, -math.inf):
            return "value %d is %r, expected %r" % (i, x, fx(e[i]))
        d = abs(to_fixed(x) - e[i])
        if i in c:
            m = c[i] << P
            d = min(d % m, m - d % m)
        if stats is not None:
            k = (ev["op"] + (str(ev["a"][0] >> P) if ev["op"] in ("sweep", "point", "trip", "conv") else ""), i)
            q = d / t[i] if t[i] > 0 else (0.0 if d == 0 else math.inf)
            if q > stats.get(k, 0): stats[k] = q
        if d > t[i]:
            return "value %d is %.9g, expected %.9g +- %.3g" % (i, x, fx(e[i]), fx(t[i]))
    return None

def replay_events(rp, events, enc, cmp, tag, calib, line=None):
    """Replay; returns (checked, violations, stats)."""
    lines = [(line or enc)(e) for e in events]
    res, rc, err, hang = rp.run(lines, tag)
    stats = {} if calib else None
    viol = []
    for ev, r in zip(events, res):
        m = cmp(ev, r, stats)
        if m: viol.append((ev, m, r))
    if len(res) == len(events) and rc != 0 and events:      # all calls answered, but the run did not end well (a report at exit)
        viol.append((events[-1], "the run ended with exit %s: %s" % (rc, " | ".join(err.strip().splitlines()[:6])[:500]), None))
    if len(res) < len(events) and not (viol and rc == 0):
        why = "hang" if hang else "crash (exit %s): %s" % (rc, " | ".join(err.strip().splitlines()[:4])[:400])
        viol.append((events[len(res)], why, None))
    return len(res), viol, stats, res

def job(a):
    (spec, main, steps, seed, invs, exe, env, mod, calib, tag, init, step) = a
    m = importlib.import_module(mod)
    pre = getattr(m, "GENERATE", None)
    events = (pre or generate)(spec, main, steps, seed, invs, init=init, step=step)
    events = getattr(m, "TRANSFORM", lambda e, c: e)(events, main)
    enc = getattr(m, "ENC", enc_default); cmp = getattr(m, "CMP", None)
    if cmp is None:
        circ = getattr(m, "CIRC", {})
        cmp = lambda ev, r, st: cmp_default(ev, r, st, circ)
    rp = (getattr(m, "REPLAYER", None) or Replay)(exe, env, timeout=getattr(m, "TIMEOUT", 150), raw=getattr(m, "RAW", False), **({"wrap": m.WRAP} if hasattr(m, "WRAP") else {}))
    n, viol, stats, res = replay_events(rp, events, enc, cmp, tag, calib, getattr(m, "LINE", None))
    if viol and not calib and viol[-1][1] != "hang" and not getattr(m, "NO_RERUN", False):   # report a rejection only if a re-run repeats it
        n2, viol2, _, _ = replay_events(rp, events, enc, cmp, tag, calib, getattr(m, "LINE", None))
        if not viol2: viol = []
    ops = {}
    distinct = set()
    for e in events:
        ops[e["op"]] = ops.get(e["op"], 0) + 1
        if any(e["a"]): distinct.add(hash((e["op"], tuple(e["a"]))))
    samples = []
    seen = set()
    for e in events:
        if e["op"] not in seen and len(samples) < 6:
            seen.add(e["op"])
            samples.append(enc(e)[:400] + "  =>  " + (" ".join("%.9g" % fx(x) for x in e["e"][:6]) if not getattr(m, "RAW", False) else m.exp(e)[:200]))
    states = set()
    if events and "v" in events[0]:
        states = set(hash((e["n"], e["v"], e["p"], e["rb"], e["wb"])) for e in events)
    cnt = getattr(m, "COUNT", None)
    points = sum(cnt(e, r) for e, r in zip(events, res)) if cnt else 0
    return dict(points=points, n=n, total=len(events), viol=viol[:3], nviol=len(viol), stats=stats, ops=ops, distinct=distinct,
                samples=samples, seed=seed, states=states, prefix=[enc(e) for e in events] if viol else None)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--calibrate", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--procs", type=int, default=8)
    args = ap.parse_args()
    import checks
    t0 = time.time()
    try:
        c = checks.CHECKS[args.prop]
        rc = c["run"](args, c, t0) if "run" in c else run_standard(args, c, t0)
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (args.prop, e)); rc = 2
    except Exception as e:
        import traceback; traceback.print_exc(limit=6); rc = 2
    finally:
        shutil.rmtree(os.path.join(BUILD, "bin", "%d" % os.getpid()), ignore_errors=True)
    sys.exit(rc)

def mkseed(*a):
    """Seeds far apart: the simulator's generator is counter based, so nearby seeds give overlapping behaviours."""
    return int(hashlib.sha256(repr(a).encode()).hexdigest()[:12], 16)

def known_findings(prop):
    f = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3).strip()))
    return out

def write_evidence(prop, c, args, cov, t0, nviol):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=args.tier if args.tier in ("quick", "thorough") else "quick", seed=args.seed,
              level=c.get("level", "exploration"), coverage=cov, assumptions=c.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=nviol)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)

def report(prop, v):
    d = os.path.join(BUILD, "replay"); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, v.get("tag", "0")))
    with open(path, "w") as f: json.dump(v, f, indent=1, default=str)
    print("  " + v["what"])
    print("VIOLATION property=%s replay=%s" % (prop, path))

def run_standard(args, c, t0):
    prop = args.prop
    thorough = args.tier == "thorough"
    exes = {}
    camps = c["campaigns"]
    for k in camps:
        key = (k["harness"], tuple(k.get("flags", ["-O2"])))
        exes.setdefault(key, len(exes))
    with concurrent.futures.ThreadPoolExecutor(args.procs) as tx:
        bs = {key: tx.submit(build_harness, key[0], list(key[1]), "-%d" % n) for key, n in exes.items() if key[0] is not None}
        exes = {key: bs[key].result() if key in bs else None for key in exes}
    if args.replay:
        d = json.load(open(args.replay))
        k = camps[d["campaign"]]
        exe = exes[(k["harness"], tuple(k.get("flags", ["-O2"])))]
        m = importlib.import_module(k.get("mod", "mod_default"))
        res, rc, err, hang = Replay(exe, k.get("env"), raw=getattr(m, "RAW", False), wrap=getattr(m, "WRAP", [])).run(d["history"], "replay%d" % os.getpid())
        print("call  :", d["history"][-1]); print("result:", res[-1] if len(res) == len(d["history"]) else "crash/hang")
        print("spec  :", d["what"]); return 0
    budget = float(os.environ.get("VERIF_BUDGET", "0")) or (c.get("thorough_s", 240) if thorough else 0)
    agg = dict(points=0, n=0, states=set(), ops={}, distinct=set(), samples=[], stats={}, viol=[], nviol=0, behaviours=0)
    rnd = 0
    with concurrent.futures.ProcessPoolExecutor(args.procs) as ex:
        while True:
            jobs = []
            for ci, k in enumerate(camps):
                exe = exes[(k["harness"], tuple(k.get("flags", ["-O2"])))]
                steps = k["steps"]
                np = k.get("procs", 8)
                env = dict(k.get("env") or {})
                if thorough: env.update(k.get("thorough_env") or {})
                if k.get("once") and rnd > 0: continue
                for w in range(np):
                    seed = mkseed(prop, args.seed, rnd, w, ci)
                    jobs.append((ci, (k["spec"], k.get("main", k["spec"][:-4]), steps, seed, k.get("invs", ["laws"]), exe,
                                      env, k.get("mod", "mod_default"), args.calibrate,
                                      "%s-%d-%d-%d" % (prop, os.getpid(), ci, w), k.get("init", "init"), k.get("step", "step"))))
            futs = [(ci, ex.submit(job, j)) for ci, j in jobs]
            for ci, f in futs:
                r = f.result()
                agg["n"] += r["n"]; agg["points"] += r["points"]; agg["states"] |= r["states"]; agg["distinct"] |= r["distinct"]; agg["behaviours"] += 1
                for o, x in r["ops"].items(): agg["ops"][o] = agg["ops"].get(o, 0) + x
                if len(agg["samples"]) < 8: agg["samples"] += r["samples"][:3]
                for kk, q in (r["stats"] or {}).items():
                    if q > agg["stats"].get(kk, 0): agg["stats"][kk] = q
                agg["nviol"] += r["nviol"]
                for v in r["viol"]: agg["viol"].append((ci, r, v))
                if r["viol"] and not args.calibrate:
                    for _, g in futs: g.cancel()
                    break
            rnd += 1
            if agg["viol"] and not args.calibrate: break
            if time.time() - t0 > budget: break
    if args.calibrate:
        m = {}
        for kk in sorted(agg["stats"]): m.setdefault(kk[0], []).append("%d:%.2f" % (kk[1], agg["stats"][kk]))
        for o in m: print("%-14s %s" % (o, " ".join(m[o]) if len(m[o]) < 20 else "max %s" % max(m[o], key=lambda x: float(x.split(":")[1]))))
    known = known_findings(prop)
    fresh = []
    hit = {}
    for ci, r, v in agg["viol"]:
        ev, msg, got = v
        kk = [d for key, d in known if key == ev["op"]]
        if kk: hit[kk[0]] = 1
        else: fresh.append((ci, r, v))
    for d in hit: print("KNOWN-FINDING: property=%s %s" % (prop, d))
    cov = dict(evaluations=agg["n"], distinct_nontrivial=len(agg["distinct"]),
               rule=c.get("rule", "calls drawn by the specification's actions (corner-biased random inputs, histories that repeat "
                                  "arguments); distinct (operation, inputs) with at least one non-zero input are counted"),
               samples=agg["samples"][:8], calls_per_operation=agg["ops"], behaviours_replayed=agg["behaviours"],
               specifications=[k["spec"] for k in camps])
    if c.get("level") == "model_checking":
        cov.update(states=len(agg["states"]), transitions=agg["n"], traces_validated_against_impl=agg["behaviours"])
    if agg["points"]: cov["points_swept"] = agg["points"]
    if c.get("extra"): cov.update(c["extra"](agg))
    write_evidence(prop, c, args, cov, t0, len(fresh))
    if fresh:
        ci, r, (ev, msg, got) = fresh[0]
        k = next((i for i, l in enumerate(r["prefix"]) if l == enc_line(camps[ci], ev)), len(r["prefix"]) - 1)
        report(prop, dict(property=prop, campaign=ci, what="%s: %s" % (enc_line(camps[ci], ev)[:300], msg), event=ev, got=got,
                          history=r["prefix"][max(0, k - 200):k + 1], seed=r["seed"], tag="%d" % r["seed"]))
        return 1
    print("%s: held on %d calls (%d distinct)%s, %.1f s" % (prop, agg["n"], len(agg["distinct"]),
          ", %d inputs swept" % agg["points"] if agg["points"] else "", time.time() - t0))
    return 0

def enc_line(k, ev):
    m = importlib.import_module(k.get("mod", "mod_default"))
    return getattr(m, "ENC", enc_default)(ev)
