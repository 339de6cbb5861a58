#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]

Builds the harness against /repo's working tree, records executions of the
real code, lets TLC judge every recorded event with the property's monitor
(spec/P_<id>.tla), explores the design model where there is one, and writes
evidence/<id>.json.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: tool error.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(V, "target")
WORK = os.path.join(V, "work")
EVID = os.path.join(V, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(V, "bin"))
from props import PROPS  # noqa: E402


class ToolError(Exception):
    pass


def sh(cmd, timeout=600, env=None, cwd=None, partial=False):
    """Returns (exit code, output); on a timeout raises, or with `partial` returns
    (None, what was printed until then)."""
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=e, cwd=cwd, text=True, errors="replace")
    except subprocess.TimeoutExpired as x:
        if partial:
            o = x.stdout or ""
            return None, o if isinstance(o, str) else o.decode(errors="replace")
        raise ToolError(f"timeout: {' '.join(cmd)[:200]}") from x
    return p.returncode, p.stdout


def build(release=False):
    """Rebuild foca and the harness from the current tree.  The fingerprints of
    foca are removed first so that no stale artifact can be mistaken for it."""
    prof = "release" if release else "debug"
    fp = os.path.join(TARGET, prof, ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("foca-") or d.startswith("fv-"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    cmd = ["cargo", "build", "--offline", "-q"] + (["--release"] if release else [])
    rc, out = sh(cmd, timeout=800, cwd=os.path.join(V, "harness"),
                 env={"CARGO_TARGET_DIR": TARGET, "RUSTFLAGS": "-Awarnings"})
    if rc != 0:
        raise ToolError("harness does not build:\n" + out[-3000:])
    return os.path.join(TARGET, prof, "fv")


def tlc(spec, cfg, workdir, env=None, workers=2, heap="3g", timeout=800, extra=(), partial=False):
    os.makedirs(workdir, exist_ok=True)
    meta = os.path.join(workdir, "meta")
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta, *extra,
           "-config", cfg, spec]
    try:
        rc, out = sh(cmd, timeout=timeout, env=env, cwd=os.path.join(V, "spec"), partial=partial)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return rc, out


STR = re.compile(r'^"(BAD|COV) (.*)"$')


def parse_tlc(out):
    bad, cov = [], []
    for line in out.splitlines():
        m = STR.match(line.strip())
        if m:
            v = json.loads(json.loads('"' + m.group(2) + '"'))
            (bad if m.group(1) == "BAD" else cov).append(v)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    ok = "Model checking completed. No error has been found." in out
    return bad, cov, gen, dist, ok


def judge(monitor, trace, workdir, workers=2):
    """TLC evaluates the monitor on every event of every history of a file."""
    lens = {}
    with open(trace) as f:
        for line in f:
            # cheap: tid and number of events
            t = json.loads(line)
            lens[t["tid"]] = len(t["ev"])
    if not lens:
        return dict(bad=[], cov=[], gen=0, dist=0, n=0, events=0)
    rc, out = tlc(f"T_{monitor}.tla", "T.cfg", workdir, env={"TRACE": trace}, workers=workers)
    bad, cov, gen, dist, ok = parse_tlc(out)
    if not ok:
        with open(os.path.join(workdir, "tlc.log"), "w") as f:
            f.write(out)
        raise ToolError(f"TLC failed on {trace} ({monitor}):\n" + out[-2500:])
    # every history was judged to its end or to its first bad event
    stop = {}
    for b in bad:
        stop[b[0]] = b[1]
    want = sum((stop[t] if t in stop else n) + 1 for t, n in lens.items())
    if dist != want:
        raise ToolError(f"TLC judged {dist} states, expected {want} ({trace})")
    return dict(bad=bad, cov=cov, gen=gen, dist=dist, n=len(lens), events=sum(lens.values()))


def known_findings(prop):
    r = []
    p = os.path.join(V, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3)))
    return r


def write_replay(prop, info, trace_line):
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    k = hashlib.sha1(json.dumps(info, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(EVID, "replay", f"{prop}-{k}.json")
    with open(path, "w") as f:
        json.dump(dict(info, history=trace_line), f)
    return path


def explore(part, parts, passes, seed, d, out):
    """Sequences of calls that TLC generates from spec/Explore.tla (one worker: the
    order, and with it the choice of representatives, is reproducible)."""
    n = 0
    with open(out, "w") as f:
        for depth, rate in passes:
            cfg = os.path.join(d, f"explore-{depth}.cfg")
            with open(cfg, "w") as g:
                g.write(f"INIT Init\nNEXT Next\nVIEW Seen\nCHECK_DEADLOCK FALSE\nCONSTANTS DEPTH = {depth}\n RATE = {rate}\n")
            rc, o = tlc("Explore.tla", cfg, d, workers=1, heap="3g",
                        env=dict(SEED=str(seed % 1000003), PART=str(part), PARTS=str(parts)))
            if "Model checking completed. No error has been found." not in o:
                raise ToolError("Explore.tla failed:\n" + o[-2500:])
            for x in o.splitlines():
                if x.startswith('"BEH '):
                    f.write(json.loads(x)[4:] + "\n")
                    n += 1
    return n


def run_job(prop, job, tier, seed, jdir, binary, rnd):
    n = job["n"][tier]
    shards = job.get("shards", 4)
    res = []

    def one(k):
        d = os.path.join(jdir, f"{rnd}-{k}")
        os.makedirs(d, exist_ok=True)
        trace = os.path.join(d, "trace.ndjson")
        beh = os.path.join(d, "calls.ndjson")
        if job.get("explore"):
            explore(k, shards, job["explore"][tier], seed, d, beh)
            args = [binary, *job["driver"], beh, "--seed", str(seed), "--out", trace]
        else:
            args = [binary, *job["driver"], str(n), "--seed", str(seed), "--shard", f"{k}/{shards}", "--out", trace]
        if tier == "thorough":
            args.append("--thorough")
        rc, out = sh(args, timeout=700)
        crash = None
        if rc < 0 and job.get("crash") and os.path.exists(trace + ".cur"):
            # the process died while running this history
            tid = int(open(trace + ".cur").read())
            crash = (tid, rc)
            with open(trace) as f:
                lines = f.read().split("\n")
            with open(trace, "w") as f:
                f.write("".join(x + "\n" for x in lines[:-1]))
                f.write(json.dumps(dict(kind="hist", tid=tid, h={}, ev=[dict(
                    c="process", res="panic", msg=f"the process died with signal {-rc}")]))  + "\n")
        elif rc != 0:
            raise ToolError(f"driver failed ({rc}): {' '.join(args)}\n{out[-2000:]}")
        r = judge(job["monitor"], trace, d, workers=max(1, 8 // shards))
        r["dir"] = d
        r["trace"] = trace
        h = hashlib.sha1()
        hashes = set()
        sample = None
        with open(trace) as f:
            for line in f:
                i = line.index('"ev":')
                hashes.add(hashlib.sha1(line[i:].encode()).hexdigest())
                if sample is None and len(line) < 40000:
                    sample = line
        r["hashes"] = hashes
        r["sample"] = sample
        r["replays"] = []
        if r["bad"]:
            tids = {b[0]: b for b in r["bad"]}
            calls = open(beh).read().split("\n") if job.get("explore") else []
            with open(trace) as f:
                for line in f:
                    t = json.loads(line)
                    if t["tid"] in tids:
                        b = tids[t["tid"]]
                        t["ev"] = t["ev"][: b[1]]
                        info = dict(property=prop, monitor=job["monitor"], driver=job["driver"], n=n, seed=seed,
                                    tier=tier, tid=b[0], position=b[1], message=b[2])
                        if calls:
                            info["calls"] = calls[b[0]]
                        r["replays"].append((b, info, t))
        os.unlink(trace)
        return r

    with cf.ThreadPoolExecutor(shards) as ex:
        res = list(ex.map(one, range(shards)))
    return res


def design(prop, tier, jdir, seed):
    """Design-level checking registered for the property: exhaustive (TLC), random
    behaviours (TLC -simulate), a claim that has to fail (expect), or proofs (TLAPS)."""
    out = []
    for d in PROPS[prop].get("design", []):
        if tier not in d.get("tiers", ["quick", "thorough"]):
            continue
        t0 = time.time()
        if d.get("proof"):
            out.append(prove(d, jdir))
            continue
        cfg = d["cfg"] if isinstance(d["cfg"], str) else d["cfg"][tier]
        wd = os.path.join(jdir, "design-" + cfg.replace(".cfg", ""))
        extra = list(d.get("extra", ()))
        limit = d.get("timeout", {}).get(tier, 150 if tier == "quick" else 1500)
        sim = d.get("simulate", {}).get(tier)
        if sim:
            # RandomElement draws the same in every worker of a TLC: one TLC per shard
            def one(k, spec=d["spec"], cfg=cfg, wd=wd, extra=tuple(extra), num=sim):
                return tlc(spec, cfg, f"{wd}-{k}", workers=1, heap="2g", timeout=limit, partial=True,
                           extra=(*extra, "-simulate", f"num={num}", "-depth", "20000", "-seed", str(seed * 64 + k)))
            with cf.ThreadPoolExecutor(6) as ex:
                rs = list(ex.map(one, range(6)))
            cov, gen, ok, o, late = [], 0, True, "", False
            for rc, x in rs:
                m = re.findall(r"Progress: ([\d,]+) states checked, ([\d,]+) traces generated", x)
                late = late or rc is None
                good = rc in (0, None) and "Error" not in x and "violated" not in x and (bool(m) or rc is None)
                if not good:
                    o = x
                ok = ok and good
                cov += parse_tlc(x)[1]
                gen += int(m[-1][0].replace(",", "")) if m else 0
            dist = gen
        else:
            rc, o = tlc(d["spec"], cfg, wd, workers=8, heap="12g", timeout=limit, extra=extra, partial=True)
            bad, cov, gen, dist, ok = parse_tlc(o)
            late = rc is None
            if late:
                ok = "Error:" not in o
                m = re.findall(r"Progress\(\d+\).*?: ([\d,]+) states generated.*?, ([\d,]+) distinct", o)
                gen, dist = [int(x.replace(",", "")) for x in m[-1]] if m else (0, 0)
            elif d.get("expect"):
                ok = f"Invariant {d['expect']} is violated" in o
        if not ok:
            raise ToolError(f"design model {d['spec']}/{cfg} failed:\n" + o[-3000:])
        m = re.search(r"depth of the complete state graph search is (\d+)", o)
        r = dict(spec=d["spec"], cfg=cfg, states=dist, transitions=gen,
                 depth=int(m.group(1)) if m else None, wall_s=round(time.time() - t0, 1),
                 checks=d.get("checks", ""), complete=not late)
        if sim:
            r["behaviours"] = len(cov)
            cs = {}
            for c in cov:
                for k, v in c.items():
                    cs[k] = max(cs.get(k, 0), v) if k.startswith("max") else cs.get(k, 0) + v
            r["counters"] = cs
        out.append(r)
    return out


CONFORM = ["C01", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C16", "C19"]
DRIFT_BUDGET = int(os.environ.get("VERIF_DRIFT_BUDGET", "400"))  # seconds


def conform(prop, seed, jdir, binary, tier):
    """Strict conformance of recorded histories with spec/Foca.tla, the specification the
    design models run.  A difference is no verdict: it means that the design-level results
    are about other behaviour, and that the code deserves a longer search."""
    n = 120 if tier == "quick" else 600
    t0 = time.time()

    def one(k):
        d = os.path.join(jdir, f"conform-{k}")
        os.makedirs(d, exist_ok=True)
        trace = os.path.join(d, "trace.ndjson")
        what = (CONFORM + ["calls from Explore.tla"])[k]
        if k < len(CONFORM):
            args = ["hist", what, str(n)]
        else:
            args = ["replay", "C01", os.path.join(d, "calls.ndjson")]
            explore(0, 1, [(2, 101 if tier == "quick" else 17)], seed + 77, d, args[2])
        rc, out = sh([binary, *args, "--seed", str(seed + 77), "--out", trace], timeout=300)
        if rc != 0 or not os.path.getsize(trace):
            return None
        rc, o = tlc("Conform.tla", "T.cfg", d, env={"TRACE": trace}, workers=1, heap="2g", timeout=300, partial=True)
        bad, cov, gen, dist, ok = parse_tlc(o)
        os.unlink(trace)
        return ([(what, *b) for b in bad], cov, dist) if ok else None

    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, range(len(CONFORM) + 1)))
    done = [(k, r) for k, r in enumerate(rs) if r]
    drift = [f"{b[0]} history {b[1]} call {b[2]}: {b[3]}" for k, r in done for b in r[0]]
    return dict(spec="Foca.tla", histories=sum(len(r[1]) for _, r in done), not_compared=len(rs) - len(done),
                calls_compared=sum(c[1]["ev"] for _, r in done for c in r[1]),
                drifting=len(drift), samples=drift[:5], wall_s=round(time.time() - t0, 1))


def prove(d, jdir):
    """TLAPS, in a scratch copy (it writes a cache next to the file)"""
    t0 = time.time()
    wd = os.path.join(jdir, "proof")
    os.makedirs(wd, exist_ok=True)
    for f in os.listdir(os.path.join(V, "spec")):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(V, "spec", f), wd)
    rc, o = sh(["tlapm", "--cleanfp", d["spec"]], timeout=600, cwd=wd)
    m = re.search(r"All (\d+) obligations? proved", o)
    if rc != 0 or not m:
        raise ToolError("proof failed:\n" + o[-3000:])
    return dict(spec=d["spec"], cfg="TLAPS", states=0, transitions=0, depth=None, obligations=int(m.group(1)),
                wall_s=round(time.time() - t0, 1), checks=d.get("checks", ""))


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    a = sys.argv[2:]
    replay = None
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--seed":
            seed = int(a.pop(0))
        elif x == "--replay":
            replay = a.pop(0)
    P = PROPS[prop]
    t0 = time.time()
    jdir = os.path.join(WORK, f"{prop}-{tier}")
    shutil.rmtree(jdir, ignore_errors=True)
    os.makedirs(jdir, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    bins = {"debug": build()}
    if any(j.get("release") for j in P["jobs"]):
        bins["release"] = build(True)
    if replay:
        return do_replay(prop, replay, bins, jdir)

    results = []
    counters = {}
    violations = []
    known = known_findings(prop)
    seen_known = {}
    hashes = set()
    nontrivial = 0
    sample = None
    keys = P.get("interesting")
    conf = conform(prop, seed, jdir, bins["debug"], tier) if P.get("conform", True) else None
    departs = conf is not None and (conf["drifting"] > 0 or conf["not_compared"] > 0)
    if departs:
        print(f"DRIFT: the code departs from spec/Foca.tla in {conf['drifting']} histories "
              f"({'; '.join(conf['samples'][:2])}); no verdict, but a longer search")
    budget = P.get("budget", 420) if tier == "thorough" else DRIFT_BUDGET if departs else 0
    rnd = 0
    while True:
        for ji, job in enumerate(P["jobs"]):
            if rnd > 0 and job.get("once"):
                continue
            d = os.path.join(jdir, f"j{ji}")
            b = bins["release" if job.get("release") else "debug"]
            for r in run_job(prop, job, tier, seed + 1000003 * rnd, d, b, rnd):
                results.append(r)
                for tid, c in r["cov"]:
                    if isinstance(c, dict):
                        for k, v in c.items():
                            if k.startswith("max"):
                                counters[k] = max(counters.get(k, 0), v)
                            else:
                                counters[k] = counters.get(k, 0) + v
                        if keys is None or any(c.get(k, 0) for k in keys):
                            nontrivial += 1
                hashes |= r["hashes"]
                sample = sample or r["sample"]
                for b_, info, t in r["replays"]:
                    kf = [k for k in known if k[0] and b_[2].startswith(k[0] + ":")]
                    if kf:
                        seen_known[kf[0][0]] = kf[0][1]
                    else:
                        violations.append((b_, info, t))
        rnd += 1
        if violations or time.time() - t0 > budget:
            break
    des = [] if violations else design(prop, tier, jdir, seed)
    for k, text in seen_known.items():
        print(f"KNOWN-FINDING: property={prop} {text}")

    nhist = sum(r["n"] for r in results)
    nbad = len({(i["seed"], i["tid"]) for _, i, _ in violations})
    cov = dict(
        evaluations=sum(r["events"] for r in results),
        distinct_nontrivial=min(nontrivial, len(hashes)),
        rule=P["rule"],
        samples=[short_sample(sample)] if sample else ["none"],
        states=sum(r["dist"] for r in results) + sum(d["states"] for d in des),
        transitions=sum(r["gen"] for r in results) + sum(d["transitions"] for d in des),
        traces_validated_against_impl=nhist - nbad,
        histories=nhist,
        distinct_histories=len(hashes),
        counters=counters,
        design_models=des,
        conformance=conf,
        rounds=rnd,
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=P["level"], coverage=cov,
              assumptions=P.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(jdir, ignore_errors=True)
    print(f"{prop} {tier} seed={seed}: {nhist} histories, {cov['evaluations']} events, {cov['states']} states, "
          f"{time.time()-t0:.1f}s counters={json.dumps(counters)}")
    if violations:
        violations.sort(key=lambda x: x[0][1])
        msgs = {}
        for b_, info, t in violations:
            msgs.setdefault(b_[2], []).append((b_, info, t))
        for m, l in list(msgs.items())[:5]:
            b_, info, t = l[0]
            path = write_replay(prop, info, t)
            print(f"  {m} ({len(l)} histories)")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


def short_sample(line):
    t = json.loads(line)
    t["ev"] = t["ev"][:2]
    return json.loads(json.dumps(t)[:6000]) if len(json.dumps(t)) <= 6000 else json.dumps(t)[:3000]


def do_replay(prop, path, bins, jdir):
    info = json.load(open(path))
    job = next(j for j in PROPS[prop]["jobs"] if j["driver"] == info["driver"])
    b = bins["release" if job.get("release") else "debug"]
    trace = os.path.join(jdir, "replay.ndjson")
    args = [b, *info["driver"], str(info["n"]), "--seed", str(info["seed"]), "--only", str(info["tid"]), "--out", trace]
    if "calls" in info:
        beh = os.path.join(jdir, "calls.ndjson")
        with open(beh, "w") as f:
            f.write(info["calls"] + "\n")
        args = [b, *info["driver"], beh, "--seed", str(info["seed"]), "--out", trace]
    if info.get("tier") == "thorough":
        args.append("--thorough")
    rc, out = sh(args)
    if rc != 0:
        raise ToolError(out)
    r = judge(info["monitor"], trace, jdir)
    if r["bad"]:
        print("reproduced:", r["bad"])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("not reproduced on this tree")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as x:
        print("ERROR:", x)
        sys.exit(2)
