#!/usr/bin/env python3
"""Decides one property: model-check the specification, and check the code against it.

  run.py setup                 build the harness for both runtimes
  run.py check P05 [quick|thorough]

Every property is decided by one or more engines (see ENGINES).  An engine is a
TLA+ module together with a driver in harness/ that binds it to the code:

  replay   TLC enumerates the model and prints its labelled transitions; the
           driver takes every one of them on the real code.
  record   the driver runs the real code under random schedules and records what
           it observes; TLC checks the recording against the model.

Each step of a model names the properties its observation is part of; a check
reports the mismatches that belong to its property.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(ROOT, "build")
REPO = "/repo"
EVID = os.path.join(ROOT, "evidence")
sys.path.insert(0, ROOT)
from engines import ENGINES, PROPS  # noqa: E402

ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class ToolError(Exception):
    pass


def source_hash():
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + "/**/*.rs", recursive=True)) + sorted(glob.glob(REPO + "/**/Cargo.toml", recursive=True))
    for f in files:
        if "/target/" in f:
            continue
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def build(runtime):
    """Builds the driver against /repo's working tree."""
    target = os.path.join(BUILD, runtime)
    os.makedirs(target, exist_ok=True)
    man = os.path.join(ROOT, "harness", "Cargo.toml")
    with open(os.path.join(target, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        # Cargo goes by modification times; contents are what counts here.
        stamp, now = os.path.join(target, ".srchash"), source_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != now and os.path.exists(os.path.join(target, "debug")):
            subprocess.run(["cargo", "clean", "--offline", "-p", "tower-lsp", "--manifest-path", man, "--target-dir", target],
                           env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        cmd = ["cargo", "build", "--offline", "--manifest-path", man, "--target-dir", target]
        if runtime == "agnostic":
            cmd += ["--no-default-features", "--features", "rt-agnostic"]
        r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("build failed:\n" + "\n".join(l for l in r.stdout[r.stdout.find("error"):].splitlines())[:2500])
        with open(stamp, "w") as f:
            f.write(now)
    return os.path.join(target, "debug", "conf")


def tlc(module, cfg, workdir, workers=1, env=None, timeout=3600, sim=None):
    """Runs TLC; returns the path of its output and the counts it reports."""
    extra = []
    if sim:
        extra = ["-simulate", f"num={sim[0]}", "-depth", str(sim[1]), "-seed", str(SEED)]
    out = os.path.join(workdir, os.path.basename(cfg) + ".out")
    meta = os.path.join(workdir, os.path.basename(cfg) + ".meta")
    e = dict(ENV, **(env or {}))
    e["JAVA_TOOL_OPTIONS"] = "-XX:+UseParallelGC -Xmx6g -Xss64m"
    t0 = time.time()
    with open(out, "w") as f:
        r = subprocess.run(["tlc", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta, *extra,
                            "-config", os.path.join(ROOT, "spec", cfg), os.path.join(ROOT, "spec", module + ".tla")],
                           cwd=os.path.join(ROOT, "spec"), env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    states = trans = 0
    tail = []
    with open(out) as f:
        for line in f:
            if line.startswith("<<"):
                continue
            tail.append(line)
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                trans, states = int(m.group(1)), int(m.group(2))
            m = re.match(r"The number of states generated: (\d+)", line)
            if m:
                trans = states = int(m.group(1))
    if r.returncode != 0:
        raise ToolError(f"TLC failed on {module} ({cfg}):\n" + "".join(tail[-40:]))
    return {"out": out, "states": states, "transitions": trans, "wall": round(time.time() - t0, 1),
            "module": module, "cfg": cfg}


def drive(binary, args, out, timeout):
    try:
        r = subprocess.run([binary, *args, "--out", out], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout,
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30)))
    except subprocess.TimeoutExpired:
        raise ToolError(f"driver timed out: {args}")
    if r.returncode not in (0, -signal.SIGKILL, -signal.SIGTERM):
        # Not even a panic that the driver could catch: the code under test takes the process down.
        what = f"the process ends with {r.returncode} while it drives the code: {r.stdout[-1500:].strip()}"
        return {"walks": 0, "steps": 0, "edges": 0, "covered": 0, "passes": 1, "samples": [], "extra": {"hung": True},
                "mismatches": [{"sc": ["*"], "what": what, "expected": args}]}
    if r.returncode != 0 or not os.path.exists(out):
        raise ToolError(f"driver failed ({r.returncode}): {args}\n{r.stdout[-3000:]}")
    with open(out) as f:
        return json.load(f)


def run_engine(name, tier, builds, prop, workdir):
    """Runs one engine; returns its TLC runs and the reports of its drivers."""
    eng = ENGINES[name]
    conf = dict(eng, **eng.get(tier, {}))
    tlcs, reports = [], []
    common = ["--seed", str(SEED), "--tier", tier, "--prop", prop]
    timeout = 700 if tier == "quick" else 7200
    if conf["kind"] == "replay":
        cfgs = [(c, None) for c in conf.get("cfgs", [])] + [(c, (n, d)) for c, n, d in conf.get("sims", [])]
        with cf.ThreadPoolExecutor(4) as pool:
            tlcs = list(pool.map(lambda c: tlc(conf["module"], c[0], workdir, timeout=timeout, sim=c[1]), cfgs))
        jobs = [(rt, t) for rt in conf["runtimes"] for t in tlcs]

        def one(job):
            rt, t = job
            out = os.path.join(workdir, f"{name}-{rt}-{t['cfg']}.json")
            rep = drive(builds[rt].result(), [conf["driver"], "--in", t["out"], *common,
                                       "--reps", str(conf.get("reps", 1))], out, timeout)
            rep.update(engine=name, runtime=rt, cfg=t["cfg"])
            return rep

        for b in builds.values():
            b.result()
        with cf.ThreadPoolExecutor(2) as pool:
            reports = list(pool.map(one, jobs))
        for t in tlcs:
            os.remove(t["out"])
    else:
        for rt in conf["runtimes"]:
            out = os.path.join(workdir, f"{name}-{rt}.json")
            trace = os.path.join(workdir, f"{name}-{rt}.ndjson")
            rep = drive(builds[rt].result(), [conf["driver"], "--trace", trace, *common, "--reps", str(conf.get("reps", 1))], out, timeout)
            rep.update(engine=name, runtime=rt)
            if not rep["extra"].get("hung"):
                parts = sorted(glob.glob(trace + "*"))
                with cf.ThreadPoolExecutor(6) as pool:
                    def check(part):
                        d = part + ".d"
                        os.makedirs(d, exist_ok=True)
                        return tlc(conf["module"], conf["cfg"], d, env={"TRACE": part}, timeout=timeout)
                    runs = list(pool.map(check, parts))
                for t, part in zip(runs, parts):
                    done = False
                    with open(t["out"]) as f:
                        for line in f:
                            if line.startswith('<<"MISMATCH", '):
                                m = json.loads(json.loads(line[len('<<"MISMATCH", '):].rstrip()[:-2]))
                                lines = open(part).read().splitlines()
                                i = m["i"]
                                m["history"] = [json.loads(x) for x in lines[max(0, i - 40):i]]
                                m["what"] = m.get("what", "the recorded step is not one the specification allows")
                                rep["mismatches"].append(m)
                            elif line.startswith('<<"TRACEDONE"'):
                                done = True
                    if not done:
                        raise ToolError(f"trace check incomplete: {t['out']}")
                    os.remove(t["out"])
                tlcs += runs
                rep["trace_lines"] = sum(len(open(p).read().splitlines()) for p in parts)
            reports.append(rep)
    return name, tlcs, reports


def known_findings():
    res = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", line)
            if m:
                res.append(m.groups())
    return res


def check(prop, tier):
    t0 = time.time()
    engines = [e for e in PROPS[prop]["engines"]]
    workdir = os.path.join(BUILD, "run", f"{prop}-{tier}")
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    os.makedirs(EVID, exist_ok=True)
    for f in glob.glob(os.path.join(EVID, prop + ".*")):
        os.remove(f)
    runtimes = sorted({rt for e in engines for rt in dict(ENGINES[e], **ENGINES[e].get(tier, {}))["runtimes"]})
    results = []
    with cf.ThreadPoolExecutor(4) as bpool, cf.ThreadPoolExecutor(4) as epool:
        builds = {rt: bpool.submit(build, rt) for rt in runtimes}
        for f in [epool.submit(run_engine, e, tier, builds, prop, workdir) for e in engines]:
            results.append(f.result())

    mismatches, states, trans, walks, steps, samples, notes = [], 0, 0, 0, 0, [], []
    for name, tlcs, reports in results:
        for t in tlcs:
            states += t["states"]
            trans += t["transitions"]
            notes.append(f"{t['module']} ({t['cfg']}): {t['states']} states, {t['transitions']} transitions")
        for r in reports:
            walks += r["walks"]
            steps += r["steps"]
            if r.get("edges"):
                n = max(1, r["passes"])
                notes.append(f"{name}/{r['runtime']}/{r.get('cfg', '')}: {r['covered'] // n} of {r['edges'] // n} model transitions "
                             f"taken on the code, {n} times, in {r['walks']} runs, {r['steps']} steps")
            elif r.get("cfg"):
                notes.append(f"{name}/{r['runtime']}/{r['cfg']}: {r['walks']} behaviours drawn by TLC from a larger instance "
                             f"performed on the code, {r['steps']} steps")
            if r.get("trace_lines"):
                notes.append(f"{name}/{r['runtime']}: {r['trace_lines']} recorded steps in {r['walks']} runs checked by TLC")
            for k, v in r.get("extra", {}).items():
                notes.append(f"{name}/{r['runtime']}: {k} = {v}")
            samples += r["samples"][:1]
            if r["covered"] < r["edges"] and not r["mismatches"]:
                raise ToolError(f"{name}: only {r['covered']} of {r['edges']} transitions covered")
            for m in r["mismatches"]:
                if prop in m.get("sc", []) or "*" in m.get("sc", []):
                    mismatches.append(dict(m, engine=name, runtime=r["runtime"], seed=SEED))

    known, fresh = {}, []
    for m in mismatches:
        text = json.dumps(m)
        hit = next((k for k in known_findings() if k[0] == prop and re.search(k[1], text)), None)
        if hit:
            known[hit[2]] = True
        else:
            fresh.append(m)
    evidence = {
        "property": prop, "tier": tier, "seed": SEED, "level": PROPS[prop].get("level", "model_checking"),
        "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": walks,
                     "steps_validated_against_impl": steps, "samples": samples[:4] or ["(none)"], "details": notes},
        "assumptions": PROPS[prop].get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(fresh),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    if fresh:
        replay = os.path.join(EVID, prop + ".replay.json")
        with open(replay, "w") as f:
            json.dump(fresh[:10], f, indent=1, ensure_ascii=False)
        for m in fresh[:3]:
            print(f"{m['engine']}/{m['runtime']}: {m['what']}\n   expected: {json.dumps(m.get('expected'))}"[:1500])
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    shutil.rmtree(workdir, ignore_errors=True)
    print(f"{prop} holds on everything explored: {states} model states, {steps} steps of the code in {walks} runs, "
          f"{evidence['wall_s']} s")
    return 0


def main():
    os.makedirs(BUILD, exist_ok=True)
    try:
        if sys.argv[1] == "setup":
            with cf.ThreadPoolExecutor(2) as pool:
                list(pool.map(build, ["tokio", "agnostic"]))
            return 0
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
        return check(sys.argv[2], tier)
    except Exception as e:  # never to be mistaken for a violation
        if not isinstance(e, (ToolError, subprocess.TimeoutExpired)):
            traceback.print_exc()
        print(f"ERROR: {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
