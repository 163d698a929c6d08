#!/usr/bin/env python3
"""check.py PROPERTY: decides one property (see DESIGN.md).

  1. model checks the design modules of the property with TLC,
  2. executes scenarios (random ones and ones TLC enumerated) on the real
     library, built from /repo's working tree, and records what happens,
  3. validates every recorded trace against the trace specification with TLC.

Exit 0: held.  Exit 1 + VIOLATION line: broken.  Exit 2: no answer.
"""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import plans  # noqa: E402

JAR = ("/opt/veriftools/tla/tla2tools.jar:"
       "/opt/veriftools/tla/CommunityModules-deps.jar")
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "build", "target")
VH = os.path.join(TARGET, "debug", "vh")
EVID = os.path.join(ROOT, "evidence")
HANG = 60


def fail(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def build():
    env = dict(os.environ)
    p = subprocess.run(
        ["bash", "-c", "source /opt/vp/env.sh 2>/dev/null; cargo build --offline --target-dir %s" % TARGET],
        cwd=os.path.join(ROOT, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-4000:])
        fail("the harness does not build")


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def harness(scs, path):
    """Runs scenario lines; the trace always explains how the run ended."""
    with open(path + ".sc", "w") as f:
        f.write("\n".join(scs) + "\n")
    env = dict(os.environ, RAYON_NUM_THREADS="4")
    try:
        p = subprocess.run([VH, path + ".sc", path + ".nd", str(HANG)], preexec_fn=limits, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
        rc = p.returncode
        out = p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        fail("the harness ran out of time")
    raw = open(path + ".nd", "rb").read() if os.path.exists(path + ".nd") else b""
    lines = raw.decode("utf8", "replace").split("\n")
    if lines and lines[-1] != "":
        lines[-1] = ""          # a torn line
    lines = [x for x in lines if x]
    if rc != 0:
        if rc > 0 and "scenario lacks" in out or not lines:
            print(out[-2000:])
            fail("the harness failed (%d)" % rc)
        lines.append(json.dumps({"ev": "Crash", "rc": rc}))
    with open(path + ".nd", "w") as f:
        f.write("\n".join(lines) + "\n")
    return lines


TLC_TIMEOUT = 840


def tlc(module, cfg, env=None, workers=1, heap="3g", stack="512m", extra=(), timeout=None):
    meta = os.path.join(ROOT, "build", "meta", "%s_%d_%d" % (module, os.getpid(), random.getrandbits(40)))
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xss" + stack, "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-Djava.io.tmpdir=" + meta, "-cp", JAR,
           "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfg] + list(extra) + [
               module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout or TLC_TIMEOUT)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return -1, "TIMEOUT " + ((x.stdout or b"").decode("utf8", "replace") if isinstance(x.stdout, bytes) else "")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def stats(out):
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
        pass
    if not m: return 0, 0
    return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))


def validate(spec, nd, prop):
    """-> (status, index of the unexplained event, transitions, states, output)"""
    rc, out = tlc(spec, spec + ".cfg", {"TRACE": nd, "CHECK": prop})
    gen, dist = stats(out)
    if rc == 0 and "No error has been found" in out:
        return "ok", None, gen, dist, out
    m = re.search(r'"STUCK", (\d+), (\d+)', out)
    if m:
        return "stuck", int(m.group(1)), gen, dist, out
    if re.search(r"StackOverflow|OutOfMemory|TIMEOUT|Parsing|semantic", out) or rc == -1:
        return "broken", None, gen, dist, out
    # an event on which the specification cannot even be evaluated
    ms = re.findall(r"/\\ i = (\d+)", out)
    if ms and "Error" in out:
        return "stuck", int(ms[-1]), gen, dist, out
    return "broken", None, gen, dist, out


def scenario_of(lines, idx):
    sid = None
    for x in lines[:idx]:
        if x.startswith('{"ev":"Reset"'):
            sid = json.loads(x)["id"]
    return sid


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = os.path.join(ROOT, "build", "run_%s_%d" % (prop, os.getpid()))
        os.makedirs(self.dir, exist_ok=True)
        self.states = self.trans = self.traces = self.events = 0
        self.samples, self.mc, self.binding = [], [], []
        self.known = known(prop)
        self.counts = {}

    def model(self, job):
        """A design module: (module, cfg, workers, opts)."""
        module, cfg = job["module"], job["cfg"]
        rc, out = tlc(module, cfg, workers=job.get("workers", 4), heap=job.get("heap", "6g"),
                      timeout=job.get("timeout", 800), extra=job.get("extra", ()),
                      env=job.get("env"))
        gen, dist = stats(out)
        ok = rc == 0 and "No error has been found" in out
        return ok, gen, dist, out, module + "/" + os.path.basename(cfg)

    def enumerate(self, job):
        """A design module whose behaviours TLC prints: all of them, checked."""
        if self.tier == "thorough" and job.get("deep"):
            r = self.explore(job, dict(job.get("consts", {}), **job["deep"]), 400)
            if r: return r
        r = self.explore(job, dict(job.get("consts", {})), 600)
        if not r: fail("design model %s ran out of time" % job["module"])
        return r

    def explore(self, job, consts, timeout):
        cfg = os.path.join(self.dir, "%s_%d.cfg" % (job["module"], random.getrandbits(40)))
        with open(cfg, "w") as f:
            f.write("SPECIFICATION Spec\nCONSTANTS\n")
            for k, v in consts.items():
                f.write(" %s %s\n" % (k, v if str(v).startswith("<-") else "= %s" % v))
            f.write("INVARIANTS %s\n" % " ".join(job["invs"]))
            if job.get("props"): f.write("PROPERTIES %s\n" % " ".join(job["props"]))
            f.write("CHECK_DEADLOCK FALSE\n")
        rc, out = tlc(job["module"], cfg, workers=job.get("workers", 2), heap="6g", timeout=timeout)
        if rc == -1: return None
        gen, dist = stats(out)
        behs, rest = {}, []
        for x in out.split("\n"):
            m = re.match(r'<<"BEH", (".*")>>$', x)
            if m: behs[json.loads(m.group(1))] = 1
            else: rest.append(x)
        ok = rc == 0 and "No error has been found" in out
        name = "%s(%s)" % (job["module"], ", ".join("%s %s" % kv for kv in consts.items()))
        scs = []
        if ok and job.get("conv"):
            for k, b in enumerate(sorted(behs)):
                l = job["conv"](json.loads(b), k)
                if l: scs.append(l)
        return ok, gen, dist, "\n".join(rest), name, scs

    def shard(self, spec, scs, k):
        path = os.path.join(self.dir, "%s_%d" % (spec, k))
        lines = harness(scs, path)
        r = validate(spec, path + ".nd", self.prop)
        return (spec, scs, path, lines) + r

    def report(self, spec, scs, lines, idx, out):
        ev = lines[idx - 1] if idx and idx <= len(lines) else "(end of trace)"
        sid = scenario_of(lines, idx)
        sc = next((s for s in scs if "id=%s " % sid in s + " "), "")
        fp = "%s %s" % (ev, sc)
        for k in self.known:
            if re.search(k["match"], fp):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
                return False
        rd = os.path.join(EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s.txt" % self.prop)
        first = max([n for n, x in enumerate(lines[:idx]) if x.startswith('{"ev":"Reset"')], default=0)
        with open(rp, "w") as f:
            f.write("property %s\nspecification %s (CHECK=%s)\nscenario (run again: vk/replay.py %s)\nSC %s\n\n"
                    "recorded events up to the first one the specification does not allow:\n"
                    % (self.prop, spec, self.prop, rp, sc))
            for x in lines[first:idx]:
                f.write("  " + x + "\n")
            f.write("\nunexplained: " + ev + "\n")
            errs = [l for l in out.split("\n") if "Error" in l or "ttempted" in l][:6]
            f.write("\n".join(errs) + "\n")
        print("unexplained event: %s" % ev[:600])
        print("scenario: %s" % sc[:1000])
        print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        return True

    def evidence(self, violations, note=""):
        p = plans.PLANS[self.prop]
        os.makedirs(EVID, exist_ok=True)
        cov = {
            "states": self.states, "transitions": self.trans,
            "traces_validated_against_impl": self.traces,
            "events_validated": self.events,
            "scenarios_by_generator": self.counts,
            "design_models": self.mc,
            "corrupted_traces_rejected": self.binding,
            "samples": self.samples[:12],
        }
        if note: cov["note"] = note
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
                       "coverage": cov, "assumptions": p.get("assumptions", []) + plans.COMMON,
                       "wall_s": round(time.time() - self.t0, 2), "violations": violations}, f, indent=1)


def known(prop):
    out = []
    path = os.path.join(ROOT, "known-findings.txt")
    if not os.path.exists(path): return out
    for l in open(path):
        m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            out.append({"match": m.group(2), "what": m.group(3).strip()})
    return out


def corrupt(lines, rng, how):
    """One corrupted copy of a recorded trace (the binding self-test)."""
    ev, field = how["ev"], how["field"]
    cand = [n for n, x in enumerate(lines) if x.startswith('{"ev":"%s"' % ev)]
    rng.shuffle(cand)
    for n in cand[:200]:
        d = json.loads(lines[n])
        v = d.get(field)
        w = how["to"](v, d)
        if w is None or w == v: continue
        d[field] = w
        first = max(k for k in range(n + 1) if lines[k].startswith('{"ev":"Reset"'))
        last = next((k for k in range(n + 1, len(lines)) if lines[k].startswith('{"ev":"Reset"')), len(lines))
        return lines[first:n] + [json.dumps(d)] + lines[n + 1:last]
    return None


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    plan = plans.PLANS[prop]
    run = Run(prop, tier, seed)
    try:
        code = go(run, plan, prop, tier, seed)
    finally:
        shutil.rmtree(run.dir, ignore_errors=True)
    sys.exit(code)


def go(run, plan, prop, tier, seed):
    rng = random.Random("%s %d" % (prop, seed))
    budget = 760 if tier == "thorough" else 0
    pool = cf.ThreadPoolExecutor(10)
    mcs = [pool.submit(run.model, j) for j in plans.models(plan, tier)]
    ens = [(j, pool.submit(run.enumerate, j)) for j in plans.enums(plan, tier)]
    build()
    pend = []
    for job, f in ens:
        ok, gen, dist, out, name, scs = f.result()
        run.trans += gen
        run.states += dist
        run.mc.append({"model": name, "states": dist, "transitions": gen,
                       "invariants": [x for x in job["invs"] if x != "Dump"] + job.get("props", []),
                       "behaviours_for_the_implementation": len(scs), "behaviours_replayed": 0})
        if not ok:
            print(out[-3000:])
            fail("design model %s does not check" % name)
        if not scs: continue
        rng.shuffle(scs)
        pend.append([job, scs, run.mc[-1]])
    violated = False
    kept = None
    rounds = 0
    seen = set()
    while True:
        began = time.time()
        jobs = []
        for spec, name, fn, n in plans.scenarios(plan, tier, rounds):
            scs = fn(rng, n)
            run.counts[name] = run.counts.get(name, 0) + len(scs)
            seen.update(hash(re.sub(r"id=\S+ ", "", s)) for s in scs)
            if rounds == 0:
                run.samples += [s[:600] for s in rng.sample(scs, min(2, len(scs)))]
            jobs.append((spec, scs))
        for p in pend:
            job, scs, rec = p
            k = job.get("quick", 1500) if tier != "thorough" else job.get("step", 5000)
            part, p[1] = scs[:k], scs[k:]
            rec["behaviours_replayed"] += len(part)
            seen.update(hash(re.sub(r"id=\S+ ", "", s)) for s in part)
            if part: jobs.append((job["spec"], part))
        shards = []
        by = {}
        for spec, scs in jobs: by.setdefault(spec, []).extend(scs)
        for spec, scs in by.items():
            rng.shuffle(scs)
            k = max(1, min(plan.get("shards", 8), len(scs) // 20 or 1))
            for j in range(k):
                part = scs[j::k]
                # ids must be unique in a shard
                part = [re.sub(r"id=(\S+)", r"id=\1r%d" % (rounds), s, count=1) for s in part]
                shards.append((spec, part, len(shards) + 1000 * rounds))
        for f in [pool.submit(run.shard, *s) for s in shards]:
            spec, scs, path, lines, status, idx, gen, dist, out = f.result()
            run.trans += gen
            run.states += dist
            if status == "broken":
                print(out[-3000:])
                fail("TLC gave no answer on " + path)
            if status == "stuck":
                run.traces += sum(1 for x in lines[:idx] if x.startswith('{"ev":"Reset"')) - 1
                run.events += idx - 1
                if not violated: violated = run.report(spec, scs, lines, idx, out)
            else:
                run.traces += len(scs)
                run.events += len(lines)
                if kept is None or spec == plan.get("bind_spec", spec) and kept[0] != spec: kept = (spec, lines)
        rounds += 1
        now = time.time()
        if violated or now - run.t0 + 1.5 * (now - began) > budget: break
    # design models
    for f in mcs:
        ok, gen, dist, out, name = f.result()
        run.trans += gen
        run.states += dist
        run.mc.append({"model": name, "states": dist, "transitions": gen})
        if not ok:
            print(out[-3000:])
            fail("design model %s does not check" % name)
    # binding: corrupted traces must be rejected
    if not violated and kept:
        spec, lines = kept
        for n, how in enumerate(plan.get("corrupt", [])):
            bad = corrupt(lines, rng, how)
            if bad is None: continue
            path = os.path.join(run.dir, "bad_%d.nd" % n)
            with open(path, "w") as f: f.write("\n".join(bad) + "\n")
            status, idx, _, _, out = validate(spec, path, prop)
            if status != "stuck":
                print(out[-1500:])
                print("\n".join(bad)[-1500:])
                fail("a corrupted trace (%s.%s) was accepted" % (how["ev"], how["field"]))
            run.binding.append("%s.%s" % (how["ev"], how["field"]))
    run.evidence(1 if violated else 0, "%d different scenarios, %d rounds" % (len(seen), rounds))
    print("%s %s: %d traces, %d events, %d states, %d transitions, %.1f s" % (
        prop, "BROKEN" if violated else "ok", run.traces, run.events, run.states, run.trans, time.time() - run.t0))
    return 1 if violated else 0


if __name__ == "__main__":
    main()
