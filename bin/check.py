#!/usr/bin/env python3
"""check.py ID            decide property ID on /repo's working tree (VERIF_SEED, VERIF_TIER)
check.py ID --replay F   decide it again on the one input of a replay file
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the machinery failed.

This program only moves data: it picks inputs (inputs.py), runs the real code on them (the
harness crate yamx) and has TLC check every recorded run against the TLA+ specifications in
/verif/spec.  All verdicts are TLC's."""
import json, os, random, re, resource, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import jobs as J
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(BUILD, "target")
BIN = os.path.join(TARGET, "debug")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
WORKERS = min(8, os.cpu_count() or 8)

class Broken(Exception): pass

def cargo_env():
    env = dict(os.environ)
    if os.path.exists("/opt/vp/env.sh"):
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.split(b"=", 1); env[k.decode()] = v.decode(errors="replace")
    env["CARGO_TARGET_DIR"] = TARGET
    env["RUSTFLAGS"] = "--cfg yam_verif"
    return env

def build(bins):
    t = time.time()
    r = subprocess.run(["cargo", "build", "--offline", "--locked", *[a for b in sorted(bins) for a in ("--bin", b)]], cwd=os.path.join(VERIF, "harness"), env=cargo_env(), capture_output=True, text=True)
    if r.returncode: raise Broken("building the harness failed:\n" + r.stderr[-4000:])
    return time.time() - t

def java(heap, many, *args):
    how = ["-XX:+UseParallelGC"] if many else ["-Xmn48m", "-XX:+UseSerialGC", "-Dtlc2.tool.queue.IStateQueue=StateDeque"]
    return ["java", "-Xss512m", f"-Xmx{heap}", *how, "-cp", CP, *args]

def limits(): resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))

# ------------------------------------------------------------- the real code
def record(mode, lines, path, deaths):
    """run the harness over the input lines, one record per line in path; a run that kills or hangs
    the process becomes a record with outcome CRASH / HANG, and the rest continues"""
    done = 0
    with open(path, "wb") as out:
        while done < len(lines):
            if deaths[0] > 6: return done
            p = subprocess.Popen([os.path.join(BIN, J.BIN.get(mode, "yamx")), mode], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=limits)
            def feed(p=p, todo=lines[done:]):
                try:
                    for l in todo: p.stdin.write(l)
                    p.stdin.close()
                except (BrokenPipeError, OSError): pass
            th = threading.Thread(target=feed, daemon=True); th.start()
            for rec in p.stdout:
                if not rec.endswith(b"\n"): break
                out.write(rec); done += 1
            rc = p.wait(); th.join()
            if done < len(lines):
                if rc == 0: raise Broken(f"harness {mode} stopped early")
                deaths[0] += 1
                v = json.loads(lines[done])
                if isinstance(v, list): v = {"i": v}
                v.update(J.dead(mode, "HANG" if rc == 97 else "CRASH", v))
                out.write(json.dumps(v).encode() + b"\n"); done += 1
    return done

# ---------------------------------------------------------------------- TLC
def tlc(module, env, trace=None, cfg=None, workers=1, heap="3g", extra=(), timeout=850, tag=""):
    meta = os.path.join(BUILD, "md", f"{module}.{os.getpid()}.{threading.get_ident()}.{time.time_ns()}")
    e = dict(os.environ); e.pop("JAVA_TOOL_OPTIONS", None); e.update({k: str(v) for k, v in env.items()})
    if trace: e["TRACE"] = trace
    args = java(heap, workers > 1, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta,
                "-config", cfg or module + ".cfg", *extra, module + ".tla")
    try:
        r = subprocess.run(args, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
    finally: shutil.rmtree(meta, ignore_errors=True)

STATES = re.compile(r"(\d+) states generated(?: \(.*?\))?, (\d+) distinct states found")
def counts(out):
    m = None
    for m in STATES.finditer(out.replace(",", ",")): pass
    return (int(m[1]), int(m[2])) if m else (0, 0)

class Run:
    def __init__(self, pid):
        self.pid = pid; self.t0 = time.time(); self.lock = threading.Lock(); self.stop = threading.Event()
        self.states = self.trans = self.traces = self.samples = 0
        self.cases = []; self.viol = None; self.err = None; self.parts = []; self.skipped = 0
        self.dir = os.path.join(BUILD, "run", f"{pid}.{os.getpid()}")
        os.makedirs(self.dir, exist_ok=True)
        self.budget = 640 if TIER == "quick" else float(os.environ.get("VERIF_BUDGET", "14400"))
    def over(self): return time.time() - self.t0 > self.budget
    def violated(self, v):
        with self.lock:
            if self.viol is None: self.viol = v
        self.stop.set()

    def chunk(self, job, n, lines):
        if self.stop.is_set(): return
        if self.over():
            with self.lock: self.skipped += len(lines)
            return
        path = os.path.join(self.dir, f"{job.name}.{n}.tr")
        try:
            deaths = [0]
            done = record(job.mode, lines, path, deaths)
            if self.stop.is_set(): return
            rc, out = tlc(job.module, job.env, trace=path)
            st, di = counts(out)
            mis = [l for l in out.splitlines() if l.startswith('"MISMATCH')]
            with self.lock: self.states += di; self.trans += max(0, st - done)
            if rc == 0 and not mis:
                with self.lock: self.traces += done
            elif rc == 12 and mis:
                d = json.loads(json.loads(mis[0])[len("MISMATCH "):])
                with open(path) as f: rec = [l for j, l in enumerate(f, 1) if j == d[0]][0]
                self.violated({"job": job.name, "mode": job.mode, "module": job.module, "env": job.env,
                               "input": json.loads(lines[d[0] - 1]), "at": d[1:], "recorded": json.loads(rec)})
            elif rc in (124,) or rc < 0: raise Broken(f"TLC on {job.name}.{n} ended with {rc}")
            else:
                keep = os.path.join(BUILD, f"broken.{self.pid}.out")
                with open(keep, "w") as f: f.write(out)
                raise Broken(f"TLC on {job.name}.{n} ended with {rc}, see {keep}\n" + "\n".join(l for l in out.splitlines() if "rror" in l)[:1500])
        except Broken as x:
            with self.lock: self.err = self.err or str(x)
            self.stop.set()
        finally:
            if os.path.exists(path): os.remove(path)

    def trace_job(self, job, pool):
        t = time.time()
        rng = random.Random(f"{SEED}/{job.name}")
        lines = job.lines(rng, TIER, self)
        self.samples += len(lines); self.cases += [json.loads(l) for l in lines[:3]]
        size = job.chunk
        n = max(1, -(-len(lines) // size))
        n = min(max(1, len(lines) // 400), -(-n // WORKERS) * WORKERS)
        fs = [pool.submit(self.chunk, job, k, lines[k::n]) for k in range(n)]
        before = self.traces
        return job, fs, len(lines), time.time() - t

    def mc_job(self, job):
        """model checking of the specification itself"""
        if self.stop.is_set(): return
        t = time.time()
        rc, out = tlc(job.module, job.env, cfg=job.cfg, workers=WORKERS, heap="12g", extra=job.extra, timeout=job.timeout)
        st, di = counts(out)
        self.states += di; self.trans += st
        self.parts.append({"job": job.name, "states": di, "wall_s": round(time.time() - t, 1)})
        if rc != 0:
            keep = os.path.join(BUILD, f"broken.{self.pid}.out")
            with open(keep, "w") as f: f.write(out)
            self.err = self.err or f"the specification {job.module}/{job.cfg} itself fails (TLC {rc}), see {keep}"; self.stop.set()

    def go(self, joblist):
        with ThreadPoolExecutor(WORKERS) as pool:
            pend = []
            for job in joblist:
                if self.stop.is_set(): break
                if job.kind == "mc":
                    self.mc_job(job)
                else:
                    pend.append(self.trace_job(job, pool))
            for job, fs, n, gen in pend:
                for f in fs: f.result()
                self.parts.append({"job": job.name, "spec": job.module, "runs": n, "gen_s": round(gen, 1)})
        shutil.rmtree(self.dir, ignore_errors=True)

def text(v):
    if isinstance(v, dict): v = v.get("i", v)
    try: return json.dumps(bytes(v).decode())
    except Exception: return json.dumps(v)

def findings(pid):
    out = []
    with open(os.path.join(VERIF, "known_findings.jsonl")) as f:
        for l in f:
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d["property"] == pid: out.append(d)
    return out

def main():
    pid = sys.argv[1]
    os.makedirs(BUILD, exist_ok=True); os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
    run = Run(pid)
    try:
        joblist = J.PROPS[pid](TIER)
        build({J.BIN.get(j.mode, "yamx") for j in joblist if j.kind == "trace"} | {"yamx"})
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            with open(sys.argv[3]) as f: v = json.load(f)
            job = J.Job(v["job"], v["mode"], v["module"], v["env"])
            run.chunk(job, 0, [json.dumps(v["input"]).encode() + b"\n"])
        else:
            for k in findings(pid):
                if J.still_fails(k, record, run.dir): print(f"KNOWN-FINDING: property={pid} {k['what']}")
                else: print(f"note: the known finding no longer shows: {k['what']}")
            run.go(joblist)
    except Broken as x: run.err = str(x)
    wall = time.time() - run.t0
    if run.viol:
        rp = os.path.join(BUILD, "replay", f"{pid}.json")
        with open(rp, "w") as f: json.dump(run.viol, f, indent=1)
        print(f"job {run.viol['job']} ({run.viol['module']}) on input {text(run.viol['input'])[:1500]}")
        print(f"  step {run.viol['at'][0]}: specification {json.dumps(run.viol['at'][1])[:700]}, implementation {json.dumps(run.viol['at'][2:])[:700]}")
        print(f"VIOLATION property={pid} replay={rp}")
    cov = {"states": run.states, "transitions": run.trans, "traces_validated_against_impl": run.traces, "samples": [text(c) for c in run.cases], "runs_generated": run.samples,
           "parts": run.parts, "inputs_not_reached_in_time": run.skipped}
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": cov, "wall_s": round(wall, 1),
          "violations": 1 if run.viol else 0, "assumptions": J.ASSUME}
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f: json.dump(ev, f, indent=1)
    print(f"{pid} {TIER}: {run.traces}/{run.samples} recorded runs validated, {run.states} states, {run.trans} transitions, {wall:.0f} s")
    if run.viol: return 1
    if run.err: print("ERROR " + run.err); return 2
    if run.skipped: print(f"note: {run.skipped} inputs not reached within the time budget")
    return 0

if __name__ == "__main__": sys.exit(main())
