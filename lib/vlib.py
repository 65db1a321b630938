"""Common machinery of the checks: build, drive the real code, run TLC, report.

A check is a function run(ctx).  It
  1. model-checks a specification (ctx.model_check),
  2. records executions of the real code (ctx.drive), and
  3. has TLC decide whether each is a behaviour of the specification
     (ctx.validate).
Outcome: exit 0, or exit 1 with a VIOLATION line.  Anything else (exit 2) is
an error of the machinery.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SPEC = os.path.join(VERIF, "spec")
DRIVERS = os.path.join(VERIF, "drivers")
REPLAYS = os.path.join(VERIF, "replays")
NPROC = min(8, os.cpu_count() or 4)
CP = "/opt/veriftools/tla/tla2tools.jar"


class MachineryError(Exception):
    pass


def tlc_classpath():
    d = "/opt/veriftools/tla"
    jars = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar")]
    # tla2tools first
    jars.sort(key=lambda j: (0 if j.endswith("tla2tools.jar") else 1, j))
    return ":".join(jars)


class Ctx:
    def __init__(self, prop, seed=None, tier=None):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1")) if seed is None else seed
        self.tier = os.environ.get("VERIF_TIER", "quick") if tier is None else tier
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vchk_%s_" % prop)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "trace_events": 0, "samples": [], "specs": []}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.opcount = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- build -------------------------------------------------------------
    def build(self, *targets):
        t = time.time()
        cmd = [sys.executable, os.path.join(VERIF, "bin", "build.py")]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise MachineryError("build failed:\n" + p.stdout[-6000:])
        self.cov["build_s"] = round(time.time() - t, 1)

    # ---- drive the real code ------------------------------------------------
    def drive_one(self, driver, out, args, timeout=240, env=None, shim="libmathshim.so"):
        e = dict(os.environ)
        e["DEVSIM_MATH_LIBS"] = os.path.join(BUILD, shim)
        e["PYTHONPATH"] = os.path.join(BUILD, "pkg") + ":" + HERE
        e["PYTHONHASHSEED"] = "0"
        e["OMP_NUM_THREADS"] = "1"
        e["VERIF_TRACE"] = out
        e["VERIF_BUILD"] = BUILD
        if env:
            e.update(env)
        wd = tempfile.mkdtemp(dir=self.work)
        cmd = [sys.executable, os.path.join(DRIVERS, driver)] + [str(a) for a in args]
        log = out + ".log"
        with open(log, "w") as lf:
            try:
                p = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, cwd=wd, env=e, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        if rc != 0:
            # the process died or hung inside a command: an observable event
            cur = ""
            if os.path.exists(out + ".cur"):
                with open(out + ".cur", errors="replace") as f:
                    cur = f.read().rstrip("\0 ")[:2000]
            if not os.path.exists(out):
                with open(log, errors="replace") as f:
                    raise MachineryError("driver produced no trace %s rc=%s: %s" % (cmd, rc, f.read()[-4000:]))
            # drop a partial last line
            with open(out, "rb") as f:
                data = f.read()
            data = data[:data.rfind(b"\n") + 1]
            with open(out, "wb") as f:
                f.write(data)
                tail = ""
                if rc == 3:     # an exception in the driver: a reply it could not make sense of
                    with open(log, errors="replace") as lf:
                        tail = lf.read()[-1500:]
                f.write((json.dumps({"op": "crash", "how": str(rc), "during": cur, "log": tail}) + "\n").encode())
        return out

    def drive(self, driver, argsets, **kw):
        """Run the driver once per argument list, in parallel. Returns trace paths."""
        outs = []
        with cf.ThreadPoolExecutor(NPROC) as ex:
            futs = []
            for i, a in enumerate(argsets):
                out = os.path.join(self.work, "%s_%d.ndjson" % (os.path.basename(driver)[:-3], len(os.listdir(self.work)) * 1000 + i))
                futs.append(ex.submit(self.drive_one, driver, out, a, **kw))
                outs.append((out, driver, a, kw))
            for f in futs:
                f.result()
        return outs

    # ---- TLC ----------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, heap="3g", timeout=600, extra=(), dfs=False):
        md = tempfile.mkdtemp(dir=self.work, prefix="tlc")
        e = dict(os.environ)
        if env:
            e.update(env)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-Dtlc2.tool.impl.Tool.cdot=true"]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", tlc_classpath(), "tlc2.TLC", "-metadir", md, "-noGenerateSpecTE",
                "-workers", str(workers), "-config", cfg, *extra, module]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout, errors="replace")
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as x:
            out = x.stdout or ""
            if isinstance(out, bytes):
                out = out.decode(errors="replace")
            rc = "timeout"
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return rc, out

    def model_check(self, module, cfg, workers=NPROC, timeout=600, extra=(), heap="8g", require_actions=()):
        """Exhaustive TLC run of a specification with small constants."""
        t = time.time()
        # large specifications report the actions themselves (TLC's own coverage is slow to set up for them)
        own = "Hit(" in open(os.path.join(SPEC, module)).read()
        rc, out = self.tlc(module, cfg, workers=workers, timeout=timeout, extra=(() if own else ("-coverage", "1")) + tuple(extra), heap=heap)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if rc != 0 or not m:
            raise MachineryError("TLC did not complete %s (rc=%s):\n%s" % (cfg, rc, out[-5000:]))
        gen, dist = (int(x.replace(",", "")) for x in m[-1])
        # vacuity: every action of the specification must have been taken
        acts = {}
        for a in re.finditer(r"^<(\w+) line \d+.*?of module (\w+)(?: \([\d ]+\))?>: (\d+):(\d+)", out, re.M):
            acts[a.group(1)] = acts.get(a.group(1), 0) + int(a.group(4))
        for a in re.findall(r'<<"HIT", "(\w+)">>', out):
            acts[a] = 1
        dead = [a for a in require_actions if not acts.get(a)]
        dead += [a for a, k in acts.items() if k == 0 and a not in dead]
        if dead:
            raise MachineryError("%s: actions never taken: %s" % (cfg, dead))
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["specs"].append({"module": module, "config": cfg, "distinct": dist, "generated": gen,
                                  "actions": acts, "s": round(time.time() - t, 1)})
        return out

    def must_refute(self, module, cfg, timeout=300):
        """A configuration that states a known-wrong design: the properties must notice (not vacuous)."""
        rc, out = self.tlc(module, cfg, workers=NPROC, timeout=timeout, heap="6g")
        if "is violated" not in out:
            raise MachineryError("%s should violate its properties:\n%s" % (cfg, out[-3000:]))
        self.cov["specs"].append({"module": module, "config": cfg, "refuted": True})

    def behaviours(self, module, cfg, num, depth):
        """Behaviours of a specification in a file, for a driver to step through."""
        lines = self.simulate(module, cfg, num=num, depth=depth, seed=self.seed)
        path = os.path.join(self.work, "behaviours_%s.ndjson" % cfg[:-4])
        with open(path, "w") as f:
            for r in lines:
                f.write(json.dumps(r) + "\n")
        return path

    def simulate(self, module, cfg, num, depth, seed, env=None, timeout=300):
        """TLC -simulate; returns the JSON lines the spec prints (prefix @@)."""
        rc, out = self.tlc(module, cfg, env=env, workers=1, timeout=timeout,
                           extra=("-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)))
        lines = []
        for ln in out.splitlines():
            m = re.match(r'^"?@@(.*?)"?$', ln)
            if m:
                s = m.group(1)
                if ln.startswith('"'):
                    s = s.replace('\\"', '"').replace('\\\\', '\\')
                lines.append(json.loads(s))
        if not lines or (rc not in (0,)):
            raise MachineryError("TLC simulation %s failed (rc=%s):\n%s" % (cfg, rc, out[-4000:]))
        return lines

    def _validate_once(self, module, cfg, path, timeout, heap, dfs):
        rc, out = self.tlc(module, cfg, env={"TRACE": path}, timeout=timeout, heap=heap, dfs=dfs)
        with open(path) as f:
            total = sum(1 for _ in f)
        m = re.search(r'"ACCEPT",\s*(\d+),\s*(\d+)', out)
        if rc == "timeout":
            raise MachineryError("TLC timed out validating %s with %s" % (path, cfg))
        if "OutOfMemoryError" in out or "Parsing or semantic analysis failed" in out or "*** Errors" in out \
           or "Could not find or load" in out:
            raise MachineryError("TLC error:\n" + out[-4000:])
        if m and rc == 0 and int(m.group(1)) == total:
            st = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
            g, d = (int(x.replace(",", "")) for x in st[-1]) if st else (total, total)
            return True, total, g, d, ""
        if m:
            return False, int(m.group(1)), 0, 0, out
        # an evaluation error: the trace holds a value outside the specification's domain
        k = re.findall(r"^/?\\? ?/?\\? *l = (\d+)", out, re.M) or re.findall(r"\bl = (\d+)", out)
        pos = (max(int(x) for x in k) - 1) if k else -1
        if pos < 0:
            raise MachineryError("TLC gave no verdict on %s:\n%s" % (path, out[-5000:]))
        return False, pos, 0, 0, out

    def validate(self, module, cfg, traces, timeout=600, heap="3g", dfs=False, prop=None, known=None,
                 label=None):
        """TLC decides each recorded trace. traces: from drive()."""
        prop = prop or self.prop

        def one(t):
            out, driver, args, kw = t
            ok, n, g, d, txt = self._validate_once(module, cfg, out, timeout, heap, dfs)
            if not ok:
                # drive the same inputs again: report only what repeats
                out2 = out + ".again"
                self.drive_one(driver, out2, args, **kw)
                ok2, n2, g, d, txt2 = self._validate_once(module, cfg, out2, timeout, heap, dfs)
                if ok2:
                    raise MachineryError("rejection of %s %s at event %d did not repeat" % (driver, args, n))
                return t, False, n2, 0, 0, txt2, out2
            return t, True, n, g, d, "", out

        with cf.ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(one, traces))
        for t, ok, n, g, d, txt, path in res:
            with open(path) as f:
                lines = f.read().splitlines()
            resets = [i for i, ln in enumerate(lines) if '"op": "reset"' in ln[:40]]
            upto = lines if ok else lines[:n]
            for ln in upto:
                m = re.match(r'\{"op": "([^"]*)"', ln)
                if m:
                    self.opcount[m.group(1)] = self.opcount.get(m.group(1), 0) + 1
            self.cov["trace_events"] += len(upto)
            self.cov["states"] += d
            self.cov["transitions"] += g
            self.cov["traces_validated_against_impl"] += len([i for i in resets if i < len(upto)]) if ok else \
                max(0, len([i for i in resets if i < n]) - 1)
            if ok:
                if len(self.cov["samples"]) < 3 and resets:
                    i = resets[min(1, len(resets) - 1)]
                    self.cov["samples"].append([x[:300] for x in lines[i:i + 4]])
                continue
            start = max([i for i in resets if i <= n] or [0])
            hist = [json.loads(x) for x in lines[start:n + 1]]
            self.report(prop, {"spec": module, "config": cfg, "driver": t[1], "args": [str(a) for a in t[2]],
                               "seed": self.seed, "label": label, "rejected_event": hist[-1] if hist else None,
                               "event_index": n, "history": hist,
                               "reproduce": "drivers/%s %s ; TLC %s" % (t[1], " ".join(map(str, t[2])), cfg),
                               "tlc": txt[-3000:]})
        return all(r[1] for r in res)

    def report(self, prop, info):
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s_%d.json" % (prop, len(self.violations)))
        with open(path, "w") as f:
            json.dump(info, f, indent=1)
        self.violations.append(path)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        ev = info.get("rejected_event")
        if ev is not None:
            print("  rejected event: %s" % json.dumps(ev)[:1500])
        sys.stdout.flush()

    # ---- end ------------------------------------------------------------------
    def finish(self, level="model_checking"):
        self.cov["operations"] = self.opcount
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        print("%s %s: %d states, %d transitions, %d traces, %d events, %d violations, %.1f s" % (
            self.prop, self.tier, self.cov["states"], self.cov["transitions"],
            self.cov["traces_validated_against_impl"], self.cov["trace_events"], len(self.violations),
            time.time() - self.t0))
        return 1 if self.violations else 0
