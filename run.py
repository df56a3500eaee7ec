#!/usr/bin/env python3
"""Decides one property: run.py <property> [quick|thorough]

Builds the code in /repo (working tree), drives it, and lets TLC judge what it
did against the specification in /verif/spec. Exit 0: held. Exit 1: a line
VIOLATION. Anything else: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, time, random, hashlib, glob, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, VERIF)


class Broken(Exception):
    """The check could not do its work."""


class Violation(Exception):
    def __init__(self, msg, files=()):
        super().__init__(msg)
        self.msg, self.files = msg, list(files)


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.spec = os.path.join(VERIF, "spec")
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED") or 1)
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.samples, self.stages = [], []
        self.info = {}
        self.assumptions = []
        self.env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off",
                        HOME=os.environ.get("HOME", "/root"))
        self.n = 0

    def path(self, name):
        return os.path.join(self.work, name)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def sh(self, cmd, env=None, cwd=None, timeout=600):
        e = dict(self.env)
        if env:
            e.update({k: str(v) for k, v in env.items()})
        p = subprocess.Popen(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            return 124, out.decode("utf8", "replace")
        return p.returncode, out.decode("utf8", "replace")

    # ---- building -------------------------------------------------------
    def build(self):
        if hasattr(self, "bin"):
            return
        vi = self.path("vinstr")
        rc, out = self.sh(["go", "build", "-o", vi, "."], cwd=os.path.join(VERIF, "instr"), env={"GOFLAGS": "-mod=mod"})
        if rc != 0:
            raise Broken("instrumenter does not build:\n" + out)
        h = self.path("harness")
        shutil.copytree(os.path.join(VERIF, "harness"), h)
        self.vi, self.h = vi, h
        self.instrumented = True
        try:
            if os.environ.get("VERIF_PLAIN"):
                raise Broken("not wanted")
            self.bin = self.compile("vh.test", [], [])
        except Broken as e:
            self.log("instrumented build failed, using the plain one:", str(e)[-400:])
            self.instrumented = False
            self.bin = self.compile("vh.test", ["-plain"], [])
        self.info["instrumented"] = self.instrumented

    def compile(self, name, iflags, gflags):
        d, ov = self.path("i_" + name), self.path("ov_" + name + ".json")
        rc, out = self.sh([self.vi, "-repo", REPO, "-ov", os.path.join(VERIF, "instr/ov"), "-out", d, "-overlay", ov] + iflags)
        if rc != 0:
            raise Broken("instrumenter failed: " + out)
        b = self.path(name)
        import checks
        if self.prop in checks.TAGS:
            gflags = gflags + ["-tags", checks.TAGS[self.prop]]
        rc, out = self.sh(["go", "test", "-c", "-overlay", ov, "-vet=off", "-o", b] + gflags + ["."], cwd=self.h)
        if rc != 0:
            raise Broken("harness does not build: " + out)
        return b

    def race_bin(self):
        if not hasattr(self, "rbin"):
            self.build()
            self.rbin = self.compile("vhrace.test", ["-plain"], ["-race"])
        return self.rbin

    # ---- driving --------------------------------------------------------
    def drive(self, env, tag, binary=None, timeout=600):
        """Runs the driver; returns the file with the recorded runs."""
        self.build()
        self.n += 1
        out = self.path("%s-%d.ndjson" % (tag, self.n))
        e = dict(env, VH_OUT=out)
        rc, txt = self.sh([binary or self.bin, "-test.run", "TestVH", "-test.timeout", "0"], env=e, timeout=timeout)
        self.last_out = txt
        self.check_output(rc, txt, e)
        return out

    def drive_many(self, envs, tag, timeout=600, binary=None):
        """Runs several drivers at the same time; returns one file with all runs, and what they printed."""
        self.build()
        self.n += 1
        from concurrent.futures import ThreadPoolExecutor
        outs = [self.path("%s-%d-%d.ndjson" % (tag, self.n, i)) for i in range(len(envs))]
        def one(i):
            return self.sh([binary or self.bin, "-test.run", "TestVH", "-test.timeout", "0"], env=dict(envs[i], VH_OUT=outs[i]), timeout=timeout)
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, range(len(envs))))
        whole = self.path("%s-%d.ndjson" % (tag, self.n))
        hang = False
        with open(whole, "w") as w:
            for i, (rc, txt) in enumerate(res):
                self.check_output(rc, txt, envs[i])
                hang = hang or "VH-HANG" in txt
                if os.path.exists(outs[i]):
                    w.write(open(outs[i]).read())
                    os.remove(outs[i])
        return whole, "\n".join(t for _, t in res), hang

    def check_output(self, rc, txt, e):
        if "WARNING: DATA RACE" in txt and self.in_trc(txt[txt.index("WARNING: DATA RACE"):]):
            f = self.path("race.txt")
            open(f, "w").write(json.dumps({k: v for k, v in e.items() if k.startswith("VH_")}) + "\n" + txt)
            raise Violation("data race:\n" + txt[txt.index("WARNING: DATA RACE"):][:1500], [f])
        if "VH-RUNS" in txt or "VH-HANG" in txt:
            return
        m = re.search(r"^(panic: |fatal error: ).*", txt, re.M)
        if m and rc != 124:
            rest = txt[m.start():]
            first = rest.split("\n\ngoroutine ")
            if self.in_trc("\n\ngoroutine ".join(first[:2])):
                f = self.path("crash.txt")
                open(f, "w").write(json.dumps({k: v for k, v in e.items() if k.startswith("VH_")}) + "\n" + txt)
                raise Violation("the code crashes: " + m.group(0), [f])
        raise Broken("driver failed (rc %s):\n%s" % (rc, txt[-3000:]))

    @staticmethod
    def in_trc(txt):
        return "github.com/peterbourgon/trc" in txt

    # ---- judging --------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, args=(), timeout=800, mem=None, spec=None):
        self.n += 1
        meta = self.path("meta%d" % self.n)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx%s" % (mem or "8g"), "-Dfile.encoding=UTF-8", "-cp", JAR, "tlc2.TLC", "-workers", "8",
               "-noGenerateSpecTE", "-metadir", meta, "-config", cfg or module + ".cfg"] + list(args) + [module + ".tla"]
        rc, out = self.sh(cmd, env=env, cwd=spec or os.path.join(VERIF, "spec"), timeout=timeout)
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        g = d = 0
        if m:
            g, d = (int(x.replace(",", "")) for x in m[-1])
        return rc, out, g, d

    def replay(self, runs, care, module="TrcReplay", cfg=None, what=""):
        """Judges recorded runs; returns their number."""
        n = sum(1 for _ in open(runs))
        if n == 0:
            raise Broken("no runs recorded for " + what)
        cf = self.path("care.json")
        json.dump(sorted(care), open(cf, "w"))
        rc, out, g, d = self.tlc(module, cfg, env={"RUNS": runs, "CARE": cf})
        if rc == 12:
            self.reject(runs, out, what)
        if rc != 0:
            raise Broken("TLC failed on %s (rc %d):\n%s" % (runs, rc, out[-3000:]))
        self.states += d
        self.transitions += g
        self.traces += n
        return n

    def linearize(self, runs, what, module="TrcConc"):
        """Every history must be explained by the specification."""
        n = sum(1 for _ in open(runs))
        if n == 0:
            raise Broken("no histories recorded for " + what)
        rc, out, g, d = self.tlc(module, env={"RUNS": runs})
        acc = set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', out))
        if rc != 0:
            raise Broken("TLC failed on %s (rc %d):\n%s" % (runs, rc, out[-3000:]))
        self.states += d
        self.transitions += g
        self.traces += n
        rej = [i for i in range(1, n + 1) if i not in acc]
        if rej:
            f, t = self.path("history.ndjson"), self.path("history.txt")
            line = open(runs).readlines()[rej[0] - 1]
            open(f, "w").write(line)
            h = self.render(json.loads(line))
            open(t, "w").write(h)
            raise Violation("%s: %d of %d histories have no explanation; the first of them:\n%s" % (what, len(rej), n, h[:2500]), [f, t])
        return n

    @staticmethod
    def render(r):
        """A history, readable."""
        L = []
        for e in r["h"]:
            th = "  " * 0 + "thread %d " % e["th"]
            if e["k"] == "call":
                L.append(th + "calls   " + " ".join("%s=%s" % (k, v) for k, v in e["op"].items() if v not in ("", 0, False) and k != "f")
                         + (" filter=%s" % {k: v for k, v in e["op"]["f"].items() if v} if e["op"].get("o") in ("search", "sub") else ""))
            elif e["k"] == "ret":
                L.append(th + "returns " + json.dumps(e["r"]))
            else:
                L.append(th + json.dumps({k: v for k, v in e.items() if k not in ("now", "th")}))
        return "\n".join(L)

    def reject(self, runs, out, what):
        blk = out.rsplit("\nState ", 1)[-1]
        bad = re.search(r"/\\ bad = (.*?)\n/\\ ", blk + "\n/\\ ", re.S)
        run = re.search(r"/\\ run = (\d+)", blk)
        pos = re.search(r"/\\ pos = (\d+)", blk)
        k = int(run.group(1)) if run else 0
        f, t = self.path("run.ndjson"), self.path("tlc.txt")
        for i, l in enumerate(open(runs), 1):
            if i == k:
                open(f, "w").write(l)
        open(t, "w").write(out)
        msg = "%s: run %d, step %s: %s" % (what, k, int(pos.group(1)) - 1 if pos else "?", bad.group(1)[:1500] if bad else out[-1500:])
        raise Violation(msg, [f, t])

    # ---- reporting ------------------------------------------------------
    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def evidence(self, level, violations):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["none"], "stages": self.stages}
        cov.update(self.info)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def main():
    sys.modules["run"] = sys.modules["__main__"]
    import checks
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ctx = Ctx(prop, tier)
    rc = 0
    try:
        for name, stage in checks.stages(prop, ctx):
            t = time.time()
            before = (ctx.states, ctx.traces)
            stage(ctx)
            ctx.stages.append({"stage": name, "s": round(time.time() - t, 1), "states": ctx.states - before[0], "traces": ctx.traces - before[1]})
            ctx.log("%-40s ok  %.1fs, %d states, %d traces" % (name, time.time() - t, ctx.states - before[0], ctx.traces - before[1]))
        ctx.evidence("model_checking", 0)
    except Violation as v:
        d = os.path.join(VERIF, "replay", prop)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, "violation.txt"), "w") as f:
            f.write(v.msg + "\n")
        for x in v.files:
            if os.path.exists(x):
                shutil.copy(x, d)
        print(v.msg[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, d), flush=True)
        ctx.evidence("model_checking", 1)
        rc = 1
    except Broken as b:
        print("CHECK BROKEN:", b, flush=True)
        rc = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(ctx.work, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
