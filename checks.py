"""What is done for each property."""
import json, os, re, time
from run import Violation, Broken, REPO

EV = ["ev.len", "ev.txt", "ev.err", "ev.when"]
TRU = ["tru", "tru.len"]
VIEW = ["v.id", "v.src", "v.cat", "v.st", "v.fin", "v.err", "v.du"]
STK = ["stk", "stk.none", "stk.strm"]
SEARCH = ["s.total", "s.match", "s.ids", "s.src", "s.srcl", "s.srco", "s.prob", "s.norm"]
STATS = ["st", "st.over", "st.rate"]
SUB = ["sub.dup", "sub.fin", "sub.err", "sub.known", "sub.stats", "sub.recv", "sub.order", "sub.item"]
HTTP = ["h.req", "h.bad", "h.odd"]
PAGE = ["h.page", "h.rows", "h.links", "h.end", "h.du", "h.meta", "h.time", "h.delta", "h.stack", "h.form", "h.age", "h.pct"]
STREAM = ["hs.active", "hs.conn", "hs.ret", "hs.own", "hs.type", "hs.init", "hs.count", "hs.drop", "hs.recv", "hs.item", "hs.stats"]
MW = ["mw.write", "mw.du", "mw.code", "mw.panic", "mw.sent", "mw.flush", "mw.same"]

CLI = ["c.out", "c.opt", "c.bad", "c.exit"]

# disagreements between the code and the specification that concern a property
CARE = {
    "C01": EV + ["v.err", "v.id"],
    "C02": EV + TRU + VIEW,
    "C03": EV + TRU + ["max", "v.err"],
    "C04": ["ev.txt", "evals", "again"],
    "C05": ["s.total", "s.ids", "s.match", "st"],
    "C06": EV + TRU + VIEW + STK + ["again", "s.ids", "ctx"],
    "C07": EV + TRU + VIEW + STK + SEARCH + ["again"],
    "C08": ["f.allow", "f.prob", "f.str", "s.ids", "s.match", "s.prob", "s.norm", "sub.recv", "sub.order", "sub.stats", "sub.fin", "again"],
    "C09": STATS + ["s.norm", "s.total"],
    "C10": EV + TRU + VIEW + SEARCH + STATS + ["again"],
    "C11": SUB + EV + TRU + VIEW + ["stk.strm", "again"],
    "C12": SUB,
    "C14": EV + TRU + VIEW + STK + SEARCH + STATS + HTTP + ["again"],
    "C15": STREAM,
    "C16": EV + TRU + VIEW + MW + ["ctx", "s.total", "s.ids", "s.match"],
    "C17": EV + TRU + VIEW + ["ctx", "reg.du"],
    "C18": EV + TRU + VIEW + SEARCH + SUB + ["log", "log.du"],
    "C19": ["id.len", "id.time", "id.order", "id.same", "v.id"],
    "C21": STK + EV,
    "C22": PAGE + SEARCH,
    "C23": CLI + EV + TRU + VIEW + STK + SEARCH + ["st", "st.over", "h.req"] + STREAM,
    "C24": EV + TRU + VIEW + STK + SEARCH + STATS + SUB + HTTP + PAGE + MW + ["again", "ctx", "max", "reg.du", "evals"]
           + ["hs.active", "hs.ret", "hs.type", "hs.init", "hs.recv", "hs.item"],
}
for k in CARE:
    CARE[k] = CARE[k] + ["panic"]


def ops_of(line):
    r = json.loads(line)
    return [" ".join("%s=%s" % (k, v) for k, v in o.items() if k not in ("fr", "v", "r"))[:160] for o in r["ops"][:12]]


def seq(profile, nq, nt, prop=None, module="TrcReplay"):
    """Random runs of the real code, judged step by step by Trc."""
    def stage(ctx):
        n = nq if ctx.quick else nt
        per = 4000
        for i in range(0, n, per):
            f = ctx.drive({"VH_MODE": "rand", "VH_PROFILE": profile, "VH_N": min(per, n - i), "VH_SEED": ctx.seed * 1000 + i // per}, profile)
            ctx.replay(f, CARE[prop or ctx.prop], module=module, what="recorded runs, profile " + profile)
            if i == 0:
                ctx.sample({"recorded run (first calls)": ops_of(open(f).readline())})
            os.remove(f)
    return ("recorded runs, profile %s" % profile, stage)


def procs(profile, nq, nt, module):
    """Like seq, but every run has a process of its own (for what is global)."""
    def stage(ctx):
        n = nq if ctx.quick else nt
        per = 400
        for i in range(0, n, per):
            envs = [{"VH_MODE": "rand", "VH_PROFILE": profile, "VH_N": 1, "VH_SEED": ctx.seed * 100000 + i + j} for j in range(min(per, n - i))]
            f, _, _ = ctx.drive_many(envs, profile)
            ctx.replay(f, CARE[ctx.prop], module=module, what="recorded runs, profile " + profile)
            if i == 0:
                ctx.sample({"recorded run (first calls)": ops_of(open(f).readline())})
            os.remove(f)
    return ("recorded runs, one per process, profile %s" % profile, stage)


def gen(profile, dq, dt, prop=None, mc="TrcMC", module="TrcReplay"):
    """Every behaviour of the specification of some length: checked on the model, then executed by the real code."""
    def stage(ctx):
        depth = dq if ctx.quick else dt
        cfg = ctx.path("mc_%s.cfg" % profile)
        t = open(os.path.join(ctx.spec, mc + ".cfg")).read()
        open(cfg, "w").write(t.replace("@PROFILE@", profile).replace("@DEPTH@", str(depth)))
        rc, out, g, d = ctx.tlc(mc, cfg)
        if rc != 0:
            raise Broken("the specification itself fails (%s, depth %d):\n%s" % (profile, depth, out[-3000:]))
        ctx.states += d
        ctx.transitions += g
        leaves = [json.loads(l.strip())[4:] for l in out.split("\n") if l.startswith('"OPS ')]
        if not leaves:
            raise Broken("no behaviours generated, " + profile)
        ctx.info.setdefault("model", {})[profile] = {"depth": depth, "states": d, "behaviours executed": len(leaves)}
        per = 6000
        for i in range(0, len(leaves), per):
            f = ctx.path("ops.ndjson")
            open(f, "w").write("\n".join(leaves[i:i + per]) + "\n")
            r = ctx.drive({"VH_MODE": "replay", "VH_IN": f}, "mc-" + profile)
            ctx.replay(r, CARE[prop or ctx.prop], module=module, what="behaviours of the specification, profile " + profile)
            if i == 0:
                ctx.sample({"behaviour of the specification": ops_of(open(r).readline())})
            os.remove(r)
    return ("behaviours of the specification, %s" % profile, stage)


def conc(kind, q=(4, 20, 100), t=(20, 60, 400), rounds=6, limit=260):
    """Controlled concurrent executions of the real code; TrcConc explains every history."""
    def stage(ctx):
        n, rnd, pre = q if ctx.quick else t
        t0, execs, steps, hs, k = time.time(), 0, 0, 0, 0
        while True:
            ctx.build()
            env = {"VH_MODE": "conc", "VH_PROFILE": kind, "VH_N": n, "VH_RAND": rnd, "VH_PRE": pre, "VH_BUDGET_MS": 60000}
            b = ctx.bin
            if not ctx.instrumented:
                env.update({"VH_FREE": "yes", "VH_RAND": rnd + pre})
            envs = [dict(env, VH_SEED=ctx.seed * 100 + k * 8 + i) for i in range(8)]
            f, txt, hang = ctx.drive_many(envs, "conc-" + kind, binary=b)
            if hang:
                hung(ctx, kind)
            if os.path.getsize(f) > 0:
                hs += ctx.linearize(f, "concurrent histories, " + kind)
            execs += sum(int(x) for x in re.findall(r"VH-EXECS (\d+)", txt))
            steps += sum(int(x) for x in re.findall(r"VH-STEPS (\d+)", txt))
            if k == 0 and os.path.getsize(f) > 0:
                ctx.sample({"history, " + kind: ctx.render(json.loads(open(f).readline())).split("\n")[:14]})
            os.remove(f)
            k += 1
            if ctx.quick or k >= rounds or time.time() - t0 > limit:
                break
        ctx.info.setdefault("schedules", {})[kind] = {"executions": execs, "steps": steps, "distinct histories": hs}
    return ("concurrent histories, %s" % kind, stage)


def hung(ctx, kind):
    """The controlled execution got stuck. It is the code that is stuck if the same happens without control."""
    b = ctx.race_bin()
    for i in range(3):
        env = {"VH_MODE": "conc", "VH_PROFILE": kind, "VH_FREE": "yes", "VH_N": 10, "VH_RAND": 40, "VH_SEED": ctx.seed * 100 + i}
        f, txt, hang = ctx.drive_many([env], "free-" + kind, binary=b)
        if hang:
            raise Violation("the code hangs (%s)" % kind, [])
    ctx.log("controlled execution got stuck, but the code does not:", kind)


def race(kinds, q=(10, 4), t=(60, 10)):
    """Free-running executions under the race detector."""
    def stage(ctx):
        n, rnd = q if ctx.quick else t
        b = ctx.race_bin()
        envs = [{"VH_MODE": "conc", "VH_FREE": "race", "VH_PROFILE": k, "VH_N": n, "VH_RAND": rnd, "VH_SCALE": 5, "VH_SEED": ctx.seed * 7 + i}
                for i, k in enumerate(kinds)]
        f, txt, hang = ctx.drive_many(envs, "race", binary=b)
        if hang:
            raise Violation("the code hangs", [])
        ctx.info["race_detector_executions"] = sum(int(x) for x in re.findall(r"VH-EXECS (\d+)", txt))
        os.remove(f)
    return ("race detector", stage)


KINDS = ["ev", "fin", "max", "lazy", "ret", "rec", "search", "stream", "sub", "ids", "pfx", "log", "mix", "via", "web", "web"]

def real():
    """The command line tool as a process, with servers on the loopback network."""
    def stage(ctx):
        b = ctx.path("trc")
        rc, out = ctx.sh(["go", "build", "-o", b, "./cmd/trc"], cwd=REPO, env={"GOFLAGS": "-mod=readonly"})
        if rc != 0:
            raise Broken("the tool does not build:\n" + out)
        f = ctx.drive({"VH_MODE": "real", "VH_TRC": b}, "real")
        ctx.replay(f, CARE["C23"], module="TrcReplay", what="processes")
        ctx.sample({"processes": [json.loads(l)["ops"][0] for l in open(f)][:4]})
    return ("processes of the tool", stage)


STAGES = {
    "C01": [gen("core", 3, 4), seq("C01", 600, 40000), conc("ev")],
    "C02": [gen("core", 3, 4), seq("C02", 600, 40000), conc("fin")],
    "C03": [gen("core", 3, 4), seq("C03", 600, 40000), seq("C03big", 14, 600, prop="C03"), conc("max")],
    "C04": [gen("lazy", 3, 5), seq("C04", 600, 40000), conc("lazy")],
    "C05": [gen("ret", 4, 6), seq("C05", 500, 24000), seq("C05big", 6, 200, prop="C05"), seq("C05huge", 9, 300, prop="C05"), conc("ret")],
    "C06": [gen("rec", 5, 6), seq("C06", 500, 24000), conc("rec")],
    "C07": [gen("find", 3, 5), seq("C07", 500, 30000), seq("C07big", 60, 1500)],
    "C08": [gen("find", 3, 5), seq("C08", 600, 30000)],
    "C09": [gen("find", 3, 5), seq("C09", 600, 30000)],
    "C10": [gen("multi", 3, 5), seq("C10", 600, 30000)],
    "C11": [gen("sub", 3, 4), seq("C11", 600, 30000), conc("stream")],
    "C12": [gen("sub", 3, 4), seq("C12", 600, 40000), conc("sub")],
    "C13": [conc("search", (8, 20, 200)), conc("stream", (2, 20, 60)), conc("rec", (2, 20, 60))],
    "C14": [seq("C14", 600, 24000)],
    "C15": [gen("stream1", 3, 4, mc="TrcStreamMC", module="TrcWeb"), gen("stream2", 3, 4, mc="TrcStreamMC", module="TrcWeb"), seq("C15", 400, 12000, module="TrcWeb")],
    "C16": [gen("mw", 2, 3, mc="TrcMwMC", module="TrcMw"), seq("C16", 800, 40000, module="TrcMw")],
    "C17": [gen("ctx", 3, 5), seq("C17", 600, 40000), conc("pfx")],
    "C18": [gen("log", 3, 4), seq("C18", 600, 40000), conc("log", (1, 20, 80))],
    "C19": [gen("ids", 3, 4), seq("C19", 300, 10000), conc("ids")],
    "C20": [conc("mix", (2, 20, 60)), conc("ret", (2, 20, 80)), conc("via", (2, 15, 60)), race(KINDS)],
    "C21": [gen("stk", 2, 3), seq("C21", 600, 40000)],
    "C22": [seq("C22", 300, 12000)],
    "C23": [seq("C23", 500, 15000, module="TrcWeb"), real()],
    "C24": [procs("C24", 80, 2400, "TrcWeb"), procs("C24mw", 60, 1200, "TrcMw")],
}


# build tags of the driver
TAGS = {"C23": "cli"}


def stages(prop, ctx):
    return STAGES[prop]


DEFAULT_TECHNIQUE = "TLA+ specification, TLC trace validation of recorded runs of the real code"
DEFAULT_NOTE = "Runs of the real code are judged step by step by the TLA+ state machine; bounded by the runs generated."
TECHNIQUE = {}
NOTE = {}
