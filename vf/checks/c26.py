"""C26: launches parties through run_multiprocess (values of all sizes and kinds, parties finishing in any order, failing
parties, providers changing between launches) and through histories of init()/uninit(), and judges what comes back."""
import os
import pickle
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

import torch

from .. import launchdrv
from ..core import Fail, brief

ME = "vf.checks.c26"
MIN_EVAL = 30
STUCK = 75.0


def drive(case):
    """Runs one driver process; returns (results, state) with state in end/stuck/dead."""
    d = tempfile.mkdtemp(prefix="vfdrv-")
    try:
        with open(d + "/case.pkl", "wb") as f:
            pickle.dump(dict(case), f)
        env = dict(os.environ, TMPDIR=d)
        log = open(d + "/log", "wb")
        p = subprocess.Popen([sys.executable, "-c", "from vf import launchdrv; launchdrv.main(%r)" % d], env=env, stdout=log, stderr=log, start_new_session=True)
        last, size = time.time(), -1
        while p.poll() is None:
            time.sleep(0.1)
            s = os.path.getsize(d + "/results.pkl") if os.path.exists(d + "/results.pkl") else 0
            if s != size:
                last, size = time.time(), s
            if time.time() - last > STUCK:
                break
        state = "stuck" if p.poll() is None else "dead"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        out = []
        if os.path.exists(d + "/results.pkl"):
            with open(d + "/results.pkl", "rb") as f:
                while True:
                    try:
                        out.append(pickle.load(f))
                    except EOFError:
                        break
                    except Exception:  # noqa: cut off
                        break
        if out and out[-1] == "end":
            return out[:-1], "end"
        return out, state
    finally:
        shutil.rmtree(d, ignore_errors=True)


def same(a, b):
    import numpy

    if type(a) is not type(b):
        return False
    if torch.is_tensor(a):
        return a.dtype == b.dtype and a.shape == b.shape and torch.equal(a.detach(), b.detach())
    if isinstance(a, numpy.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and bool((a == b).all())
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Exception):
        return a.args == b.args
    return a == b


def right(c, seed):
    r, cmp_, _, _ = c
    w = [1.5 * 2 + 1, -2.0 * .25 + 1, -float(seed) + 1]
    v = [1.5 < 2, -2 < .25, seed < -1]
    return all(abs(x - y) < 1e-3 for x, y in zip(r, w)) and all(float(x) == float(y) for x, y in zip(cmp_, v))


def streams(rows, earlier, what):
    """rows: generator draws per party; earlier: everything drawn before (set of tuples)."""
    ws = len(rows)
    for name in ("global",):
        if any(r[name] != rows[0][name] for r in rows):
            return Fail("global", "%s: the parties' common streams differ" % what)
    for k in range(ws):
        if rows[k]["next"] != rows[(k + 1) % ws]["prev"]:
            return Fail("pair", "%s: party %d and %d do not share their stream" % (what, k, (k + 1) % ws))
    new = [("global", tuple(rows[0]["global"]))] + [("next", tuple(r["next"])) for r in rows] + [("local", tuple(r["local"])) for r in rows]
    seen = {}
    for kind, v in new:
        if v in seen:
            return Fail("shared", "%s: two random streams (%s, %s) are the same" % (what, kind, seen[v]))
        seen[v] = kind
    for kind, v in new:
        if v in earlier:
            return Fail("stale", "%s: the %s random stream repeats an earlier session's" % (what, kind))
    earlier |= {v for _, v in new}
    return None


def judge_launch(case, outs):
    earlier = set()
    for o in outs:
        run = case["runs"][o["n"]]
        ws = run["ws"]
        desc = "launch %d of %d parties (%s)" % (o["n"], ws, {k: v for k, v in run.items() if k != "ws"})
        if o["err"]:
            return Fail("raised", "%s: run_multiprocess raised %s" % (desc, o["err"]))
        res = o["res"]
        if run.get("fail"):
            if res is not None:
                return Fail("unreported:" + run["fail"]["how"], "%s: a party ended without a result, but run_multiprocess returned %s" % (desc, brief(res)))
        else:
            if res is None and ws == 1 and run["provider"] == "TTP":
                return Fail("one-party-ttp", "%s: failed" % desc)
            if res is None:
                return Fail("failed", "%s: no party was meant to fail, but run_multiprocess reported failure" % desc)
            if not isinstance(res, list) or len(res) != ws:
                return Fail("count", "%s: %d results" % (desc, len(res)))
            for r, v in enumerate(res):
                if v["mark"] != ("m", o["n"], list(range(o["n"]))):
                    return Fail("args", "%s: party %d got arguments %s" % (desc, r, v["mark"]))
                w = launchdrv.build(run["value"], r)
                if not same(v["v"], w):
                    return Fail("value", "%s: position %d holds %s, party %d returned %s" % (desc, r, brief(v["v"], 200), r, brief(w, 200)))
                for k in ("c", "c2"):
                    if k in v:
                        if v[k][2] != r or v[k][3] != ws:
                            return Fail("order", "%s: position %d holds the result of party %d of %d" % (desc, r, v[k][2], v[k][3]))
                        if not right(v[k], o["n"] if k == "c" else 1):
                            return Fail("compute", "%s: the parties computed %s" % (desc, v[k]))
            if run.get("gens"):
                f = streams([v["g"] for v in res], earlier, desc)
                if f and ws > 1 or f and f.key == "stale":
                    return f
        if not o["env"]:
            return Fail("environment", "%s: the caller's environment changed" % desc)
        if case.get("parent_init"):
            if not o["parent"]:
                return Fail("parent", "%s: the caller's session is gone" % desc)
            if not right(o["parent"], 5) or o["parent"][2:] != (0, 1):
                return Fail("parent", "%s: afterwards the caller computes %s" % (desc, o["parent"]))
        elif not o["parent_clean"]:
            return Fail("parent", "%s: the caller, which had no session, has one afterwards" % desc)
        if o["name"] != "party":
            return Fail("name", "the decorated function lost its name")
    return None


def judge_single(case, outs):
    earlier = set()
    for o in outs:
        g = case["gens"][o["n"]]
        d = "session %d of one process" % o["n"]
        if o.get("err"):
            return Fail("restart", "%s failed: %s" % (d, o["err"]))
        if o["before"] or o["after"] or o["get"] != "refused":
            return Fail("state", "%s: initialised before %s, after %s; communicator after the end: %s" % (d, o["before"], o["after"], o["get"]))
        if o["name"] != (g.get("name") or "rank0"):
            return Fail("party", "%s: party name %s instead of %s" % (d, o["name"], g.get("name")))
        if not right(o["c"], o["n"]):
            return Fail("compute", "%s computes %s" % (d, o["c"]))
        if g.get("twice"):
            if not o["warned"]:
                return Fail("warn", "%s: a second init() gave no warning" % d)
            if any(o["g2"][k] == o["g"][k] for k in ("prev", "next", "local", "global")):
                return Fail("reseed", "%s: a second init() rewound a random stream" % d)
        new = {tuple(o["g"][k]) for k in ("prev", "local", "global")}
        if new & earlier or len(new) < 3:
            return Fail("stale", "%s: random streams repeat: %s" % (d, o["g"]))
        earlier |= new
    return None


def judge_multi(case, outs):
    ws = case["ws"]
    earlier = set()
    rands = set()
    for n, rows in enumerate(outs):
        if n == len(case["gens"]):
            break
        g = case["gens"][n]
        d = "session %d (%s) of %d parties, history %s" % (n, g, ws, [x["provider"] for x in case["gens"][: n + 1]])
        bad = [(r, x["err"]) for r, x in enumerate(rows) if x.get("err")]
        if bad:
            return Fail("restart", "%s failed: %s" % (d, bad[:2]))
        for r in range(ws):
            o = rows[r]
            want = g["name"] % r if g.get("name") else "rank%d" % r
            if o["name"] != want:
                return Fail("party", "%s: party %d is called %s instead of %s" % (d, r, o["name"], want))
            if o["after"]:
                return Fail("state", "%s: party %d is still initialised after uninit()" % (d, r))
            if not right(o["c"], n) or o["c"][2:] != (r, ws):
                return Fail("compute", "%s: party %d computed %s" % (d, r, o["c"]))
            if o["r"] != rows[0]["r"]:
                return Fail("agree", "%s: parties drew different random tensors %s and %s" % (d, rows[0]["r"], o["r"]))
            if o["stats"] and any(v for v in o["stats"].values() if isinstance(v, (int, float))) :
                return Fail("stats", "%s: party %d starts with communication statistics %s" % (d, r, o["stats"]))
        k = tuple(rows[0]["r"])
        if k in rands:
            return Fail("stale", "%s: random tensor repeats one of an earlier session" % d)
        rands.add(k)
        f = streams([x["g"] for x in rows[:ws]], earlier, d)
        if f:
            return f
    return None


JUDGE = {"launch": judge_launch, "single": judge_single, "multi": judge_multi}


def value(r, big):
    k = r.choice(["int", "none", "bytes", "str", "tensor", "view", "param", "numpy", "nest", "some", "exc", "list", "rev"])
    if k == "int":
        return (k, r.randrange(-5, 1000))
    if k in ("bytes", "numpy", "rev"):
        return (k, r.choice([0, 1, 4095, 65536, 70000] + ([3000000] if big else [200000])))
    if k == "str":
        return (k, r.choice([0, 1, 30000]))
    if k == "tensor":
        return (k, r.choice([(), (0,), (3,), (2, 3), (200, 300)] + ([(1000, 700)] if big else [])), r.choice(["float32", "int64", "float64", "bool", "uint8"]), r.randrange(1000))
    if k in ("nest", "list"):
        return (k, [value(r, False) for _ in range(r.randrange(3))])
    if k == "some":
        return (k, ("tensor", (300, 400), "float32", 3) if r.random() < .5 else ("int", 7), sorted(r.sample(range(5), 2)))
    return (k,)


def launches(r, n, quick):
    for i in range(n):
        runs = []
        for _ in range(r.randint(3, 5)):
            ws = r.choice([1, 2, 2, 3, 3, 4, 5])
            run = {"ws": ws, "provider": r.choice(["TFP", "TFP", "TTP"]) if ws > 1 else "TFP", "value": value(r, True), "compute": r.random() < .5, "gens": r.random() < .6}
            if r.random() < .5:
                run["sleep"] = [r.choice([0, 0, .15, .4]) for _ in range(ws)]
            if r.random() < .3:
                run["maxsize"] = r.choice([1, 2, ws, 100])
            if r.random() < .3:
                run["late"] = True
            runs.append(run)
        yield {"kind": "launch", "runs": runs, "parent_init": r.random() < .3, "seed": r.choice([None, 0, 7])}


def failures(r, n):
    hows = ["raise", "exit1", "sysexit", "kill", "unpicklable", "sysexit0", "exit0", "late", "latekill"]
    r.shuffle(hows)
    hows = ["late", "latekill"] + [h for h in hows if "late" not in h]
    for i in range(n):
        runs = []
        for j in range(3):
            ws = r.choice([1, 2, 3, 4])
            who = sorted(r.sample(range(ws), r.randint(1, ws)))
            prov = r.choice(["TFP", "TFP", "TFP", "TTP"]) if ws > 1 else "TFP"
            runs.append({"ws": ws, "provider": prov, "value": value(r, False), "compute": r.random() < .5,
                         "fail": {"who": who, "how": hows[(3 * i + j) % len(hows)], "together": r.random() < .3 and len(who) < ws}})
            if r.random() < .5:
                runs.append({"ws": r.choice([2, 3]), "provider": r.choice(["TFP", "TTP"]), "value": value(r, False), "compute": True, "gens": True})
        yield {"kind": "launch", "runs": runs, "parent_init": r.random() < .2, "seed": None}


def singles(r, n):
    for i in range(n):
        yield {"kind": "single", "seed": r.choice([None, 1]), "gens": [{"name": r.choice([None, None, "alice", "x%d" % k]), "twice": r.random() < .3} for k in range(r.randint(3, 7))]}


def multis(r, n):
    for i in range(n):
        ws = r.choice([2, 2, 3, 4])
        gens = []
        for k in range(r.randint(2, 5)):
            g = {"provider": r.choice(["TFP", "TTP"]), "work": r.choice([0, 1, 2]) or 1, "stats": True}
            if r.random() < .3:
                g["name"] = r.choice(["p%d-" + str(k), "bank%d"])
            if r.random() < .4:
                g["delay"] = [r.choice([0, .1, .3]) for _ in range(ws)]
            g["error"] = g["provider"] == "TFP" and r.random() < .2
            g["stat_on"] = r.random() < .2
            gens.append(g)
        yield {"kind": "multi", "ws": ws, "gens": gens, "seed": r.choice([None, 3])}


def once(case):
    outs, state = drive(case)
    f = JUDGE[case["kind"]](case, outs)
    if f is None and state != "end":
        n = len(outs)
        what = case["runs"][n] if case["kind"] == "launch" and n < len(case["runs"]) else case["gens"][n] if case["kind"] != "launch" and n < len(case["gens"]) else "the end"
        f = Fail("stuck" if state == "stuck" else "died", "%s: after %d steps the process %s at %s" % (case["kind"], n, "made no progress" if state == "stuck" else "died", what))
    return outs, f


def replay(d):
    return once(d["case"])[1]


def check(ctx):
    ctx.rule = ("A case is a driver process that launches parties several times, or sessions that are initialised and shut down repeatedly; results are compared with what each party returned, position by position, and the random streams of all sessions with each other. "
                "A refuted case is run again and counts when it is refuted twice more (gloo occasionally fails to connect).")
    ctx.assumptions = ["parties leave gloo 0.25 s between their last message and the destruction of the process group, which otherwise aborts now and then"]
    r = ctx.rng("cases")
    cases = list(launches(r, ctx.n(7, 60), ctx.quick)) + list(failures(r, ctx.n(5, 40))) + list(singles(r, ctx.n(3, 20))) + list(multis(r, ctx.n(6, 60)))
    r.shuffle(cases)
    cases.append({"kind": "launch", "runs": [{"ws": 1, "provider": "TTP", "value": ("int", 1)}], "parent_init": False, "seed": None})
    it = iter(cases)
    errs = []

    def work():
        while not ctx.stop:
            with ctx.lock:
                c = next(it, None)
            if c is None:
                return
            try:
                outs, f = once(c)
                for k in range(len(outs)):
                    ctx.observe((str(c.get("runs") or c.get("gens")), k), sample={"kind": c["kind"], "step": brief((c.get("runs") or c.get("gens"))[min(k, len(c.get("runs") or c.get("gens")) - 1)], 200)})
                ctx.count({"launch": "launches", "single": "sessions_of_one_process", "multi": "sessions_of_groups"}[c["kind"]], len(outs))
                again = 0
                if f is not None:
                    for _ in range(2):
                        f2 = once(c)[1]
                        if f2 is not None:
                            again += 1
                            f = f2
                    if again == 2:
                        ctx.violation(f, c["kind"], {"mod": ME, "case": c})
                    else:
                        ctx.count("not_recurring")
            except Exception:
                import traceback

                errs.append(traceback.format_exc())
                return

    ths = [threading.Thread(target=work) for _ in range(6)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if errs:
        raise RuntimeError(errs[0])
