"""C16: random programs of communication calls (all primitives, roots, payload kinds, batched and not, in flight together,
processes and threads, parties slowed down at random) are executed and every party's results, the state of its inputs and its
receive buffers are compared with the definition of the calls."""
import sys
import threading
import time
import traceback

import torch

from ..core import Fail, agree

ME = "vf.checks.c16"
MIN_EVAL = 60
OPS = {"SUM": lambda a, b: a + b, "BXOR": lambda a, b: a ^ b, "MAX": torch.maximum, "MIN": torch.minimum, "BAND": lambda a, b: a & b, "BOR": lambda a, b: a | b, "PRODUCT": lambda a, b: a * b}


# ------------------------------------------------------------------ common
def payload(key, k, rank, j, shape, dtype):
    g = torch.Generator().manual_seed(hash((key, k, rank, j)) % (2 ** 60))
    if dtype == "float32":
        return torch.randn(shape, generator=g)
    if dtype == "bool":
        return torch.rand(shape, generator=g) > 0.5
    if dtype == "uint8":
        return torch.randint(0, 255, shape, generator=g, dtype=torch.uint8)
    m = 2 ** 62 if dtype == "int64" else 2 ** 30
    return torch.randint(-m, m, shape, generator=g, dtype=getattr(torch, dtype))


def lay(t, how):
    if how == 1 and t.dim() >= 2:
        return t.transpose(0, -1).contiguous().transpose(0, -1)
    if how == 2 and t.dim() >= 1:
        return t.repeat_interleave(2, dim=-1)[..., ::2]
    return t.clone()


def obj(kind, t):
    import collections

    n = int(t.flatten()[0]) if t.numel() else 7
    return {
        "int": n, "neg": -abs(n) - 1, "str": "x%dé" % n, "list": [n, [None, True, 2.5], "a"], "dict": {"function": "mul", "args": (n, t), "kw": {}},
        "tensor": t, "size": t.size(), "big": "y" * 70000 + str(n), "float": n / 3.0, "set": {1, n}, "empty": [], "zero": 0, "false": False,
        "odict": collections.OrderedDict(a=t, b=n), "tensors": [t, t + 1], "bytes": b"\x00\xff" * 40, "bigint": n * 2 ** 80, "f64": t.double() / 3,
    }[kind]


OBJ = ["int", "neg", "str", "list", "dict", "tensor", "size", "big", "float", "set", "empty", "zero", "false", "odict", "tensors", "bytes", "bigint", "f64"]


def same(a, b):
    if torch.is_tensor(a) or torch.is_tensor(b):
        return torch.is_tensor(a) and torch.is_tensor(b) and a.dtype == b.dtype and a.shape == b.shape and torch.equal(a, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


# ------------------------------------------------------------------ party side
def execute(c, rank, ws, case, pause):
    """Runs the program at one party: list of (result, inputs still as they were)"""
    from torch.distributed import ReduceOp

    key = case["key"]
    out = []
    for k, st in enumerate(case["steps"]):
        pause()
        op, root, shape, dtype, how, extra = st

        def mine(j=0, r=rank):
            return lay(payload(key, k, r, j, shape, dtype), how)

        kw = {} if extra.get("op", "SUM") == "SUM" else {"op": getattr(ReduceOp, extra["op"])}
        res, ins = None, []
        if op == "broadcast":
            n = extra.get("batched")
            if n is not None:
                ins = [mine(j) for j in range(n)]
                res = c.broadcast(ins, root, batched=True)
                res = [t.clone() for t in res]
                bad = rank == root and not all(same(t, mine(j)) for j, t in enumerate(ins))
            else:
                x = mine()
                res = (c.broadcast(x, src=root) if extra.get("kwarg") else c.broadcast(x, root)).clone()
                bad = rank == root and not same(x, mine())
            out.append((res, not bad))
            continue
        if op in ("all_reduce", "reduce"):
            n = extra.get("batched")
            ins = [mine(j) for j in range(n)] if n is not None else [mine()]
            if n is not None:
                kw["batched"] = True
            x = ins if n is not None else ins[0]
            if op == "all_reduce":
                res = c.all_reduce(x, **kw)
            else:
                res = c.reduce(x, dst=root, **kw) if extra.get("kwarg") else c.reduce(x, root, **kw)
        elif op == "gather":
            ins = [mine()]
            res = c.gather(ins[0], dst=root) if extra.get("kwarg") else c.gather(ins[0], root)
            if res is None:
                res = [None]
        elif op == "all_gather":
            ins = [mine()]
            res = c.all_gather(ins[0])
        elif op == "scatter":
            ins = [mine(j) for j in range(ws)]
            if rank == root or not extra.get("size"):
                res = c.scatter(ins, root)
            else:
                ins = []
                res = c.scatter(None, root, size=torch.Size(shape))
        elif op == "barrier":
            c.barrier()
        elif op == "p2p":
            dst = extra["dst"]
            if rank == root:
                ins = [mine()]
                if extra["async_s"]:
                    c.isend(ins[0], dst).wait()
                else:
                    c.send(ins[0], dst)
            elif rank == dst:
                b = payload(key, k, rank, 99, shape, dtype)
                if extra["async_r"]:
                    c.irecv(b, src=root).wait()
                    res = b
                else:
                    ins = [payload(key, k, rank, 0, shape, dtype)]
                    res = c.recv(ins[0], src=root) if extra.get("kwarg") else c.recv(ins[0], root)
        elif op == "ring":
            ins = [mine()]
            b = payload(key, k, rank, 99, shape, dtype)
            s = c.isend(ins[0], (rank + extra["step"]) % ws)
            r = c.irecv(b, src=(rank - extra["step"]) % ws)
            for h in [s, r] if extra["order"] else [r, s]:
                h.wait()
            res = b
        elif op == "pipe":  # several messages in flight between two parties
            dst, n = extra["dst"], extra["n"]
            if rank == root:
                ins = [mine(j) for j in range(n)]
                hs = [c.isend(t, dst) for t in ins]
                for h in hs:
                    h.wait()
            elif rank == dst:
                bs = [payload(key, k, rank, 50 + j, shape, dtype) for j in range(n)]
                hs = [c.irecv(b, src=root) for b in bs]
                for h in hs:
                    h.wait()
                res = bs
        elif op == "send_obj":
            dst = extra["dst"]
            if rank == root:
                c.send_obj(obj(extra["obj"], payload(key, k, root, 0, shape, dtype)), dst)
            elif rank == dst:
                res = c.recv_obj(root)
        elif op == "broadcast_obj":
            o = obj(extra["obj"], payload(key, k, rank, 0, shape, dtype))
            res = c.broadcast_obj(o if rank == root else extra.get("other"), root)
        good = all(same(t, mine(j)) for j, t in enumerate(ins))
        if torch.is_tensor(res):
            res = res.clone()
        out.append((res, good))
    return out


def run(case):
    import random

    import crypten.communicator as comm

    c = comm.get()
    r = random.Random("%s/%d" % (case["key"], c.get_rank()))
    slow = case.get("slow")

    def pause():
        if slow and r.random() < 0.3:
            time.sleep(r.random() * slow)

    return execute(c, c.get_rank(), c.get_world_size(), case, pause)


def run_threads(case):
    """ws threads in this process, with the back end crypten.init_thread() installs"""
    import random

    import crypten
    import crypten.communicator as comm

    ws = case["ws"]
    res = [("blocked", 0)] * ws
    up = threading.Barrier(ws)

    def body(rank):
        try:
            comm._init(use_threads=True, rank=rank, world_size=ws)
            up.wait()
            c = comm.get()
            r = random.Random("%s/%d" % (case["key"], rank))
            slow = case.get("slow")

            def pause():
                if slow and r.random() < 0.4:
                    time.sleep(r.random() * slow)

            if (c.get_rank(), c.get_world_size()) != (rank, ws):
                raise ValueError("rank %s of %s at thread %d of %d" % (c.get_rank(), c.get_world_size(), rank, ws))
            res[rank] = ("ok", execute(c, rank, ws, case, pause))
        except BaseException as e:  # noqa
            res[rank] = ("err", type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:])
            up.abort()

    ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(ws)]
    sw = sys.getswitchinterval()
    sys.setswitchinterval(case.get("switch", sw))
    try:
        for t in ths:
            t.start()
        end = time.time() + 60
        failed = None
        while any(t.is_alive() for t in ths) and time.time() < end:
            time.sleep(0.002)
            if failed is None and any(o[0] == "err" for o in res):
                failed = time.time()
            if failed and time.time() > failed + 3:
                break
    finally:
        sys.setswitchinterval(sw)
    if any(t.is_alive() for t in ths):
        frames = sys._current_frames()
        for i, t in enumerate(ths):
            if t.is_alive() and t.ident in frames:
                res[i] = ("blocked", traceback.extract_stack(frames[t.ident])[-1].name)
    comm.uninit()
    return res


# ------------------------------------------------------------------ oracle
def expected(case, k, rank, ws):
    """None: nothing is promised; otherwise a one-element tuple"""
    op, root, shape, dtype, how, extra = case["steps"][k]
    P = lambda r, j=0: payload(case["key"], k, r, j, shape, dtype)
    thr = case.get("threads")

    def red(j):
        v = P(0, j)
        for r in range(1, ws):
            v = OPS[extra.get("op", "SUM")](v, P(r, j))
        return v

    if op == "broadcast":
        n = extra.get("batched")
        return ([P(root, j) for j in range(n)],) if n is not None else (P(root),)
    if op in ("all_reduce", "reduce"):
        n = extra.get("batched")
        if op == "reduce" and rank != root:
            return (None,)
        return ([red(j) for j in range(n)],) if n is not None else (red(0),)
    if op == "gather":
        return ([P(r) for r in range(ws)] if rank == root else [None],)
    if op == "all_gather":
        return ([P(r) for r in range(ws)],)
    if op == "scatter":
        return (P(root, rank),)
    if op == "p2p":
        return (P(root) if rank == extra["dst"] else None,)
    if op == "ring":
        return (P((rank - extra["step"]) % ws),)
    if op == "pipe":
        return ([P(root, j) for j in range(extra["n"])] if rank == extra["dst"] else None,)
    if op == "send_obj":
        return (obj(extra["obj"], P(root)) if rank == extra["dst"] else None,)
    if op == "broadcast_obj":
        return (obj(extra["obj"], P(root)),)
    return (None,)


def judge(case, outs):
    if case.get("threads"):
        if outs[0][0] != "ok":
            return Fail("threads/host", str(outs[0])[:500])
        outs = outs[0][1]
    vals, f = agree(outs)
    kind = "threads" if case.get("threads") else "processes"
    if f or vals is None:
        return Fail(kind + "/outcome", "%s; program %s" % (f.msg if f else str(outs[0][:3]), case["steps"]))
    ws = len(vals)
    for k, st in enumerate(case["steps"]):
        for rank in range(ws):
            got, unchanged = vals[rank][k]
            want = expected(case, k, rank, ws)[0]
            if not same(got, want):
                return Fail("%s/%s/result" % (kind, st[0]), "step %d %s: rank %d got %s, expected %s; program %s" % (
                    k, st, rank, str(got)[:300], str(want)[:300], [s[0] for s in case["steps"]]))
            if not unchanged:
                return Fail("%s/%s/input" % (kind, st[0]), "step %d %s modified the input of rank %d" % (k, st, rank))
    return None


# ------------------------------------------------------------------ generator
def program(r, ws, threads=False):
    steps = []
    n = r.choice([4, 8, 12])
    for _ in range(n):
        shape = r.choice([(), (1,), (3,), (2, 3), (3, 2, 2), (4, 4), (0,), (5, 1)] + ([(300, 300)] if r.random() < 0.3 else []))
        root = r.randrange(ws)
        how = r.choice([0, 0, 0, 1, 2])
        dtype = "int64"
        ops = ["broadcast", "all_reduce", "reduce", "gather", "all_gather", "scatter"] + (["p2p", "p2p", "ring"] if ws > 1 else [])
        if not threads:
            ops += ["barrier", "broadcast_obj"] + (["pipe", "send_obj"] if ws > 1 else [])
        op = r.choice(ops)
        extra = {"kwarg": r.random() < 0.3 and not (ws == 1)}
        if op in ("all_reduce", "reduce", "broadcast") and not threads and r.random() < 0.4:
            extra["batched"] = r.choice([1, 2, 3, 5])
        if op in ("all_reduce", "reduce") and not threads:
            extra["op"] = r.choice(["SUM", "SUM", "SUM", "BXOR", "BXOR", "MAX", "MIN", "PRODUCT", "BAND", "BOR"])
            if not shape or 0 in shape:
                pass
        if op in ("p2p", "pipe", "broadcast") and r.random() < 0.3:
            dtype = r.choice(["float32", "int32", "uint8", "int64", "int16" if False else "int64"])
        if op in ("p2p", "pipe", "send_obj"):
            extra["dst"] = r.choice([q for q in range(ws) if q != root])
        if op == "p2p":
            extra.update(async_s=r.random() < 0.4, async_r=r.random() < 0.4)
        if op == "ring":
            extra.update(step=r.choice([1] * 2 + list(range(1, ws))), order=r.random() < 0.5)
        if op == "pipe":
            extra["n"] = r.choice([2, 3, 5])
        if op == "scatter":
            extra["size"] = r.random() < 0.5 and not threads and ws > 1
        if op in ("broadcast_obj", "send_obj"):
            extra["obj"] = r.choice(OBJ)
            extra["other"] = r.choice([None, None, 5, "other"])
            how = 0
        if op in ("p2p", "ring") and threads and steps and steps[-1][0] in ("p2p", "ring"):
            steps.append(("all_gather", root, (2,), "int64", 0, {}))
        steps.append((op, root, shape, dtype, how, extra))
    c = {"steps": steps, "key": r.getrandbits(40), "slow": r.choice([0, 0, 0.001, 0.01])}
    if threads:
        c.update(threads=True, ws=ws, switch=r.choice([5e-3, 1e-5, 1e-6]))
    return c


def check(ctx):
    ctx.rule = ("A case is a program of 4-12 communication calls executed by all parties with different payloads per party and call; every result, input and receive buffer at every party is compared. "
                "Parties are slowed down at random, before calls and inside the transport; thread programs vary the interpreter's switch interval.")
    ctx.assumptions = ["thread back end: no message outstanding across another call and none received out of order (refused by the library); batching, objects and barrier() exist for processes only"]
    jobs = []
    for ws, cfg, k, opts in [(2, None, 1.0, {}), (3, None, 1.0, {}), (4, None, 0.6, {}), (3, None, 0.5, {"delay": 0.004}), (2, {"mpc.provider": "TTP"}, 0.4, {}),
                             (3, {"communicator.verbose": True}, .5, {}), (1, None, 0.2, {}), (5, None, 0.3, {})]:
        lab = "%dPC%s%s" % (ws, "".join("-%s" % v for v in (cfg or {}).values()), "-delay" if opts else "")
        r = ctx.rng(lab)
        cases = [program(r, ws) for _ in range(int(ctx.n(90, 2500) * k))]
        jobs.append(dict(label=lab, ws=ws, cfg=cfg, cases=cases, mod=ME, fn="run", judge=judge, opts=opts, sig=lambda c: repr(c["steps"])))
    for i in range(2):
        r = ctx.rng("threads", i)
        cases = [program(r, r.choice([2, 3, 4, 5]), True) for _ in range(ctx.n(150, 4000))]
        jobs.append(dict(label="threads.%d" % i, ws=1, cfg=None, cases=cases, mod=ME, fn="run_threads", judge=judge, opts={"no_init": True}, sig=lambda c: repr(c["steps"])))
    ctx.drive(jobs, reruns=3, parallel=4)
    ctx.count("calls", sum(len(c["steps"]) for j in jobs for c in j["cases"]))
