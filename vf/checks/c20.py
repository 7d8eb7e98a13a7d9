"""C20: every call of a communication primitive is recorded independently of the library's own counters; after each step the
reported statistics must equal the sum of the documented costs of the recorded calls."""
import inspect
import random
import sys

import torch

from .. import ex
from ..core import Fail, agree
from ..gen import grid

ME = "vf.checks.c20"
MIN_EVAL = 60
NAMES = ["send", "recv", "isend", "irecv", "scatter", "reduce", "all_reduce", "gather", "all_gather", "broadcast", "barrier", "send_obj", "recv_obj", "broadcast_obj"]


def numel(x):
    return sum(t.nelement() for t in x) if isinstance(x, (list, tuple)) else x.nelement()


class Meter:
    """Wraps the communicator's methods from outside and adds up the documented cost of each call while statistics are on."""

    def __init__(self):
        import crypten.communicator as comm

        self.c = comm.get()
        self.rank, self.ws = self.c.get_rank(), self.c.get_world_size()
        self.rounds = self.bytes = self.calls = 0
        self.depth = 0
        self.bad = []

    def cost(self, name, b, result):
        a, rank, p = b.arguments, self.rank, self.ws
        peer = a.get("src", a.get("dst"))
        first = next(iter(a.values()), None)
        if name == "barrier":
            return 0
        if name in ("send", "recv", "isend", "irecv"):
            return 8 * numel(first)
        if name == "scatter":
            return 8 * (sum(t.nelement() for i, t in enumerate(first) if i != rank) if peer == rank else result.nelement())
        if name == "all_gather":
            return 8 * 2 * (p - 1) * numel(first)
        if name == "all_reduce":
            return 8 * 2 * numel(first)
        if name in ("broadcast", "reduce", "gather"):
            return 8 * numel(first) * (p - 1 if peer == rank else 1)
        if name == "send_obj":
            return sys.getsizeof(first)
        if name == "recv_obj":
            return sys.getsizeof(result)
        if name == "broadcast_obj":
            return sys.getsizeof(first) * (p - 1)

    def __enter__(self):
        from crypten.config import cfg

        for n in NAMES:
            f = getattr(self.c, n)
            sg = inspect.signature(f)

            def g(*args, _f=f, _n=n, _s=sg, **kw):
                on = bool(cfg.communicator.verbose)
                self.calls += 1
                self.depth += 1
                try:
                    r = _f(*args, **kw)
                finally:
                    self.depth -= 1
                if on and self.depth == 0 and self.ws > 1:
                    self.rounds += 1
                    self.bytes += self.cost(_n, _s.bind(*args, **kw), r)
                return r

            self.c.__dict__[n] = g
        return self

    def __exit__(self, *a):
        for n in NAMES:
            self.c.__dict__.pop(n, None)

    def compare(self, what):
        s = self.c.get_communication_stats()
        if self.ws == 1:
            ok = s["bytes"] == 0
        else:
            ok = s["rounds"] == self.rounds and abs(s["bytes"] - self.bytes) < 1e-6 and s["time"] >= 0 and (s["time"] > 0 or self.rounds == 0)
        if not ok:
            self.bad.append("%s: reported %s, but %d calls with %s bytes were made since the last reset" % (what, s, self.rounds, self.bytes))

    def reset(self):
        self.rounds = self.bytes = 0


def direct(case):
    """Primitives called directly; statistics switched per party."""
    import crypten
    import crypten.communicator as comm
    from crypten.config import cfg
    import contextlib
    import io

    c = comm.get()
    rank, ws = c.get_rank(), c.get_world_size()
    vals = []
    old = cfg.communicator.verbose
    c.reset_communication_stats()
    cfg.communicator.verbose = False
    try:
        with Meter() as m:
            for i, st in enumerate(case["steps"]):
                k = st["k"]
                if k == "toggle":
                    if rank in st["who"]:
                        cfg.communicator.verbose = st["v"]
                elif k == "reset":
                    if rank in st["who"]:
                        [c.reset_communication_stats, crypten.reset_communication_stats][i % 2]()
                        m.reset()
                        s = c.get_communication_stats()
                        if (s["rounds"], s["bytes"], s["time"]) != (0, 0, 0):
                            m.bad.append("statistics are not zero after a reset: %s" % s)
                elif k == "print":
                    with contextlib.redirect_stdout(io.StringIO()):
                        [c.print_communication_stats, crypten.print_communication_stats, c.get_communication_stats][i % 3]()
                elif k == "edit":  # what get_communication_stats returned is the caller's
                    c.get_communication_stats()["bytes"] = 10**9
                else:
                    v = prim(c, rank, ws, st)
                    vals.append(v)
                m.compare("after step %d (%s%s)" % (i, k, " " + str({q: w for q, w in st.items() if q != "k"})))
    finally:
        cfg.communicator.verbose = old
        c.reset_communication_stats()
    return {"bad": m.bad, "vals": vals, "calls": m.calls, "rank": rank}


def payload(st, rank, j=0):
    r = random.Random("%s-%d-%d" % (st["seed"], rank, j))
    n = 1
    for d in st["shape"]:
        n *= d
    return torch.tensor([r.randrange(-(2**40), 2**40) for _ in range(n)], dtype=torch.long).reshape(st["shape"])


def bind(fn, names, vals, style, extra=()):
    """positional: all by position; peer: first by position, others by keyword; keyword: everything by keyword."""
    if style == "positional":
        return fn(*vals, **dict(extra))
    if style == "peer":
        return fn(vals[0], **dict(zip(names[1:], vals[1:])), **dict(extra))
    return fn(**dict(zip(names, vals)), **dict(extra))


def prim(c, rank, ws, st):
    k, root, style, nb = st["k"], st["root"], st["style"], st["nb"]
    from torch.distributed import ReduceOp

    ts = [payload(st, rank, j) for j in range(max(1, nb))]
    one = ts[0]
    inp = ts if nb else one
    if k == "all_reduce":
        if style == "positional" and nb:
            return c.all_reduce(inp, ReduceOp.SUM, True)
        return bind(c.all_reduce, ["input"], [inp], style, {"batched": True}.items() if nb else ())
    if k == "reduce":
        if style == "positional" and nb:
            return c.reduce(inp, root, ReduceOp.SUM, True)
        return bind(c.reduce, ["input", "dst"], [inp, root], style, {"batched": True}.items() if nb else ())
    if k == "broadcast":
        if style == "positional" and nb:
            return c.broadcast(inp, root, None, True)
        return bind(c.broadcast, ["input", "src"], [inp, root], style, {"batched": True}.items() if nb else ())
    if k == "gather":
        return bind(c.gather, ["tensor", "dst"], [one, root], style)
    if k == "all_gather":
        return bind(c.all_gather, ["tensor"], [one], style)
    if k == "scatter":
        lst = [payload(st, rank, 10 + j) for j in range(ws)]
        if style == "size" and rank != root:
            return c.scatter(None, root, size=one.size())
        return bind(c.scatter, ["scatter_list", "src"], [lst, root], style if style != "size" else "positional")
    if k == "barrier":
        return c.barrier()
    if k == "broadcast_obj":
        obj = {"a": st["seed"], "t": one} if rank == root else None
        r = bind(c.broadcast_obj, ["obj", "src"], [obj, root], style)
        return (r["a"], r["t"])
    a, b = root, (root + 1 + st["seed"] % max(1, ws - 1)) % ws
    if a == b:
        return None
    if k == "obj":
        if rank == a:
            return bind(c.send_obj, ["obj", "dst"], [(st["seed"], one, "x" * (st["seed"] % 50)), b], style)
        if rank == b:
            return bind(c.recv_obj, ["src"], [a], style)[:2]
        return None
    if k == "p2p":
        if rank == a:
            return bind(c.send, ["tensor", "dst"], [one, b], style)
        if rank == b:
            return bind(c.recv, ["tensor", "src"], [torch.zeros_like(one), a], style)
        return None
    if k == "ip2p":
        if rank == a:
            bind(c.isend, ["tensor", "dst"], [one, b], style).wait()
        if rank == b:
            z = torch.zeros_like(one)
            bind(c.irecv, ["tensor", "src"], [z, a], style).wait()
            return z
        return None


EXPRS = ["x * y", "x.matmul(y.t())", "x + y", "x > y", "x.max()", "x.relu()", "x.exp()", "x.get_plain_text()", "x.get_plain_text(dst=0)", "x.sum().get_plain_text()", "x == y", "x / 3", "x.reveal()", "M.rand(2)", "x.argmax(1)", "x.sign()", "x.square()", "x.to(M.mpc.binary).to(M.mpc.arithmetic)", "x[0]", "x.t()",
         "M.cat([x, y])", "x.mean()", "M.cryptensor(x.get_plain_text(), src=0)", "M.cryptensor(x.get_plain_text(), src=0, broadcast_size=True)", "x.softmax(1)", "x.where(x > 0, y)", "x.max(1)[0]", "x.reciprocal()", "M.load_from_party(preloaded=p, src=0)", "M.bernoulli(x * 0 + 0.5)", "x.dropout(0.5)", "x._tensor * y._tensor", "x.to(M.mpc.binary)"]
RANDOM = ("argmax", "rand", "bernoulli", "dropout")


def program(case):
    import crypten
    import crypten.communicator as comm
    from crypten.config import cfg

    c = comm.get()
    x, y = crypten.cryptensor(case["x"]), crypten.cryptensor(case["y"], src=min(1, c.get_world_size() - 1))
    outs, bad = [], []
    for on in (False, True):
        c.reset_communication_stats()
        with cfg.temp_override({"communicator.verbose": on}):
            with Meter() as m:
                vs = []
                for e in case["exprs"]:
                    v = eval(e, {"x": x, "y": y, "M": crypten, "p": case["x"]})
                    vs.append(v)
                    m.compare("after `%s` with statistics %s" % (e, "on" if on else "off"))
        bad += m.bad
        outs.append([ex.dec(v) if crypten.is_encrypted_tensor(v) or hasattr(v, "share") else v for v in vs])
        calls = m.calls
    c.reset_communication_stats()
    return {"bad": bad, "outs": outs, "calls": calls}


# ------------------------------------------------------------------ judging
def expect(st, ws):
    """What each party must get back from one primitive."""
    k, root, nb = st["k"], st["root"], st["nb"]
    ts = lambda r: [payload(st, r, j) for j in range(max(1, nb))]  # noqa
    pack = (lambda v: v) if nb else (lambda v: v[0])
    b = (root + 1 + st["seed"] % max(1, ws - 1)) % ws
    out = []
    for r in range(ws):
        if k == "all_reduce" or k == "reduce" and r == root:
            out.append(pack([sum(ts(q)[j] for q in range(ws)) for j in range(max(1, nb))]))
        elif k == "broadcast":
            out.append(pack(ts(root)))
        elif k == "gather" and r == root or k == "all_gather":
            out.append([ts(q)[0] for q in range(ws)])
        elif k == "scatter":
            out.append(payload(st, root, 10 + r))
        elif k == "broadcast_obj":
            out.append((st["seed"], ts(root)[0]))
        elif k == "obj" and r == b and b != root:
            out.append((st["seed"], ts(root)[0]))
        elif k in ("p2p", "ip2p") and r == b and b != root:
            out.append(ts(root)[0])
        else:
            out.append("any")
    return out


def eq(a, b):
    if isinstance(b, str) and b == "any":
        return True
    if torch.is_tensor(b):
        return torch.is_tensor(a) and a.shape == b.shape and torch.equal(a, b)
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(eq(p, q) for p, q in zip(a, b))
    return a == b


def j_direct(case, outs):
    vals, f = agree(outs)
    if f:
        return f
    if vals is None:
        return Fail("raises", "raised %s %s; steps %s" % (outs[0][1], outs[0][2:], case["steps"]))
    ws = len(vals)
    for v in vals:
        if v["bad"]:
            return Fail("stats", "party %d of %d, %s" % (v["rank"], ws, v["bad"][0]))
    prims = [st for st in case["steps"] if "seed" in st]
    for i, st in enumerate(prims):
        for r, e in enumerate(expect(st, ws)):
            if not eq(vals[r]["vals"][i], e):
                return Fail("result", "party %d: %s returned %s instead of %s" % (r, st, vals[r]["vals"][i], e))
    return None


def j_program(case, outs):
    vals, f = agree(outs)
    if f:
        return f
    if vals is None:
        return Fail("raises", "raised %s %s; program %s" % (outs[0][1], outs[0][2:], case["exprs"]))
    for r, v in enumerate(vals):
        if v["bad"]:
            return Fail("stats", "party %d of %d, %s" % (r, len(vals), v["bad"][0]))
        if len(vals) > 1 and v["calls"] == 0 and any("*" in e for e in case["exprs"]):
            return Fail("harness", "nothing was recorded")
        for e, a, b in zip(case["exprs"], *v["outs"]):
            if any(q in e for q in RANDOM):
                continue
            a, b = [t if torch.is_tensor(t) else torch.zeros(0) for t in (a, b)]
            if a.shape != b.shape or a.numel() and float((a.double() - b.double()).abs().max()) > 0.02 * (1 + float(a.double().abs().max())):
                return Fail("result", "party %d: `%s` gives %s without and %s with statistics" % (r, e, a.flatten()[:4], b.flatten()[:4]))
    return None


PRIMS = ["all_reduce", "reduce", "broadcast", "gather", "all_gather", "scatter", "barrier", "broadcast_obj", "obj", "p2p", "ip2p"]


def gen(r, ws, n):
    def sub():
        return [q for q in range(ws) if r.random() < .7] or [r.randrange(ws)]

    for i in range(n):
        steps = [{"k": "toggle", "v": True, "who": list(range(ws)) if r.random() < .7 else sub()}]
        for _ in range(r.randrange(4, 14)):
            u = r.random()
            if u < .1:
                steps.append({"k": "toggle", "v": r.random() < .6, "who": sub()})
            elif u < .17:
                steps.append({"k": "reset", "who": sub()})
            elif u < .25:
                steps.append({"k": r.choice(["print", "edit"]), "who": []})
            else:
                k = r.choice(PRIMS)
                styles = ["positional", "peer", "keyword"] + (["size"] if k == "scatter" else [])
                steps.append({"k": k, "root": r.randrange(ws), "style": r.choice(styles), "shape": r.choice([(), (1,), (3,), (2, 3), (0,), (40,)]), "nb": r.choice([0, 0, 1, 3]) if k in ("all_reduce", "reduce", "broadcast") else 0,
                              "seed": r.randrange(10**6)})
        yield {"steps": steps}


def check(ctx):
    ctx.rule = ("A direct case calls random primitives with positional, keyword and batched arguments while statistics are switched, reset and printed per party; a program case runs random operations with statistics off and on. After each step reported rounds and bytes "
                "are compared with the documented cost of the calls recorded outside the library.")
    ctx.assumptions = ["documented costs are those in the comments of crypten/communicator/communicator.py", "calls are recorded at the communicator's public methods"]
    jobs = []
    for ws, cfg, k in [(2, None, 1.0), (3, None, .8), (4, None, .4), (1, None, .2), (2, {"mpc.provider": "TTP"}, .4), (3, {"mpc.protocol": "replicated"}, .3)]:
        lab = "%dPC%s" % (ws, "".join("-" + v for v in (cfg or {}).values()))
        r = ctx.rng(lab)
        if not cfg:
            jobs.append(dict(label=lab, ws=ws, cfg=cfg, cases=list(gen(r, ws, int(ctx.n(120, 2500) * k))), mod=ME, fn="direct", judge=j_direct, sig=lambda c: [(s["k"], s.get("style"), s.get("nb")) for s in c["steps"]]))
        ps = []
        for _ in range(int(ctx.n(30, 500) * k)):
            ps.append({"exprs": r.sample(EXPRS, 5), "x": grid(r, (3, 4), 0.25, 3) + 0.5, "y": grid(r, (3, 4), 0.25, 3)})
        jobs.append(dict(label=lab + "-programs", ws=ws, cfg=cfg, cases=ps, mod=ME, fn="program", judge=j_program, sig=lambda c: c["exprs"]))
    ctx.drive(jobs, reruns=4, parallel=4)
