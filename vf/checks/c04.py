"""C04: operations on binary shares against 64-bit two's-complement integers."""
import torch

from .. import ex
from ..core import Fail, agree, err_of
from ..gen import broadcastable, shape

MIN_EVAL = 200
ME = "vf.checks.c04"
M64 = (1 << 64) - 1


def s64(v):
    v &= M64
    return v - (1 << 64) if v >> 63 else v


def bits(r, s):
    n = 1
    for d in s:
        n *= d
    out = []
    for _ in range(n):
        k = r.random()
        if k < 0.3:
            v = r.getrandbits(64)
        elif k < 0.5:
            v = r.choice([0, 1, -1, 2 ** 63 - 1, -2 ** 63, -2, 2 ** 62, -2 ** 62, 2 ** 32 - 1, -2 ** 32, 0x5555555555555555, 0xAAAAAAAAAAAAAAAA])
        elif k < 0.7:  # long carry chains
            i = r.randrange(64)
            v = r.choice([(1 << i) - 1, -(1 << i), (1 << i), ~(1 << i)])
        elif k < 0.85:
            v = r.randint(-5, 5)
        else:
            v = r.getrandbits(r.randrange(1, 64)) * r.choice([1, -1])
        out.append(s64(v))
    return torch.tensor(out, dtype=torch.long).view(s)


def mk(op, rank, i):
    from crypten.mpc.primitives import BinarySharedTensor

    k, t, src = op
    if k == "enc":
        return BinarySharedTensor(t.clone() if rank == src else ex.garbage(t, rank + i), src=src)
    return t.clone() if torch.is_tensor(t) else t


def run(case):
    import crypten
    import crypten.communicator as comm
    from crypten.mpc.primitives import BinarySharedTensor

    rank = comm.get().get_rank()
    ops = [mk(o, rank, i) for i, o in enumerate(case["ops"])]
    env = dict(zip("abcd", ops))
    env.update(ex.env_common(), B=BinarySharedTensor)
    keep = [o.clone() if torch.is_tensor(o) else None for o in ops]
    out = eval(case["expr"], env)
    outs = list(out) if isinstance(out, (list, tuple)) else [out]
    res = [o.get_plain_text() for o in outs]
    raw = [o.reveal() for o in outs]
    after = [o.get_plain_text() if isinstance(o, BinarySharedTensor) else None for o in ops]
    pub = [True if k is None else torch.equal(k, o) for k, o in zip(keep, ops)]
    return {"res": res, "raw": raw, "after": after, "pub": pub}


class Bt:
    """reference for the few methods plain tensors lack"""

    cat = staticmethod(torch.cat)
    stack = staticmethod(torch.stack)


def judge(case, outs):
    key = case["key"]
    what = "%s over %s" % (case["expr"], [(o[0], o[1].tolist() if torch.is_tensor(o[1]) and o[1].numel() < 13 else str(o[1])[:80], o[2]) for o in case["ops"]])
    vals, f = agree(outs)
    if f:
        return Fail(key + "/diverged", "%s: %s" % (what, f.msg))
    ops = [o[1].clone() if torch.is_tensor(o[1]) else o[1] for o in case["ops"]]
    env = dict(zip("abcd", ops))
    env.update(ex.env_common(), B=Bt)
    want = eval(case.get("ref") or case["expr"], env)
    want = list(want) if isinstance(want, (list, tuple)) else [want]
    if vals is None:
        e = err_of(outs)
        return Fail(key + "/raises", "%s raised %s: %s" % (what, e[1], e[2]))
    for r, v in enumerate(vals):
        for name in ("res", "raw"):
            if len(v[name]) != len(want):
                return Fail(key + "/count", what)
            for g, w in zip(v[name], want):
                w = w.long()
                if tuple(g.shape) != tuple(w.shape):
                    return Fail(key + "/shape", "%s: shape %s, expected %s" % (what, tuple(g.shape), tuple(w.shape)))
                if w.numel() and not torch.equal(g, w):
                    return Fail(key + "/value", "%s: party %d got %s, expected %s" % (what, r, g.flatten()[:6].tolist(), w.flatten()[:6].tolist()))
        for g, w in zip(v["after"], ops):
            if g is not None and g.numel() and not torch.equal(g, w):
                return Fail(key + "/operand", "%s: operand became %s, expected %s" % (what, g.flatten()[:6].tolist(), w.flatten()[:6].tolist()))
        if not all(v["pub"]):
            return Fail(key + "/public", "%s: a public operand was modified" % what)
    return None


class G:
    def __init__(self, r, ws):
        self.r, self.ws = r, ws

    def e(self, t):
        return ("enc", t, self.r.randrange(self.ws))

    def p(self, t):
        return ("pub", t, None)

    def logic(self):
        r = self.r
        s = shape(r)
        op = r.choice("^&|")
        k = r.random()
        if k < 0.5:
            y = self.e(bits(r, broadcastable(r, s)))
        elif k < 0.75:
            y = self.p(bits(r, broadcastable(r, s)))
        else:
            y = self.p(r.choice([0, 1, -1, 255, -2 ** 63, 2 ** 63 - 1]))
        e = "a %s b" % op
        if k >= 0.75 and r.random() < 0.3:
            e = "b %s a" % op
        return {"expr": e, "ops": [self.e(bits(r, s)), y], "key": "logic" + op}

    def logic_in(self):
        r = self.r
        s = shape(r)
        op = r.choice("^&|")
        k = r.random()
        t = bits(r, s if r.random() < 0.7 else tuple(1 if r.random() < 0.5 else d for d in s))
        if op != "^" and k < 0.5:
            t = bits(r, s)
        y = self.e(t) if k < 0.5 else self.p(t)
        return {"expr": "iop(a,'%s',b)" % op, "ops": [self.e(bits(r, s)), y], "key": "inplace" + op}

    def shift(self):
        r = self.r
        s = shape(r)
        n = r.choice([0, 1, 7, 31, 32, 62, 63, r.randrange(64)])
        e, ref = r.choice([("a << %d", None), ("a >> %d", None), ("a.lshift(%d)", "a << %d"), ("a.rshift(%d)", "a >> %d"), ("~a", None),
                           ("a.lshift_(%d)", "a.copy_(a << %d)"), ("a.rshift_(%d)", "a.copy_(a >> %d)")])
        c = {"expr": e % n if "%" in e else e, "ops": [self.e(bits(r, s))], "key": "shift"}
        if ref:
            c["ref"] = ref % n
        return c

    def add(self):
        r = self.r
        s = shape(r)
        y = bits(r, broadcastable(r, s))
        return {"expr": r.choice(["a + b", "a.add(b)"]), "ref": "a + b", "ops": [self.e(bits(r, s)), self.e(y) if r.random() < 0.7 else self.p(y)], "key": "add"}

    def cmp(self):
        r = self.r
        s = shape(r)
        a = bits(r, s)
        b = bits(r, broadcastable(r, s)) if r.random() < 0.5 else a + torch.tensor([r.choice([0, 0, 1, -1]) for _ in range(a.numel())]).view(s)
        op = r.choice(["<", "<=", ">", ">=", "==", "!="])
        meth = {"<": "lt", "<=": "le", ">": "gt", ">=": "ge", "==": "eq", "!=": "ne"}[op]
        return {"expr": r.choice(["a %s b" % op, "a.%s(b)" % meth]), "ref": "a %s b" % op, "ops": [self.e(a), self.e(b)], "key": "cmp" + op}

    def where(self):
        r = self.r
        s = shape(r)
        c = torch.tensor([r.randrange(2) for _ in range(bits(r, s).numel())]).view(s)
        y = bits(r, s)
        k = r.randrange(4)
        ops = [self.e(bits(r, s)), self.e(y) if r.random() < 0.6 else self.p(y), self.e(c) if k < 2 else self.p(c.bool() if k == 2 else c)]
        return {"expr": "a.where(c, b)", "ref": "torch.where(c.bool(), a, b)", "ops": ops, "key": "where"}

    def reduce(self):
        r = self.r
        s = shape(r, mindim=1)
        d = r.randrange(len(s))
        e = r.choice(["a.sum()", "a.sum(%d)" % d, "a.sum(dim=%d)" % d])
        return {"expr": e, "ops": [self.e(bits(r, s))], "key": "sum"}

    def struct(self):
        r = self.r
        a = bits(r, (2, 3, 4))
        b = bits(r, (2, 3, 4))
        es = ["a[1]", "a[:,1:]", "a[...,-1]", "a[0,1,2]", "a.transpose(0,2)", "a.permute(2,0,1)", "a.view(6,4)", "a.reshape(-1)", "a.flatten()", "a.unsqueeze(1)",
              "a[:1].squeeze(0)", "a.repeat(2,1,1)", "a.flip(0)", "a.roll(1,2)", "a.index_select(1, torch.tensor([2,0]))", "a.gather(2, (b % 4).abs())",
              "a.split(2, dim=2)", "a.unbind(1)", "B.stack([a,b], dim=1)", "B.cat([a,b], dim=2)", "a.scatter(2, (torch.arange(24).view(2,3,4)*3) % 4, b)",
              "setitem(a, 0, b[0])", "setitem(a, (slice(None), 1), b[:,2])", "a.narrow(2,1,2)", "a.expand(2,3,4)", "a[0].t()", "a.take(torch.tensor([0,5,5,23]))",
              "a.unfold(2,2,1)"]
        e = r.choice(es)
        pub_b = "b % 4" in e or (("setitem" in e or "scatter" in e) and r.random() < 0.4)
        ops = [self.e(a)] + ([self.p(b) if pub_b else self.e(b)] if "b" in e.replace("unbind", "") else [])
        return {"expr": e, "ops": ops, "key": "struct:" + e[:14]}

    def compose(self):
        r = self.r
        s = shape(r)
        e = r.choice(["(a ^ b) & (a | b)", "~(a & b) ^ (a << 3)", "(a + b) ^ b", "(a & b) + (a | b)", "((a >> 5) + b) & a", "(a + b + c)", "(a + b).where(c & 1, a)"])
        ref = "torch.where((c & 1).bool(), a + b, a)" if "where" in e else None
        c = {"expr": e, "ops": [self.e(bits(r, s)), self.e(bits(r, s)), self.e(bits(r, s))], "key": "compose:" + e}
        if ref:
            c["ref"] = ref
        return c


FAM = ["logic"] * 4 + ["logic_in"] * 2 + ["shift"] * 2 + ["add"] * 4 + ["cmp"] * 5 + ["where"] * 2 + ["reduce"] * 2 + ["struct"] * 4 + ["compose"] * 2


def sig(c):
    return (c["expr"], tuple((o[0], tuple(o[1].shape), tuple(o[1].flatten()[:3].tolist()), o[2]) if torch.is_tensor(o[1]) else o for o in c["ops"]))


def check(ctx):
    ctx.rule = "A case is one operation on binary-shared tensors with its bit patterns, operand kinds and party configuration; compared exactly with int64 arithmetic at every party."
    jobs = []
    for ws, cfg, k in [(3, None, 1.0), (2, None, 2.0), (1, None, .5), (4, None, .4), (2, {"mpc.provider": "TTP"}, .5), (3, {"mpc.protocol": "replicated"}, .4)]:
        lab = "%dPC%s" % (ws, "".join("-" + v for v in (cfg or {}).values()))
        r = ctx.rng(lab)
        g = G(r, ws)
        n = int(ctx.n(420, 9000) * k)
        order = [FAM[i % len(FAM)] for i in range(n)]
        r.shuffle(order)
        jobs.append(dict(label=lab, ws=ws, cfg=cfg, cases=[getattr(g, f)() for f in order], mod=ME, fn="run", judge=judge, sig=sig))
    ctx.drive(jobs, parallel=4)
