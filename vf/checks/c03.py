"""C03: comparisons, selection, maxima and max pooling are exact."""
import torch

from .. import ex
from ..core import Fail, agree, err_of
from ..ex import enc, pub
from ..gen import ULP, broadcastable, grid, ints, shape

MIN_EVAL = 150
METHODS = ["pairwise", "log_reduction", "double_log_reduction", "accelerated_cascade"]


def tied(r, s, k=None):
    """few distinct values: ties everywhere"""
    n = 1
    for d in s:
        n *= d
    pool = [r.choice([0.0, 1.0, -1.0, ULP, -ULP, 2.5, 2.5 + ULP, -3.0, 100.0, -100.0, 7.0]) for _ in range(k or r.choice([1, 2, 3, 4]))]
    return torch.tensor([r.choice(pool) for _ in range(n)]).view(s)


def near(r, t, bits=16):
    """values equal to t or one grid unit away, or far away"""
    u = 2.0 ** -bits
    d = torch.tensor([r.choice([0, 0, u, -u, 2 * u, 1.0, -1.0]) for _ in range(t.numel())]).view(t.shape)
    return t + d


class G:
    def __init__(self, r, ws, cfg):
        self.r, self.ws = r, ws
        self.u = ULP * (2 if ws <= 2 else ws + 1)

    def e(self, t, **k):
        return enc(t, src=self.r.randrange(self.ws), **k)

    def vals(self, s):
        r = self.r
        k = r.random()
        if k < 0.35:
            return tied(r, s)
        if k < 0.7:
            return grid(r, s, -20, 20)
        return grid(r, s, -2.0 ** 20, 2.0 ** 20, 3)

    def cmp(self):
        r = self.r
        s = shape(r)
        prec = r.choice([None] * 5 + [0, 8, 20])
        bits = 16 if prec is None else prec
        if prec is None and r.random() < 0.2:  # large magnitudes, coarse steps
            a = grid(r, s, -2.0 ** 38, 2.0 ** 38, -20 if False else 0, special=True)
            a = (a / 2 ** 16).round() * 2 ** 16
            b = near(r, a, 0) if r.random() < 0 else a + torch.tensor([r.choice([0.0, 2.0 ** 17, -2.0 ** 17]) for _ in range(a.numel())]).view(s)
        else:
            a = ints(r, s, -9, 9).float() if bits == 0 else (tied(r, s) if r.random() < .4 else grid(r, s, -60, 60, min(bits, 16)))
            if bits < 16:
                a = (a * 2 ** bits).round() / 2 ** bits
            b = near(r, a, min(bits, 16)) if bits else a + ints(r, s, -1, 1)
            if bits < 16:
                b = (b * 2 ** bits).round() / 2 ** bits
        op = r.choice(["<", "<=", ">", ">=", "==", "!="])
        meth = {"<": "lt", "<=": "le", ">": "gt", ">=": "ge", "==": "eq", "!=": "ne"}[op]
        k = r.random()
        kw = {} if prec is None else {"precision": prec}
        if k < 0.45:
            y = self.e(b, **kw)
        elif k < 0.6:
            y = pub(b)
        elif k < 0.75:
            y = pub(r.choice([0, 1, -1, 0.5, -2, 2.5, 100.0]) if bits >= 1 else r.choice([0, 1, -1, 5]))
        else:
            s2 = broadcastable(r, s)
            b2 = ints(r, s2, -2, 2).float() if bits == 0 else tied(r, s2, 2)
            if bits < 16:
                b2 = (b2 * 2 ** bits).round() / 2 ** bits
            y = self.e(b2, **kw) if r.random() < 0.6 else pub(b2)
        expr = r.choice(["a %s b" % op, "a.%s(b)" % meth])
        return {"expr": expr, "ref": "(a %s b) * 1.0" % op, "ops": [self.e(a, **kw), y], "tol": 0.0, "key": "compare" + op}

    def unary(self):
        r = self.r
        s = shape(r)
        a = self.vals(s)
        k = r.randrange(7)
        if k == 0:
            return {"expr": "a.sign()", "ref": "torch.where(a >= 0, 1.0, -1.0)", "ops": [self.e(a)], "tol": 0.0, "key": "sign"}
        if k == 1:
            return {"expr": r.choice(["a.abs()", "abs(a)"]), "ops": [self.e(a)], "tol": 0.0, "key": "abs"}
        if k == 2:
            return {"expr": "a.relu()", "ops": [self.e(a)], "tol": 0.0, "key": "relu"}
        if k == 3:
            lo, hi = r.choice([(-1, 1), (-2.5, 0.5), (0, 6), (1, 2), (-100, 100)])
            e = r.choice(["a.hardtanh(%r,%r)" % (lo, hi), "a.hardtanh(min_value=%r,max_value=%r)" % (lo, hi)] + (["a.hardtanh()"] if lo == -1 else []))
            return {"expr": e, "ref": "a.clamp(%r,%r)" % (lo, hi), "ops": [self.e(a)], "tol": 0.0, "key": "hardtanh"}
        if k == 4:
            return {"expr": "a.relu6()", "ref": "a.clamp(0,6)", "ops": [self.e(a)], "tol": 0.0, "key": "relu6"}
        m = r.choice(["a.relu()", "a.sign()", "a.abs()", "(a>=0)", "(a==0)", "(a<0)"])
        p = r.choice([0, 8, 20])
        a = ints(r, s, -5, 5).float() if p == 0 else (grid(r, s, -30, 30, 8))
        ref = {"a.sign()": "torch.where(a >= 0, 1.0, -1.0)"}.get(m, m if "(" in m and "." in m else m + "*1.0")
        return {"expr": m, "ref": ref, "ops": [self.e(a, precision=p)], "tol": 0.0, "key": "prec:" + m}

    def where(self):
        r = self.r
        s = shape(r)
        a, b = self.vals(s), self.vals(broadcastable(r, s) if r.random() < 0.3 else s)
        a, b = a.clamp(-100, 100), b.clamp(-100, 100)
        c = torch.tensor([r.random() < 0.5 for _ in range(a.numel())]).view(s)
        yb = self.e(b) if r.random() < 0.7 else pub(b)
        k = r.randrange(3)
        if k == 0:
            return {"expr": "a.where(c, b)", "ref": "torch.where(c, a, b)", "ops": [self.e(a), yb, pub(c)], "tol": 2 * self.u, "key": "where-pub"}
        if k == 1:
            return {"expr": "a.where(a > c, b)", "ref": "torch.where(a > c, a, b)", "ops": [self.e(a), yb, pub(r.choice([0, 1.0, -0.5]))],
                    "tol": self.u if yb["k"] == "pub" else 0.0, "key": "where-enc"}
        return {"expr": "M.where(c, a, b)", "ref": "torch.where(c, a, b)", "ops": [self.e(a), self.e(b), pub(c)], "tol": 2 * self.u, "key": "M.where"}

    def maxi(self, long=False):
        r = self.r
        s = r.choice([(1,), (2,), (3,), (5,), (8,), (9,), (2, 3), (3, 4), (2, 5), (2, 2, 3), (1, 4), (4, 1)])
        a = None
        if long:  # beyond 128 elements the pairwise method sums instead of multiplying
            s = r.choice([(129,), (130,), (140,), (2, 131), (150, 1), (17,), (27, 2), (40,), (64,), (65,), (128,)])
            if r.random() < 0.6:
                a = torch.tensor([float(r.randrange(9)) for _ in range(s[0] * (s[1] if len(s) > 1 else 1))]).view(s)
        if a is None:
            a = tied(r, s) if r.random() < 0.55 else grid(r, s, -50, 50) if r.random() < 0.6 else grid(r, s, -2.0 ** 16, 2.0 ** 16, 2)
        op = r.choice(["max", "min", "argmax", "argmin"])
        dim = r.choice([None] + list(range(-len(s), len(s))))
        kd = r.random() < 0.4
        oh = r.random() < 0.6
        args = []
        if dim is not None:
            args.append(r.choice(["dim=%d", "%d"]) % dim)
            if kd:
                args.append("keepdim=True")
        if not (op in ("max", "min") and dim is None):
            if not oh:
                args.append("one_hot=False")
            elif r.random() < 0.3:
                args.append("one_hot=True")
        return {"expr": "a.%s(%s)" % (op, ", ".join(args)), "ops": [self.e(a)], "cfg": {"functions.max_method": r.choice(METHODS)},
                "arg": (op, dim, kd, oh), "tol": 0.0, "key": op}

    def pool(self):
        r = self.r
        b, c, h, w = r.choice([1, 2]), r.choice([1, 2]), r.choice([3, 4, 5]), r.choice([3, 4, 6])
        a = (tied(r, (b, c, h, w)) if r.random() < 0.5 else grid(r, (b, c, h, w), -90, 90)).clamp(-150, 150)
        if r.random() < 0.2:
            o = r.choice([1, 2, (1, 2), (2, 3), (h, w), (None, 2)])
            return {"expr": "a.adaptive_max_pool2d(%r)" % (o,), "ref": "F.adaptive_max_pool2d(a,%r)" % (o,), "ops": [self.e(a)], "tol": 0.0,
                    "cfg": {"functions.max_method": r.choice(METHODS)}, "key": "adaptive_max_pool2d"}
        ks = r.choice([1, 2, 3, (2, 3), (3, 2), (1, 2), (2, 2)])
        kk = (ks, ks) if isinstance(ks, int) else ks
        kw = []
        if r.random() < 0.6:
            kw.append("stride=%r" % (r.choice([1, 2, (1, 2), (2, 1), (2, 3)]),))
        if r.random() < 0.6 and min(kk) >= 2:
            kw.append("padding=%r" % (r.choice([0, 1, (1, 0), (0, 1), (1, 1)]),))
        if r.random() < 0.3:
            dl = r.choice([1, 2, (1, 2), (2, 1)])
            dd = (dl, dl) if isinstance(dl, int) else dl
            if all(d * (k - 1) + 1 <= z for d, k, z in zip(dd, kk, (h, w))):
                kw.append("dilation=%r" % (dl,))
        if r.random() < 0.4:
            kw.append("ceil_mode=True")
        args = ", ".join([repr(ks)] + kw)
        cs = {"expr": "a.max_pool2d(%s)" % args, "ref": "F.max_pool2d(a, %s)" % args, "ops": [self.e(a)], "tol": 0.0,
              "cfg": {"functions.max_method": r.choice(METHODS)}, "key": "max_pool2d"}
        if r.random() < 0.4 and "ceil_mode=True" not in kw:
            cs["expr"] = "a.max_pool2d(%s, return_indices=True)" % args
            cs["poolidx"] = (kk, args)
        return cs


def one_hot_ok(oh, x, best, dim):
    """oh selects exactly one element along dim (or overall), and it is a best one"""
    if tuple(oh.shape) != tuple(x.shape):
        return "one-hot result has shape %s for input %s" % (tuple(oh.shape), tuple(x.shape))
    if not ((oh == 0) | (oh == 1)).all():
        return "one-hot result has entries other than 0 and 1: %s" % oh.flatten()[:8]
    tot = oh.sum() if dim is None else oh.sum(dim)
    if not (tot == 1).all():
        return "one-hot result selects %s elements" % tot.flatten()[:8].tolist()
    sel = (oh * x).sum() if dim is None else (oh * x).sum(dim)
    if not torch.equal(sel, best):
        return "selected element %s is not the optimum %s" % (sel.flatten()[:6].tolist(), best.flatten()[:6].tolist())


def judge(case, outs):
    if "arg" not in case and "poolidx" not in case:
        return ex.judge(case, outs)
    key = case["key"]
    vals, f = agree(outs)
    if f:
        return Fail(key + "/diverged", "%s on %s" % (f.msg, ex.desc(case)))
    if vals is None:
        e = err_of(outs)
        return Fail(key + "/raises", "raised %s: %s on %s" % (e[1], e[2], ex.desc(case)))
    d = ex.same_everywhere([v["out"] for v in vals])
    if d:
        return Fail(key + "/disagree", d + "; " + ex.desc(case))
    x = case["ops"][0]["t"].double()
    after = vals[0]["after"][0].double()
    if not torch.equal(after, x):
        return Fail(key + "/operand", "operand changed to %s; %s" % (after.flatten()[:6].tolist(), ex.desc(case)))
    out = vals[0]["out"]
    if "poolidx" in case:
        kk, args = case["poolidx"]
        want = eval("F.max_pool2d(x, %s)" % args, {"F": torch.nn.functional, "x": x})
        if len(out) != 2 or tuple(out[0].shape) != tuple(want.shape) or not torch.equal(out[0].double(), want):
            return Fail("max_pool2d/value", "pooled values %s, expected %s; %s" % (str(out)[:200], str(want)[:200], ex.desc(case)))
        win = windows(x, kk, args)
        oh = out[1].double()
        if tuple(oh.shape) != tuple(win.shape):
            return Fail("max_pool2d/index-shape", "indices of shape %s, windows %s; %s" % (tuple(oh.shape), tuple(win.shape), ex.desc(case)))
        m = one_hot_ok(oh.flatten(-2), win.flatten(-2), want, -1)
        return Fail("max_pool2d/index", m + "; " + ex.desc(case)) if m else None
    op, dim, kd, oh = case["arg"]
    sgn = -1 if op.endswith("min") else 1
    best = sgn * ((sgn * x).max() if dim is None else (sgn * x).max(dim)[0])
    bestk = best if dim is None or not kd else best.unsqueeze(dim)
    res = out if isinstance(out, list) else [out]
    if op in ("max", "min"):
        if not torch.is_tensor(res[0]) or tuple(res[0].shape) != tuple(bestk.shape) or not torch.equal(res[0].double(), bestk):
            return Fail(key + "/value", "got %s expected %s; %s" % (res[0], bestk, ex.desc(case)))
        if dim is None:
            return None
        res = res[1:]
    if len(res) != 1:
        return Fail(key + "/form", "unexpected result form; " + ex.desc(case))
    a = res[0].double()
    if oh:
        m = one_hot_ok(a, x, best, dim)
        return Fail(key + "/choice", m + "; " + ex.desc(case)) if m else None
    if tuple(a.shape) != tuple(bestk.shape):
        return Fail(key + "/index-shape", "index shape %s, expected %s; %s" % (tuple(a.shape), tuple(bestk.shape), ex.desc(case)))
    idx = a.long()
    hi = x.numel() if dim is None else x.size(dim)
    if not (idx.double() == a).all() or (idx < 0).any() or (idx >= hi).any():
        return Fail(key + "/index", "invalid index %s; %s" % (a.flatten()[:6].tolist(), ex.desc(case)))
    sel = x.flatten()[idx] if dim is None else x.gather(dim, (idx if kd else idx.unsqueeze(dim)))
    sel = sel if dim is None or kd else sel.squeeze(dim)
    if not torch.equal(sel, bestk):
        return Fail(key + "/index", "index %s selects %s, optimum is %s; %s" % (
            idx.flatten()[:6].tolist(), sel.flatten()[:6].tolist(), bestk.flatten()[:6].tolist(), ex.desc(case)))
    return None


def windows(x, kk, args):
    """plaintext windows of a max pooling, -1e9 where the window covers padding"""
    ns = eval("dict(kernel_size=%s)" % args)
    pr = lambda v: (v, v) if isinstance(v, int) else tuple(v)
    s, p, d = pr(ns.get("stride", kk)), pr(ns.get("padding", 0)), pr(ns.get("dilation", 1))
    y = torch.nn.functional.pad(x, (p[1], p[1], p[0], p[0]), value=-1e9)
    H = (y.size(-2) - d[0] * (kk[0] - 1) - 1) // s[0] + 1
    W = (y.size(-1) - d[1] * (kk[1] - 1) - 1) // s[1] + 1
    out = torch.empty(*x.shape[:-2], H, W, *kk, dtype=x.dtype)
    for i in range(H):
        for j in range(W):
            out[..., i, j, :, :] = y[..., i * s[0]:i * s[0] + d[0] * (kk[0] - 1) + 1:d[0], j * s[1]:j * s[1] + d[1] * (kk[1] - 1) + 1:d[1]]
    return out


FAM = ["cmp"] * 6 + ["unary"] * 3 + ["where"] * 2 + ["maxi"] * 6 + ["pool"] * 3


def check(ctx):
    ctx.rule = ("A case is one comparison/selection/maximum/pooling call with its operands, arguments, method and party configuration; inputs are biased "
                "to ties, one-unit differences and large magnitudes; every element at every party is compared exactly, positions by validity.")
    ctx.assumptions = ["max_pool2d with padding: inputs stay above the library's padding value of -256 per party"]
    jobs = []
    for ws, cfg, k, parts in [(2, None, 2.0, 2), (3, None, 1.0, 2), (1, None, .6, 1), (4, None, .25, 1), (2, {"mpc.provider": "TTP"}, .4, 1)]:
        for p in range(parts):
            lab = "%dPC%s" % (ws, "".join("-" + v for v in (cfg or {}).values())) + (".%d" % p if parts > 1 else "")
            r = ctx.rng(lab)
            g = G(r, ws, cfg)
            n = int(ctx.n(330, 5000) * k / parts)
            order = [FAM[i % len(FAM)] for i in range(n)]
            r.shuffle(order)
            jobs.append(dict(label=lab, ws=ws, cfg=cfg, cases=[getattr(g, f)() if i % 22 else g.maxi(True) for i, f in enumerate(order)], mod="vf.ex", fn="run", judge=judge, sig=ex.sig))
    ctx.drive(jobs, parallel=4)
