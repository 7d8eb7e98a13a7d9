"""C02: linear and bilinear arithmetic against float64 with an analytic fixed-point error bound."""
import torch

from .. import ex
from ..ex import enc, pub
from ..gen import ULP, broadcastable, grid, ints, shape

MIN_EVAL = 300


def conv_ref(kind, a, b, kw):
    return getattr(torch.nn.functional, kind)(a, b, **kw)


class G:
    """Case generator for one configuration."""

    def __init__(self, r, ws, cfg):
        self.r, self.ws = r, ws
        self.rep = bool(cfg) and cfg.get("mpc.protocol") == "replicated"
        # rounding of one truncation; the wrap-count correction is inexact for divisors that are no power of two
        self.u = ULP * (2 if ws <= 2 or self.rep else ws + 1)
        self.ud = ULP * (2 if ws <= 2 or self.rep else 5 * ws + 2)

    def src(self):
        return self.r.randrange(self.ws)

    def e(self, t, **k):
        return enc(t, src=self.src(), **k)

    def case(self, expr, ops, tol, ref=None, key=None, **k):
        if self.r.random() < 0.2:  # memory layouts that are not contiguous
            ops = [dict(o, lay=self.r.choice([0, 1, 1, 2])) if torch.is_tensor(o["t"]) else o for o in ops]
        c = {"expr": expr, "ops": ops, "tol": tol, "key": key or expr.split("(")[0][:40]}
        if ref:
            c["ref"] = ref
        c.update(k)
        return c

    def operand(self, t, public=None):
        """enc or public, in several public forms"""
        if public is None:
            public = self.r.random() < 0.35
        return pub(t) if public else self.e(t)

    # ---- exact operations
    def addsub(self):
        r = self.r
        s = shape(r)
        big = r.random() < 0.3
        lim = 2.0 ** 20 if big else 30.0
        bits = 3 if big else 16
        a = grid(r, s, -lim, lim, bits)
        k = r.random()
        if k < 0.25:
            y = pub(r.choice([3, -7, 0, 1.5, -0.25, 100, -1, 2.0]))
        else:
            y = self.operand(grid(r, broadcastable(r, s), -lim, lim, bits))
            if k < 0.35 and y["k"] == "pub":
                y = pub(ints(r, broadcastable(r, s), -50, 50))
        e = r.choice(["a+b", "a-b", "b+a", "b-a", "a.add(b)", "a.sub(b)"])
        if y["k"] == "pub" and torch.is_tensor(y["t"]) and e[0] == "b":
            e = r.choice(["a+b", "a-b"])
        return self.case(e, [self.e(a), y], 0.0, key="addsub")

    def addsub_inplace(self):
        r = self.r
        s = shape(r)
        a = grid(r, s, -30, 30)
        t = grid(r, s if r.random() < 0.6 else tuple(1 if r.random() < 0.5 else d for d in s), -30, 30)
        y = pub(r.choice([3, -2.5, 0])) if r.random() < 0.2 else self.operand(t)
        e, f = r.choice([("iop(a,'+',b)", None), ("iop(a,'-',b)", None), ("a.add_(b)", None), ("a.sub_(b)", None)])
        return self.case(e, [self.e(a), y], 0.0, key="inplace-addsub")

    def unary(self):
        r = self.r
        s = shape(r, mindim=1)
        a = grid(r, s, -2.0 ** 20, 2.0 ** 20, 2)
        d = r.randrange(-len(s), len(s))
        kd = r.random() < 0.5
        e = r.choice(["-a", "a.neg()", "a.sum()", "a.sum(%d)" % d, "a.sum(%d,keepdim=%s)" % (d, kd), "a.cumsum(%d)" % d,
                      "a.sum(dim=%d)" % d])
        if len(s) >= 2 and r.random() < 0.2:
            i, j = r.sample(range(len(s)), 2)
            e = "a.sum((%d,%d))" % (i, j)
        if e == "a.sum()" and r.random() < 0.3:
            n = r.choice([1, 2, 4])
            return self.case("a.trace()", [self.e(grid(r, (n, n), -1000, 1000, 8))], 0.0, key="trace")
        return self.case(e, [self.e(a)], 0.0, key=e.split("(")[0])

    def intmul(self):
        r = self.r
        a = grid(r, shape(r), -100, 100)
        k = r.choice([0, 1, -1, 2, 3, -5, 7, 100, 12345, -4096])
        return self.case(r.choice(["a*%d", "%d*a", "a.mul(%d)"]) % k, [self.e(a)], 0.0, key="int-mul")

    # ---- one truncation
    def mul(self):
        r = self.r
        s = shape(r)
        lim = r.choice([1.0, 8.0, 8.0, 25.0])
        a = grid(r, s, -lim, lim)
        if r.random() < 0.12:
            y = pub(r.choice([0.5, -1.25, 3.0, 0.0, -0.0078125]))
        elif r.random() < 0.1:
            y = pub(ints(r, broadcastable(r, s), -20, 20))
        else:
            y = self.operand(grid(r, broadcastable(r, s), -lim, lim))
        if y["k"] == "enc":
            e = r.choice(["a*b", "a.mul(b)", "b*a"])
        else:
            e = r.choice(["a*b", "a.mul(b)"] + (["b*a"] if not torch.is_tensor(y["t"]) else []))
        return self.case(e, [self.e(a), y], self.u, key="mul")

    def mul_inplace(self):
        r = self.r
        s = shape(r)
        a = grid(r, s, -8, 8)
        t = grid(r, s if r.random() < 0.6 else tuple(1 if r.random() < 0.5 else d for d in s), -8, 8)
        return self.case(r.choice(["iop(a,'*',b)", "a.mul_(b)"]), [self.e(a), self.operand(t)], self.u, key="inplace-mul")

    def square(self):
        r = self.r
        return self.case(r.choice(["a.square()", "a*a", "a.square_()", "a.mul(a)"]), [self.e(grid(r, shape(r), -20, 20))], self.u,
                         key="square", no_after=False)

    def div(self):
        r = self.r
        s = shape(r)
        a = grid(r, s, -30, 30)
        k = r.random()
        if k < 0.4:
            y = r.choice([2, 3, 7, 10, 1, 1.0, 4.0, 6.0, 100, 1000])
            tol = self.ud
            y = pub(y)
        elif k < 0.6:
            y = pub(ints(r, broadcastable(r, s), 1, 20))
            tol = self.ud
        else:
            v = grid(r, broadcastable(r, s), 0.25, 8)
            if k < 0.75:
                y = pub(r.choice([0.5, 1.5, 2.5, 0.3, 7.7]))
            else:
                y = pub(v if r.random() < 0.7 else -v)
            tol = self.u + 31 * ULP
        e = r.choice(["a/b", "a.div(b)"])
        if not torch.is_tensor(y["t"]) and r.random() < 0.3:
            e = r.choice(["iop(a,'/',b)", "a.div_(b)"])
        return self.case(e, [self.e(a), y], tol, key="div")

    def matmul(self):
        r = self.r
        n, m, k = (r.choice([1, 2, 3, 5]) for _ in range(3))
        form = r.choice(["mm", "mm", "mm", "bmm", "mv", "vm", "vv", "bbc"])
        sa, sb = {"mm": ((n, m), (m, k)), "bmm": ((2, n, m), (2, m, k)), "mv": ((n, m), (m,)), "vm": ((m,), (m, k)),
                  "vv": ((m,), (m,)), "bbc": ((3, n, m), (m, k))}[form]
        lim = 4.0
        return self.case(r.choice(["a.matmul(b)", "a@b"]), [self.e(grid(r, sa, -lim, lim)), self.operand(grid(r, sb, -lim, lim))],
                         self.u, key="matmul")

    def vec(self):
        r = self.r
        n, m = r.choice([1, 2, 5]), r.choice([1, 3, 4])
        a = grid(r, (n,), -5, 5)
        k = r.random()
        if k < 0.3:
            return self.case("a.dot(b)", [self.e(a), self.operand(grid(r, (n,), -5, 5))], n * self.u, key="dot")
        if k < 0.5:
            return self.case("a.dot(b,weights=c)", [self.e(a), self.e(grid(r, (n,), -5, 5)), self.e(grid(r, (n,), -1, 1))],
                             n * 8 * self.u, ref="(a*b*c).sum()", key="dot-w")
        return self.case("a.ger(b)", [self.e(a), self.operand(grid(r, (m,), -5, 5))], self.u, key="ger")

    def conv(self):
        r = self.r
        nd = r.choice([1, 2])
        tr = r.random() < 0.4
        groups = r.choice([1, 1, 2])
        cin = groups * r.choice([1, 2])
        cout = groups * r.choice([1, 2])
        ks = [r.choice([1, 2, 3]) for _ in range(nd)]
        dil = [r.choice([1, 1, 2]) for _ in range(nd)]
        st = [r.choice([1, 2, 3]) for _ in range(nd)]
        pd = [r.choice([0, 0, 1, 2]) for _ in range(nd)]
        sz = [d * (k - 1) + 1 + r.choice([0, 1, 2, 3]) for k, d in zip(ks, dil)]
        if tr:
            sz = [r.choice([2, 3]) for _ in ks]
            pd = [min(p, d * (k - 1)) for p, d, k in zip(pd, dil, ks)]
        x = grid(r, (r.choice([1, 2]), cin, *sz), -2, 2)
        w = grid(r, ((cin, cout // groups) if tr else (cout, cin // groups)) + tuple(ks), -2, 2)
        kw = {}
        one = lambda v: v[0] if nd == 1 or (len(set(v)) == 1 and r.random() < 0.5) else tuple(v)
        if r.random() < 0.7:
            kw["stride"] = one(st)
        if r.random() < 0.7:
            kw["padding"] = one(pd)
        if r.random() < 0.5:
            kw["dilation"] = one(dil)
        elif any(d > 1 for d in dil) and not tr:
            pass
        if groups > 1:
            kw["groups"] = groups
        if tr and r.random() < 0.4 and "stride" in kw:
            op = [r.randrange(0, max(1, s)) for s in st]
            kw["output_padding"] = tuple(op) if nd == 2 else op[0]
        if tr:
            # output sizes must be positive
            dl = dil if "dilation" in kw else [1] * nd
            s_ = st if "stride" in kw else [1] * nd
            p_ = pd if "padding" in kw else [0] * nd
            if any((z - 1) * a - 2 * p + d * (k - 1) + 1 < 1 for z, a, p, d, k in zip(sz, s_, p_, dl, ks)):
                kw.pop("padding", None)
        name = "conv_transpose%dd" % nd if tr else "conv%dd" % nd
        args = ", ".join("%s=%r" % kv for kv in kw.items())
        return self.case("a.%s(b%s)" % (name, ", " + args if args else ""), [self.e(x), self.operand(w)], self.u,
                         ref="F.%s(a, b%s)" % (name, ", " + args if args else ""), key=name)

    def mean(self):
        r = self.r
        s = shape(r, mindim=1)
        a = grid(r, s, -30, 30)
        d = r.randrange(-len(s), len(s))
        kd = r.random() < 0.5
        n = s[d]
        k = r.random()
        if k < 0.3:
            return self.case(r.choice(["a.mean()", "a.mean(%d)" % d, "a.mean(%d,keepdim=%s)" % (d, kd), "a.mean(dim=%d)" % d]),
                             [self.e(a)], self.ud, key="mean")
        if k < 0.5:
            tot = a.numel()
            un = r.random() < 0.5
            if r.random() < 0.4 or n < 2:
                if tot < 2:
                    return self.mean()
                e = "a.var(unbiased=%s)" % un if r.random() < 0.7 else "a.var()"
            else:
                e = r.choice(["a.var(%d,unbiased=%s)" % (d, un), "a.var(%d,%s,%s)" % (d, un, kd), "a.var(%d,keepdim=%s)" % (d, kd)])
            ref = e.replace("a.var(%d,%s,%s)" % (d, un, kd), "a.var(%d,unbiased=%s,keepdim=%s)" % (d, un, kd))
            a = grid(r, s, -4, 4)
            # the mean is off by ud: n * ud^2 is negligible, each square adds u plus 2 |x - m| ud
            return self.case(e, [self.e(a)], 2 * self.u + 40 * self.ud, ref=ref, key="var")
        if k < 0.65:
            a = grid(r, s, -2, 2)
            e = r.choice(["a.prod(%d)" % d, "a.prod(%d,keepdim=%s)" % (d, kd), "a.prod(dim=%d)" % d])
            return self.case(e, [self.e(a)], 24 * self.u, key="prod")
        b, c, h, w = r.choice([1, 2]), r.choice([1, 2]), r.choice([4, 5, 6]), r.choice([4, 5, 7])
        a = grid(r, (b, c, h, w), -20, 20)
        if r.random() < 0.25:
            o = r.choice([1, 2, (1, 2), (2, 3), (h, w), (3, 1), (None, 2), (3, None), (h + 2, 3), (2, 25)])
            return self.case("a.adaptive_avg_pool2d(%r)" % (o,), [self.e(a)], 4 * self.ud, ref="F.adaptive_avg_pool2d(a,%r)" % (o,),
                             key="adaptive_avg_pool2d")
        ks = r.choice([1, 2, 3, (2, 3), (3, 1), (2, 2)])
        kw = []
        if r.random() < 0.6:
            kw.append("stride=%r" % (r.choice([1, 2, 3, (1, 2), (2, 1)]),))
        if r.random() < 0.4 and ks not in (1, (3, 1)):
            kw.append("padding=%r" % (r.choice([0, 1, (1, 0), (0, 1)]),))
        args = ", ".join([repr(ks)] + kw)
        return self.case("a.avg_pool2d(%s)" % args, [self.e(a)], self.ud, ref="F.avg_pool2d(a, %s)" % args, key="avg_pool2d")

    def mixed(self):
        """operands of different precision"""
        r = self.r
        s = shape(r)
        pa, pb = r.choice([(0, None), (None, 0), (8, 16), (16, 8), (16, 20), (20, 16), (0, 0), (8, 8), (20, 20), (0, 8), (12, None)])
        ba, bb = (16 if p is None else p for p in (pa, pb))
        a, b = grid(r, s, -6, 6, ba), grid(r, broadcastable(r, s), -6, 6, bb)
        fine, coarse = max(ba, bb), min(ba, bb)
        k = r.random()
        nr = 2 if self.ws <= 2 or self.rep else self.ws + 1
        if k < 0.2:
            # integer-encoded tensor with a fractional public value
            y = pub(r.choice([0.5, -2.25, 1.0, 3])) if r.random() < 0.4 else pub(grid(r, broadcastable(r, s), -6, 6))
            e = r.choice(["a*b", "a+b", "a-b"] + ([] if torch.is_tensor(y["t"]) else ["b*a", "b-a"]))
            return self.case(e, [self.e(grid(r, s, -6, 6, 0), precision=0), y], 0.0, key="mixed-public")
        if k < 0.4:
            return self.case(r.choice(["a+b", "a-b", "b-a"]), [self.e(a, precision=pa), self.e(b, precision=pb)], 0.0, key="mixed-add")
        if k < 0.8:
            return self.case(r.choice(["a*b", "b*a"]), [self.e(a, precision=pa), self.e(b, precision=pb)],
                             0.0 if coarse == 0 else nr * 2.0 ** -fine, key="mixed-mul")
        n = r.choice([1, 2, 3])
        return self.case("a.matmul(b)", [self.e(grid(r, (2, n), -6, 6, ba), precision=pa), self.e(grid(r, (n, 2), -6, 6, bb), precision=pb)],
                         0.0 if coarse == 0 else nr * 2.0 ** -fine, key="mixed-matmul")

    def compose(self):
        r = self.r
        s = shape(r, mindim=1)
        es = ["(a+b)*c", "a*b-c", "(a-b)*(a+b)", "a*b+b*c+c*a", "-(a*b)/4+c", "(a+1)*(b-2)*c", "2*a-b*3+c*0.5", "(a*b).sum()-c"]
        e = r.choice(es)
        ops = [self.e(grid(r, s, -3, 3)), self.operand(grid(r, s, -3, 3)), self.e(grid(r, s, -3, 3))]
        if e.startswith("(a+1)*(b-2)") or e.startswith("a*b+b*c") or e.startswith("2*a"):
            ops[1] = self.e(ops[1]["t"])
        return self.case(e, ops, 64 * self.u * (8 if "sum" in e else 1), key="compose:" + e)


FAM = ["addsub"] * 3 + ["addsub_inplace"] * 2 + ["unary"] * 3 + ["intmul"] + ["mul"] * 4 + ["mul_inplace"] + ["square"] * 2 + \
    ["div"] * 3 + ["matmul"] * 3 + ["vec"] * 2 + ["conv"] * 6 + ["mean"] * 5 + ["mixed"] * 3 + ["compose"] * 2


def jobs(ctx):
    for ws, cfg, k in [(2, None, 2.2), (3, None, 1.3), (1, None, .6), (4, None, .5), (3, {"mpc.protocol": "replicated"}, 1.0),
                       (2, {"mpc.provider": "TTP"}, .7), (3, {"mpc.provider": "TTP"}, .3)]:
        lab = "%dPC%s" % (ws, "".join("-" + v for v in (cfg or {}).values()))
        r = ctx.rng(lab)
        g = G(r, ws, cfg)
        n = int(ctx.n(330, 9000) * k)
        order = [FAM[i % len(FAM)] for i in range(n)]
        r.shuffle(order)
        yield dict(label=lab, ws=ws, cfg=cfg, cases=[getattr(g, f)() for f in order], mod="vf.ex", fn="run", judge=ex.judge, sig=ex.sig)


def check(ctx):
    ctx.rule = ("A case is one operator application (operator, operands with shape/values/precision/source/public form, keyword arguments) "
                "on one party configuration; every element decrypted at every party is compared with float64 torch under an error bound "
                "derived from the number of truncations.")
    ctx.assumptions = ["pre-truncation values stay below 2^46, so the documented truncation wrap probability is below 2^-17 per element",
                       "replicated sharing is used with three parties (its only supported setting)"]
    ctx.drive(jobs(ctx))
