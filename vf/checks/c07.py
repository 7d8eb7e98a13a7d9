"""C07: approximated functions.  Oracle: the error against the true function may not exceed the error of the
published iteration carried out in float64 (the inherent approximation error) plus fixed-point noise."""
import math

import torch

from .. import ex
from ..core import Fail, agree, err_of
from ..ex import enc, pub

MIN_EVAL = 150
DEF = {"functions.exp_iterations": 8, "functions.log_iterations": 2, "functions.log_exp_iterations": 8, "functions.log_order": 8,
       "functions.reciprocal_method": "NR", "functions.reciprocal_nr_iters": 10, "functions.reciprocal_initial": None,
       "functions.reciprocal_all_pos": False, "functions.sqrt_nr_iters": 3, "functions.trig_iterations": 10,
       "functions.sigmoid_tanh_method": "reciprocal", "functions.sigmoid_tanh_terms": 32, "functions.erf_iterations": 8,
       "encoder.precision_bits": 16}


class Model:
    """The published iterations in float64."""

    def __init__(self, cfg):
        self.c = dict(DEF)
        self.c.update(cfg or {})

    def __getitem__(self, k):
        return self.c["functions." + k]

    def exp(self, x, it=None):
        it = self["exp_iterations"] if it is None else it
        return (1 + x / 2 ** it) ** (2 ** it)

    def log(self, x, in01=False):
        if in01:
            return self.log(100 * x) - math.log(100)
        y = x / 120 - 20 * self.exp(-2 * x - 1) + 3
        for _ in range(self["log_iterations"]):
            h = 1 - x * self.exp(-y, self["log_exp_iterations"])
            y = y - sum(h ** (k + 1) / (k + 1) for k in range(self["log_order"]))
        return y

    def reciprocal(self, x, in01=False):
        if in01:
            return 64 * self.reciprocal(64 * x)
        s, p = torch.where(x < 0, -1.0, 1.0).double(), x.abs()
        if self["reciprocal_method"] == "log":
            return s * self.exp(-self.log(p))
        r = 3 * self.exp(1 - 2 * p) + 0.003 if self["reciprocal_initial"] is None else torch.full_like(p, self["reciprocal_initial"])
        for _ in range(self["reciprocal_nr_iters"]):
            r = 2 * r - r * r * p
        return s * r

    def inv_sqrt(self, x):
        y = self.exp(-(x / 2 + 0.2)) * 2.2 + 0.2 - x / 1024
        for _ in range(self["sqrt_nr_iters"]):
            y = y * (3 - x * y * y) / 2
        return y

    def sqrt(self, x):
        return x * self.inv_sqrt(x)

    def eix(self, x):
        n = 2 ** self["trig_iterations"]
        z = torch.complex(torch.ones_like(x), x / n)
        z2 = torch.complex(1 - (x / n) ** 2, 2 * x / n)
        for _ in range(self["trig_iterations"] - 1):
            z2 = z2 * z2
        return z2

    def sigmoid(self, x):
        if self["sigmoid_tanh_method"] == "chebyshev":
            return self.tanh(x / 2) / 2 + 0.5
        d = 1 + self.exp(-x.abs())
        r = torch.full_like(d, 0.75)
        for _ in range(3):
            r = 2 * r - r * r * d
        return torch.where(x < 0, 1 - r, r)

    def tanh(self, x):
        if self["sigmoid_tanh_method"] == "reciprocal":
            return 2 * self.sigmoid(2 * x) - 1
        t = self["sigmoid_tanh_terms"]
        k = torch.arange(t).double()
        nodes = torch.cos((k + 0.5) * math.pi / t)
        co = (2 / t) * (torch.tanh(nodes)[None] * torch.cos(torch.outer(k, k + 0.5) * math.pi / t)).sum(1)
        th = torch.acos(x.clamp(-1, 1))
        return sum(co[j] * torch.cos(j * th) for j in range(1, t, 2)).clamp(-1, 1)

    def erf(self, x):
        o = x.clone()
        for n in range(1, self["erf_iterations"] + 1):
            o = o + (-1) ** n / (math.factorial(n) * (2 * n + 1)) * x ** (2 * n + 1)
        return o * 2 / math.sqrt(math.pi)

    def softmax(self, x, dim):
        e = self.exp(x - x.max(dim, keepdim=True)[0])
        return e * self.reciprocal(e.sum(dim, keepdim=True))

    def log_softmax(self, x, dim):
        lg = x - x.max(dim, keepdim=True)[0]
        return lg - self.log(self.exp(lg).sum(dim, keepdim=True))


def run(case):
    return ex.run(case)


# name -> (truth, model, noise in ulps); arguments: m (Model), operands..., kw
def s_exp(m, x, it=None):
    it = m["exp_iterations"] if it is None else it
    return (2 ** it * 1.5 + 2) * torch.exp(x) + 3


def s_log(m, x):
    # error of exp(-y) enters once, times x and the slope of the series
    return 3.0 * 2 ** m["log_exp_iterations"] + 4 * x.abs() + 40


def s_rec(m, x):
    if m["reciprocal_method"] == "log":
        return (s_log(m, x.abs()) + 2 ** m["exp_iterations"] * 1.5) / x.abs() + 4
    return 6 + 4 * x.abs() + 6 / x.abs()


def s_isq(m, x):
    return 8 + 3 * x.abs() + 3 / x.abs()


def s_pow(m, x, p):
    a = x.abs()
    if p < 0:
        r = 1 / a
        return -p * r ** (-p - 1) * s_rec(m, x) + 4 * -p * (1 + r ** -p)
    return 4 * max(p, 1) * (1 + a ** max(p - 1, 0)) * (1 + a)


def m_pow(m, x, p):
    return m.reciprocal(x) ** -p if p < 0 else x ** p


def s_ppow(m, x, p):
    """exp(p * log x)"""
    v = x ** p
    pa = p.abs() if torch.is_tensor(p) else abs(p)
    return s_exp(m, torch.log(v)) + v * (pa * s_log(m, x) + 4 + torch.log(x).abs()) * 1.3


def s_sm(m, x, dim):
    lg = x - x.max(dim, keepdim=True)[0]
    e = torch.exp(lg)
    ne = s_exp(m, lg)
    S, se = e.sum(dim, keepdim=True), ne.sum(dim, keepdim=True)
    ie = s_rec(m, S) + se / S ** 2
    return e * ie + ne / S + 4


def s_lsm(m, x, dim):
    lg = x - x.max(dim, keepdim=True)[0]
    S, se = torch.exp(lg).sum(dim, keepdim=True), s_exp(m, lg).sum(dim, keepdim=True)
    return s_log(m, S) + se / S + 4 + 0 * x


def kd(t, dim, keep):
    return t if dim is None or keep else t.squeeze(dim)


def m_norm(m, x, p, dim, keep):
    def sm(t):
        return t.sum() if dim is None else t.sum(dim, keepdim=keep)

    if p in (2, "fro"):
        return m.sqrt(sm(x * x))
    return m.exp(m.log(sm(x.abs() ** p)) / p)


def s_norm(m, x, p, dim, keep):
    def sm(t):
        return t.sum() if dim is None else t.sum(dim, keepdim=keep)

    if p in (2, "fro"):
        q = sm(x * x)
        n = sm(torch.full_like(x, 4.0))
        return (q + 1) * s_isq(m, q) + n / q.sqrt() + 4
    q = sm(x.abs() ** p)
    n = sm(s_pow(m, x, p))
    return s_ppow(m, q, 1 / p) + n * q ** (1 / p - 1)


def m_poly(m, x, c):
    return sum(c[k] * x ** (k + 1) for k in range(len(c)))


def s_poly(m, x, c):
    a = x.abs()
    k = torch.arange(1, len(c) + 1).double().view(-1, *[1] * x.dim())
    ca = c.double().abs().view(-1, *[1] * x.dim())
    return ((1 + ca) * (4 * k * (1 + a) ** k)).sum(0)


def s_sig(m, x, g=1.0):
    if m["sigmoid_tanh_method"] == "chebyshev":
        return g * (4 + 0 * x)
    return g * (0.3 * 2 ** m["exp_iterations"] * (torch.exp(-x.abs()) + 0.05) + 16)


# name -> (truth, model of the published iteration, noise in ulps)
FUN = {
    "exp": (lambda x: torch.exp(x), lambda m, x: m.exp(x), s_exp),
    "log": (lambda x: torch.log(x), lambda m, x: m.log(x), s_log),
    "log01": (lambda x: torch.log(x), lambda m, x: m.log(x, True), lambda m, x: s_log(m, 100 * x)),
    "reciprocal": (lambda x: 1 / x, lambda m, x: m.reciprocal(x), s_rec),
    "reciprocal01": (lambda x: 1 / x, lambda m, x: m.reciprocal(x, True), lambda m, x: 64 * s_rec(m, 64 * x)),
    "div": (lambda x, y: y / x, lambda m, x, y: y * m.reciprocal(x), lambda m, x, y: ex_abs(y) * s_rec(m, x) + (1 / x).abs() + 4),
    "inv_sqrt": (lambda x: x ** -0.5, lambda m, x: m.inv_sqrt(x), s_isq),
    "sqrt": (lambda x: x ** 0.5, lambda m, x: m.sqrt(x), lambda m, x: (x + 1) * s_isq(m, x)),
    "cos": (torch.cos, lambda m, x: m.eix(x).real, lambda m, x: 2.0 ** m["trig_iterations"] * 2 + x * 0),
    "sin": (torch.sin, lambda m, x: m.eix(x).imag, lambda m, x: 2.0 ** m["trig_iterations"] * 2 + x * 0),
    "sigmoid": (torch.sigmoid, lambda m, x: m.sigmoid(x), s_sig),
    "tanh": (torch.tanh, lambda m, x: m.tanh(x), lambda m, x: s_sig(m, 2 * x, 2.0)),
    "erf": (torch.erf, lambda m, x: m.erf(x), lambda m, x: 8 + 3 * sum(x.abs() ** (2 * n + 1) for n in range(m["erf_iterations"] + 1))),
    "pow": (lambda x, p: x ** p, m_pow, s_pow),
    "pos_pow": (lambda x, p: x ** p, lambda m, x, p: m.exp(p * m.log(x)), s_ppow),
    "softmax": (lambda x, d: torch.softmax(x, d), lambda m, x, d: m.softmax(x, d), s_sm),
    "log_softmax": (lambda x, d: torch.log_softmax(x, d), lambda m, x, d: m.log_softmax(x, d), s_lsm),
    "norm": (lambda x, p, d, k: torch.norm(x, p=p, dim=d, keepdim=k) if d is not None else torch.norm(x, p=p), m_norm, s_norm),
    "poly": (lambda x, c: m_poly(None, x, c), m_poly, s_poly),
}


def ex_abs(y):
    return (y.abs() if torch.is_tensor(y) else abs(y)) + 1


# ------------------------------------------------------------------ generation
def grid(t):
    return ((t.double() * 65536).trunc() / 65536).float()


def pts(r, lo, hi, s, log=False):
    n = 1
    for d in s:
        n *= d
    a, b = (math.log(lo), math.log(hi)) if log else (lo, hi)
    v = []
    for i in range(n):
        u = r.random()
        z = a if u < 0.05 else b if u < 0.1 else r.uniform(a, b)
        z = math.exp(z) if log else z
        v.append(min(max(z, lo), hi))
    x = grid(torch.tensor(v, dtype=torch.float64).view(s))
    if log:
        x = x.clamp(min=math.ceil(lo * 65536) / 65536)
    return x


class G:
    def __init__(self, r, ws, n):
        self.r, self.ws, self.npts = r, ws, n

    def shp(self):
        return self.r.choice([(self.npts,), (2, self.npts // 2), (3, 2, 4), (1,), (), (2, 1, 3), (0,), (5, 1)]) if self.r.random() < 0.5 else (self.npts,)

    def case(self, fam, expr, ops, args, cfg=None, K=1.0, in_key=None):
        return {"fam": fam, "expr": expr, "ops": ops, "args": args, "cfg": cfg or None, "K": K, "key": fam + (in_key or "")}

    def e(self, t):
        return enc(t, src=self.r.randrange(self.ws))

    def gen(self):
        return getattr(self, self.r.choice(KINDS))()

    def f_exp(self):
        r = self.r
        it = r.choice([8, 8, 6, 7, 9, 10])
        x = pts(r, -14, r.choice([2, 6]), self.shp())
        return self.case("exp", "a.exp()", [self.e(x)], [x], {"functions.exp_iterations": it} if it != 8 else None)

    def f_log(self):
        r = self.r
        c = {}
        if r.random() < 0.6:
            c = r.choice([{"functions.log_iterations": 3}, {"functions.log_order": 4}, {"functions.log_order": 6}, {"functions.log_exp_iterations": 9}, {"functions.log_iterations": 1},
                          {"functions.exp_iterations": 9}, {"functions.log_exp_iterations": 7, "functions.log_iterations": 3}])
        K = 8.0 if c.get("functions.log_iterations") == 1 else 1.0
        if r.random() < 0.3:
            x = pts(r, 2e-4, 1, self.shp(), True)
            return self.case("log01", "a.log(input_in_01=True)", [self.e(x)], [x], c, 2 * K)
        x = pts(r, 1e-3, 250, self.shp(), True)
        return self.case("log", "a.log()", [self.e(x)], [x], c, K)

    def f_rec(self):
        r = self.r
        u = r.random()
        if u < 0.2:
            x = pts(r, 0.004, 1, self.shp(), True)
            return self.case("reciprocal01", "a.reciprocal(input_in_01=True)", [self.e(x)], [x])
        if u < 0.35:
            x = pts(r, 0.05, 60, self.shp(), True)
            c = {"functions.reciprocal_method": "log"}
            return self.case("reciprocal", "a.reciprocal()", [self.e(self.sg(x))], None, c, 1.5)
        if u < 0.45:
            x = pts(r, 0.2, 2.2, self.shp(), True)
            c = {"functions.reciprocal_initial": r.choice([0.75, 0.5]), "functions.reciprocal_nr_iters": r.choice([3, 5, 10])}
            return self.case("reciprocal", "a.reciprocal()", [self.e(self.sg(x))], None, c)
        x = pts(r, 0.01, 50, self.shp(), True)
        c = {}
        if r.random() < 0.5:
            c = {"functions.reciprocal_nr_iters": r.choice([8, 9, 11, 12])}
        if r.random() < 0.3:
            c["functions.reciprocal_all_pos"] = True
            return self.case("reciprocal", "a.reciprocal()", [self.e(x)], None, c)
        x = self.sg(x)
        e = r.choice(["a.reciprocal()", "a.__rtruediv__(1)", "a.pow(-1)", "b / a", "b.div(a)", "iop(b, '/', a)"])
        if e[0] in "bi":
            y = pts(r, -9, 9, tuple(x.shape) if e[0] == "i" or r.random() < 0.6 else ())
            return self.case("div", e, [self.e(x), self.e(y)], None, c)
        return self.case("reciprocal", e, [self.e(x)], None, c)

    def f_rdiv(self):
        r = self.r
        x = self.sg(pts(r, 0.05, 40, self.shp(), True))
        k = r.choice([3, -2.5, 0.125, 10])
        return self.case("div", "a.__rtruediv__(%r)" % k, [self.e(x)], [x, k])

    def sg(self, x):
        return x * torch.tensor([self.r.choice([1.0, -1.0]) for _ in range(x.numel())]).view(x.shape) if x.numel() else x

    def f_sqrt(self):
        r = self.r
        x = pts(r, 0.15, 60, self.shp(), True)
        it = r.choice([3, 3, 4, 6, 2])
        f = r.choice(["sqrt", "inv_sqrt"])
        return self.case(f, "a.%s()" % f, [self.e(x)], [x], {"functions.sqrt_nr_iters": it} if it != 3 else None, 2.0)

    def f_trig(self):
        r = self.r
        it = r.choice([10, 10, 8, 9, 11])
        x = pts(r, -10, 10, self.shp())
        c = {"functions.trig_iterations": it} if it != 10 else None
        if r.random() < 0.25:
            return self.case(*r.choice([("cos", "a.cossin()[0]"), ("sin", "a.cossin()[1]")]), [self.e(x)], [x], c)
        f = r.choice(["sin", "cos"])
        return self.case(f, "a.%s()" % f, [self.e(x)], [x], c)

    def f_sig(self):
        r = self.r
        f = r.choice(["sigmoid", "tanh"])
        if r.random() < 0.4:
            w = 2 if f == "sigmoid" else 1
            c = {"functions.sigmoid_tanh_method": "chebyshev"}
            if r.random() < 0.7:
                c["functions.sigmoid_tanh_terms"] = r.choice([6, 8, 10, 16, 24])
            x = pts(r, -w, w, self.shp() or (1,))
            return self.case(f, "a.%s()" % f, [self.e(x)], [x], c)
        c = r.choice([None, None, {"functions.exp_iterations": 9}])
        x = pts(r, -14, 14, self.shp())
        return self.case(f, "a.%s()" % f, [self.e(x)], [x], c)

    def f_erf(self):
        r = self.r
        it = r.choice([8, 3, 4, 5])
        x = pts(r, -1.2, 1.2, self.shp())
        return self.case("erf", "a.erf()", [self.e(x)], [x], {"functions.erf_iterations": it} if it != 8 else None)

    def f_pow(self):
        r = self.r
        u = r.random()
        if u < 0.6:
            p = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, -1, -2, -3, -4, -5])
            if p < 0:
                x = self.sg(pts(r, 0.3, 8, self.shp(), True))
            else:
                x = pts(r, -2.2, 2.2, self.shp())
            pe = "%d" % p if r.random() < 0.7 else "%d.0" % p
            f = r.choice(["a.pow(%s)", "a.__pow__(%s)", "a.pow(%s)", "a.pos_pow(%s)"])
            return self.case("pow", f % pe, [self.e(x)], [x, p], in_key=str(p))
        x = pts(r, 0.1, 12, self.shp(), True)
        if u < 0.85:
            p = r.choice([0.5, 1.5, -0.5, 2.5, 0.25, -1.25])
            return self.case("pos_pow", "a.pos_pow(%r)" % p, [self.e(x)], [x, p])
        p = pts(r, -1.5, 2, tuple(x.shape))
        return self.case("pos_pow", "a.pos_pow(b)", [self.e(x), self.e(p) if r.random() < 0.5 else pub(p)], [x, p.double()])

    def f_soft(self):
        r = self.r
        s = r.choice([(4,), (7,), (2, 5), (3, 2, 4), (6, 3), (2, 1), (1,), (12,), (2, 2, 2, 3)])
        d = r.randrange(-len(s), len(s))
        w = r.choice([2, 6, 20])
        x = pts(r, -w, w, s)
        if r.random() < 0.15:
            x = x * 0 + x.flatten()[0]
        f = r.choice(["softmax", "log_softmax"])
        cf = r.choice([None, None, {"functions.exp_iterations": 9}, {"functions.max_method": r.choice(["pairwise", "log_reduction", "double_log_reduction", "accelerated_cascade"])}])
        if s[d] == 1:
            return self.case(f, "a.%s(%d)" % (f, d), [self.e(x)], [x, d], cf, in_key="1")
        return self.case(f, r.choice(["a.%s(%d)", "a.%s(dim=%d)"]) % (f, d), [self.e(x)], [x, d], cf)

    def f_norm(self):
        r = self.r
        s = r.choice([(4,), (2, 5), (3, 2, 4), (6, 3)])
        x = self.sg(pts(r, 0.5, 2, s, True))
        p = r.choice([2, 2, "fro", 3, 1, float("inf")])
        d, k = (None, False) if r.random() < 0.4 else (r.randrange(-len(s), len(s)), r.random() < 0.5)
        a = [] if p == "fro" and r.random() < 0.5 else ["p=%r" % p if p != float("inf") else "p=float('inf')"]
        if d is not None:
            a += ["dim=%d" % d] + (["keepdim=%r" % k] if k or r.random() < 0.3 else [])
        return self.case("norm", "a.norm(%s)" % ", ".join(a), [self.e(x)], [x, p, d, k], in_key=str(p))

    def f_poly(self):
        r = self.r
        n = r.choice([1, 2, 3, 4, 5, 7, 8, 9])
        x = pts(r, -1.5, 1.5, self.shp())
        c = pts(r, -2, 2, (n,))
        k = r.random()
        if k < 0.4:
            return self.case("poly", "a.polynomial(%r)" % [float(v) for v in c], [self.e(x)], [x, c.double()], in_key="list")
        return self.case("poly", "a.polynomial(b)", [self.e(x), pub(c) if k < 0.7 else self.e(c)], [x, c.double()], in_key="t")


KINDS = ["f_exp"] * 3 + ["f_log"] * 3 + ["f_rec"] * 6 + ["f_rdiv"] + ["f_sqrt"] * 3 + ["f_trig"] * 3 + ["f_sig"] * 4 + ["f_erf"] * 2 + ["f_pow"] * 4 + ["f_soft"] * 5 + ["f_norm"] * 3 + ["f_poly"] * 2
SLACK = {1: 2.0, 2: 2.2, 3: 4.0, 4: 5.5}


def margin(case, outs, ws):
    vals = [o[1] for o in outs]
    m = Model(case["cfg"])
    args = case["args"] if case["args"] is not None else [o["t"] for o in case["ops"]]
    args = [a.double() if torch.is_tensor(a) else a for a in args]
    truth, model, noise = FUN[case["fam"]]
    t = truth(*args)
    got = vals[0]["out"]
    if not torch.is_tensor(got) or tuple(got.shape) != tuple(t.shape):
        return t, got, None, None
    if case["fam"] == "norm" and args[1] in (1, float("inf")):
        em, nz = torch.zeros_like(t), torch.zeros_like(t)
    elif case["fam"].endswith("softmax") and args[0].size(args[1]) == 1:
        em, nz = torch.zeros_like(t), torch.zeros_like(t)
    else:
        em, nz = (model(m, *args) - t).abs(), noise(m, *args) + 0 * t
    return t, got, em, nz


def judge(case, outs):
    ws = len(outs)
    key = case["key"]
    vals, f = agree(outs)
    if f:
        return Fail(key + "/diverged", "%s on %s" % (f.msg, ex.desc(case)))
    if vals is None:
        e = err_of(outs)
        return Fail(key + "/raises", "raised %s: %s on %s" % (e[1], e[2], ex.desc(case)))
    d = ex.same_everywhere([v["out"] for v in vals])
    if d:
        return Fail(key + "/disagree", "%s; %s" % (d, ex.desc(case)))
    t, got, em, nz = margin(case, outs, ws)
    if em is None:
        return Fail(key + "/shape", "got %s expected shape %s on %s" % (getattr(got, "shape", got), tuple(t.shape), ex.desc(case)))
    bound = 1.1 * em + SLACK[ws] * case["K"] * nz * 2.0 ** -16 + 2.0 ** -22 * t.abs()
    err = (got.double() - t).abs()
    bad = ~(err <= bound)
    if bad.any():
        i = int(bad.flatten().nonzero()[0])
        return Fail(key + "/value", "element %d: got %.7g, true value %.7g, allowed error %.3g (inherent %.3g) on %s operands at that point %s" % (
            i, got.flatten()[i], t.flatten()[i], bound.flatten()[i], em.flatten()[i], ex.desc(case),
            [float(o["t"].flatten()[i]) for o in case["ops"] if isinstance(o, dict) and torch.is_tensor(o["t"]) and o["t"].shape == t.shape]))
    for i, (av, sp) in enumerate(zip(vals[0]["after"], case["ops"])):
        if av is None or (case["expr"].startswith("iop") and i == 1):
            continue
        if not torch.equal(av.double(), sp["t"].double()):
            return Fail(key + "/operand", "operand %d was changed by %s" % (i, ex.desc(case)))
    if not all(all(v["pub_same"]) for v in vals):
        return Fail(key + "/public", "public operand was changed by %s" % ex.desc(case))
    return None


def check(ctx):
    ctx.rule = ("A case is one function call (function, call form, configuration, operand shape) on a tensor of random points of the working domain, end points included; every element is "
                "compared with the float64 function.  Allowed error: 1.1 x error of the published iteration in float64 + calibrated fixed-point noise.")
    ctx.assumptions = ["working domains: log [1e-3,250], reciprocal +-[0.01,50] and [0.004,1] with input_in_01, square roots [0.15,60], trigonometric [-10,10], exp [-14,6], chebyshev [-1,1], erf [-1.2,1.2]"]
    jobs = []
    for ws, cfg, n in [(2, None, 260), (3, None, 140), (1, None, 60), (2, {"mpc.provider": "TTP"}, 40), (3, {"mpc.protocol": "replicated"}, 60), (4, None, 30)]:
        lab = "%dPC %s" % (ws, " ".join(map(str, (cfg or {}).values())))
        r = ctx.rng(lab)
        g = G(r, ws, 40)
        n = ctx.n(n, n * 25)
        # every kind at least once
        cases = [getattr(g, k)() for k in sorted(set(KINDS))] + [g.gen() for _ in range(n)]
        jobs.append(dict(label=lab, ws=ws, cfg=cfg, cases=cases, mod="vf.ex", fn="run", judge=judge, sig=ex.sig))
    ctx.drive(jobs, parallel=4)
