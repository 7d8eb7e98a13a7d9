"""C25: evaluates expressions with validation and debug mode off and on and compares results, gradients and attributes; then corrupts the
result of single operations - a value, the order, the shape, on one party's share - and requires every party to be told."""
import torch

from ..core import Fail, agree

ME = "vf.checks.c25"
MIN_EVAL = 100

# expressions over x, y (3x4), p (positive 3x4), c (4x2), i (0/1 3x4) encrypted and B, P, C, I public
LINEAR = ["x + y", "x + B", "x + 2", "2 + x", "x - y", "x - B", "3 - x", "x * y", "x * B", "x * 2", "x * 1.5", "-x", "x / 2", "x.div(4)", "x.add(y)", "x.sub(1)", "x.mul(3)", "x.neg()", "x.square()", "x.pow(2)", "x @ c", "x.matmul(c)", "x @ C",
          "x.t()", "x.transpose(0, 1)", "x.permute((1, 0))", "x.view(4, 3)", "x.view(-1)", "x.reshape(2, 6)", "x.flatten()", "x.unsqueeze(0)", "x.unsqueeze(0).squeeze(0)", "x.unsqueeze(1).squeeze()", "x.sum()", "x.sum(0)", "x.sum(dim=1)", "x.sum(1, keepdim=True)", "x.mean()", "x.mean(0)", "x.mean(1, keepdim=True)",
          "x.cumsum(0)", "x.cumsum(dim=1)", "x[:3, :3].trace()", "x[0]", "x[:, 1]", "x[1:, ::2]", "x[0, 0].expand(2)", "x.expand(2, 3, 4)", "x.repeat(2, 1)", "x.roll(1, 0)", "x.roll(1)", "x.flip(0)", "x.flip((0, 1))", "x.split(2)", "x.chunk(2) if hasattr(x, 'chunk') else x", "x.unbind(0)", "x.gather(0, torch.tensor([[0, 1, 2, 0]]))",
          "x.scatter(0, torch.tensor([[0, 1, 2, 0]]), y)", "x.scatter_add(0, torch.tensor([[0, 1, 2, 0]]), y)", "x.index_select(0, torch.tensor([0, 2]))", "x.index_add(0, torch.tensor([0, 2]), y[:2])", "x.take(torch.tensor([0, 5]))", "x.narrow(0, 0, 2)", "x.where(I.bool(), y)", "x.where(i, y)", "x.where(I, B)", "x.clone()", "x.detach()",
          "x.dot(y)", "x[0].dot(y[0])", "x[0].ger(y[0])", "x.pad((1, 1), value=2)", "crypten.cat([x, y])", "crypten.stack([x, y], dim=1)", "crypten.where(I.bool(), x, y)", "x.view(1, 1, 3, 4).avg_pool2d(2)", "x.view(1, 3, 4).conv1d(y.view(1, 3, 4))", "x.view(1, 1, 3, 4).conv2d(c.view(1, 1, 4, 2)[:, :, :2])", "x.dropout(p=0.0)", "x.dropout(p=.5, training=False)", "x.size()", "x.size(0)", "x.dim()",
          "x.nelement()", "x.numel()", "x.shape", "x.device", "x.requires_grad", "x.grad", "x.is_cuda", "x.cpu()", "x.to('cpu')", "x.ptype", "x.shallow_copy()", "x.get_plain_text()", "x.to(crypten.mpc.binary).to(crypten.mpc.arithmetic)", "x.var(0)", "x.var()", "x.var(1, unbiased=False)", "x.prod(0)", "x.new([1., 2.])", "len([q for q in [x] if crypten.is_encrypted_tensor(q)])",
          "x / P", "x / 1.7", "x.polynomial([1, 2])", "p.sub(y).add(x).mul(c.sum())"]
COMPARE = ["x > y", "x < y", "x >= 0", "x <= 0", "x == y", "x != y", "x.gt(B)", "x.lt(0)", "x.ge(y)", "x.le(y)", "x.eq(x)", "x.ne(x)", "x.relu()", "x.abs()", "x.sign()", "x.max()", "x.min()", "x.max(0)", "x.max(dim=1)", "x.min(1)", "x.max(1, keepdim=True)", "x.argmax(1)", "x.argmax(dim=1, keepdim=True, one_hot=False)", "x.argmin(0)", "x.argmin(one_hot=False)",
           "x.max(1, one_hot=False)", "x.hardtanh()", "x.relu6()", "x.view(1, 1, 3, 4).max_pool2d(2)", "x.view(1, 1, 3, 4).max_pool2d(2, return_indices=True)", "i.cross_entropy(i)", "x.gt(0).sum()", "(x > 0) * y", "x.weighted_index(1).size()", "i.bernoulli()"]
APPROX = ["x.sigmoid()", "x.tanh()", "x.softmax(1)", "x.log_softmax(1)", "x.exp()", "p.log()", "p.sqrt()", "p.inv_sqrt()", "p.reciprocal()", "x.cos()", "x.sin()", "x.cossin()", "(x * .3).erf()", "x.norm()", "x.norm(dim=0)", "p.pow(-1)", "x / p", "x.pow(3)", "p.log(input_in_01=False)", "x.binary_cross_entropy_with_logits(i)", "x.sigmoid().binary_cross_entropy(i)", "x.softmax(1).sum(1)", "x.prod(1)[:1]"]
INPLACE = ["x.add_(y)", "x.mul_(2)", "x.sub_(y)", "x.div_(2)", "x.neg_()", "x.relu_()", "x.abs_()", "x.square_()", "x.copy_(y)", "iadd(x, y)", "imul(x, y)", "isub(x, B)", "setit(x, 1, y[0])", "setit(x, 0, B[0])", "x.mul_(x)", "x.exp_()", "x.add_(x).mul_(B)", "x.sigmoid_()"]
MODELS = ["mlp", "conv", "steps"]

# single operations whose result is corrupted: (name, call)
TARGETS = [("add", "x.add(y)"), ("add", "x + B"), ("sub", "x.sub(y)"), ("mul", "x.mul(y)"), ("mul", "x * 2"), ("div", "x.div(4)"), ("div", "x / 1.7"), ("neg", "-x"), ("neg", "x.neg()"), ("matmul", "x.matmul(c)"), ("matmul", "x @ C"), ("abs", "x.abs()"), ("sign", "x.sign()"), ("square", "x.square()"), ("pow", "x.pow(2)"), ("t", "x.t()"), ("transpose", "x.transpose(0, 1)"),
           ("permute", "x.permute((1, 0))"), ("view", "x.view(4, 3)"), ("reshape", "x.reshape(2, 6)"), ("flatten", "x.flatten()"), ("unsqueeze", "x.unsqueeze(0)"), ("squeeze", "x.squeeze(0)"), ("sum", "x.sum()"), ("sum", "x.sum(0)"), ("mean", "x.mean(1)"), ("var", "x.var(0)"), ("prod", "x.prod(0)"), ("cumsum", "x.cumsum(0)"), ("expand", "x.expand(2, 3, 4)"), ("repeat", "x.repeat(2, 1)"),
           ("roll", "x.roll(1, 0)"), ("flip", "x.flip(0)"), ("gather", "x.gather(0, torch.tensor([[0, 1, 2, 0]]))"), ("scatter", "x.scatter(0, torch.tensor([[0, 1, 2, 0]]), y)"), ("scatter_add", "x.scatter_add(0, torch.tensor([[0, 1, 2, 0]]), y)"), ("index_select", "x.index_select(0, torch.tensor([0, 2]))"), ("index_add", "x.index_add(0, torch.tensor([0, 2]), y[:2])"), ("take", "x.take(torch.tensor([0, 5]))"),
           ("narrow", "x.narrow(0, 0, 2)"), ("where", "x.where(I.bool(), y)"), ("where", "x.where(i, y)"), ("clone", "x.clone()"), ("dot", "x.dot(y)"), ("gt", "x.gt(y)"), ("lt", "x.lt(0)"), ("ge", "x.ge(y)"), ("le", "x.le(B)"), ("eq", "x.eq(y)"), ("ne", "x.ne(y)"), ("relu", "x.relu()"), ("max", "x.max()"), ("min", "x.min()"), ("sigmoid", "x.sigmoid()"), ("tanh", "x.tanh()"), ("softmax", "x.softmax(1)"),
           ("log_softmax", "x.log_softmax(1)"), ("exp", "x.exp()"), ("log", "p.log()"), ("sqrt", "p.sqrt()"), ("reciprocal", "p.reciprocal()"), ("cos", "x.cos()"), ("sin", "x.sin()"), ("erf", "x.erf()"), ("norm", "x.norm()"), ("trace", "q.trace()"), ("ger", "v.ger(v)"),
           ("add", "x.add_(y)"), ("mul", "x.mul_(2)"), ("neg", "x.neg_()"), ("relu", "x.relu_()"), ("square", "x.square_()"), ("add", "iadd(x, y)"), ("sub", "x.sub_(B)"), ("div", "x.div_(2)")]


def iadd(a, b):
    a += b
    return a


def imul(a, b):
    a *= b
    return a


def isub(a, b):
    a -= b
    return a


def setit(a, k, v):
    a[k] = v
    return a


def env_of(case, grad):
    import crypten

    e = dict(torch=torch, crypten=crypten, iadd=iadd, imul=imul, isub=isub, setit=setit)
    d = case["data"]
    e.update(B=d["y"].clone(), P=d["p"].clone(), C=d["c"].clone(), I=d["i"].clone())
    for n in "xypci":
        e[n] = crypten.cryptensor(d[n], src=case["src"], requires_grad=grad)
    e["q"] = crypten.cryptensor(d["x"][:3, :3], src=case["src"], requires_grad=grad)
    e["v"] = crypten.cryptensor(d["x"][0], src=case["src"], requires_grad=grad)
    return e


def plain(v):
    import crypten

    if crypten.is_encrypted_tensor(v):
        return ("enc", v.get_plain_text(), bool(v.requires_grad))
    if isinstance(v, torch.Size):
        return ("size", list(v))
    if isinstance(v, (tuple, list)):
        return ("seq", [plain(q) for q in v])
    if torch.is_tensor(v):
        return ("pub", v.clone())
    if callable(v) and not isinstance(v, type):
        return ("callable",)
    return ("obj", repr(v)[:60])


def evaluate(case, mode):
    """One evaluation under the given settings; the harness itself decrypts with the settings off."""
    import crypten
    from crypten.config import cfg

    off = {"debug.validation_mode": False, "debug.debug_mode": False}
    on = {"debug.validation_mode": "v" in mode, "debug.debug_mode": "d" in mode}
    try:
        with cfg.temp_override(off):
            if case["kind"] != "model":
                e = env_of(case, case["grad"])
        with cfg.temp_override(on):
            if case["kind"] == "model":
                out = model(case, crypten, cfg, off)
            else:
                v = eval(case["expr"], dict(e))
                grads = None
                if case["grad"] and crypten.is_encrypted_tensor(v) and v.requires_grad:
                    (v if v.nelement() == 1 else v.sum()).backward()
                    grads = [e[n].grad for n in "xypci"]
                if case["grad"] is False and not v is e["x"]:
                    pass
            same = cfg.debug.validation_mode == on["debug.validation_mode"] and cfg.debug.debug_mode == on["debug.debug_mode"]
            if not same:
                return ("settings",)
        with cfg.temp_override(off):
            if case["kind"] == "model":
                return ("ok", out)
            return ("ok", [plain(v), [None if g is None else plain(g) for g in grads or []], [plain(e[n]) for n in "xypc"]])
    except Exception as ex:
        return ("err", type(ex).__name__, str(ex)[:200])


def model(case, crypten, cfg, off):
    import crypten.nn as nn

    d = case["data"]
    g = torch.Generator().manual_seed(case["seed"])
    if case["expr"] == "conv":
        m = nn.Sequential(nn.Conv2d(1, 2, 2), nn.ReLU(), nn.AvgPool2d(2), nn.Flatten(), nn.Linear(2, 2))
        x = d["x"].view(1, 1, 3, 4)
    else:
        m = nn.Sequential(nn.Linear(4, 5), nn.ReLU() if case["seed"] % 2 else nn.Sigmoid(), nn.Linear(5, 2))
        x = d["x"]
    for p in m.parameters():
        p.data = torch.rand(p.shape, generator=g) - .5
    m.encrypt(src=case["src"])
    m.train()
    opt = crypten.optim.SGD(m.parameters(), lr=.1, momentum=.5)
    ex = crypten.cryptensor(x, src=case["src"])
    outs = []
    for _ in range(2 if case["expr"] == "steps" else 1):
        o = m(ex)
        y = crypten.cryptensor(torch.ones(o.size()) * .5)
        loss = nn.MSELoss()(o, y)
        opt.zero_grad()
        loss.backward()
        opt.step()
        outs += [o, loss]
    with cfg.temp_override(off):
        return [[plain(q.detach() if q.requires_grad else q)[1] for q in outs], [p.get_plain_text() for p in m.parameters()]]


def wrong(v, how, rank, seed):
    """Corrupts an encrypted result; the error is on one party's share."""
    import crypten

    g = torch.Generator().manual_seed(seed)
    t = v.get_plain_text()
    if how == "shape":
        n = t.numel()
        if t.dim() == 0:
            return v.unsqueeze(0)
        if seed % 4 >= 2:  # same number of dimensions
            d = seed % t.dim()
            return v.narrow(d, 0, 1) if t.size(d) > 1 and seed % 3 else crypten.cat([v, v.narrow(d, 0, 1)], dim=d)
        if n > 1 and seed % 2:
            return v.flatten()[: n - 1] if t.dim() == 1 else v.flatten()
        return v.unsqueeze(0)
    r = v.clone()
    k = int(torch.randint(0, t.numel(), (1,), generator=g))
    x = float(t.flatten()[k])
    delta = torch.zeros(t.numel())
    if how == "value":
        delta[k] = 5 + 3 * abs(x) if seed % 2 else -(5 + 3 * abs(x))
    elif how == "all":
        delta = torch.where(t.flatten() >= 0, 4 + 2.5 * t.flatten(), -4 + 2.5 * t.flatten())
    elif how == "small":  # just beyond what validation tolerates
        delta[k] = (.08 + 2.3 * abs(x)) * (1 if x >= 0 else -1)
        if seed % 2 and abs(x) > .1:
            delta[k] = -x * .8
    elif how == "wrap":
        d = torch.zeros(t.numel(), dtype=torch.long)
        d[k] = 2**47 if rank == seed % 2 else 0
        r.share = r.share + d.view(t.shape)
        return r
    if r.encoder._scale == 1:
        delta[k] = delta[k].sign() * max(1 + 2 * abs(x), float(delta[k].abs().round()))
    d = (delta * r.encoder._scale).long().view(t.shape)
    if rank == seed % 2:
        r.share = r.share + d
    return r


def inject(case):
    import crypten
    import crypten.communicator as comm
    from crypten.config import cfg

    rank = comm.get().get_rank()
    cfg.debug.validation_mode = False
    e = env_of(case, case["grad"])
    if case["op"] in ("squeeze",):
        e["x"] = e["x"].unsqueeze(0)
    who = {"x": "x", "p": "p", "q": "q", "v": "v"}[case["var"]]
    t = e[who]
    orig = getattr(t, case["op"])
    fired = []

    def bad(*a, **k):
        with cfg.temp_override({"debug.validation_mode": False}):
            with crypten.no_grad():
                fired.append(1)
                t.__dict__.pop(case["op"], None)
                return wrong(orig(*a, **k), case["how"], rank, case["seed"])

    out = {}
    try:
        cfg.debug.validation_mode = True
        t.__dict__[case["op"]] = bad
        try:
            eval(case["expr"], dict(e))
            out["raised"] = None
        except Exception as ex:
            out["raised"] = (type(ex).__name__, str(ex)[:150])
        out["mode"] = bool(cfg.debug.validation_mode)
        t.__dict__.pop(case["op"], None)
        # afterwards everything works
        z = crypten.cryptensor(torch.tensor([1.0, 2.0])) * 3
        out["mode2"] = bool(cfg.debug.validation_mode)
    finally:
        cfg.debug.validation_mode = False
    out["after"] = z.get_plain_text().tolist()
    out["fired"] = len(fired)
    return out


def seeds(case):
    """Debug mode: user-supplied seeds and printing."""
    import crypten
    import crypten.communicator as comm
    from crypten.config import cfg

    rank = comm.get().get_rank()
    x = crypten.cryptensor(case["data"]["x"], src=case["src"])
    out = {}
    cfg.debug.debug_mode = False
    try:
        crypten.manual_seed(1, 2 + rank, 3)
        out["refused"] = False
    except ValueError:
        out["refused"] = True
    r = repr(x)
    out["hidden"] = "HIDDEN" in r
    with cfg.temp_override({"debug.debug_mode": True}):
        rs = []
        for s in (case["seed"], case["seed"], case["seed"] + 1):
            crypten.manual_seed(s, s + 10 + rank, s + 20)
            rs.append([crypten.rand(40).get_plain_text(), (x * x).get_plain_text()])
        shown = repr(x)
    out["rs"] = rs
    out["shown"] = str(case["data"]["x"].float()) if False else "HIDDEN" not in shown
    crypten.mpc.primitives  # noqa
    crypten._setup_prng()
    return out


SEEN = {"corrupted": 0, "not_reached": 0}


def run(case):
    if case["kind"] == "inject":
        return inject(case)
    if case["kind"] == "seeds":
        return seeds(case)
    return [evaluate(case, m) for m in case["modes"]]


RANDOM = ("x.bernoulli", "i.bernoulli", "x.weighted_index(1)")


def differ(a, b, tol, where=""):
    if type(a) is not type(b):
        return "%s: %s and %s" % (where, str(a)[:60], str(b)[:60])
    if torch.is_tensor(a):
        if a.shape != b.shape or a.dtype != b.dtype:
            return "%s: %s %s and %s %s" % (where, tuple(a.shape), a.dtype, tuple(b.shape), b.dtype)
        if a.numel() and a.dtype.is_floating_point:
            d = (a.double() - b.double()).abs() - tol * (1 + a.double().abs())
            if float(d.max()) > 0:
                k = int(d.flatten().argmax())
                return "%s: %s and %s" % (where, float(a.flatten()[k]), float(b.flatten()[k]))
            return None
        return None if torch.equal(a, b) else "%s: %s and %s" % (where, a.flatten()[:6].tolist(), b.flatten()[:6].tolist())
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            return "%s: lengths %d and %d" % (where, len(a), len(b))
        for k, (p, q) in enumerate(zip(a, b)):
            m = differ(p, q, tol, where + "/%d" % k)
            if m:
                return m
        return None
    return None if a == b else "%s: %s and %s" % (where, str(a)[:60], str(b)[:60])


def judge(case, outs):
    vals, f = agree(outs)
    if f:
        return f
    if vals is None:
        return Fail("raised:%s" % case["kind"], "%s: %s" % (case.get("expr"), outs[0][1:3]))
    d = "%s%s" % (case.get("expr"), " with gradients" if case.get("grad") else "")
    if case["kind"] == "inject":
        w = "%s, result of %s corrupted (%s)" % (d, case["op"], case["how"])
        SEEN["corrupted" if vals[0]["fired"] else "not_reached"] += 1
        for r, v in enumerate(vals):
            if not v["fired"]:  # the expression reaches the operation another way
                continue
            if v["raised"] is None:
                return Fail("missed", "%s: party %d accepted the wrong result" % (w, r))
            if not v["mode"] or not v["mode2"]:
                return Fail("settings", "%s: validation was switched off by the error" % w)
            if max(abs(p - q) for p, q in zip(v["after"], [3, 6])) > 1e-2:
                return Fail("after", "%s: later results are wrong" % w)
        return None
    if case["kind"] == "seeds":
        for v in vals:
            if not v["refused"] or not v["hidden"] or not v["shown"]:
                return Fail("debug", "manual seeds refused outside debug mode: %s, values hidden: %s, shown in debug mode: %s" % (v["refused"], v["hidden"], v["shown"]))
            a, b, c = v["rs"]
            if not torch.equal(a[0], b[0]) or torch.equal(a[0], c[0]):
                return Fail("seed", "the same seeds do not give the same, or other seeds the same, random tensor")
            x = case["data"]["x"]
            if any(float((q[1] - x * x).abs().max()) > 1e-3 for q in v["rs"]):
                return Fail("seed", "products are wrong after setting seeds")
        return None
    base = vals[0][0]
    if any(v[0][0] != base[0] for v in vals):
        return Fail("agree", "%s: parties differ: %s" % (d, [v[0][:2] for v in vals]))
    for r, v in enumerate(vals):
        for k, m in enumerate(case["modes"]):
            if k == 0:
                continue
            if v[k][0] == "settings":
                return Fail("settings", "%s: the debug settings were changed (mode %s)" % (d, m))
            if v[k][0] != v[0][0]:
                return Fail("outcome", "%s: %s without and %s with %s" % (d, str(v[0][1:])[:160], str(v[k][1:])[:160], {"v": "validation", "d": "debug mode", "vd": "validation and debug mode"}[m]))
            if v[0][0] == "err":
                if v[0][1] != v[k][1]:
                    return Fail("error", "%s: raises %s without and %s with mode %s" % (d, v[0][1], v[k][1], m))
                continue
            if case["random"]:
                continue
            msg = differ(v[0][1], v[k][1], case["tol"])
            if msg:
                return Fail("differs", "%s: different with mode %s: %s" % (d, m, msg))
    return None


def data(r, big=False):
    def t(s, lo, hi, bits=10):
        return torch.tensor([round(r.uniform(lo, hi) * 2**bits) / 2**bits for _ in range(s[0] * s[1])]).view(s)

    d = {"x": t((3, 4), -3, 3), "y": t((3, 4), -3, 3), "p": t((3, 4), .3, 3), "c": t((4, 2), -2, 2), "i": torch.tensor([float(r.randrange(2)) for _ in range(12)]).view(3, 4)}
    if r.random() < .6:
        d["x"][r.randrange(3), r.randrange(4)] = 0
        k = (r.randrange(3), r.randrange(4))
        d["y"][k] = d["x"][k]
    if big:
        d["x"], d["y"], d["c"] = (d[n] * r.choice([10, 40]) for n in "xyc")
    return d


def gen(r, ws, n_expr, n_inj):
    out = []
    for lst, kind in ((LINEAR, "linear"), (COMPARE, "compare"), (APPROX, "approx"), (INPLACE, "inplace")):
        for expr in lst:
            if r.random() > n_expr:
                continue
            for grad in (False, True) if kind != "inplace" else (False,):
                big = kind in ("linear", "compare") and "cross_entropy" not in expr and "prod" not in expr and r.random() < .3
                d = data(r, big)
                mag = 1 if not big else 40
                tol = 1e-3 * mag if kind in ("linear", "compare") else .06
                if "exp" in expr or "norm" in expr or "cross" in expr or "sigmoid" in expr:
                    tol = .1
                out.append({"kind": "expr", "expr": expr, "grad": grad, "data": d, "src": r.randrange(ws), "modes": ["", "v"] + ([r.choice(["d", "vd"])] if r.random() < .25 else []), "tol": tol,
                            "random": any(q in expr for q in RANDOM) or (grad is not None and ("argm" in expr or "max" in expr or "min" in expr) and not distinct(d)), "seed": r.randrange(10**6)})
    for m in MODELS:
        if r.random() <= n_expr + .2:
            out.append({"kind": "model", "expr": m, "grad": None, "data": data(r), "src": r.randrange(ws), "modes": ["", "v", r.choice(["d", "vd"])], "tol": .03, "random": False, "seed": r.randrange(10**6)})
    for op, expr in TARGETS:
        for how in r.sample(["value", "shape", "small", "wrap", "all"], n_inj):
            d = data(r)
            d["x"] = torch.where(d["x"] == 0, torch.tensor(.5), d["x"])
            if how == "shape" and r.random() < .6:  # a result that broadcasts to the right one
                k = r.randrange(3)
                d = {n: v[k : k + 1].expand(v.shape).clone() if n != "c" else v for n, v in d.items()}
            inplace = "_(" in expr or "iadd" in expr
            out.append({"kind": "inject", "op": op, "expr": expr, "how": "value" if inplace and how == "shape" else how, "grad": not inplace and op not in DIRECT and r.random() < .3, "data": d, "src": r.randrange(ws), "var": expr[0] if expr[0] in "xpqv" else "x", "seed": r.randrange(10**6)})
    out.append({"kind": "seeds", "data": data(r), "src": r.randrange(ws), "seed": r.randrange(10**6)})
    r.shuffle(out)
    return out


DIRECT = ("gt", "lt", "ge", "le", "eq", "ne", "relu")  # with gradients these reach the tensor another way


def distinct(d):
    return all(len(set(d[n].flatten().tolist())) == d[n].numel() for n in "xyp")


def check(ctx):
    ctx.rule = ("An expression case evaluates one expression (operators, functions, in-place functions, attributes, pooling, losses) or trains a small model, without and with validation or debug mode, and compares results, gradients, operands and attributes. "
                "An injection case corrupts the result of one operation on one party's share (a value, all values, a value just beyond the documented tolerance, a wrap, the shape) while validation is on; every party must raise an error and keep working.")
    ctx.assumptions = ["approximations are compared up to their error", "operations without a counterpart of the same name and result on plaintext tensors are not validated by the library and are not corrupted"]
    jobs = []
    for n, (ws, cfg, ne, ni, opts) in enumerate([(2, None, 1., 2, {}), (3, None, .4, 1, {}), (2, {"mpc.provider": "TTP"}, .25, 1, {}), (4, None, .1, 1, {}), (1, None, .4, 1, {})]):
        lab = "%dPC%s" % (ws, "".join("-" + v for v in (cfg or {}).values()))
        r = ctx.rng(lab)
        cs = [c for _ in range(ctx.n(1, 8)) for c in gen(r, ws, ne, ni)]
        if ws == 1:
            for c in cs:
                c["seed"] -= c["seed"] % 2
        half = len(cs) // 2
        for k, part in enumerate([cs[:half], cs[half:]] if ws in (2, 3) and not cfg else [cs]):
            jobs.append(dict(label="%s-%d" % (lab, k), ws=ws, cfg=cfg, cases=part, mod=ME, fn="run", judge=judge, opts=opts, sig=lambda c: str({k: v for k, v in c.items() if k != "data"})))
    ctx.drive(jobs, reruns=3, parallel=4)
    for k, v in SEEN.items():
        ctx.count("injections_" + k, v)
