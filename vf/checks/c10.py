"""C10: trains small encrypted models with every optimizer setting next to the same training in double precision, comparing losses and
parameters after every step, and requires all parameters a step must not touch to stay bit-identical."""
import copy

import torch

from ..core import Fail, agree

ME = "vf.checks.c10"
MIN_EVAL = 40

LOSSES = ("mse", "l1", "bce", "logits", "ce", "rappor")
EXACT = ("mse", "l1")


# ---- plaintext reference -----------------------------------------------------------------------------------------------------------


def torch_model(case, double=True):
    g = torch.Generator().manual_seed(case["seed"])
    acts = {"relu": torch.nn.ReLU, "sigmoid": torch.nn.Sigmoid, "none": None}
    layers = []
    if case["arch"] == "conv":
        layers = [torch.nn.Conv2d(1, 2, 2, padding=case["seed"] % 2), torch.nn.ReLU(), torch.nn.Flatten(), torch.nn.Linear(2 * (5 * 4 if case["seed"] % 2 else 3 * 2), case["dims"][-1])]
    else:
        d = case["dims"]
        for i, (a, b) in enumerate(zip(d[:-1], d[1:])):
            layers.append(torch.nn.Linear(a, b, bias=not (case["nobias"] and i == 0)))
            if i < len(d) - 2 and acts[case["act"]]:
                layers.append(acts[case["act"]]())
    if case["loss"] == "bce":
        layers.append(torch.nn.Sigmoid())
    m = torch.nn.Sequential(*layers)
    for p in m.parameters():
        k = p.shape[-1] if p.dim() > 1 else 4
        v = (torch.rand(p.shape, generator=g) * 2 - 1) * (2.0 / k**0.5)
        p.data = (v * 2**12).round() / 2**12
    return m.double() if double else m


def rloss(case, o, y):
    k = case["loss"]
    if k == "mse":
        return ((o - y) ** 2).mean()
    if k == "l1":
        return (o - y).abs().mean()
    if k == "ce":
        l = -(torch.log_softmax(o, 1) * y).sum(1)
        return l.mean()
    p = o if k == "bce" else o.sigmoid()
    if k == "rappor" and case["alpha"]:
        p = case["alpha"] * p + (1 - case["alpha"]) * (1 - p)
    return -(y * p.log() + (1 - y) * (1 - p).log()).mean()


class Opt:
    """Plain SGD, written from its published definition."""

    def __init__(self, groups, thr):
        self.groups, self.thr, self.buf = groups, thr, {}

    def step(self, ps, noise=None):
        for g in self.groups:
            for i in g["idx"]:
                p = ps[i]
                if p.grad is None:
                    continue
                d = p.grad.clone()
                if noise is not None:
                    d = d + noise(d)
                if self.thr is not None:
                    d = torch.where(p.grad.abs() < self.thr, d, torch.zeros(()).double())
                d = d + g["weight_decay"] * p.data
                if g["momentum"]:
                    if i in self.buf:
                        self.buf[i] = g["momentum"] * self.buf[i] + (1 - g["dampening"]) * d
                    else:
                        self.buf[i] = d.clone()
                    d = d + g["momentum"] * self.buf[i] if g["nesterov"] else self.buf[i]
                p.data = p.data - g["lr"] * d


def margin(m, x):
    """Output and the smallest distance of a rectifier's input from its kink."""
    lo = 9.0
    for l in m:
        if isinstance(l, torch.nn.ReLU):
            lo = min(lo, float(x.detach().abs().min()))
        x = l(x)
    return x, lo


def reference(case, noise=0.0):
    m = torch_model(case)
    ps = list(m.parameters())
    gen = torch.Generator().manual_seed(case["seed"] + 1)
    fn = (lambda d: noise * (torch.rand(d.shape, generator=gen).double() * 2 - 1)) if noise else None
    groups = [dict(copy.deepcopy(g)) for g in case["groups"]]
    opt = Opt(groups[: case["first"]], case["thr"])
    recs, ok = [], True
    for s in case["steps"]:
        loss = None
        active = set(i for g in opt.groups for i in g["idx"])
        if s["zero"]:
            for i in active if case["how"] != "update" else range(len(ps)):
                if ps[i].grad is not None:
                    ps[i].grad = None if s["zero"] == "none" else torch.zeros_like(ps[i].data)
        for _ in range(s["backward"]):
            o, lo = margin(m, s["x"].double())
            if case["loss"] == "l1":
                lo = min(lo, float((o - s["y"]).abs().min()))
            if case["loss"] == "bce":
                ok = ok and float(o.detach().min()) > .08 and float(o.detach().max()) < .92
            ok = ok and lo > 4e-3 and float(o.detach().abs().max()) < 4
            loss = rloss(case, o, s["y"].double())
            gs = torch.autograd.grad(loss, ps)
            for p, g in zip(ps, gs):
                p.grad = g if p.grad is None else p.grad + g
        if case["thr"] is not None:
            for p in ps:
                ok = ok and (p.grad is None or float((p.grad.abs() - case["thr"]).abs().min()) > 2e-2 * case["thr"])
        if s["lr"] is not None:
            for g in opt.groups:
                g["lr"] = s["lr"]
        if s["add"]:
            opt.groups.append(groups[len(opt.groups)])
        fixed = [p.grad is None or i not in set(q for g in opt.groups for q in g["idx"]) for i, p in enumerate(ps)]
        if s["step"]:
            opt.step(ps, fn)
        recs.append({"loss": None if loss is None else float(loss), "ps": [p.data.clone() for p in ps], "fixed": fixed if s["step"] else [True] * len(ps)})
        ok = ok and all(float(p.data.abs().max()) < 4 for p in ps) and (loss is None or float(loss) < 8)
    return recs, ok


# ---- encrypted run -------------------------------------------------------------------------------------------------------------------


def convert(case):
    import crypten
    import crypten.nn as nn

    t = torch_model(case, double=False)
    if case["build"] == "onnx":
        m = nn.from_pytorch(t, case["steps"][0]["x"])
        names = dict(m.named_parameters())
        order = []
        for p in t.parameters():
            k = [n for n, q in names.items() if q.shape == p.shape and torch.equal(torch.as_tensor(q).float(), p.data)]
            assert len(k) == 1, "imported parameter not found"
            order.append(k[0])
        return m, order
    mods = []
    for l in t:
        if isinstance(l, torch.nn.Linear):
            mods.append(nn.Linear(l.in_features, l.out_features, bias=l.bias is not None))
        elif isinstance(l, torch.nn.Conv2d):
            mods.append(nn.Conv2d(l.in_channels, l.out_channels, 2, padding=l.padding[0]))
        else:
            mods.append(getattr(nn, type(l).__name__)())
    m = nn.Sequential(*mods)
    names = [n for n, _ in m.named_parameters()]
    tn = [n for n, _ in t.named_parameters()]
    order = [n for a in tn for n in names if n.split(".")[-2:] == a.split(".")[-2:]]
    assert len(order) == len(names) == len(tn)
    for n, p in zip(order, t.parameters()):
        q = m
        for part in n.split(".")[:-1]:
            q = q._modules[part]
        q._parameters[n.split(".")[-1]].data = p.data.clone()
    return m, order


def run(case):
    import crypten
    import crypten.communicator as comm

    if case["kind"] == "loss":
        return losses(case)
    if case["kind"] == "reject":
        return reject(case)
    m, order = convert(case)
    m.encrypt(src=case["src"])
    m.train()
    named = lambda: [dict(m.named_parameters())[n] for n in order]
    L = {"mse": "MSELoss", "l1": "L1Loss", "bce": "BCELoss", "logits": "BCEWithLogitsLoss", "ce": "CrossEntropyLoss", "rappor": "RAPPORLoss"}[case["loss"]]
    args = {"skip_forward": True} if case["skip"] else {}
    if case["loss"] == "rappor":
        args["alpha"] = case["alpha"]
    crit = getattr(crypten.nn.loss, L)(**args)
    ps = named()
    groups = [{"params": [ps[i] for i in g["idx"]], **{k: v for k, v in g.items() if k in g["given"]}} for g in case["groups"]]
    opt = None
    if case["how"] == "sgd":
        d = case["groups"][0]
        default = {k: d[k] for k in ("lr", "momentum", "dampening", "weight_decay", "nesterov") if k in case["defaults"]}
        if case["thr"] is not None:
            default["grad_threshold"] = case["thr"]
        first = groups[: case["first"]]
        first = first[0]["params"] if case["bare"] else first
        opt = crypten.optim.SGD(iter(first) if case["bare"] and case["seed"] % 2 else first, **default)
    added = case["first"]
    lr = case["groups"][0]["lr"]
    out = []
    raw = lambda: [p.reveal().clone() if hasattr(p, "reveal") else p._tensor.reveal().clone() for p in named()]
    for s in case["steps"]:
        before = raw()
        if s["zero"]:
            if case["how"] == "update":
                m.zero_grad()
            elif s["zero"] == "none":
                opt.zero_grad()
            else:
                opt.zero_grad(set_to_none=False)
        ex = crypten.cryptensor(s["x"].clone(), src=case["src"])
        ey = crypten.cryptensor(s["y"].clone(), src=case["src"]) if case["ency"] else s["y"].clone()

        def closure():
            loss = None
            for _ in range(s["backward"]):
                loss = crit(m(ex), ey)
                loss.backward()
            return loss

        lr = s["lr"] or lr
        rec = {}
        direct = s["closure"] and s["step"] and case["how"] == "sgd"
        if not direct:
            loss = closure()
        if s["lr"] is not None and opt is not None:
            for g in opt.param_groups:
                g["lr"] = s["lr"]
        if s["add"]:
            opt.add_param_group(groups[added])
            added += 1
        if s["step"]:
            if case["how"] == "sgd":
                if direct:
                    loss = opt.step(closure)
                else:
                    r = opt.step()
                    rec["returned"] = r is None
            else:
                m.update_parameters(lr, **({} if case["thr"] is None else {"grad_threshold": case["thr"]}))
        rec["loss"] = None if loss is None else loss.get_plain_text()
        after = raw()
        rec["changed"] = [not torch.equal(a, b) for a, b in zip(before, after)]
        rec["ps"] = [p.get_plain_text() for p in named()]
        rec["graph"] = [bool(p.requires_grad) for p in named()]
        rec["data"] = [ex.get_plain_text(), ey.get_plain_text() if crypten.is_encrypted_tensor(ey) else ey]
        out.append(rec)
    return {"steps": out}


def losses(case):
    """One loss and its gradient."""
    import crypten

    L = {"mse": "MSELoss", "l1": "L1Loss", "bce": "BCELoss", "logits": "BCEWithLogitsLoss", "ce": "CrossEntropyLoss", "rappor": "RAPPORLoss"}[case["loss"]]
    args = {"skip_forward": True} if case["skip"] else {}
    if case["loss"] == "rappor":
        args["alpha"] = case["alpha"]
    crit = getattr(crypten.nn.loss, L)(**args)
    x = crypten.cryptensor(case["x"], src=case["src"], requires_grad=case["grad"])
    y = crypten.cryptensor(case["y"], src=case["src"]) if case["ency"] else case["y"].clone()
    loss = crit(x, y)
    g = None
    if case["grad"]:
        (loss * case["scale"] if case["scale"] != 1 else loss).backward()
        g = x.grad.get_plain_text()
    return {"loss": loss.get_plain_text(), "grad": g, "x": x.get_plain_text(), "y": y.get_plain_text() if crypten.is_encrypted_tensor(y) else y}


def reject(case):
    import crypten

    p = crypten.cryptensor(torch.ones(2), requires_grad=True)
    out = []
    for k, v, good in case["tries"]:
        try:
            crypten.optim.SGD([p], **{"lr": .1, **dict(zip(k, v))})
            out.append(good)
        except ValueError:
            out.append(not good)
    for bad in ({1, 2}, [[1, 2]]):
        try:
            crypten.optim.SGD(bad, lr=.1)
            out.append(False)
        except TypeError:
            out.append(True)
    try:
        crypten.nn.MSELoss(reduction="sum")
        out.append(False)
    except NotImplementedError:
        out.append(True)
    for name in ("MSELoss", "L1Loss", "BCELoss", "BCEWithLogitsLoss", "CrossEntropyLoss"):
        try:
            getattr(crypten.nn, name)()(crypten.cryptensor(torch.ones(2, 3) * .5), crypten.cryptensor(torch.ones(1, 3)))
            out.append(False)
        except AssertionError:
            out.append(True)
    return {"ok": out}


# ---- judge ---------------------------------------------------------------------------------------------------------------------------


def judge(case, outs):
    vals, f = agree(outs)
    if f:
        return f
    d = case["desc"]
    if vals is None:
        return Fail("raised:%s" % case["kind"], "%s: %s" % (d, outs[0][1:3]))
    if case["kind"] == "reject":
        for v in vals:
            if not all(v["ok"]):
                return Fail("reject", "%s: %s" % (d, v["ok"]))
        return None
    if case["kind"] == "loss":
        x = case["x"].double().requires_grad_()
        if case["loss"] == "ce" and x.dim() == 1:
            ref = -(torch.log_softmax(x, 0) * case["y"]).sum()
        else:
            ref = rloss(case, x, case["y"].double())
        g = torch.autograd.grad(ref, x)[0] * case["scale"]
        for r, v in enumerate(vals):
            if not case["skip"] and (v["loss"].numel() != 1 or abs(float(v["loss"]) - float(ref)) > (3e-3 if case["loss"] in EXACT else .05) * (1 + abs(float(ref)))):
                return Fail("loss", "%s: loss is %s at party %d, should be %.4f" % (d, v["loss"].tolist(), r, float(ref)))
            if v["grad"] is not None:
                tol = 6e-4 if case["loss"] in EXACT else 4e-3 + .04 * g.abs() if case["loss"] in ("logits", "ce") else 8e-3 + .06 * g.abs()
                if v["grad"].shape != g.shape or bool(((v["grad"].double() - g).abs() > tol).any()):
                    return Fail("grad", "%s: gradient %s, should be %s" % (d, v["grad"].flatten()[:6].tolist(), g.flatten()[:6].tolist()))
            if float((v["x"] - case["x"]).abs().max()) > 1e-4 or float((v["y"] - case["y"]).abs().max()) > 1e-4:
                return Fail("inputs", "%s: the loss changed its inputs" % d)
        return None
    recs, _ = reference(case)
    for r, v in enumerate(vals):
        for k, (a, s) in enumerate(zip(v["steps"], recs)):
            w = "%s: step %d" % (d, k + 1)
            lossless = case["skip"] or s["loss"] is None
            if (a["loss"] is None) != (s["loss"] is None):
                return Fail("loss", "%s: loss %s" % (w, a["loss"]))
            if not lossless and abs(float(a["loss"]) - s["loss"]) > (case["tol"] * 2 if case["loss"] in EXACT else .05 + case["tol"]) * (1 + abs(s["loss"])):
                return Fail("loss", "%s: loss %.4f, should be %.4f" % (w, float(a["loss"]), s["loss"]))
            for i, (p, q) in enumerate(zip(a["ps"], s["ps"])):
                if s["fixed"][i] and a["changed"][i]:
                    return Fail("touched", "%s: parameter %d, which is not updated by this step, changed" % (w, i))
                if p.shape != q.shape or float((p.double() - q).abs().max()) > case["tol"]:
                    dd = (p.double() - q).abs().flatten() if p.shape == q.shape else torch.zeros(1)
                    j = int(dd.argmax())
                    return Fail("parameters", "%s: parameter %d differs by %.4f (%.4f instead of %.4f), tolerance %.4f" % (w, i, float(dd[j]), float(p.flatten()[j]), float(q.flatten()[j]), case["tol"]))
            if not all(a["graph"]):
                return Fail("requires_grad", "%s: a parameter no longer requires gradients" % w)
            st = case["steps"][k]
            if float((a["data"][0] - st["x"]).abs().max()) > 1e-4 or float((a["data"][1] - st["y"]).abs().max()) > 1e-4:
                return Fail("inputs", "%s: training changed its data" % w)
            if a.get("returned") is False:
                return Fail("returned", "%s: step() without closure returned something" % w)
    return None


# ---- generation ----------------------------------------------------------------------------------------------------------------------


def q(r, lo, hi, bits=8):
    return round(r.uniform(lo, hi) * 2**bits) / 2**bits


def targets(r, loss, n, c):
    if loss in EXACT:
        return torch.tensor([[q(r, -1.5, 1.5) for _ in range(c)] for _ in range(n)])
    if loss == "ce" and r.random() < .8:
        y = torch.zeros(n, c)
        for k in range(n):
            y[k, r.randrange(c)] = 1
        return y
    if loss == "ce":
        return torch.tensor([[1.0 / c] * c for _ in range(n)])
    return torch.tensor([[float(r.randrange(2)) if r.random() < .8 else q(r, 0, 1, 4) for _ in range(c)] for _ in range(n)])


def train_case(r, ws):
    how = "sgd" if r.random() < .85 else "update"
    loss = r.choice(LOSSES + EXACT + EXACT)
    arch = "conv" if r.random() < .15 else "mlp"
    dims = [r.randrange(2, 5)] + [r.randrange(2, 5) for _ in range(r.choice([0, 1, 1, 2]))] + [r.randrange(2, 4) if loss == "ce" else r.randrange(1, 4)]
    case = {"kind": "train", "how": how, "loss": loss, "arch": arch, "dims": dims, "act": r.choice(["relu", "relu", "sigmoid", "none"]), "nobias": r.random() < .2, "seed": r.randrange(10**6), "src": r.randrange(ws),
            "skip": loss not in EXACT and r.random() < .25, "ency": r.random() < .7, "alpha": r.choice([.8, .65, .9, 0.0]), "build": "onnx" if r.random() < .2 else "nn"}
    np_ = len(list(torch_model(case).parameters()))

    def opts():
        mom = r.choice([0, 0, .5, .9, .25])
        nest = bool(mom) and r.random() < .4
        return {"lr": r.choice([.1, .25, .5, .05, .3]), "momentum": mom, "dampening": 0 if nest else r.choice([0, 0, .5, .25, 1]), "weight_decay": r.choice([0, 0, .1, .5, .25]), "nesterov": nest}

    idx = list(range(np_))
    base = opts()
    case["bare"] = how == "sgd" and r.random() < .3
    if how == "update":
        groups = [dict(lr=base["lr"], momentum=0, dampening=0, weight_decay=0, nesterov=False, idx=idx, given=())]
        case["first"] = 1
    elif case["bare"]:
        if r.random() < .4 and np_ > 1:
            idx = sorted(r.sample(idx, r.randrange(1, np_)))
        groups = [dict(base, idx=idx, given=())]
        case["first"] = 1
    else:
        r.shuffle(idx)
        n = r.choice([1, 2, 2, 3])
        cut = sorted(r.sample(range(1, np_ + 1), min(n, np_)))
        groups = []
        for a, b in zip([0] + cut, cut):
            g = dict(base, idx=idx[a:b], given=())
            if groups or r.random() < .3:
                o = opts()
                ks = [k for k in ("lr", "momentum", "weight_decay", "dampening") if r.random() < .5]
                g.update({k: o[k] for k in ks})
                if g["nesterov"] and (not g["momentum"] or g["dampening"]):
                    g["momentum"], g["dampening"] = .5, 0
                    ks = ["lr", "momentum", "weight_decay", "dampening"]
                g["given"] = tuple(ks)
            groups.append(g)
        # the first group's values double as the optimizer's defaults; groups list what differs
        d0 = {k: groups[0][k] for k in ("lr", "momentum", "dampening", "weight_decay", "nesterov")}
        if d0["nesterov"] and (not d0["momentum"] or d0["dampening"]):
            return None
        for g in groups:
            g["given"] = tuple(k for k in d0 if g[k] != d0[k] or (k in g["given"] and r.random() < .5))
        case["first"] = r.randrange(1, len(groups) + 1)
    case["groups"] = groups
    case["defaults"] = [k for k in ("lr", "momentum", "dampening", "weight_decay", "nesterov") if groups[0][k] or k == "lr" or r.random() < .3]
    case["thr"] = r.choice([.1, .3, .05, 1.0]) if r.random() < .25 else None
    steps = []
    pending = len(groups) - case["first"]
    for k in range(r.randrange(2, 6)):
        n = r.choice([1, 2, 3, 4])
        x = torch.tensor([[q(r, -1.5, 1.5) for _ in range(12 if arch == "conv" else dims[0])] for _ in range(n)])
        if arch == "conv":
            x = x.view(n, 1, 4, 3)
        add = pending > 0 and r.random() < .5
        pending -= add
        steps.append({"x": x, "y": targets(r, loss, n, dims[-1]), "zero": r.choice(["none", "none", "none", "zeros", False]) if k else r.choice(["none", False]), "lr": r.choice([.2, .1, .4]) if r.random() < .15 else None,
                      "backward": r.choice([1, 1, 1, 1, 2, 0]) if k else r.choice([1, 1, 1, 0]), "step": r.random() < .9, "add": bool(add), "closure": r.random() < .2})
    case["steps"] = steps
    if case["how"] == "update":
        for s in steps:
            s["zero"] = "none" if s["zero"] else False
    if not any(s["backward"] for s in steps) or np_ == 0:
        return None
    if case["build"] == "onnx":
        case["build"] = "onnx" if arch == "conv" or case["seed"] % 2 else "nn"
        if case["build"] == "onnx" and len({tuple(p.flatten().tolist()) for p in torch_model(case).parameters()}) < np_:
            case["build"] = "nn"
    base, ok = reference(case)
    if not ok:
        return None
    eps = 1.5e-3 if loss in EXACT and case["act"] != "sigmoid" else 8e-3 if loss in ("ce", "logits") or loss in EXACT else 2e-2
    per, ok = reference(case, noise=eps)
    if not ok:
        return None
    dev = max(float((a - b).abs().max()) for s, t in zip(base, per) for a, b in zip(s["ps"], t["ps"]))
    case["tol"] = 1e-3 + 2.5 * dev
    if case["tol"] > (.02 if eps < 2e-3 else .06):
        return None
    g = ["%s%s" % (x["idx"], {k: x[k] for k in ("lr", "momentum", "dampening", "weight_decay", "nesterov") if x[k]}) for x in groups]
    case["desc"] = "%s %s %s %s loss=%s%s%s groups=%s%s" % (how, case["build"], arch, dims, loss, " skip_forward" if case["skip"] else "", " threshold %s" % case["thr"] if case["thr"] is not None else "", " ".join(g), " (%d added later)" % (len(groups) - case["first"]) if len(groups) > case["first"] else "")
    return case


def loss_case(r, ws, loss):
    shape = r.choice([(1, 3), (4, 2), (3, 1), (1, 1), (2, 3, 2), (1, 2, 3), (5, 4), (2, 2, 1, 2)] + ([(4,), (3,)] if loss != "ce" else [(4,)]))
    n = 1
    for s in shape:
        n *= s
    lo, hi = (.15, .85) if loss == "bce" else (-2, 2)
    x = torch.tensor([q(r, lo, hi) for _ in range(n)]).view(shape)
    if loss == "ce":
        if len(shape) == 1:
            y = torch.zeros(shape)
            y[r.randrange(shape[0])] = 1
        else:
            y = torch.zeros(shape)
            k = torch.tensor([r.randrange(shape[1]) for _ in range(n // shape[1])]).view((shape[0], 1) + shape[2:])
            y.scatter_(1, k, 1.0)
    else:
        y = targets(r, loss, n, 1).view(shape)
    if loss == "l1":
        y = torch.where((x - y).abs() < .02, x + .1, y)
    c = {"kind": "loss", "loss": loss, "x": x, "y": y, "src": r.randrange(ws), "skip": r.random() < .25, "ency": r.random() < .7, "alpha": r.choice([.8, .65, .9, 0.0]), "grad": r.random() < .8, "scale": r.choice([1, 1, 2, 3])}
    c["desc"] = "%s loss of shape %s%s" % (loss, tuple(shape), " alpha=%s" % c["alpha"] if loss == "rappor" else "")
    return c


def gen(r, ws, n_train, n_loss):
    out = []
    while len(out) < n_train:
        c = train_case(r, ws)
        if c is not None:
            out.append(c)
    for loss in LOSSES:
        for _ in range(n_loss):
            out.append(loss_case(r, ws, loss))
    tries = [(("lr",), (-.1,), False), (("lr",), ("1",), False), (("momentum",), (-.5,), False), (("weight_decay",), (-1,), False), (("nesterov",), (True,), False), (("nesterov", "momentum", "dampening"), (True, .5, .1), False),
             (("nesterov", "momentum"), (True, .5), True), (("lr", "momentum", "weight_decay"), (0, 0, 0), True)]
    out.append({"kind": "reject", "tries": tries, "desc": "invalid settings"})
    r.shuffle(out)
    return out


def check(ctx):
    ctx.rule = ("A training case is a random model (linear or convolutional layers, built directly or imported), loss, data and optimizer settings (learning rate, momentum, dampening, weight decay, Nesterov, gradient threshold, parameter groups, groups added later, changed learning "
                "rates, accumulated, zeroed or missing gradients, closures) trained for 2-5 steps. The oracle is SGD in double precision written from its definition; after every step losses and all parameters are compared and parameters without update must be bit-identical. "
                "A loss case compares one loss and its gradient with the formula on other shapes.")
    ctx.assumptions = ["data are chosen so that rectifiers stay 0.004 away from their kink and the tolerance, from a run with perturbed gradients, stays below 0.02 (0.06 for approximated losses)"]
    jobs = []
    for ws, cfg, nt, nl in [(2, None, 60, 5), (3, None, 16, 2), (2, {"mpc.provider": "TTP"}, 12, 1), (3, {"mpc.protocol": "replicated"}, 8, 1), (4, None, 6, 1), (1, None, 20, 3)]:
        lab = "%dPC%s" % (ws, "".join("-" + v for v in (cfg or {}).values()))
        r = ctx.rng(lab)
        cs = [c for _ in range(ctx.n(1, 10)) for c in gen(r, ws, nt, nl)]
        parts = 3 if ws == 2 and not cfg else 1
        for k in range(parts):
            jobs.append(dict(label="%s-%d" % (lab, k), ws=ws, cfg=cfg, cases=cs[k::parts], mod=ME, fn="run", judge=judge, opts={}, sig=lambda c: str({k: v for k, v in c.items() if k != "steps"})))
    ctx.drive(jobs, reruns=4, parallel=4)
