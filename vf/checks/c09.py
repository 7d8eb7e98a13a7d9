"""C09: imports random PyTorch models, encrypts them and takes them through mode switches, decryption, re-encryption, exports and copies of
their state, comparing every output and all parameters and buffers with a double-precision twin of the original model; whatever cannot be
imported must be refused."""
import copy
import warnings

import torch
import torch.nn as tnn
import torch.nn.functional as TF

from ..core import Fail, agree

ME = "vf.checks.c09"
MIN_EVAL = 40

UNARY = {
    "relu": lambda x, a: x.relu(), "sigmoid": lambda x, a: x.sigmoid(), "square": lambda x, a: x**2, "neg": lambda x, a: 0 - x, "addc": lambda x, a: x + a, "radd": lambda x, a: a + x, "mulc": lambda x, a: x * a, "rsub": lambda x, a: a - x, "subc": lambda x, a: x - a,
    "divc": lambda x, a: x / a, "exp": lambda x, a: (x * .2).exp(), "sqrt": lambda x, a: (x * x + .5).sqrt(), "erf": lambda x, a: (x * .2).erf(), "clamp": lambda x, a: x.clamp(-a, a), "softmax": lambda x, a: x.softmax(a), "logsoftmax": lambda x, a: x.log_softmax(a),
    "mean": lambda x, a: x.mean(a[0], keepdim=a[1]), "sum": lambda x, a: x.sum(a[0], keepdim=a[1]), "transpose": lambda x, a: x.transpose(*a), "permute": lambda x, a: x.permute(*a), "flatten": lambda x, a: x.flatten(a), "view": lambda x, a: x.view(*a), "reshape0": lambda x, a: x.reshape(x.size(0), -1),
    "unsqueeze": lambda x, a: x.unsqueeze(a), "squeeze": lambda x, a: x.squeeze(a), "slice": lambda x, a: x.narrow(*a), "index": lambda x, a: x.select(*a), "index_select": lambda x, a: x.index_select(a[0], torch.tensor(a[1])), "dup": lambda x, a: x + x, "dupmul": lambda x, a: x * x, "catself": lambda x, a: torch.cat([x, x], a),
    "catneg": lambda x, a: torch.cat([x, x * .5, x + 1], a), "pad": lambda x, a: TF.pad(x, a[0], value=a[1]), "maxpool": lambda x, a: TF.max_pool2d(x, **a), "avgpool": lambda x, a: TF.avg_pool2d(x, **a), "gap": lambda x, a: x.mean((2, 3)), "relu6": lambda x, a: TF.relu6(x), "hardtanh": lambda x, a: TF.hardtanh(x, -a, a),
    "expand": lambda x, a: x.unsqueeze(0).expand(2, *x.shape), "identity": lambda x, a: x, "tril": lambda x, a: x.tril(), "gelu": lambda x, a: TF.gelu(x), "leaky": lambda x, a: TF.leaky_relu(x, .1), "elu": lambda x, a: TF.elu(x), "softplus": lambda x, a: TF.softplus(x), "tanh": lambda x, a: x.tanh(), "abs": lambda x, a: x.abs(),
    "max": lambda x, a: x.max(a)[0], "amax": lambda x, a: x.amax(a), "argmax": lambda x, a: x.argmax(a).float(), "floor": lambda x, a: x.floor(), "where": lambda x, a: torch.where(x > 0, x, x * .1), "interp": lambda x, a: TF.interpolate(x, scale_factor=2), "cumsum": lambda x, a: x.cumsum(1), "flip": lambda x, a: x.flip(1), "norm": lambda x, a: x.norm(dim=1),
    "std": lambda x, a: x.std(1), "prod": lambda x, a: x.prod(1), "split": lambda x, a: x.split(1, 1)[0], "chunk": lambda x, a: torch.cat(x.chunk(2, 1)[::-1], 1), "matmulself": lambda x, a: x @ x.transpose(-1, -2) * .3, "padreflect": lambda x, a: TF.pad(x, (1, 1, 1, 1), mode="reflect"), "roll": lambda x, a: x.roll(1, 1), "pow3": lambda x, a: x**3, "pow1": lambda x, a: (x.abs() + 1) ** -1,
    "repeat": lambda x, a: x.repeat(*([1] * (x.dim() - 1)), 2), "sin": lambda x, a: x.sin(), "log": lambda x, a: (x * x + .5).log(), "rdiv": lambda x, a: a / (x * x + 1), "divself": lambda x, a: x / (x * x + 1), "silu": lambda x, a: TF.silu(x), "hardsig": lambda x, a: TF.hardsigmoid(x), "glu": lambda x, a: TF.glu(x, 1), "minmax": lambda x, a: torch.maximum(x, -x * .5), "einsum": lambda x, a: torch.einsum("bi,bj->bij", x, x),
    "stack": lambda x, a: torch.stack([x, x * 2], 1), "pixel": lambda x, a: TF.pixel_shuffle(torch.cat([x] * 4, 1), 2), "index2": lambda x, a: x[:, [1, 0]], "step": lambda x, a: x[:, ::2], "negidx": lambda x, a: x[:, -1], "adaptavg": lambda x, a: TF.adaptive_avg_pool2d(x, a), "adaptmax": lambda x, a: TF.adaptive_max_pool2d(x, a), "lp": lambda x, a: TF.lp_pool2d(x, 2, 2),
    "negslice": lambda x, a: x[:, -2:], "negend": lambda x, a: x[:, :-1], "beyond": lambda x, a: x[:, 1:100], "meanall": lambda x, a: x.mean() + x * 0.5, "sumall": lambda x, a: x.sum() * .1 + x, "sqrtpow": lambda x, a: (x * x + 1) ** .5, "oneslike": lambda x, a: torch.ones_like(x) + x, "fullmul": lambda x, a: torch.full((1,), 1.5) * x, "expandas": lambda x, a: x[:, :1].expand_as(x) + x,
    "mask": lambda x, a: torch.where(torch.arange(x.shape[1]) > 1, x, x * .5), "maskfill": lambda x, a: x.masked_fill(torch.arange(x.shape[1]) > 1, .5), "unsq-1": lambda x, a: x.unsqueeze(-1), "squeezeall": lambda x, a: x.unsqueeze(1).squeeze(), "flat12": lambda x, a: x.flatten(1, 2), "sizescale": lambda x, a: x * x.shape[1] / 4, "addmm": lambda x, a: torch.addmm(torch.ones(4), x, torch.eye(4) * .5, beta=.5, alpha=2),
    "baddlin": lambda x, a: TF.linear(x, torch.eye(4)[:2] * .5, torch.tensor([.5, -.5])), "outer": lambda x, a: x.unsqueeze(2) * x.unsqueeze(1), "mulx1": lambda x, a: x * x[:, :1], "divx": lambda x, a: x / 3 + x / (x[:, :1] ** 2 + 1), "const2": lambda x, a: x * torch.tensor([[.5], [2.0]])[:1], "matconst": lambda x, a: torch.eye(3, 4) @ x.t(), "gather": lambda x, a: x.gather(1, torch.tensor([[1, 0]]).expand(x.shape[0], 2)), "intdiv": lambda x, a: x // .5, "clampmin": lambda x, a: x.clamp(min=0.1), "clampmax": lambda x, a: x.clamp(max=.1), "relux": lambda x, a: x.clamp_min(0), "tile": lambda x, a: torch.tile(x, (1, 2)), "round": lambda x, a: x.round(), "sumlast": lambda x, a: x.sum(-1), "meanlast": lambda x, a: x.mean(-1), "meanneg": lambda x, a: x.mean((-1, -2)), "var": lambda x, a: x.var(1), "logsum": lambda x, a: x.logsumexp(1), "bmm": lambda x, a: torch.bmm(x.unsqueeze(1), x.unsqueeze(2)), "sortd": lambda x, a: x.sort(1)[0], "topk": lambda x, a: x.topk(2)[0], "sign": lambda x, a: x.sign(), "xor": lambda x, a: (x > 0).float() * x, "eq": lambda x, a: (x == x).float(), "movedim": lambda x, a: x.movedim(1, 0), "unbind": lambda x, a: x.unbind(1)[1], "cat0": lambda x, a: torch.cat([x, torch.ones(1, x.shape[1])], 0), "catconst": lambda x, a: torch.cat([torch.ones_like(x), x], 1),
    "normalize": lambda x, a: TF.normalize(x), "half": lambda x, a: x.half().float(), "inttrunc": lambda x, a: x.long().float(), "gt": lambda x, a: (x > .1).float(), "bilinear": lambda x, a: TF.interpolate(x, size=(3, 3), mode="bilinear"),
}


def layer(n, a):
    if n == "seq":
        return tnn.Sequential(*[layer(*q) for q in a])
    cls = {"Linear": tnn.Linear, "Conv2d": tnn.Conv2d, "Conv1d": tnn.Conv1d, "BatchNorm1d": tnn.BatchNorm1d, "BatchNorm2d": tnn.BatchNorm2d, "MaxPool2d": tnn.MaxPool2d, "AvgPool2d": tnn.AvgPool2d, "AdaptiveAvgPool2d": tnn.AdaptiveAvgPool2d, "AdaptiveMaxPool2d": tnn.AdaptiveMaxPool2d, "Dropout": tnn.Dropout,
           "Dropout2d": tnn.Dropout2d, "Flatten": tnn.Flatten, "ReLU": tnn.ReLU, "ReLU6": tnn.ReLU6, "Hardtanh": tnn.Hardtanh, "Sigmoid": tnn.Sigmoid, "Softmax": tnn.Softmax, "LogSoftmax": tnn.LogSoftmax, "ConstantPad2d": tnn.ConstantPad2d, "ConstantPad1d": tnn.ConstantPad1d, "Identity": tnn.Identity,
           "LayerNorm": tnn.LayerNorm, "GroupNorm": tnn.GroupNorm, "PReLU": tnn.PReLU, "ConvTranspose2d": tnn.ConvTranspose2d, "Bilinear": tnn.Bilinear, "LSTM": tnn.LSTM, "InstanceNorm2d": tnn.InstanceNorm2d, "Conv3d": tnn.Conv3d, "MaxPool1d": tnn.MaxPool1d, "AvgPool1d": tnn.AvgPool1d, "AvgPool3d": tnn.AvgPool3d, "ZeroPad2d": tnn.ZeroPad2d, "ReflectionPad2d": tnn.ReflectionPad2d,
           "LocalResponseNorm": tnn.LocalResponseNorm, "Softmax2d": tnn.Softmax2d, "Softmin": tnn.Softmin, "Threshold": tnn.Threshold, "Embedding": tnn.Embedding, "MultiheadAttention": tnn.MultiheadAttention, "RReLU": tnn.RReLU, "CELU": tnn.CELU, "Hardswish": tnn.Hardswish, "Upsample": tnn.Upsample, "Unflatten": tnn.Unflatten, "Tanh": tnn.Tanh, "GELU": tnn.GELU, "RNN": tnn.RNN,
           "Dropout1d": tnn.Dropout1d, "ReplicationPad2d": tnn.ReplicationPad2d, "Fold": tnn.Fold, "Unfold": tnn.Unfold, "LPPool2d": tnn.LPPool2d, "ChannelShuffle": tnn.ChannelShuffle, "PixelShuffle": tnn.PixelShuffle, "AlphaDropout": tnn.AlphaDropout, "Hardshrink": tnn.Hardshrink, "Softsign": tnn.Softsign, "LogSigmoid": tnn.LogSigmoid}[n]
    return cls(*a[0], **a[1])


class Net(tnn.Module):
    """ops: list of (kind, name, args); kinds: layer, fn, param, res (layer plus input), cat (layer beside input)."""

    def __init__(self, ops, seed):
        super().__init__()
        self.ops = ops
        g = torch.Generator().manual_seed(seed)
        for k, (kind, n, a) in enumerate(ops):
            if kind in ("layer", "res", "cat"):
                self.add_module("l%d" % k, layer(n, a))
            elif kind == "param":
                self.register_parameter("p%d" % k, tnn.Parameter(torch.zeros(a)))
            elif kind == "buffer":
                self.register_buffer("p%d" % k, torch.zeros(a))
        for name, p in list(self.named_parameters()) + list(self.named_buffers()):
            if not p.dtype.is_floating_point:
                continue
            r = torch.rand(p.shape, generator=g) * 2 - 1
            if "running_var" in name:
                r = .6 + .3 * r
            elif p.dim() > 1:
                r = r * (1.6 / (p[0].numel() ** .5))
            else:
                r = r * .5 + (1 if name.endswith("weight") else 0)
            p.data = (r * 2**12).round() / 2**12

    def forward(self, x, y=None):
        for k, (kind, n, a) in enumerate(self.ops):
            if kind == "fn":
                x = UNARY[n](x, a)
                continue
            if kind == "in2":
                x = join(n, x, y)
                continue
            f = getattr(self, "l%d" % k if kind in ("layer", "res", "cat") else "p%d" % k)
            if kind == "layer":
                x = f(x)
                x = x[0] if isinstance(x, tuple) else x
            elif kind == "res":
                x = x + f(x)
            elif kind == "cat":
                x = torch.cat([x, f(x)], 1)
            else:
                x = {"add": lambda: x + f, "sub": lambda: f - x, "mul": lambda: x * f, "matmul": lambda: x @ f}[n]()
        return x


def join(n, x, y):
    return {"add": lambda: x + y, "sub": lambda: y - x, "mul": lambda: x * y, "cat": lambda: torch.cat([y, x], 1)}[n]()


def second(case, x):
    """Arguments of the model: a model with two inputs gets another tensor as well."""
    return (x, x.flip(1) * .5 + .25) if any(o[0] == "in2" for o in case["ops"]) else (x,)


def build(case, seed=None):
    return Net(case["ops"], case["seed"] if seed is None else seed)


# ---- encrypted run -------------------------------------------------------------------------------------------------------------------


NATIVE = ("Linear", "Conv2d", "Conv1d", "BatchNorm1d", "BatchNorm2d", "MaxPool2d", "AvgPool2d", "AdaptiveAvgPool2d", "AdaptiveMaxPool2d", "Dropout", "Dropout2d", "Flatten", "ReLU", "ReLU6", "Hardtanh", "Sigmoid", "Softmax", "LogSoftmax", "ConstantPad2d", "ConstantPad1d", "GroupNorm", "seq")
NATIVE_FN = ("relu", "sigmoid", "square", "neg", "addc", "radd", "mulc", "rsub", "subc", "divc", "mean", "sum", "transpose", "permute", "flatten", "view", "unsqueeze", "squeeze", "slice", "dup", "dupmul", "identity", "softmax", "logsoftmax", "gap", "index_select")


def can_be_native(ops):
    def ok(o):
        if o[0] in ("layer", "res", "cat"):
            return o[1] in NATIVE and (o[1] != "seq" or all(q[0] in NATIVE for q in o[2]))
        return o[1] in NATIVE_FN if o[0] == "fn" else True
    return all(ok(o) for o in ops)


def native(case, model):
    """The same model, built from CrypTen's modules."""
    import crypten

    def make(n, a, source):
        if n == "seq":
            return crypten.nn.Sequential(*[make(q[0], q[1], source[i]) for i, q in enumerate(a)])
        m = getattr(crypten.nn, n)(*a[0], **a[1])
        for name, p in source.named_parameters():
            m.set_parameter(name, p.data.clone())
        for name, b in source.named_buffers():
            if b.dtype.is_floating_point:
                m.set_buffer(name, b.data.clone())
        return m

    class Native(crypten.nn.Module):
        def __init__(self):
            super().__init__()
            for k, (kind, n, a) in enumerate(case["ops"]):
                if kind in ("layer", "res", "cat"):
                    setattr(self, "l%d" % k, make(n, a, getattr(model, "l%d" % k)))
                elif kind == "param":
                    self.register_parameter("p%d" % k, getattr(model, "p%d" % k).data.clone())
                elif kind == "buffer":
                    self.register_buffer("p%d" % k, getattr(model, "p%d" % k).data.clone())

        def forward(self, x, y=None):
            for k, (kind, n, a) in enumerate(case["ops"]):
                if kind == "fn":
                    x = x.index_select(a[0], torch.tensor(a[1])) if n == "index_select" else x.square() if n == "square" else UNARY[n](x, a)
                    continue
                if kind == "in2":
                    x = crypten.cat([y, x], 1) if n == "cat" else join(n, x, y)
                    continue
                f = getattr(self, "l%d" % k if kind in ("layer", "res", "cat") else "p%d" % k)
                x = f(x) if kind == "layer" else x + f(x) if kind == "res" else crypten.cat([x, f(x)], 1) if kind == "cat" else {"add": lambda: x + f, "sub": lambda: f - x, "mul": lambda: x * f, "matmul": lambda: x @ f}[n]()
            return x

    return Native().train(model.training)


def imported(case, model):
    import crypten

    if case.get("native"):
        return native(case, model)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return crypten.nn.from_pytorch(model, second(case, case["dummy"]) if any(o[0] == "in2" for o in case["ops"]) else case["dummy"])


def state(m):
    import crypten

    out = {}
    for n, p in list(m.named_parameters()) + list(m.named_buffers()):
        out[n] = p.get_plain_text() if crypten.is_encrypted_tensor(p) else p.data.clone() if torch.is_tensor(p) else None
    return out


def run(case):
    import crypten

    t = build(case)
    t.train(case["train"])
    try:
        m = imported(case, t)
    except Exception as e:
        return {"refused": (type(e).__name__, str(e)[:120])}
    out = {"acts": [], "same": m.training == case["train"]}
    out["params"] = {n: p.clone() for n, p in state(m).items()}
    for act in case["acts"]:
        rec = None
        try:
            if act[0] == "encrypt":
                m.encrypt(src=act[1])
                ps = list(m.parameters())
                rec = all(crypten.is_encrypted_tensor(p) for p in ps) and m.encrypted
            elif act[0] == "decrypt":
                m.decrypt()
                rec = all(torch.is_tensor(p) for p in m.parameters()) and not m.encrypted
            elif act[0] == "mode":
                m.train(act[1])
                rec = m.training == act[1]
            elif act[0] == "forward":
                x = [crypten.cryptensor(v.clone(), src=act[2]) for v in second(case, act[1])]
                o = m(*x)
                x = x[0]
                if not crypten.is_encrypted_tensor(o):
                    return dict(out, refused=("output", str(type(o))))
                rec = o.get_plain_text()
                if float((x.get_plain_text() - act[1]).abs().max()) > 1e-4:
                    out["input"] = True
            elif act[0] == "plain":  # on plaintext, before encryption
                o = m(*second(case, act[1].clone()))
                rec = o.detach().clone()
            elif act[0] == "state":
                rec = state(m)
            elif act[0] == "copy":
                other = imported(case, build(case, case["seed"] + 1).train(case["train"]))
                if act[1]:
                    other.encrypt(src=act[2])
                if case["seed"] % 2:
                    other.train(m.training)
                other.load_state_dict(m.state_dict())
                if not case["seed"] % 2:
                    other.train(m.training)
                m = other
                rec = True
            elif act[0] == "export":
                p = m.to_pytorch()
                p.eval()
                with torch.no_grad():
                    rec = p(*second(case, act[1]))
        except Exception as e:
            rec = ("raised", type(e).__name__, str(e)[:160])
            out["acts"].append(rec)
            break
        out["acts"].append(rec)
    return out


# ---- judge ---------------------------------------------------------------------------------------------------------------------------


def expected(case):
    """Outputs of the twin for every action; None when not compared."""
    t = build(case)
    if case["must"]:
        t = t.double()
    t.train(case["train"])
    out = []
    args = lambda x: tuple(v if not case["must"] else v.double() for v in second(case, x))
    with torch.no_grad():
        for act in case["acts"]:
            if act[0] == "mode":
                t.train(act[1])
            if act[0] in ("forward", "plain"):
                out.append(t(*args(act[1])).double())
            elif act[0] == "export":
                was = t.training
                t.eval()
                out.append(t(*args(act[1])).double())
                t.train(was)
            elif act[0] == "state":
                out.append({n: p.clone() for n, p in list(t.named_parameters()) + list(t.named_buffers()) if p.dtype.is_floating_point})
            else:
                out.append(True)
    return out


SEEN = {}


def judge(case, outs):
    vals, f = agree(outs)
    if f:
        return f
    d = case["desc"]
    if vals is None:
        return Fail("raised", "%s: %s" % (d, outs[0][1:3]))
    kinds = {("refused" in v) and v["refused"][0] for v in vals}
    if len(kinds) > 1:
        return Fail("agree", "%s: parties disagree on whether the model can be imported: %s" % (d, kinds))
    if "refused" in vals[0]:
        if case["must"]:
            return Fail("refused", "%s: import failed: %s" % (d, vals[0]["refused"]))
        SEEN["refused"] = SEEN.get("refused", 0) + 1
        return None
    exp = expected(case)
    for r, v in enumerate(vals):
        if not v["same"]:
            return Fail("mode", "%s: the imported model is not in the mode of the original" % d)
        if v.get("input"):
            return Fail("input", "%s: the model changed its input" % d)
        for k, (act, a, e) in enumerate(zip(case["acts"], v["acts"], exp)):
            w = "%s: %s" % (d, " ".join(q[0] + (str(q[1]) if q[0] in ("mode", "encrypt", "copy") else "") for q in case["acts"][: k + 1]))
            if isinstance(a, tuple) and a and a[0] == "raised":
                if case["must"] and act[0] != "export":
                    return Fail("raised:%s" % act[0], "%s: %s" % (w, a[1:]))
                SEEN["refused_later"] = SEEN.get("refused_later", 0) + 1
                return None
            if act[0] in ("forward", "plain", "export"):
                SEEN["outputs"] = SEEN.get("outputs", 0) + (r == 0)
                if tuple(a.shape) != tuple(e.shape):
                    return Fail("shape", "%s: output of shape %s instead of %s" % (w, tuple(a.shape), tuple(e.shape)))
                tol = case["tol"] * (1 + float(e.abs().max())) if act[0] == "forward" else case["tol"] if case["tol"] > 5e-3 else 5e-3
                dd = (a.double() - e).abs()
                if dd.numel() and float(dd.max()) > tol:
                    j = int(dd.argmax())
                    return Fail("output:%s" % case["construct"] if case.get("construct") else "output", "%s: output %.4f instead of %.4f at party %d" % (w, float(a.flatten()[j]), float(e.flatten()[j]), r))
            elif act[0] == "state":
                left = {n: q for n, q in a.items()}
                if case.get("native") and set(a) != set(e):
                    return Fail("state", "%s: the model has the parameters %s instead of %s" % (w, sorted(a), sorted(e)))
                for n, p in e.items():
                    hit = [m for m, q in left.items() if q is not None and q.shape == p.shape and (m == n or not case.get("native")) and (p.numel() == 0 or float((q.double() - p).abs().max()) < case["tol"])]
                    if not hit and "num_batches_tracked" not in n and case["keeps"]:
                        # the layout may be transposed by the export
                        hit = [m for m, q in left.items() if q is not None and q.numel() == p.numel() and q.dim() == p.dim() == 2 and q.t().shape == p.shape and float((q.double().t() - p).abs().max()) < case["tol"]]
                        if not hit:
                            return Fail("state", "%s: parameter %s is not among the model's parameters (or has another value)" % (w, n))
            elif a is not True and act[0] != "state":
                return Fail("state", "%s: the model's tensors or flags do not match the action" % w)
    return None


# ---- generation ----------------------------------------------------------------------------------------------------------------------


def q(r, lo, hi, bits=8):
    return round(r.uniform(lo, hi) * 2**bits) / 2**bits


def tensor(r, shape, lo=-1.5, hi=1.5):
    n = 1
    for s in shape:
        n *= s
    return torch.tensor([q(r, lo, hi) for _ in range(n)]).view(shape)


def image_ops(r, c, h, w, n):
    """Layers on (N, c, h, w)."""
    ops, approx = [], False
    for _ in range(n):
        k = r.choice(["conv", "conv", "act", "bn", "pool", "res", "fn", "cat"])
        if k == "conv":
            ks = (r.randrange(1, min(4, h + 1)), r.randrange(1, min(4, w + 1)))
            st = r.choice([1, 1, 2, (2, 1)])
            pad = r.choice([0, 0, 1, (1, 0), (0, 1)])
            dil = r.choice([1, 1, 1, 2]) if max(ks) > 1 and min(h, w) > 4 else 1
            g = r.choice([1, 1, c if c > 1 else 1])
            o = r.choice([1, 2, 3]) * (g if g > 1 else 1)
            ops.append(("layer", "Conv2d", ((c, o, ks), {"stride": st, "padding": pad, "dilation": dil, "groups": g, "bias": r.random() < .7})))
            c = o
        elif k == "act":
            ops.append(r.choice([("layer", "ReLU", ((), {})), ("fn", "relu", None), ("layer", "ReLU6", ((), {})), ("layer", "Hardtanh", ((-.5, 1.0), {})), ("fn", "hardtanh", .75), ("fn", "clamp", .5), ("layer", "Sigmoid", ((), {})), ("fn", "sigmoid", None)]))
            approx |= ops[-1][1].lower() == "sigmoid"
        elif k == "bn":
            ops.append(("layer", "BatchNorm2d", ((c,), {"eps": r.choice([1e-5, 1e-3, .1]), "momentum": r.choice([.1, .3])})))
            approx = True
        elif k == "pool":
            m = r.random()
            if m < .4:
                ops.append(("layer", "MaxPool2d", ((r.choice([2, 3 if min(h, w) > 2 else 2]),), {"stride": r.choice([None, 1, 2]), "padding": r.choice([0, 0, (1, 0) if False else 0])})))
            elif m < .6:
                ops.append(("layer", "AvgPool2d", ((2,), {"stride": r.choice([None, 1, 2]), "padding": r.choice([0, 0, 1])})))
            elif m < .8:
                ops.append(("layer", "AdaptiveAvgPool2d", ((1,), {})))
            else:
                ops.append(("fn", "avgpool", {"kernel_size": 2, "stride": r.choice([1, 2])}))
        elif k == "pad":
            ops.append(r.choice([("layer", "ConstantPad2d", (((1, 0, 2, 1), .5), {})), ("layer", "ZeroPad2d", ((1,), {})), ("fn", "pad", ((1, 2), -.25)), ("fn", "pad", ((0, 1, 1, 0), 0.0))]))
        elif k == "res":
            ops.append(("res", "Conv2d", ((c, c, 3), {"padding": 1, "bias": r.random() < .5})))
        elif k == "cat":
            ops.append(("cat", "Conv2d", ((c, 2, 1), {})))
        elif k == "drop":
            ops.append(("layer", r.choice(["Dropout", "Dropout2d"]), ((.5,), {})))
        else:
            ops.append(r.choice([("fn", "mulc", 1.5), ("fn", "addc", .25), ("fn", "divc", 4.0), ("fn", "dup", None), ("fn", "subc", .5), ("fn", "transpose", (2, 3)), ("param", "add", (1, c, 1, 1)), ("param", "mul", (c, 1, 1)), ("buffer", "add", (1, c, 1, 1)), ("buffer", "mul", (c, 1, 1)), ("fn", "index_select", (1, [0, c - 1]))]))
        t = Net(ops, 0).eval()
        with torch.no_grad():
            s = t(torch.zeros(1, *CUR["in"])).shape
        c, h, w = s[1:]
        if h < 2 or w < 2:
            break
    ops.append(r.choice([("layer", "Flatten", ((), {})), ("fn", "flatten", 1), ("fn", "reshape0", None), ("fn", "view", (-1, c * h * w)) if True else None, ("fn", "gap", None)]))
    return ops, (c if ops[-1][1] == "gap" else c * h * w), approx


CUR = {}


def vec_ops(r, f, n):
    """Layers on (N, f)."""
    ops, approx = [], False
    for _ in range(n):
        k = r.choice(["lin", "lin", "act", "bn", "res", "fn", "fn", "param", "cat", "norm"])
        if k == "lin":
            o = r.randrange(2, 6)
            ops.append(("layer", "Linear", ((f, o), {"bias": r.random() < .75})))
            f = o
        elif k == "act":
            ops.append(r.choice([("layer", "ReLU", ((), {})), ("fn", "relu", None), ("fn", "relu6", None), ("layer", "Hardtanh", ((), {})), ("layer", "Sigmoid", ((), {}))]))
            approx |= ops[-1][1] == "Sigmoid"
        elif k == "bn":
            ops.append(("layer", "BatchNorm1d", ((f,), {"eps": r.choice([1e-5, .1]), "momentum": r.choice([.1, .3])})))
            approx = True
        elif k == "res":
            ops.append(("res", r.choice(["Linear"]), ((f, f), {})))
        elif k == "cat":
            ops.append(("cat", "Linear", ((f, 2), {})))
            f += 2
        elif k == "drop":
            ops.append(("layer", "Dropout", ((.3,), {})))
        elif k == "norm":
            ops.append(r.choice([("layer", "Softmax", ((1,), {})), ("layer", "LogSoftmax", ((1,), {})), ("fn", "softmax", 1), ("fn", "logsoftmax", -1), ("layer", "Softmax", ((-1,), {}))]))
            approx = True
        elif k == "param":
            ops.append(r.choice([("param", "add", (f,)), ("param", "mul", (f,)), ("param", "matmul", (f, 3)), ("param", "sub", (1, f)), ("buffer", "add", (f,)), ("buffer", "mul", (f,)), ("buffer", "matmul", (f, 2))]))
            f = ops[-1][2][1] if ops[-1][1] == "matmul" else f
        else:
            seq = r.choice([[("fn", "square", None)], [("fn", "mulc", .5)], [("fn", "addc", -1.0)], [("fn", "radd", .5)], [("fn", "divc", 3.0)], [("fn", "exp", None)], [("fn", "sqrt", None)], [("fn", "clamp", .75)], [("fn", "catself", 1)], [("fn", "catneg", 1)], [("fn", "dup", None)], [("fn", "dupmul", None)],
                            [("fn", "unsqueeze", 1), ("fn", "transpose", (1, 2)), ("fn", "flatten", 1)], [("fn", "view", (-1, 1, f)), ("fn", "mean", (1, False))], [("fn", "unsqueeze", 2), ("fn", "permute", (0, 2, 1)), ("fn", "flatten", 1)], [("fn", "mean", (1, True))],
                            [("fn", "slice", (1, 0, max(1, f - 1)))], [("fn", "index_select", (1, [f - 1, 0]))], [("fn", "unsqueeze", 1), ("fn", "index", (1, 0))], [("fn", "index", (1, f - 1)), ("fn", "unsqueeze", 1)], [("fn", "erf", None)], [("layer", "Softmax", ((1,), {})), ("fn", "mulc", 2.0)], [("fn", "unsqueeze", 1), ("layer", "Conv1d", ((1, 2, min(2, f)), {"padding": 1})), ("fn", "flatten", 1)]])
            ops += seq
            approx |= any(o[1] in ("exp", "sqrt", "Softmax", "erf") for o in seq)
        with torch.no_grad():
            f = Net(ops, 0).eval()(torch.zeros(2, CUR["f"])).shape[1]
    return ops, f, approx


def has(ops, *names):
    return any(o[1] in names for o in ops)


def sane(case):
    """The twin's values stay within range at every layer, away from huge sensitivity."""
    t = build(case).double()
    noisy = build(case).double()
    g = torch.Generator().manual_seed(1)
    worst = [0.0]
    eps = 8e-4 if not case["approx"] else 4e-3
    try:
        with torch.no_grad():
            for mode in {True, False} & set([case["train"]] + [a[1] for a in case["acts"] if a[0] == "mode"]):
                t.train(mode)
                for a in case["acts"]:
                    if a[0] not in ("forward", "plain", "export"):
                        continue
                    for k, (m, nz) in enumerate(((t, 0), (t, eps))):
                        x = a[1].double()
                        for i, o in enumerate(m.ops):
                            sub = copy.copy(m)
                            sub.ops = [("skip",) * 3] * 0
                            x = join(o[1], x, second(case, a[1].double())[1]) if o[0] == "in2" else step(m, i, o, x)
                            x = x + nz * (torch.rand(x.shape, generator=g).double() * 2 - 1)
                            if float(x.abs().max()) > 8:
                                return False
                            if o[1] == "BatchNorm1d" or o[1] == "BatchNorm2d":
                                pass
                        if k:
                            worst[0] = max(worst[0], float((x - base).abs().max()) / (1 + float(base.abs().max())))
                        base = x
    except Exception:
        return False
    if has(case["ops"], "BatchNorm1d", "BatchNorm2d") and (case["train"] or ["mode", True] in case["acts"]):
        worst[0] *= 2
    case["tol"] = max(2e-3 if not case["approx"] else 1.2e-2, 4 * worst[0])
    return case["tol"] < (.03 if not case["approx"] else .12)


def step(m, k, o, x):
    kind, n, a = o
    if kind == "fn":
        return UNARY[n](x, a)
    f = getattr(m, "l%d" % k if kind in ("layer", "res", "cat") else "p%d" % k)
    if kind == "layer":
        if n in ("BatchNorm1d", "BatchNorm2d") and m.training:
            dims = [i for i in range(x.dim()) if i != 1]
            if float(x.var(dims, unbiased=False).min()) < .1:
                raise ValueError
            return TF.batch_norm(x, None, None, f.weight, f.bias, True, 0, f.eps)
        x = f(x)
        return x[0] if isinstance(x, tuple) else x
    return x + f(x) if kind == "res" else torch.cat([x, f(x)], 1) if kind == "cat" else {"add": lambda: x + f, "sub": lambda: f - x, "mul": lambda: x * f, "matmul": lambda: x @ f}[n]()


def actions(r, ws, shape, bn, drop, big=True):
    acts = []
    x = lambda: tensor(r, (r.choice([1, 2, 3]) if not bn else 4,) + shape)
    enc = [r.randrange(ws)]
    acts.append(["encrypt", enc[0]])
    for _ in range(r.randrange(3, 6)):
        k = r.choice(["forward", "forward", "mode", "cycle", "copy", "state", "export"])
        if k == "forward":
            acts.append(["forward", x(), r.randrange(ws)])
        elif k == "mode":
            acts.append(["mode", r.random() < .4 and not drop])
        elif k == "cycle":
            acts += [["decrypt"], ["encrypt", r.randrange(ws)]]
        elif k == "copy":
            acts.append(["copy", True, r.randrange(ws)])
        elif k == "state":
            acts.append(["state"])
        else:
            acts += [["decrypt"]] + r.choice([[["state"]], [["copy", False, 0]], [["export", x()]]]) + [["encrypt", r.randrange(ws)]]
    acts.append(["forward", x(), r.randrange(ws)])
    return acts


def must_case(r, ws):
    image = r.random() < .45
    approx = False
    ops = []
    if image:
        c, h, w = r.randrange(1, 4), r.randrange(3, 7), r.randrange(3, 7)
        CUR["in"] = shape = (c, h, w)
        try:
            ops, f, approx = image_ops(r, c, h, w, r.randrange(1, 4))
        except Exception:
            return None
        if f > 120:
            return None
        if r.random() < .6:
            ops.append(("layer", "Linear", ((f, r.randrange(2, 5)), {})))
    else:
        f = r.randrange(2, 6)
        CUR["f"] = f
        shape = (f,)
        try:
            ops, f, approx = vec_ops(r, f, r.randrange(1, 6))
        except Exception:
            return None
    if len(ops) < 3 and r.random() < .7 and not has(ops, "BatchNorm1d", "BatchNorm2d"):
        return None
    if not image and r.random() < .15:
        ops.insert(0, ("in2", r.choice(["add", "sub", "mul", "cat"]), None))
    bn = has(ops, "BatchNorm1d", "BatchNorm2d")
    drop = has(ops, "Dropout", "Dropout2d")
    case = {"kind": "net", "ops": ops, "seed": r.randrange(10**6), "train": r.random() < .3 and not drop, "approx": approx, "must": True, "keeps": True, "dummy": tensor(r, (r.choice([1, 2, 4]) if not bn else 4,) + shape)}
    case["acts"] = actions(r, ws, shape, bn, drop)
    if bn and not drop and r.random() < .7:  # statistics gathered while training are used, and kept, afterwards
        x = lambda: ["forward", tensor(r, (4,) + shape), r.randrange(ws)]
        case["acts"] += [["mode", True]] + [x() for _ in range(r.choice([1, 1, 2]))] + [["mode", False], x()] + r.choice([[["state"]], [["decrypt"], ["state"]], [["copy", True, r.randrange(ws)], x()]])
    if can_be_native(ops) and r.random() < .45:
        case["native"] = True
        case["acts"] = [["state"] if a[0] == "export" else a for a in case["acts"]]
    if has(ops, "reshape0"):  # the export fixes this size
        case["dummy"] = [a for a in case["acts"] if a[0] == "forward"][-1][1].clone()
        for a in case["acts"]:
            if a[0] == "forward":
                a[1] = tensor(r, tuple(case["dummy"].shape))
    case["desc"] = "model %s%s" % (" ".join("%s%s" % (o[1] if o[0] in ("layer", "fn") else o[0] + ":" + o[1], o[2] if o[2] is not None else "") for o in ops).replace("'", ""), " (training)" if case["train"] else "") + (" (built from modules)" if case.get("native") else "")
    return case if sane(case) else None


# constructs that may be refused; (input shape, ops)
OTHER = [((4,), [("fn", n, a)]) for n, a in [("rsub", 1.0), ("neg", None)] + [(n, None) for n in ("negslice negend beyond meanall sumall sqrtpow oneslike fullmul expandas mask maskfill unsq-1 squeezeall sizescale addmm baddlin outer mulx1 divx const2 matconst gather intdiv clampmin clampmax relux tile round sumlast meanlast var logsum bmm sortd topk sign xor eq movedim unbind cat0 catconst").split()] + [("transpose", (-1, 0)), ("catself", -1), ("softmax", -2), ("index", (-1, -1)), ("mean", (-1, True)), ("tril", None), ("gelu", None), ("leaky", None), ("elu", None), ("softplus", None), ("tanh", None), ("abs", None), ("max", 1), ("amax", 1), ("argmax", 1), ("floor", None), ("where", None), ("cumsum", None), ("flip", None), ("norm", None), ("std", None), ("prod", None), ("split", None), ("chunk", None), ("roll", None), ("pow3", None), ("pow1", None), ("repeat", None), ("sin", None),
                                             ("log", None), ("rdiv", 2.0), ("divself", None), ("silu", None), ("hardsig", None), ("glu", None), ("minmax", None), ("einsum", None), ("stack", None), ("index2", None), ("step", None), ("negidx", None), ("normalize", None), ("half", None), ("inttrunc", None), ("gt", None), ("identity", None), ("expand", None), ("softmax", 0), ("mean", (0, False)), ("sum", (0, True)), ("matmulself", None)]]
OTHER += [((2, 4, 4), [("fn", n, a)]) for n, a in [("flat12", None), ("meanneg", None), ("unsq-1", None), ("catself", -2), ("transpose", (-1, -2)), ("interp", None), ("padreflect", None), ("pixel", None), ("lp", None), ("bilinear", None), ("adaptavg", 3), ("adaptmax", 2), ("adaptmax", 3), ("matmulself", None), ("gap", None), ("softmax", 1), ("softmax", 2), ("softmax", -1), ("logsoftmax", 2), ("mean", ((1, 2), True)), ("sum", ((2, 3), False)), ("flatten", 0), ("flatten", 2), ("view", (-1, 4, 8)), ("permute", (0, 3, 1, 2)), ("maxpool", {"kernel_size": 3, "stride": 2, "padding": 1}),
                                                   ("maxpool", {"kernel_size": 2, "dilation": 2, "stride": 1}), ("maxpool", {"kernel_size": 3, "stride": 2, "ceil_mode": True}), ("avgpool", {"kernel_size": 3, "stride": 2, "ceil_mode": True}), ("avgpool", {"kernel_size": 2, "padding": 1, "count_include_pad": False}), ("avgpool", {"kernel_size": (1, 2), "stride": (2, 1), "padding": (0, 1)}), ("max", 1), ("catself", 0), ("catself", 3), ("slice", (2, 1, 2)), ("index", (1, 1)), ("pad", ((1, 1, 0, 0, 1, 0), .5)), ("pad", ((-1, 0), 0.0))]]
OTHER += [((2, 4, 4), [("layer", n, a)]) for n, a in [("GroupNorm", ((1, 2), {})), ("PReLU", ((), {})), ("ConvTranspose2d", ((2, 2, 2), {})), ("InstanceNorm2d", ((2,), {})), ("ReflectionPad2d", ((1,), {})), ("ReplicationPad2d", ((1,), {})), ("LocalResponseNorm", ((2,), {})), ("Softmax2d", ((), {})), ("Upsample", ((), {"scale_factor": 2})), ("LayerNorm", (((2, 4, 4),), {})), ("AdaptiveMaxPool2d", ((2,), {})), ("AdaptiveAvgPool2d", ((3,), {})), ("AdaptiveAvgPool2d", (((None, 2),), {})), ("MaxPool2d", ((2,), {"ceil_mode": True})), ("MaxPool2d", ((3,), {"ceil_mode": True, "stride": 2})),
                                                      ("MaxPool2d", ((3,), {"padding": 1})), ("AvgPool2d", ((3,), {"ceil_mode": True})), ("AvgPool2d", ((2,), {"padding": 1, "count_include_pad": False})), ("Conv2d", ((2, 2, 3), {"padding": 1, "padding_mode": "circular"})), ("Conv2d", ((2, 2, 3), {"padding": "same"})), ("Conv2d", ((2, 2, 2), {"padding": "same"})), ("Conv2d", ((2, 4, 2), {"groups": 2})), ("Unfold", ((2,), {})), ("LPPool2d", ((2, 2), {})), ("ChannelShuffle", ((2,), {})), ("BatchNorm2d", ((2,), {"affine": False})), ("BatchNorm2d", ((2,), {"track_running_stats": False})), ("Unflatten", ((1, (1, 2)), {})), ("Dropout2d", ((.5,), {}))]]
OTHER += [((4,), [("layer", n, a)]) for n, a in [("LayerNorm", ((4,), {})), ("PReLU", ((), {})), ("Softmin", ((1,), {})), ("Threshold", ((.1, 2), {})), ("CELU", ((), {})), ("Hardswish", ((), {})), ("RReLU", ((), {})), ("Tanh", ((), {})), ("GELU", ((), {})), ("Identity", ((), {})), ("AlphaDropout", ((.5,), {})), ("Hardshrink", ((), {})), ("Softsign", ((), {})), ("LogSigmoid", ((), {})), ("Softmax", ((0,), {})), ("Linear", ((4, 3), {})), ("Linear", ((4, 1), {"bias": False})), ("BatchNorm1d", ((4,), {"affine": False})), ("ReLU", ((), {})), ("Flatten", ((0,), {}))]]
OTHER += [((3, 4), [("layer", n, a)]) for n, a in [("LSTM", ((4, 2), {"batch_first": True})), ("RNN", ((4, 2), {})), ("Conv1d", ((3, 2, 2), {})), ("Conv1d", ((3, 3, 2), {"groups": 3, "stride": 2})), ("MaxPool1d", ((2,), {})), ("AvgPool1d", ((2,), {})), ("ConstantPad1d", ((1, .5), {})), ("BatchNorm1d", ((3,), {})), ("Linear", ((4, 2), {})), ("Dropout1d", ((.5,), {})), ("LayerNorm", ((4,), {})), ("Flatten", ((), {})), ("Flatten", ((0, 1), {})), ("Softmax", ((2,), {})), ("Softmax", ((1,), {})), ("LogSoftmax", ((1,), {}))]]
OTHER += [((1, 3, 3, 3), [("layer", "Conv3d", ((1, 1, 2), {}))]), ((1, 3, 3, 3), [("layer", "AvgPool3d", ((2,), {}))])]


def other_case(r, ws, shape, ops):
    # alone, or inside a model
    pre = [("fn", "mulc", .5)] if r.random() < .5 else []
    post = [("fn", "addc", .25)] if r.random() < .5 else []
    n = 2 if any(o[1] in ("BatchNorm1d", "BatchNorm2d") for o in ops) else r.choice([1, 2, 3])
    case = {"kind": "net", "construct": "%s%s" % (ops[0][1], "" if ops[0][2] is None else ops[0][2]), "ops": pre + ops + post, "seed": r.randrange(10**6), "train": False, "approx": True, "must": False, "keeps": False, "tol": .04, "dummy": tensor(r, (n,) + shape)}
    case["acts"] = [["encrypt", r.randrange(ws)], ["forward", tensor(r, (n,) + shape), r.randrange(ws)]]
    if r.random() < .3:
        case["acts"].insert(1, ["mode", False])
    case["desc"] = "model %s on %s" % (" ".join("%s%s" % (o[1], o[2] if o[2] is not None else "") for o in case["ops"]).replace("'", ""), tuple(case["dummy"].shape))
    return case


def gen(r, ws, n, other):
    out = []
    while len(out) < n:
        c = must_case(r, ws)
        if c is not None:
            out.append(c)
    for shape, ops in OTHER:
        if r.random() < other:
            out.append(other_case(r, ws, shape, ops))
    r.shuffle(out)
    return out


def check(ctx):
    ctx.rule = ("A model case imports a random PyTorch model (or builds it from CrypTen's modules with the same parameters) (convolutions, linear layers, pooling, batch normalization, activations, arithmetic, shape operations, residual connections, extra parameters and buffers), encrypts it and runs a random sequence of forward passes, mode switches, decryption, re-encryption by another "
                "party and state copies into another instance; outputs and parameters are compared with the double-precision original. A construct case imports one of %d constructs, which may be refused but not computed differently." % len(OTHER))
    ctx.assumptions = ["models with a value above 8, or whose output reacts to perturbed layers by more than the tolerance, are not used"]
    jobs = []
    for ws, cfg, n, other in [(2, None, 90, 1.0), (3, None, 14, .1), (2, {"mpc.provider": "TTP"}, 10, .05), (1, None, 12, .2)]:
        lab = "%dPC%s" % (ws, "".join("-" + v for v in (cfg or {}).values()))
        r = ctx.rng(lab)
        cs = [c for _ in range(ctx.n(1, 10)) for c in gen(r, ws, n, other)]
        parts = 3 if ws == 2 and not cfg else 1
        for k in range(parts):
            jobs.append(dict(label="%s-%d" % (lab, k), ws=ws, cfg=cfg, cases=cs[k::parts], mod=ME, fn="run", judge=judge, opts={}, sig=lambda c: c["desc"] + str([a[:1] for a in c["acts"]])))
    ctx.drive(jobs, reruns=3, parallel=4)
    for k, v in SEEN.items():
        ctx.count(k, v)
