"""C13: traffic patterns of the same program on different private data are compared event by event at every party."""
import torch

from .. import ex
from ..core import Fail, agree
from ..ex import enc, pub
from ..gen import grid

ME = "vf.checks.c13"
MIN_EVAL = 100

# expression, operand shapes, domain
T = []


def t(dom, shapes, *exprs):
    for e in exprs:
        T.append((e, shapes, dom))


V, M, B = (5,), (3, 4), (2, 3, 4)
t("any", [M, M], "a*b", "a.square()", "a.matmul(b.t())", "a/3", "a.mean()", "a.var()", "a>b", "a<b", "a>=b", "a<=b", "a==b", "a!=b", "a.relu()", "a.abs()",
  "a.sign()", "a.max()", "a.min()", "a.max(0)", "a.min(1)", "a.argmax()", "a.argmax(1)", "a.argmin(0)", "a.argmax(1,one_hot=False)", "M.where(a>b,a,b)", "a.where(b>0,b)",
  "a.hardtanh()", "a.hardtanh(-2,3)", "a.relu6()", "a.to(M.mpc.binary)", "a.to(M.mpc.binary).to(M.mpc.arithmetic)", 
  "a._ltz()", "a.eq(0)", "a.ne(b)", "a.div(4)", "a.cumsum(0)", "a.sum(1)", "a.prod(1)", "a.pow(2)", "a.pow(3)", "a.norm(dim=1)", "a.dropout(p=0.3)",
  "a.weighted_index()", "(a>b)*(a<b)", "a.scatter(1,torch.tensor([[0,1,2,3]]),b)", "M.cat([a,b])", "M.stack([a,b])",
  "a[1:]*b[:-1]", "a.gather(1,torch.tensor([[0],[2],[1]]))", "a.polynomial([1.0,2.0,0.5])", "a.flatten().dot(b.flatten())", "a.flatten().ger(b.flatten())")
t("small", [M, M], "a.exp()", "a.sigmoid()", "a.tanh()", "a.softmax(1)", "a.log_softmax(0)", "a.softmax(0)", "a.cos()", "a.sin()", "a.erf()", "a.cossin()", )
t("pos", [M, M], "a.reciprocal()", "a.log()", "a.sqrt()", "a.inv_sqrt()", "a/b", "b.div(a)", "a.pow(-1)")
t("any", [(1, 1, 4, 4), (1, 1, 2, 2)], "a.max_pool2d(2)", "a.max_pool2d(2,padding=1)", "a.max_pool2d(2,return_indices=True)", "a.avg_pool2d(2)", "a.conv2d(b)", "a.conv2d(b,padding=1)",
  "a.conv_transpose2d(b)", "a.adaptive_max_pool2d((2,2))", "a.adaptive_avg_pool2d((2,2))")

GRAD = [("(a*b).sum()", "any"), ("a.relu().sum()", "any"), ("a.max(1)[0].sum()", "any"), ("(a.matmul(b.t())).square().sum()", "any"), ("a.softmax(1).mul(b).sum()", "small"),
        ("a.sigmoid().mul(b).sum()", "small"), ("a.abs().mul(b).mean()", "any"), ("(a/b).sum()", "pos"), ("a.log().sum()", "pos"), ("a.var()", "any"), ("a.min(0)[0].sum()", "any"),
        ("a.dropout(p=0.5).sum()", "any"), ("a.exp().sum()", "small"), ("a.tanh().sum()", "small"), ("a.hardtanh().sum()", "any"), ("a.norm()", "pos"), ("a.sqrt().sum()", "pos")]
NN = ["linear-mse", "linear-bce", "conv-pool-ce", "batchnorm", "loss-ce", "loss-bcelogits", "loss-l1", "loss-rankloss"]


def variant(r, shape, dom, mode):
    n = 1
    for d in shape:
        n *= d
    lo, hi = {"any": (-30, 30), "small": (-3, 3), "pos": (.1, 15), "unit": (0.05, 0.95)}[dom]
    if mode == 0:
        v = [lo + (hi - lo) * r.random() for _ in range(n)]
    elif mode == 1:  # all the same
        c = r.choice([0.0, 1.0, hi, lo]) if dom != "pos" else r.choice([1.0, hi, lo])
        v = [c] * n
    elif mode == 2:  # sorted
        v = sorted(lo + (hi - lo) * r.random() for _ in range(n))
        if r.random() < .5:
            v.reverse()
    elif mode == 3:  # few distinct values: ties
        cs = [lo, hi, 1.0] + ([0.0, -1.0] if dom in ("any", "small") else [])
        v = [r.choice(cs) for _ in range(n)]
    else:  # grid extremes
        v = [r.choice([2.0 ** -16, 1.0 - 2.0 ** -16, 1.0]) * (r.choice([1, -1]) if dom in ("any", "small") else 1) + (0.2 if dom == "pos" else 0) for _ in range(n)]
    return (torch.tensor(v).mul(65536).round() / 65536).float().view(shape)


# ------------------------------------------------------------------ party side
def _pattern(rec):
    return [(e["op"], tuple(sorted((k, str(v)) for k, v in e["meta"].items())), tuple(e["shapes"]), tuple(e["dtypes"])) for e in rec]


def _nn(kind, xs):
    import crypten
    import torch.nn as tnn

    torch.manual_seed(5)
    n = crypten.nn
    if kind == "linear-mse":
        m, loss, y = n.Sequential(n.Linear(4, 3), n.ReLU(), n.Linear(3, 2)), n.MSELoss(), xs[1][:, :2]
    elif kind == "linear-bce":
        m, loss, y = n.Sequential(n.Linear(4, 2), n.Sigmoid()), n.BCELoss(), (xs[1][:, :2] > 0)
    elif kind == "conv-pool-ce":
        m = n.Sequential(n.Conv2d(1, 2, 2), n.ReLU(), n.MaxPool2d(2), n.Flatten(), n.Linear(2, 2))
        loss, y = n.CrossEntropyLoss(), crypten.cat([xs[1][:, :1] > 0, xs[1][:, :1] <= 0], 1)
        xs = [xs[0].view(3, 1, 2, 2).pad((1, 1, 1, 1))[:, :, :3, :3]] + list(xs[1:])
    elif kind == "batchnorm":
        m, loss, y = n.Sequential(n.Linear(4, 2), n.BatchNorm1d(2)), n.MSELoss(), xs[1][:, :2]
    else:
        f = {"loss-ce": n.CrossEntropyLoss, "loss-bcelogits": n.BCEWithLogitsLoss, "loss-l1": n.L1Loss, "loss-rankloss": n.RankLoss if hasattr(n, "RankLoss") else n.MSELoss}[kind]()
        m, loss, y = n.Linear(4, 2), f, (crypten.cat([xs[1][:, :1] > 0, xs[1][:, :1] <= 0], 1))
    m.encrypt()
    m.train()
    opt = crypten.optim.SGD(m.parameters(), lr=0.1, momentum=0.5)
    for _ in range(2):
        opt.zero_grad()
        l = loss(m(xs[0]), y)
        l.backward()
        opt.step()
    m.eval()
    return m(xs[0])


def run(case):
    import crypten
    import crypten.communicator as comm

    from .. import instrument

    rank = comm.get().get_rank()
    pats = []
    with ex.override(case.get("cfg")):
        for ops in case["variants"]:
            instrument.record()
            try:
                xs = [ex.mk(s, rank, i) for i, s in enumerate(ops)]
                env = dict(ex.env_common(), M=crypten, crypten=crypten, **dict(zip("abc", xs)))
                if case["kind"] == "nn":
                    _nn(case["expr"], xs)
                elif case["kind"] == "grad":
                    for x in xs:
                        x.requires_grad = True
                    eval(case["expr"], env).backward()
                else:
                    v = eval(case["expr"], env)
                    if case["kind"] == "reveal":
                        v = v[0] if isinstance(v, tuple) else v
                        v.get_plain_text()
                        v.get_plain_text(dst=0)
            finally:
                rec = instrument.stop_record()
            pats.append(_pattern(rec))
    return pats


def judge(case, outs):
    vals, f = agree(outs)
    where = "%s %s cfg=%s" % (case["kind"], case["expr"], case.get("cfg"))
    if f:
        return Fail(case["expr"] + "/diverged", f.msg + "; " + where)
    if vals is None:
        return Fail(case["expr"] + "/raises", "raised %s: %s; %s" % (outs[0][1], outs[0][2], where))
    for r, pats in enumerate(vals):
        for k, p in enumerate(pats[1:], 1):
            if p != pats[0]:
                i = next((i for i, (x, y) in enumerate(zip(p, pats[0])) if x != y), min(len(p), len(pats[0])))
                return Fail(case["expr"] + "/traffic", "party %d: traffic depends on the data: event %d is %s on one input and %s on another (%d and %d events); %s; inputs %s / %s" % (
                    r, i, pats[0][i] if i < len(pats[0]) else "absent", p[i] if i < len(p) else "absent", len(pats[0]), len(p), where,
                    [s["t"].flatten()[:8].tolist() for s in case["variants"][0]], [s["t"].flatten()[:8].tolist() for s in case["variants"][k]]))
    return None


CFGS = {"max": [None, {"functions.max_method": "pairwise"}, {"functions.max_method": "log_reduction"}, {"functions.max_method": "double_log_reduction"}, {"functions.max_method": "accelerated_cascade"}],
        "sigmoid": [None, {"functions.sigmoid_tanh_method": "chebyshev"}],
        "reciprocal": [None, {"functions.reciprocal_method": "log"}, {"functions.reciprocal_all_pos": True}]}


def cfgs(e):
    out = []
    for k, v in CFGS.items():
        if k in e or (k == "max" and ("min" in e or "pool" in e)) or (k == "sigmoid" and "tanh" in e and "hard" not in e):
            out += v
    return out or [None]


def cases(r, ws, n):
    table = [(e, s, d, c, "op") for e, s, d in T if " if False" not in e for c in cfgs(e)] + [(e, [M, M], d, c, "grad") for e, d in GRAD for c in cfgs(e)[:2]] + \
        [(e, [M, M], "small", None, "nn") for e in NN] + [("a*b", [M, M], "any", None, "reveal"), ("a>b", [M, M], "any", None, "reveal")]
    r.shuffle(table)
    for i in range(n):
        e, shapes, dom, c, kind = table[i % len(table)]
        modes = [0, r.choice([1, 3]), r.choice([1, 2, 3, 4])]
        r.shuffle(modes)
        srcs = [r.randrange(ws) for _ in shapes]
        yield {"expr": e, "kind": kind, "cfg": c, "variants": [[enc(variant(r, s, dom, m), src=q) for s, q in zip(shapes, srcs)] for m in modes]}


def check(ctx):
    ctx.rule = ("A case is one operation, backward pass, training run or decryption executed on three private inputs chosen to provoke data-dependent behaviour (ties, constants, sorted, extremes); "
                "the event sequences (primitive, peers, operator, shapes, element types) of every party must be identical.")
    ctx.assumptions = ["message timing is not part of the traffic pattern"]
    jobs = []
    for ws, cfg, k in [(2, None, 1.0), (3, None, .5), (2, {"mpc.provider": "TTP"}, .3), (3, {"mpc.protocol": "replicated"}, .3), (4, None, .15)]:
        lab = "%dPC%s" % (ws, "".join("-" + v for v in (cfg or {}).values()))
        r = ctx.rng(lab)
        jobs.append(dict(label=lab, ws=ws, cfg=cfg, cases=list(cases(r, ws, int(ctx.n(150, 3000) * k))), mod=ME, fn="run", judge=judge,
                         sig=lambda c: (c["expr"], c["kind"], repr(c.get("cfg")), tuple(float(s["t"].flatten()[0]) for v in c["variants"] for s in v))))
    ctx.drive(jobs, reruns=2, parallel=5)
