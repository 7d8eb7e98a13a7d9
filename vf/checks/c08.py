"""C08: encrypted gradients against plaintext automatic differentiation."""
import re

import torch

from .. import ex
from ..core import Fail, agree, err_of
from ..ex import enc, pub
from ..gen import grid, ints

MIN_EVAL = 200
ME = "vf.checks.c08"


# ------------------------------------------------------------------ party side
def run(case):
    """mode: loss = sum of outputs times weights, backward from the scalar; or backward(grad_input) on each output"""
    import crypten
    import crypten.communicator as comm

    rank = comm.get().get_rank()
    with ex.override(case.get("cfg")):
        ops = [ex.mk(s, rank, i) for i, s in enumerate(case["ops"])]
        env = ex.env_common()
        env.update({"M": crypten, "crypten": crypten})
        for name, o in zip("abcdefgh", ops):
            env[name] = o
        pubs = [o.clone() if torch.is_tensor(o) else None for o in ops]
        res = {"grads": [], "out": None}
        for rep in range(case.get("reps", 1)):
            out = run_prog(case["expr"], env)
            out = list(out) if isinstance(out, (tuple, list)) else [out]
            if rep == 0:
                res["out"] = [o.get_plain_text() for o in out]
                res["req"] = [bool(o.requires_grad) for o in out]
            if case["mode"] == "loss":
                loss = None
                for o, w in zip(out, case["w"]):
                    t = (o * w).sum() if w is not None else o
                    loss = t if loss is None else loss + t
                loss.backward()
            elif case["mode"] == "encgrad":
                for o, w in zip(out, case["w"]):
                    o.backward(crypten.cryptensor(w))
        for o in ops:
            if crypten.is_encrypted_tensor(o):
                res["grads"].append(None if o.grad is None else o.grad.get_plain_text())
            else:
                res["grads"].append(None)
        res["after"] = [o.get_plain_text() if crypten.is_encrypted_tensor(o) else None for o in ops]
        res["pub_same"] = [True if p is None else (p.shape == o.shape and torch.equal(p, o)) for p, o in zip(pubs, ops)]
    return res


def run_prog(expr, env):
    if ";" in expr:
        body, last = expr.rsplit(";", 1)
        env = dict(env)
        exec(body.strip().replace("; ", "\n"), env)
        return eval(last.strip(), env)
    return eval(expr, env)


# ------------------------------------------------------------------ reference
def bn_ref(x, w, b, **k):
    return torch.nn.functional.batch_norm(x, k.get("rm"), k.get("rv"), w, b, training=k.get("training", False), eps=1e-5)


class Tm:
    """torch under the names the crypten module uses"""

    def __getattr__(self, n):
        return getattr(torch, n)


def ref_env():
    e = ex.env_common()
    e["M"] = torch
    e["bn_ref"] = bn_ref
    e["rappor"] = rappor
    return e


def rappor(x, t, alpha):
    p = torch.sigmoid(x)
    q = alpha * p + (1 - alpha) * (1 - p) if alpha else p
    return torch.nn.functional.binary_cross_entropy(q, t)


def reference(case, noise=0.0, seed=0):
    env = ref_env()
    leaves = []
    g = torch.Generator()
    g.manual_seed(seed)
    for name, s in zip("abcdefgh", case["ops"]):
        v = ex.ref_operand(s)
        if torch.is_tensor(v) and v.dtype.is_floating_point and isinstance(s, dict):
            v = v.clone()
            if noise and s["k"] == "enc" and s.get("grad"):
                v = v + (torch.rand(v.shape, generator=g, dtype=torch.float64) * 2 - 1) * noise
            if s["k"] == "enc" and s.get("grad"):
                v.requires_grad_(True)
        env[name] = v
        leaves.append(v)
    out = run_prog(case.get("ref") or case["expr"], env)
    out = list(out) if isinstance(out, (tuple, list)) else [out]
    loss = 0
    for o, w in zip(out, case["w"]):
        loss = loss + ((o * w.double()).sum() if w is not None else o)
    loss = loss * case.get("reps", 1)
    req = [l for l in leaves if torch.is_tensor(l) and l.requires_grad]
    gr = torch.autograd.grad(loss, req, allow_unused=True)
    it = iter(gr)
    grads = [next(it) if torch.is_tensor(l) and l.requires_grad else None for l in leaves]
    return [o.detach() for o in out], grads, [l.detach() if torch.is_tensor(l) else l for l in leaves]


def judge(case, outs):
    key = case["key"]
    vals, f = agree(outs)
    d = ex.desc(case) + " mode=%s" % case["mode"]
    if f:
        return Fail(key + "/diverged", "%s on %s" % (f.msg, d))
    if vals is None:
        e = err_of(outs)
        return Fail(key + "/raises", "raised %s: %s on %s ... %s" % (e[1], e[2], d, e[3][-700:]))
    want_out, want, leaves = reference(case)
    # sensitivity of the gradient to perturbations of the inputs of a few units in the last place
    sens = [None if w is None else torch.zeros_like(w) for w in want]
    for s in range(3):
        _, w2, _ = reference(case, noise=case["eps"], seed=s)
        for i, (a, b) in enumerate(zip(want, w2)):
            if a is not None:
                sens[i] = torch.maximum(sens[i], (a - b).abs())
    v0 = vals[0]
    x = ex.same_everywhere([[g for g in v["grads"] if g is not None] + v["out"] for v in vals])
    if x:
        return Fail(key + "/disagree", "%s on %s" % (x, d))
    x = ex.close(v0["out"], want_out, case["tol"] * (1 + max([float(o.abs().max()) if o.numel() else 0 for o in want_out])))
    if x:
        return Fail(key + "/value", "forward: %s on %s" % (x, d))
    for i, (g, w, s) in enumerate(zip(v0["grads"], want, sens)):
        spec = case["ops"][i]
        if w is None:
            # an operand unused by the result may have no gradient or a zero one
            if g is not None and not (isinstance(spec, dict) and spec.get("grad") and float(g.abs().max()) < 1e-3):
                return Fail(key + "/unexpected-grad", "operand %d received a gradient although none was due: %s" % (i, d))
            continue
        if g is None:
            if w.abs().max() == 0:
                continue
            return Fail(key + "/missing-grad", "operand %d received no gradient, expected %s on %s" % (i, w.flatten()[:6].tolist(), d))
        if tuple(g.shape) != tuple(w.shape):
            return Fail(key + "/grad-shape", "gradient of operand %d has shape %s, expected %s on %s" % (i, tuple(g.shape), tuple(w.shape), d))
        if w.numel() == 0:
            continue
        bound = case["tol"] * (1 + w.abs().max()) * case.get("reps", 1) + 4 * s
        bad = ~((g.double() - w).abs() <= bound)
        if bad.any():
            j = int(bad.flatten().nonzero()[0])
            return Fail(key + "/grad", "gradient of operand %d at element %d of %s: got %.6g, expected %.6g (allowed %.3g, %d of %d elements off) on %s" % (
                i, j, tuple(w.shape), g.flatten()[j], w.flatten()[j], bound.flatten()[j], int(bad.sum()), w.numel(), d))
    for i, (av, l) in enumerate(zip(v0["after"], leaves)):
        if av is not None and not torch.equal(av.double(), l.double()):
            return Fail(key + "/operand", "operand %d was changed by forward or backward: %s" % (i, d))
    if not all(all(v["pub_same"]) for v in vals):
        return Fail(key + "/public", "public operand was changed: %s" % d)
    return None


# ------------------------------------------------------------------ generation
def away(r, s, lo, hi, margin=0.08):
    """values with |x| >= margin"""
    t = grid(r, s, lo, hi)
    return torch.where(t.abs() < margin, torch.full_like(t, margin * 2), t)


def distinct(r, s, lo=-4, hi=4):
    """pairwise distinct values, gaps >= 0.05"""
    n = 1
    for d in s:
        n *= d
    step = max(0.0625, (hi - lo) / max(n, 1) / 2)
    step = int(step * 65536) / 65536
    v = [lo + step * i for i in range(n)]
    r.shuffle(v)
    return torch.tensor(v).view(s)


def table():
    """(expression, reference or None, operand makers, tolerance class)"""
    T = []

    def add(e, *ops, ref=None, tol="lin", **k):
        T.append((e, ref, ops, tol, k))

    def N(*s, lo=-3, hi=3):
        return lambda r: grid(r, s, lo, hi)

    def AW(*s, lo=-3, hi=3):
        return lambda r: away(r, s, lo, hi)

    def D(*s, lo=-4, hi=4):
        return lambda r: distinct(r, s, lo, hi)

    def POS(*s, lo=0.5, hi=4):
        return lambda r: grid(r, s, lo, hi, special=False)

    A = N(2, 3, 4)
    for e in ["a.transpose(0,2)", "a.transpose(-1,0)", "a.permute((2,0,1))", "a.permute(dims=(1,2,0))", "a.permute((-1,0,-2))", "a.flip(0)", "a.flip((0,2))", "a.flip(dims=(1,))", "a.clone()",
              "a.view(6,4)", "a.view(-1)", "a.view((4,-1))", "a.reshape(4,6)", "a.reshape((24,))", "a.flatten()", "a.flatten(1)", "a.flatten(start_dim=0,end_dim=1)", "a.narrow(0,1,1)", "a.narrow(2,1,2)",
              "a.narrow(1,0,3)", "a.narrow(-1,1,2)", "a.take(torch.tensor([0,5,5,23]))", "a.take(torch.tensor([[3,3],[1,0]]))", "a.index_select(0,torch.tensor([1,1,0]))", "a.index_select(2,torch.tensor([3,0]))",
              "a.index_select(-1,torch.tensor([3,0,3]))", "a.roll(1,0)", "a.roll(2,2)", "a.roll((1,2),(0,2))", "a.roll(5)", "a.roll(-1,-1)", "a.unsqueeze(0)", "a.unsqueeze(-1)", "a.unsqueeze(2)", "a.unsqueeze(dim=1)",
              "a[0]", "a[1,2]", "a[:,1:]", "a[...,0]", "a[0,1,2]", "a[:,[0,0,2]]", "a[torch.tensor([1,1,1])]", "a[None]", "a[:,::2,-1]", "a[-1]", "-a", "a.neg()", "a.sum()", "a.sum(0)", "a.sum(-1)",
              "a.sum(1,keepdim=True)", "a.sum(dim=2)", "a.sum((0,2))", "a.sum((-1,0),keepdim=True)", "a.mean()", "a.mean(0)", "a.mean(dim=-1)", "a.mean(1,keepdim=True)", "a.mean((0,1))", "a.mean((-1,0),keepdim=True)",
              "a.cumsum(0)", "a.cumsum(2)", "a.cumsum(-1)", "a*2", "3*a", "a*0.5", "a+1", "1.5+a", "a-2", "2-a", "a/4", "a/3", "a/-0.5", "a.square()", "a*a", "a+a", "a-a", "a.mul(a).mul(a)", "M.cat([a,a],dim=1)", "M.stack([a,a,a],dim=-1)"]:
        add(e, A)
    for e in ["a.take(torch.tensor([0,2]),1)", "a.take(torch.tensor([1,1,0]),0)", "a.take(torch.tensor([[3,0],[0,0]]),2)", "a.take(torch.tensor([2,0]),-1)"]:
        m = re.match(r"a\.take\((.*),(-?\d)\)", e)
        d = int(m.group(2)) % 3
        add(e, A, ref="a[%s%s]" % (":," * d, m.group(1)))
    add("a.t()", N(3, 4))
    add("a.t()", N(4))
    add("a.trace()", N(4, 4))
    for s, es in [((1, 3, 1, 2), ["a.squeeze()", "a.squeeze(0)", "a.squeeze(2)", "a.squeeze(-2)", "a.squeeze(1)", "a.squeeze(dim=2)"]), ((1,), ["a.squeeze()", "a.squeeze(0)", "a.sum()", "a.mean()"]),
                  ((), ["a*2", "a.sum()", "a.mean()", "a.square()", "-a", "a.unsqueeze(0)", "a.reshape(1)"])]:
        for e in es:
            add(e, N(*s))
    # two operands: kinds are varied by the generator (both encrypted, one without gradient, one public)
    for e in ["a+b", "a-b", "a*b", "b-a", "b*a", "a.add(b)", "a.sub(b)", "a.mul(b)"]:
        for s1, s2 in [((2, 3), (2, 3)), ((2, 3), (3,)), ((3,), (2, 3)), ((2, 1, 3), (4, 1)), ((2, 3), ()), ((), (2, 2)), ((1,), (3,)), ((1, 3), (2, 1)), ((2, 2), (1,))]:
            add(e, N(*s1), N(*s2))
    for s1, s2 in [((2, 3), (3, 4)), ((3,), (3,)), ((3,), (3, 2)), ((2, 3), (3,)), ((4, 2, 3), (3, 2)), ((2, 3), (4, 3, 2)), ((4, 2, 3), (4, 3, 2)), ((2, 1, 2, 3), (4, 3, 2)), ((4, 2, 3), (3,)), ((3,), (4, 3, 2)),
                   ((1, 3), (3, 1)), ((1,), (1,)), ((1,), (1, 3)), ((2, 1), (1,)), ((1, 1), (1, 1)), ((5, 1, 3), (3, 1)), ((3, 1), (1,))]:
        add(*["a.matmul(b)", N(*s1), N(*s2)])
    add("a@b", N(2, 3), N(3, 2))
    add("a.dot(b)", N(5), N(5))
    add("a.dot(b)", N(1), N(1))
    add("a.ger(b)", N(3), N(4), ref="torch.outer(a,b)")
    add("M.cat([a,b],dim=0)", N(2, 3), N(4, 3))
    add("M.cat([a,b],dim=-1)", N(2, 3), N(2, 1))
    add("M.cat([a,b,a],dim=1)", N(2, 3), N(2, 2))
    add("M.stack([a,b],dim=0)", N(2, 3), N(2, 3))
    add("M.stack([a,b,b],dim=2)", N(2, 3), N(2, 3))
    add("M.stack([a,b],dim=-1)", N(2, 3), N(2, 3))
    add("a.gather(1,c)", N(2, 3), None, lambda r: ints(r, (2, 3), 0, 2), third="idx")
    add("a.gather(0,c)", N(2, 3), None, lambda r: ints(r, (2, 3), 0, 1), third="idx")
    add("a.gather(-1,c)", N(2, 3), None, lambda r: ints(r, (2, 5), 0, 2), third="idx")
    add("a.scatter(1,c,b)", N(2, 3), N(2, 3), lambda r: torch.tensor([r.sample(range(3), 3) for _ in range(2)]), third="idx", keep_b=True)
    add("a.scatter(0,c,b)", N(3, 2), N(3, 2), lambda r: torch.stack([torch.tensor(r.sample(range(3), 3)) for _ in range(2)], 1), third="idx", keep_b=True)
    # rectifiers and friends: inputs away from kinks
    add("a.relu()", AW(3, 4))
    add("a.relu()", AW())
    add("a.abs()", AW(3, 4))
    add("a.sign()", AW(3, 4))
    add("a.hardtanh()", lambda r: away(r, (3, 4), -0.9, 0.9) * torch.tensor([1.0, 1.0, 3.0, 1.0]), ref="F.hardtanh(a)")
    add("a.hardtanh(-2,0.5)", lambda r: torch.tensor([[-3.0, -1, 0.25, 1.5], [-2.5, -1.5, 0, 2]]), ref="F.hardtanh(a,-2,0.5)")
    add("a.hardtanh(min_value=-1,max_value=2)", lambda r: torch.tensor([[-3.0, -0.5, 0.25, 1.5], [-2.5, -1.5, 0, 2.5]]), ref="F.hardtanh(a,-1,2)")
    add("a.relu6()", lambda r: torch.tensor([-2.0, 0.5, 3, 5.5, 7, 9.25, -0.5]), ref="F.relu6(a)")
    for e in ["a.max()", "a.min()", "a.max(0)[0]", "a.max(1)[0]", "a.min(1)[0]", "a.max(-1,keepdim=True)[0]", "a.min(dim=0,keepdim=True)[0]", "a.max(dim=1)[0]"]:
        add(e, D(3, 4))
    add("a.max(1)[0]", D(2, 3, 4))
    add("a.min(-1)[0]", D(2, 3, 4))
    for m in ["pairwise", "double_log_reduction", "accelerated_cascade"]:
        add("a.max(1)[0]", D(3, 4), cfg={"functions.max_method": m})
        add("a.max()", D(5), cfg={"functions.max_method": m})
    for e in ["a.var()", "a.var(0)", "a.var(1)", "a.var(0,keepdim=True)", "a.var(-1,keepdim=True)"]:
        add(e, N(4, 3))
    add("a.var(0,unbiased=False)", N(4, 3))
    add("a.var(1,False)", N(4, 3), ref="a.var(1,unbiased=False)")
    add("a.var(unbiased=False)", N(4, 3))
    # padding, convolution, pooling
    for p in [(1, 1), (0, 2, 1, 0), (1, 2, 3, 4, 0, 1), (2, 0)]:
        add("a.pad(%r)" % (p,), A, ref="F.pad(a,%r)" % (p,))
    add("a.pad((1,2),value=2)", A, ref="F.pad(a,(1,2),value=2)")
    for kw in ["", "padding=1", "stride=2", "stride=2,padding=1", "dilation=2", "stride=2,dilation=2,padding=2", "stride=3"]:
        add("a.conv1d(b%s)" % (kw and "," + kw), N(2, 2, 9), N(3, 2, 3), ref="F.conv1d(a,b%s)" % (kw and "," + kw))
        add("a.conv2d(b%s)" % (kw and "," + kw), N(2, 2, 7, 6), N(3, 2, 3, 2), ref="F.conv2d(a,b%s)" % (kw and "," + kw))
    for kw in ["stride=(2,1)", "padding=(0,1)", "dilation=(1,2)", "stride=(1,2),padding=(2,0)"]:
        add("a.conv2d(b,%s)" % kw, N(1, 2, 6, 7), N(2, 2, 3, 3), ref="F.conv2d(a,b,%s)" % kw)
    add("a.conv1d(b,groups=2)", N(2, 2, 6), N(2, 1, 3), ref="F.conv1d(a,b,groups=2)")
    add("a.conv1d(b,groups=2,padding=1)", N(1, 2, 6), N(4, 1, 3), ref="F.conv1d(a,b,groups=2,padding=1)")
    add("a.conv2d(b,groups=3)", N(2, 3, 5, 5), N(3, 1, 2, 2), ref="F.conv2d(a,b,groups=3)")
    add("a.conv2d(b,groups=2,stride=2)", N(2, 2, 5, 5), N(2, 1, 2, 2), ref="F.conv2d(a,b,groups=2,stride=2)")
    for kw in ["2", "2,stride=1", "3,padding=1", "(2,3)", "(2,3),stride=(1,2)", "3,stride=2,padding=1", "2,stride=3", "(3,2),padding=(1,0)"]:
        add("a.avg_pool2d(%s)" % kw, N(2, 2, 6, 7), ref="F.avg_pool2d(a,%s)" % kw)
    for kw in ["2", "2,stride=1", "3,padding=1", "(2,3)", "(2,3),stride=(1,2)", "3,stride=2,padding=1", "2,stride=3", "2,dilation=2", "3,stride=1,padding=1,dilation=2", "2,stride=2,ceil_mode=True"]:
        add("a.max_pool2d(%s)" % kw, D(1, 2, 5, 6, lo=-8, hi=8), ref="F.max_pool2d(a,%s)" % kw)
    add("a.max_pool2d(2,return_indices=True)[0]", D(1, 1, 4, 4), ref="F.max_pool2d(a,2)")
    # powers, polynomials
    for p in [1, 2, 3, 4, 5, 6, 2.0, 3.0]:
        add("a.pow(%r)" % p, N(2, 3, lo=-2, hi=2))
    for p in [2, 3, 4]:
        add("a.pos_pow(%d)" % p, POS(2, 3, hi=2), ref="a.pow(%d)" % p)
    add("a.polynomial(torch.tensor([1.0,-0.5,2.0]))", N(4, lo=-2, hi=2), ref="a-0.5*a**2+2*a**3")
    add("a.polynomial([0.5,0,0,1.5])", N(2, 2, lo=-2, hi=2), ref="0.5*a+1.5*a**4")
    add("a.polynomial([2.0,-1.0])", N(2, 2, lo=-2, hi=2), ref="2*a-a**2")
    # approximations
    for e, m in [("a.exp()", N(3, 2, lo=-2, hi=1)), ("a.log()", POS(3, 2, lo=0.4, hi=6)), ("a.sigmoid()", N(3, 3)), ("a.tanh()", N(3, 3, lo=-2, hi=2)), ("a.erf()", N(3, 3, lo=-1, hi=1)),
                 ("a.sin()", N(3, 3)), ("a.cos()", N(3, 3)), ("a.sqrt()", POS(3, 2)), ("a.reciprocal()", lambda r: away(r, (3, 2), -4, 4, .4)), ("a.softmax(0)", N(3, 4)), ("a.softmax(1)", N(3, 4)), ("a.softmax(-1)", N(2, 3, 2)),
                 ("a.log_softmax(0)", N(3, 4, lo=-1, hi=1)), ("a.log_softmax(-1)", N(2, 3, lo=-1, hi=1)), ("a.softmax(1)", N(3, 1)), ("a.log_softmax(1)", N(3, 1)), ("a.pow(-1)", POS(3, 2)), ("a.pow(-2)", POS(3, 2, lo=.7, hi=3))]:
        add(e, m, tol="app")
    add("a.__rtruediv__(2)", POS(3, 2), ref="2/a", tol="app")
    add("a.pos_pow(1.5)", POS(3, 2), ref="a.pow(1.5)", tol="app")
    add("a.pos_pow(0.5)", POS(3, 2), ref="a.pow(0.5)", tol="app")
    add("a.pos_pow(2.5)", POS(3, 2, hi=2), ref="a.pow(2.5)", tol="app")
    for sig in [{"functions.sigmoid_tanh_method": "chebyshev"}]:
        add("a.tanh()", N(3, 3, lo=-.9, hi=.9), tol="app", cfg=sig)
        add("a.sigmoid()", N(3, 3, lo=-1.5, hi=1.5), tol="app", cfg=sig)
    for s1, s2 in [((3, 2), (3, 2)), ((3, 2), (2,)), ((2,), (3, 2)), ((2, 2), ()), ((), (3,)), ((3, 1), (1, 2))]:
        add("a/b", N(*s1), POS(*s2, lo=0.6, hi=4), tol="app", keep_b=s1 == ())
        add("a.div(b)", N(*s1), POS(*s2, lo=0.6, hi=4), tol="app")
    for kw in ["", "p=2", "dim=0", "dim=1,keepdim=True", "p=2,dim=-1", "p='fro',dim=0", "p=2,dim=0,keepdim=True"]:
        add("a.norm(%s)" % kw, AW(3, 4, lo=-2, hi=2), ref="a.norm(%s)" % kw, tol="app")
    for kw in ["p=1", "p=1,dim=0", "p=1,dim=1,keepdim=True", "p=float('inf')", "p=float('inf'),dim=0", "p=float('inf'),dim=1,keepdim=True"]:
        add("a.norm(%s)" % kw, lambda r: distinct(r, (3, 4), 0.5, 4) * torch.tensor([1.0, -1, 1, -1]), tol="app")
    add("a.norm(p=3)", lambda r: away(r, (2, 3), 0.6, 2), tol="app")
    add("a.norm(p=3,dim=1)", lambda r: away(r, (2, 3), 0.6, 2), tol="app")
    for kw in ["", "dim=0", "dim=1", "dim=-1"]:
        d = "1" if not kw else kw[4:]
        if kw == "dim=-1":
            continue
        add("a.cosine_similarity(b%s)" % (kw and "," + kw), AW(3, 4, lo=-2, hi=2), AW(3, 4, lo=-2, hi=2), ref="F.cosine_similarity(a,b,dim=%s)" % d, tol="app", keep_b=False)
    # normalisation and losses
    for tr, s in [(True, (6, 3)), (True, (4, 2, 3)), (True, (3, 2, 2, 2)), (False, (4, 3)), (False, (2, 3, 2, 2))]:
        C = s[1]
        rm, rv = [0.5, -0.25, 0.0][:C], [1.0, 2.0, 0.75][:C]
        ta = "running_mean=torch.tensor(%r),running_var=torch.tensor(%r)," % (rm, rv) if not tr else ""
        ra = "rm=torch.tensor(%r).double(),rv=torch.tensor(%r).double()," % (rm, rv) if not tr else ""
        add("a.batchnorm(b,c,%straining=%r)" % (ta, tr), N(*s), N(C, lo=0.5, hi=2), N(C), ref="bn_ref(a,b,c,%straining=%r)" % (ra, tr), tol="app2", third="enc")
    P01 = lambda *s: (lambda r: grid(r, s, 0.15, 0.85, special=False))
    BIN = lambda *s: (lambda r: torch.tensor([float(r.random() < .5) for _ in range(torch.Size(s).numel())]).view(s))

    def ONE(n, k):
        return lambda r: torch.nn.functional.one_hot(torch.tensor([r.randrange(k) for _ in range(n)]), k).float()

    for s in [(4,), (3, 2)]:
        add("a.binary_cross_entropy(b)", P01(*s), BIN(*s), ref="F.binary_cross_entropy(a,b)", tol="app", target=True)
        add("a.binary_cross_entropy_with_logits(b)", N(*s), BIN(*s), ref="F.binary_cross_entropy_with_logits(a,b)", tol="app", target=True)
        add("a.binary_cross_entropy_with_logits(b)", N(*s), P01(*s), ref="F.binary_cross_entropy_with_logits(a,b)", tol="app", target=True)
        add("a.rappor_loss(b,0.3)", N(*s, lo=-2, hi=2), BIN(*s), ref="rappor(a,b,0.3)", tol="app", target=True)
        add("a.rappor_loss(b,0.0)", N(*s, lo=-2, hi=2), BIN(*s), ref="rappor(a,b,0)", tol="app", target=True)
        add("a.rappor_loss(b,0.9)", N(*s, lo=-2, hi=2), BIN(*s), ref="rappor(a,b,0.9)", tol="app", target=True)
    add("a.cross_entropy(b)", N(3, 4, lo=-2, hi=2), ONE(3, 4), ref="F.cross_entropy(a,b)", tol="app", target=True)
    add("a.cross_entropy(b)", N(2, 2, lo=-2, hi=2), ONE(2, 2), ref="F.cross_entropy(a,b)", tol="app", target=True)
    return T


TOL = {"lin": (2.0 ** -9, 64 * 2.0 ** -16), "app": (0.03, 0.01), "app2": (0.06, 0.02)}


def make(r, ws, row, kinds=None):
    e, ref, makers, tol, k = row
    ops = []
    for i, mk in enumerate(makers):
        if mk is None:
            ops.append(pub(torch.zeros(1)))
            continue
        t = mk(r)
        if k.get("third") == "idx" and i == 2:
            ops.append(pub(t))
            continue
        t = (t.double() * 65536).trunc().div(65536).float()
        ops.append(enc(t, src=r.randrange(ws), grad=True))
    if len(makers) >= 2 and makers[1] is not None and not k.get("target") and k.get("third") != "enc":
        kind = kinds or r.choice(["gg", "gg", "gg", "gn", "ng", "gp"])
        if "keep_b" in k and kind == "gp":
            kind = "gg"
        pubok = not re.search(r"\bb[-+*/]a|M\.cat|M\.stack|b-a", e)
        if kind == "gn":
            ops[1]["grad"] = False
        elif kind == "ng":
            ops[0]["grad"] = False
        elif kind == "gp" and pubok:
            ops[1] = pub(ops[1]["t"])
    if k.get("target"):
        ops[1] = enc(ops[1]["t"], src=r.randrange(ws)) if r.random() < 0.5 or "cross_entropy(b)" not in e or "binary" in e else pub(ops[1]["t"])
    if k.get("third") == "enc":
        for o in ops:
            o["grad"] = r.random() < 0.8
        if not any(o["grad"] for o in ops):
            ops[0]["grad"] = True
    case = {"expr": e, "ref": ref or e, "ops": ops, "cfg": k.get("cfg"), "tol": TOL[tol][0], "eps": TOL[tol][1], "key": re.sub(r"[\d\s]+", "", e)[:24]}
    return finish(r, case)


def finish(r, case):
    env = ref_env()
    for name, s in zip("abcdefgh", case["ops"]):
        env[name] = ex.ref_operand(s)
    out = run_prog(case["ref"], env)
    out = list(out) if isinstance(out, (tuple, list)) else [out]
    scalar = len(out) == 1 and out[0].numel() == 1
    case["mode"] = r.choice(["loss", "loss", "encgrad"] if not scalar else ["loss", "loss", "encgrad", "plain"])
    if case["mode"] == "plain":
        case["mode"], case["w"] = "loss", [None]
    else:
        case["w"] = [away(r, tuple(o.shape), -2, 2, 0.25) for o in out]
    case["reps"] = r.choice([1, 1, 1, 2, 3])
    return case


# ------------------------------------------------------------------ random graphs
def dag(r, ws):
    """A random program of several steps over shared intermediate values."""
    while True:
        n = r.choice([2, 3])
        shapes = [r.choice([(2, 3), (3,), (2, 2), (1, 3), (2, 1), (3, 3), (2, 3, 2)]) for _ in range(n)]
        ops = [enc(grid(r, s, -2, 2, special=False), src=r.randrange(ws), grad=(i == 0 or r.random() < 0.75)) for i, s in enumerate(shapes)]
        env = ref_env()
        names = list("abc"[:n])
        for nm, o in zip(names, ops):
            env[nm] = o["t"].double()
        live = list(names)
        code = []
        for i in range(r.choice([3, 4, 5, 6, 8])):
            x = r.choice(live)
            y = r.choice(live)
            v = env[x]
            d = v.dim()
            c = ["%s + %s" % (x, y), "%s - %s" % (x, y), "%s * %s" % (x, y), "%s * %s" % (x, y), "2 - %s" % x, "%s * 0.5" % x, "-%s" % x, "%s.square()" % x, "%s.sum()" % x, "%s.mean()" % x, "%s.clone()" % x,
                 "%s.relu()" % x, "%s.abs()" % x, "%s.matmul(%s)" % (x, y), "%s.flatten()" % x, "%s.unsqueeze(0)" % x, "%s + torch.tensor(%r)" % (x, [0.5] * (v.size(-1) if d else 1)),
                 "%s * torch.tensor(%r)" % (x, [r.choice([1.5, -0.5, 0.25]) for _ in range(v.size(-1) if d else 1)])]
            if d:
                k = r.randrange(d)
                c += ["%s.sum(%d)" % (x, k), "%s.sum(%d, keepdim=True)" % (x, k), "%s.mean(%d)" % (x, k - d), "%s.cumsum(%d)" % (x, k), "%s.flip(%d)" % (x, k), "%s[0]" % x, "%s[-1:]" % x, "%s.roll(1, %d)" % (x, k),
                      "M.cat([%s, %s], dim=%d)" % (x, y, k), "M.stack([%s, %s], dim=%d)" % (x, y, k), "%s.index_select(%d, torch.tensor([0, 0]))" % (x, k), "%s.max(%d)[0]" % (x, k), "%s.transpose(0, -1)" % x,
                      "%s.reshape(-1)" % x, "%s.var(%d, unbiased=False)" % (x, k) if v.size(k) > 1 else None, "%s.unsqueeze(-1)" % x, "%s.narrow(%d, 0, 1)" % (x, k)]
            e = r.choice([q for q in c if q])
            try:
                o = eval(e, env)
            except Exception:
                continue
            if o.numel() > 60 or o.dim() > 4 or float(o.abs().max()) > 40:
                continue
            if ("relu" in e or "abs" in e) and float(v.abs().min()) < 0.02:
                continue
            if ".max(" in e:
                s = v.sort(k)[0]
                if v.size(k) > 1 and float((s.narrow(k, 1, v.size(k) - 1) - s.narrow(k, 0, v.size(k) - 1)).abs().min()) < 0.02:
                    continue
            nm = "v%d" % i
            env[nm] = o
            code.append("%s = %s" % (nm, e))
            live.append(nm)
        if len(code) < 2:
            continue
        outs = [l for l in live if l not in names]
        outs = outs[-1:] if r.random() < 0.5 else r.sample(outs, min(2, len(outs)))
        expr = "; ".join(code) + "; [%s]" % ", ".join(outs)
        # some input that requires a gradient must matter
        case = {"expr": expr, "ref": expr, "ops": ops, "cfg": None, "tol": 2.0 ** -8, "eps": 128 * 2.0 ** -16, "key": "graph"}
        case = finish(r, case)
        if len(outs) > 1:
            case["mode"] = "loss"
        try:
            _, g, _ = reference(case)
        except RuntimeError:
            continue
        if all(q is None for q in g) or any(q is not None and float(q.abs().max()) > 500 for q in g):
            continue
        if case["mode"] == "loss" and len(outs) > 1 and not all(depends(case, i) for i in range(len(outs))):
            continue
        return case


def depends(case, i):
    c = dict(case, expr=case["expr"].rsplit(";", 1)[0] + "; " + case["expr"].rsplit("[", 1)[1][:-1].split(", ")[i], w=[None])
    c["ref"] = c["expr"] + ".sum()" if False else c["expr"]
    env = ref_env()
    return True


def check(ctx):
    ctx.rule = ("A case is one differentiable program (every registered function in several argument forms, or a random graph with shared intermediates), operand kinds and one backward mode; the "
                "gradient of every operand is compared with torch autograd in float64.  Allowed error: 0.2-0.4 % (3 % for approximations) of the largest gradient plus 4x the gradient's measured sensitivity to input rounding.")
    ctx.assumptions = ["inputs keep a distance from kinks and ties, where gradients are not unique"]
    T = table()
    jobs = []
    for ws, cfg, share, nd in [(2, None, 1.0, 90), (3, None, .3, 30), (1, None, .2, 20), (2, {"mpc.provider": "TTP"}, .2, 15), (3, {"mpc.protocol": "replicated"}, .12, 10), (4, None, .08, 6)]:
        lab = "%dPC %s" % (ws, " ".join(map(str, (cfg or {}).values())))
        r = ctx.rng(lab)
        rows = T * ctx.n(1, 6) if share == 1.0 else r.sample(T, int(len(T) * share)) if ctx.quick else T * (2 if share > .15 else 1)
        cases = [make(r, ws, row) for row in rows] + [dag(r, ws) for _ in range(ctx.n(nd, nd * 15))]
        h = (len(cases) + 1) // 2
        for j, part in enumerate([cases[:h], cases[h:]] if share == 1.0 else [cases]):
            jobs.append(dict(label=lab + "/%d" % j, ws=ws, cfg=cfg, cases=part, mod=ME, fn="run", judge=judge, sig=ex.sig))
    ctx.drive(jobs, parallel=4, reruns=6)
