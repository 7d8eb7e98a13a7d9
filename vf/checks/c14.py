"""C14: random histories of valid and invalid operations, overrides, mixed sources and injected delays; after every step all
parties must have finished it the same way and a probe (zero sharings, encryption from every source, multiplication,
comparison, random number agreement) must still be right."""
import torch

from .. import ex
from ..core import Fail, agree
from ..gen import grid

ME = "vf.checks.c14"
MIN_EVAL = 60

VALID = [
    "x*y", "x+y", "x-1", "x.matmul(y.t())", "x.relu()", "x>y", "x.max()", "x.argmax(1)", "x.mean()", "x/3", "x.square()", "x.to(M.mpc.binary)",
    "x.sum(0)", "x.softmax(1)", "x.dropout(p=0.5)", "x.bernoulli()", "M.rand(2,2)", "M.cat([x,y])", "x[0]", "x.get_plain_text(dst=0)", "x.get_plain_text(dst=W-1)", "x.reveal()",
    "M.cryptensor(P, src=W-1)", "M.cryptensor(P, src=0, ptype=M.mpc.binary)", "M.cryptensor(P if rank==0 else torch.empty(0), src=0, broadcast_size=True)", "C.barrier()", "C.all_reduce(P.long()*0)",
    "C.broadcast_obj({'a': [1,2]} if rank==0 else None, 0)", "x.where(y>0, y)", "x.abs()", "x.sign()", "x.var()", "x.prod(0)", "x.t()", "x.reciprocal()", "x.exp()", "M.mpc.MPCTensor.rand(3)",
    "x.max_pool2d(2) if x.dim()==4 else x.max(0)", "backward(x*y)", "backward(x.relu())", "nn(x)", "override(x)", "M.mpc.get_default_provider().square(torch.Size([2]))",
    "M.print_communication_stats()", "M.reset_communication_stats()", "x.shallow_copy()", "repr(x)", "hash(x) if x.__hash__ else 0", "x.clone().mul_(y)", "debugcalls(x)",
    "M.load_from_party(preloaded=P if rank==0 else None, src=0) if rank==0 else M.load_from_party(f='/nonexistent', src=0)",
]
INVALID = [
    "x+torch.zeros(7)", "x*torch.zeros(5,5,5)", "x+M.cryptensor(torch.zeros(5))", "x*M.cryptensor(torch.zeros(3,7))", "x.matmul(x)", "x.matmul(torch.zeros(9,9))", "x@M.cryptensor(torch.zeros(9))",
    "x.conv2d(y)", "x.view(7)", "x.reshape(1,1)", "x[9]", "x[0,0,0]", "M.cat([x,M.cryptensor(torch.zeros(5,5))],dim=0)", "M.stack([x,x[0]])", "x.sum(7)", "x.transpose(0,5)", "x.max(9)", "x.argmax(5)",
    "x.softmax(6)", "x.to('nonsense')", "M.cryptensor(P, src=W)", "M.cryptensor(P, src=-1)", "M.cryptensor(P, ptype='bad')", "x+'a'", "x*None", "x/'b'", "x.div(object())", "x>'c'", "x.pow(y)",
    "x.pow('q')", "x.norm(p=-3)", "x[0].dot(y)", "x.clone().add_(M.cryptensor(torch.zeros(4,4,4)))", "x.clone().mul_(M.cryptensor(torch.zeros(4,4,4)))", "x.gather(0, torch.tensor([[9]]))", "x.index_select(0, torch.tensor([9]))",
    "x.scatter(0, torch.tensor([[9]]), y)", "x.where(torch.zeros(9,9)>0, y)", "(x>0).where(y, M.cryptensor(torch.zeros(9,9)))", "x.foo()", "M.cryptensor(P, precision='x')", "M.cryptensor('abc')", "M.cryptensor({'a':1})",
    "bool(x)", "if_(x)", "float(x)", "int(x)", "x.avg_pool2d(9)", "badmethod(x,'exp')", "badmethod(x,'max')", "badmethod(x,'sigmoid')", "x.batchnorm(y)", "x.binary_cross_entropy(torch.zeros(9))",
    "x.cross_entropy(torch.zeros(9,9))", "x.unsqueeze(9)", "x.squeeze(9)", "x.permute(0,0)", "x.expand(1)", "x.split(0)", "x.chunk(0)", "x.pad((1,))", "x.repeat(1)", "x.cumsum(4)",
    "setitem(x, 9, 1.0)", "setitem(x, 0, torch.zeros(9))", "setitem(x, 0, 'a')", "setitem(x, 0, M.cryptensor(torch.zeros(9)))", "backward(x.matmul(x))", "twice(x*y)", "x.set(torch.zeros(2))", "x.roll(1, 9)", "x.flip(7)", "raiser()",
    "x.dropout(p=1.5)", "x.polynomial('a')", "x.hardtanh('a')", "x.to(M.mpc.binary)*3.5", "x.to(M.mpc.binary)/2", "x.index_add(0, torch.tensor([0]), M.cryptensor(torch.zeros(9)))", "x.bernoulli(5)", "M.nn.Linear(3,2)(x)",
    "x.get_plain_text(dst=0.5)", "M.load('/nonexistent/file')", "M.load_from_party('/nonexistent/file', src=0)", "M.load_from_party('/nonexistent/file', src=9)", "x.erf('a')", "C.scatter([P.long()]*W, 0) + torch.zeros(77)", "x.adaptive_avg_pool2d('a')",
    "M.manual_seed(1,2,3)", "M.mpc.set_default_provider('X')", "M.set_default_cryptensor_type('nope')", "x.weighted_index(9)", "x.clone().sub_('a')", "torch.add(x,y,y,y)", "M.cfg.nope", "setcfg(x)", "M.load_from_party(src=0)",
    "M.load_from_party('/nonexistent/file', src=W-1)", "M.save_from_party(P, '/nonexistent/dir/f', src=0)", "M.save(x, '/nonexistent/dir/f')", "M.load_from_party(preloaded=[1,2], src=W-1)",
]


# ------------------------------------------------------------------ party side
class Boom(Exception):
    pass


def helpers(crypten, comm, rank):
    from crypten.config import cfg

    def backward(v):
        x = v.sum() if v.dim() else v
        x.requires_grad
        a = crypten.cryptensor(torch.ones(2), requires_grad=True)
        (a.sum() + x).backward()
        return a.grad

    def twice(v):
        a = crypten.cryptensor(torch.ones(2), requires_grad=True)
        s = (a * a).sum()
        s.backward()
        s.backward(crypten.cryptensor(torch.ones(3, 3)), v, v, v)

    def nn(x):
        m = crypten.nn.Linear(4, 2).encrypt()
        return m(x)

    def override(x):
        with cfg.temp_override({"functions.exp_iterations": 4}):
            return x.exp()

    def badmethod(x, what):
        k = {"exp": {"functions.exp_method": "bad", "functions.exp_iterations": -1.5}, "max": {"functions.max_method": "bad"}, "sigmoid": {"functions.sigmoid_tanh_method": "bad"}}[what]
        k = {a: b for a, b in k.items() if a != "functions.exp_method"}
        with cfg.temp_override(k):
            return getattr(x, what)()

    def setcfg(x):
        with cfg.temp_override({"mpc.provider": "TFP"}):
            x * x
            raise Boom()

    def if_(x):
        return 1 if x > 0 else 2

    def debugcalls(x):
        import io
        import logging

        return crypten.cfg.debug.debug_mode

    def raiser():
        with crypten.no_grad():
            raise Boom()

    return locals()


def probe(crypten, comm, rank, ws, k):
    """Everything later computations depend on: returns a description of what is wrong, or None."""
    from crypten.mpc.primitives import ArithmeticSharedTensor, BinarySharedTensor

    c = comm.get()
    z = ArithmeticSharedTensor.PRZS((3,)).share
    s = c.all_reduce(z)
    if (s != 0).any():
        return "zero sharing sums to %s" % s.tolist()
    zb = BinarySharedTensor.PRZS((3,)).share
    s = c.all_gather(zb)
    t = s[0].clone()
    for u in s[1:]:
        t ^= u
    if (t != 0).any():
        return "binary zero sharing xors to %s" % t.tolist()
    g = crypten.generators["global"][torch.device("cpu")]
    v = torch.randint(0, 2 ** 40, (2,), generator=g)
    allv = c.all_gather(v)
    if any(not torch.equal(u, allv[0]) for u in allv):
        return "parties no longer agree on the common random stream"
    src = k % ws
    want = torch.tensor([1.5, -2.0, 3.25])
    e = crypten.cryptensor(want if rank == src else torch.zeros(3), src=src)
    f = crypten.cryptensor(torch.tensor([2.0, 4.0, -1.0]), src=(src + 1) % ws)
    got = (e * f).get_plain_text()
    if (got - want * torch.tensor([2.0, 4.0, -1.0])).abs().max() > 0.001:
        return "product of fresh encryptions is %s" % got.tolist()
    got = (e > f).get_plain_text()
    if got.tolist() != [0, 0, 1]:
        return "comparison of fresh encryptions is %s" % got.tolist()
    return None


def run(case):
    import crypten
    import crypten.communicator as comm

    rank, ws = comm.get().get_rank(), comm.get().get_world_size()
    P = torch.arange(6.0).view(2, 3)
    out = []
    cfg0 = repr(crypten.cfg.config)
    for k, (expr, xs, ys, src) in enumerate(case["steps"]):
        x = crypten.cryptensor(xs, src=src)
        y = crypten.cryptensor(ys, src=(src + 1) % ws)
        env = dict(ex.env_common(), M=crypten, crypten=crypten, C=comm.get(), W=ws, rank=rank, P=P.clone(), x=x, y=y, comm=comm)
        env.update(helpers(crypten, comm, rank))
        try:
            v = eval(expr, env)
            if "dst=" in expr:
                o = ("ok", None)
            elif crypten.is_encrypted_tensor(v):
                o = ("ok", tuple(v.size()))
            elif torch.is_tensor(v):
                o = ("ok", "tensor")
            elif v is None:
                o = ("ok", None)
            else:
                o = ("ok", type(v).__name__)
        except Exception as e:  # noqa
            o = ("err", type(e).__name__, str(e)[:200])
        p = probe(crypten, comm, rank, ws, k) if case["probe"] or k == len(case["steps"]) - 1 else None
        rg = torch.is_tensor(x.get_plain_text()) and crypten.CrypTensor.AUTOGRAD_ENABLED
        if repr(crypten.cfg.config) != cfg0:
            p = p or "configuration changed"
        out.append((o, p, rg))
        if p:
            break
    return out


def judge(case, outs):
    vals, f = agree(outs)
    if f:
        return Fail("history/diverged", "%s; history %s" % (f.msg, [s[0] for s in case["steps"]]))
    if vals is None:
        return Fail("history/raises", "raised %s: %s; history %s" % (outs[0][1], outs[0][2:], [s[0] for s in case["steps"]]))
    for k, st in enumerate(case["steps"]):
        rows = [v[k] for v in vals if len(v) > k]
        where = "step %d `%s` of history %s" % (k, st[0], [s[0] for s in case["steps"]][:k + 1])
        if len(rows) != len(vals):
            return Fail("history/short", "parties stopped at different steps; " + where)
        # a failing source reports its own error, the others only learn that it failed
        one = "from_party" in st[0]
        kinds = {(r[0][:1] if one else r[0][:2]) if r[0][0] == "err" else r[0][:1] if one else r[0] for r in rows}
        if len(kinds) > 1 and "save_from_party" not in st[0]:  # a write error is local to the party that writes
            return Fail("outcome:" + st[0], "parties finished differently: %s; %s" % ([r[0] for r in rows], where))
        for r, row in enumerate(rows):
            if row[1]:
                return Fail("sync:" + st[0], "party %d afterwards: %s; outcome was %s; %s" % (r, row[1], row[0], where))
            if row[2] is not True:
                return Fail("mode:" + st[0], "gradient recording is off afterwards; " + where)
    return None


def gen(r, ws, n, length):
    bag = VALID + INVALID * 2
    pos = r.randrange(len(bag))
    order = list(bag)
    r.shuffle(order)
    for i in range(n):
        steps = []
        for _ in range(length):
            e = order[pos % len(order)]
            pos += 1
            s = r.choice([(3, 4), (2, 3), (3, 3), (4, 4)])
            if e == "nn(x)":
                s = (3, 4)
            if "M.nn.Linear(3,2)" in e or "matmul(x)" in e:
                s = (2, 4)
            steps.append((e, grid(r, s, 0.25, 3), grid(r, s, 0.25, 3), r.randrange(ws)))
        yield {"steps": steps, "probe": r.random() < 0.75}


def check(ctx):
    ctx.rule = ("A case is a history of valid and invalid operations run by all parties (some with injected per-party delays); after each step outcomes are compared over the parties and "
                "the probe checks the shared random streams and fresh computations; a party still inside a communication call when nothing moves is a violation.")
    ctx.assumptions = ["all parties issue the same operations with the same public arguments"]
    jobs = []
    for ws, cfg, k, delay in [(2, None, 1.0, 0), (3, None, .8, 0), (2, {"mpc.provider": "TTP"}, .5, 0), (3, {"mpc.protocol": "replicated"}, .5, 0), (3, None, .3, .01), (2, None, .3, .02), (1, None, .2, 0), (4, None, .2, 0)]:
        lab = "%dPC%s%s" % (ws, "".join("-" + v for v in (cfg or {}).values()), "-delay" if delay else "")
        r = ctx.rng(lab)
        jobs.append(dict(label=lab, ws=ws, cfg=cfg, cases=list(gen(r, ws, int(ctx.n(36, 900) * k), 8)), mod=ME, fn="run", judge=judge,
                         opts={"delay": delay} if delay else {}, sig=lambda c: [s[0] for s in c["steps"]]))
    ctx.drive(jobs, reruns=2, parallel=5)
