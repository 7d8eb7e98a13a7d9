"""C06: structural and in-place operations over random programs, replayed on plaintext tensors."""
import torch

from .. import ex
from ..core import Fail, agree, err_of
from ..ex import enc, pub
from ..gen import grid, ints, shape

MIN_EVAL = 150
ME = "vf.checks.c06"


def pad_(x, p, value=0):
    if torch.is_tensor(x):
        return torch.nn.functional.pad(x, p, value=float(value.reveal()) if hasattr(value, "reveal") else value)
    return x.pad(p, value=value)


def tk(x, idx, dim):
    """take along a dimension"""
    if torch.is_tensor(x):
        sl = [slice(None)] * x.dim()
        sl[dim] = idx
        return x[tuple(sl)]
    return x.take(idx, dim)


def dif(x, i=1):
    return x


HELP = {"pad_": pad_, "tk": tk, "torch": torch}


def encode_public(kind, v):
    return v


# ------------------------------------------------------------------ party side
def run(case):
    import crypten
    import crypten.communicator as comm

    rank = comm.get().get_rank()
    env = dict(HELP, M=crypten)
    for i, (t, src) in enumerate(case["init"]):
        env["v%d" % i] = crypten.cryptensor(t.clone() if rank == src else ex.garbage(t, 5 * i + rank), src=src)
    for k, t in case["pubs"].items():
        env[k] = t.clone() if torch.is_tensor(t) else t
    snaps = []
    for code, live in case["steps"]:
        exec(code, env)
        snap = {}
        for n in live:
            x = env[n]
            if isinstance(x, (list, tuple)):
                x = list(x)[0]
            snap[n] = x.get_plain_text()
        snaps.append(snap)
    bad = [k for k, t in case["pubs"].items() if torch.is_tensor(t) and not torch.equal(t, env[k])]
    return {"snaps": snaps, "pub_bad": bad}


def model(case):
    env = dict(HELP, M=torch)
    for i, (t, _) in enumerate(case["init"]):
        env["v%d" % i] = t.double()
    for k, t in case["pubs"].items():
        env[k] = t.double() if torch.is_tensor(t) and t.dtype.is_floating_point else t
    snaps = []
    for code, live in case["steps"]:
        exec(code, env)
        snaps.append({n: (env[n][0] if isinstance(env[n], (tuple, list)) else env[n]).clone() for n in live})
    return snaps


def judge(case, outs):
    vals, f = agree(outs)
    prog = "; ".join(c for c, _ in case["steps"])
    head = "program [%s] on %s pubs %s" % (prog, [(tuple(t.shape), s) for t, s in case["init"]], {k: (tuple(t.shape) if torch.is_tensor(t) else t) for k, t in case["pubs"].items()})
    if f:
        return Fail("program/diverged", head + ": " + f.msg)
    want = model(case)
    if vals is None:
        e = err_of(outs)
        return Fail("program/raises:%s" % opname(case, len(case["steps"])), "%s raised %s: %s %s" % (head, e[1], e[2], e[3][-300:]))
    for r, v in enumerate(vals):
        for i, (g, w) in enumerate(zip(v["snaps"], want)):
            for n in w:
                if g[n].numel() == 0 and w[n].numel() == 0 and tuple(g[n].shape) == tuple(w[n].shape):
                    continue
                if tuple(g[n].shape) != tuple(w[n].shape) or not bool(((g[n].double() - w[n].double()).abs() <= 2.0 ** -22 * w[n].double().abs()).all()):
                    return Fail("program/%s" % opname(case, i), "%s: after step %d (%s) party %d has %s = %s, expected %s" % (
                        head, i, case["steps"][i][0], r, n, str(g[n].flatten()[:10].tolist()), str(w[n].flatten()[:10].tolist())))
        if v["pub_bad"]:
            return Fail("program/public", "%s: public operands %s were modified" % (head, v["pub_bad"]))
    return None


def opname(case, i):
    import re

    c = case["steps"][min(i, len(case["steps"]) - 1)][0]
    m = re.findall(r"\.([a-z_]+)\(|(\+=|-=|\*=)|(\] =)|(pad_|tk)\(", c)
    return "".join(m[0]) if m else re.sub(r"\d+", "", c)[:12]


# ------------------------------------------------------------------ generation
class Prog:
    def __init__(self, r, ws, nsteps):
        self.r, self.ws = r, ws
        self.env = dict(HELP, M=torch)
        self.init, self.pubs, self.steps = [], {}, []
        self.live, self.fam = [], {}
        self.nfam = 0
        s = self.shape0()
        for i in range(r.choice([2, 3])):
            t = grid(r, s if r.random() < 0.6 else self.shape0(), -30, 30)
            self.init.append((t, r.randrange(ws)))
            self.env["v%d" % i] = t.double()
            self.live.append("v%d" % i)
            self.fam["v%d" % i] = i
        self.n = len(self.live)
        self.nfam = self.n
        tries = 0
        while len(self.steps) < nsteps and tries < 200:
            tries += 1
            self.step()

    def case(self):
        return {"init": self.init, "pubs": self.pubs, "steps": self.steps}

    def shape0(self):
        return self.r.choice([(3,), (2, 3), (3, 2), (2, 3, 4), (4,), (2, 2), (1, 3), (1, 2, 3, 2)])

    def pubt(self, t):
        k = "p%d" % len(self.pubs)
        self.pubs[k] = t
        self.env[k] = t.double() if torch.is_tensor(t) and t.dtype.is_floating_point else t
        return k

    def emit(self, code, target=None, fam=None, copying=True):
        """executes the step on the model; returns False when torch refuses it"""
        env2 = self.env
        try:
            exec(code, env2)
        except Exception:
            if target is None:
                raise RuntimeError("in-place step failed in the model: " + code)
            env2.pop(target, None)
            return False
        if target is not None:
            x = env2[target]
            x = x[0] if isinstance(x, (tuple, list)) else x
            if x.numel() > 200 or x.dim() > 5 or (x.numel() and x.abs().max() > 2 ** 20):
                env2.pop(target)
                return False
            if isinstance(env2[target], (tuple, list)):
                code = code + "; %s = %s[%d]" % (target, target, self.r.randrange(len(env2[target])))
                i = int(code.rsplit("[", 1)[1][:-1])
                env2[target] = env2[target][i]
            if copying:
                # a copying operation: the model owns its memory in any case
                env2[target] = env2[target].clone()
                self.fam[target] = self.nfam
                self.nfam += 1
            else:
                self.fam[target] = fam
            self.live.append(target)
            self.n += 1
        if len(self.live) > 6:
            self.live.pop(0)
        self.steps.append((code, list(self.live)))
        return True

    def step(self):
        r = self.r
        v = r.choice(self.live)
        x = self.env[v]
        t = "v%d" % self.n
        d = x.dim()
        kind = r.random()
        if kind < 0.42:
            e = self.copy_expr(v, x)
            if e:
                self.emit("%s = %s" % (t, e), t)
        elif kind < 0.62:
            e = self.view_expr(v, x)
            if e:
                self.emit("%s = %s" % (t, e), t, self.fam[v], copying=False)
        else:
            self.inplace(v, x)

    def dim(self, x, extra=0):
        return self.r.randrange(-(x.dim() + extra), x.dim() + extra)

    def copy_expr(self, v, x):
        r = self.r
        d = x.dim()
        w = r.choice(self.live)
        c = ["%s.clone()" % v, "%s + %s" % (v, w), "%s - %s" % (v, w), "%s + 1.5" % v, "2 - %s" % v, "-%s" % v, "%s * 2" % v, "%s.neg()" % v,
             "%s.sum()" % v, "%s.add(0)" % v, "%s.mul(1)" % v,
             "%s + %s" % (v, self.pubt(grid(r, tuple(x.shape), -9, 9)))]
        if d:
            k = self.dim(x)
            n = x.size(k)
            c += ["%s.sum(%d)" % (v, k), "%s.sum(%d, keepdim=True)" % (v, k), "%s.cumsum(%d)" % (v, k), "%s.flip(%d)" % (v, k), "%s.roll(1, %d)" % (v, k),
                  "%s.roll(0, %d)" % (v, k), "%s.flip(dims=(%d,))" % (v, k), "%s.repeat(%s)" % (v, ", ".join("1" if r.random() < .6 else "2" for _ in range(d))),
                  "%s.repeat(2, %s)" % (v, ", ".join("1" for _ in range(d))),
                  "%s.index_select(%d, %s)" % (v, k, self.pubt(ints(r, (r.choice([1, 2, 3]),), 0, n - 1))) if n else None,
                  "%s[%s]" % (v, self.pubt(ints(r, (r.choice([1, 2, 3]),), 0, x.size(0) - 1))) if x.size(0) else None,
                  "M.cat([%s, %s], dim=%d)" % (v, w, k), "M.cat([%s], dim=%d)" % (v, k), "M.stack([%s, %s], dim=%d)" % (v, w, self.r.randrange(-(d + 1), d + 1)),
                  "M.stack([%s, %s])" % (v, w), "M.cat([%s, %s])" % (v, w), "M.cat([%s, %s, %s], %d)" % (v, w, v, k),
                  "pad_(%s, %r)" % (v, tuple(r.choice([0, 1, 2]) for _ in range(2 * r.randint(1, d)))),
                  "pad_(%s, (1, 0), value=%r)" % (v, r.choice([0, 1.5, -3])),
                  "%s.take(%s)" % (v, self.pubt(ints(r, (2, 2), 0, x.numel() - 1))) if x.numel() else None,
                  "tk(%s, %s, %d)" % (v, self.pubt(ints(r, (2,), 0, x.size(k) - 1)), k % d) if n else None]
            if n and x.numel():
                sh = tuple(x.shape)
                idx = ints(r, sh, 0, n - 1)
                c += ["%s.gather(%d, %s)" % (v, k, self.pubt(idx)),
                      "%s.scatter_add(%d, %s, %s)" % (v, k, self.pubt(idx), self.same(x, w)),
                      "%s.index_add(%d, %s, %s)" % (v, k, self.pubt(ints(r, (n,), 0, n - 1)), self.same(x, w)),
                      "%s.scatter(%d, %s, %s)" % (v, k, self.pubt(self.perm_index(x, k)), self.same(x, w))]
            if d == 2 and x.size(0) == x.size(1):
                c += ["%s.trace()" % v]
        c = [e for e in c if e]
        return r.choice(c)

    def same(self, x, w):
        """an operand of x's shape: a live tensor or a public one"""
        c = [n for n in self.live if self.env[n].shape == x.shape]
        if c and self.r.random() < 0.6:
            return self.r.choice(c)
        return self.pubt(grid(self.r, tuple(x.shape), -9, 9))

    def perm_index(self, x, k):
        """index without duplicates along k (torch leaves duplicates undefined)"""
        g = torch.Generator()
        g.manual_seed(self.r.randrange(2 ** 30))
        return torch.rand(x.shape, generator=g).argsort(dim=k)

    def view_expr(self, v, x):
        r = self.r
        d = x.dim()
        c = ["%s.unsqueeze(%d)" % (v, r.randrange(-(d + 1), d + 1)), "%s.flatten()" % v, "%s.reshape(-1)" % v, "%s.squeeze()" % v, "%s[...]" % v, "%s.detach()" % v]
        if d:
            k = self.dim(x)
            n = x.size(k)
            if x.size(0):
                i = r.randrange(-x.size(0), x.size(0))
                c += ["%s[%d]" % (v, i), "%s[%d:]" % (v, r.randrange(x.size(0))), "%s[::2]" % v, "%s[-1:]" % v, "%s[None]" % v]
            c += ["%s.reshape(%d, -1)" % (v, x.size(0)) if x.numel() else None, "%s.transpose(%d, %d)" % (v, k, self.dim(x)),
                  "%s.permute(%s)" % (v, ", ".join(map(str, r.sample(range(d), d)))), "%s.squeeze(%d)" % (v, k),
                  "%s.narrow(%d, %d, %d)" % (v, k % d, 0, max(1, n - 1)) if n else None, "%s.unbind(%d)" % (v, k) if n else None,
                  "%s.split(%d, dim=%d)" % (v, r.choice([1, 2]), k) if n else None, "%s.expand(2, %s)" % (v, ", ".join(map(str, x.shape))),
                  "%s.split([%d, %d], dim=%d)" % (v, n - n // 2, n // 2, k) if n > 1 else None]
            c += ["%s[..., %d]" % (v, r.randrange(x.size(-1)))] if x.size(-1) else []
            if d == 2:
                c += ["%s.t()" % v, "%s[:, 1:]" % v]
            if d >= 2 and x.numel():
                c += ["%s.flatten(start_dim=1)" % v, "%s[:, -1]" % v, "%s[0, :1]" % v]
            if n >= 2:
                c += ["%s.unfold(%d, 2, 1)" % (v, k)]
            if x.is_contiguous() and x.numel():
                c += ["%s.view(-1)" % v, "%s.view(1, -1)" % v]
        return r.choice([e for e in c if e])

    def writable(self, x):
        """no two elements share memory"""
        return all(st != 0 or sz == 1 for st, sz in zip(x.stride(), x.shape)) and len(set(index_map(x))) == x.numel()

    def inplace(self, v, x):
        r = self.r
        if not x.numel() or not self.writable(x) or x.abs().max() > 2 ** 16:
            return
        fam = self.fam[v]
        d = x.dim()
        w = r.choice(self.live)
        y = self.env[w]
        bc = y.dim() <= d and all(a == b or b == 1 for a, b in zip(reversed(x.shape), reversed(y.shape)))
        c = ["%s += 1.25" % v, "%s -= 2" % v, "%s *= 2" % v, "%s += %s" % (v, self.pubt(grid(r, tuple(x.shape), -9, 9)))]
        if bc and self.fam[w] != fam:
            c += ["%s += %s" % (v, w), "%s -= %s" % (v, w), "%s.add_(%s)" % (v, w), "%s.sub_(%s)" % (v, w)]
        if y.shape == x.shape and self.fam[w] != fam:
            c += ["%s.copy_(%s)" % (v, w)] * 2
        if d:
            i = r.randrange(-x.size(0), x.size(0))
            val = r.choice(["3", "-1.5", "0"])
            c += ["%s[%d] = %s" % (v, i, val), "%s[:] = %s" % (v, val), "%s[%d:] = %s" % (v, i % x.size(0), val)]
            c += ["%s[%d] = %s" % (v, i, self.pubt(grid(r, tuple(x.shape[1:]), -9, 9)))]
            cand = [n for n in self.live if self.env[n].shape == x.shape[1:] and self.fam[n] != fam]
            if cand:
                c += ["%s[%d] = %s" % (v, i, r.choice(cand))] * 3
            if d >= 2:
                c += ["%s[:, %d] = %s" % (v, r.randrange(x.size(1)), val), "%s[..., 0] = %s" % (v, val)]
            k = self.dim(x)
            if x.size(k):
                c += ["%s.scatter_(%d, %s, %s)" % (v, k, self.pubt(self.perm_index(x, k)), self.pubt(grid(r, tuple(x.shape), -9, 9)))]
        code = r.choice(c)
        # tensors that may share memory with the target are no longer compared (views are out of scope)
        self.live = [n for n in self.live if n == v or self.fam[n] != fam]
        # detach the model from storage shared with dropped views: the target keeps its own family id
        self.emit(code)
        self.fam[v] = self.nfam if False else fam


def index_map(x):
    base = torch.arange(1)
    off = [0]
    for st, sz in zip(x.stride(), x.shape):
        off = [o + i * st for o in off for i in range(sz)]
    return off


SINGLE = [
    "a.flatten(1)", "a.flatten(0,1)", "a.flatten(start_dim=-2)", "a.transpose(-1,0)", "a.permute(2,0,1)", "a.permute(-1,0,1)", "a.permute((1,2,0))",
    "a.reshape(6,4)", "a.reshape((4,-1))", "a.view(2,12)", "a.view((24,))", "a.squeeze()", "a.unsqueeze(-1)", "a.unsqueeze(dim=0)", "a[0]", "a[-1,1:]", "a[:, [0,2]]",
    "a[torch.tensor([1,0,1])]", "a[:,torch.tensor([2,2])]", "a[a_mask]", "a[1,2,3]", "a[...,::2]", "a[:,None]", "a.size()", "a.shape", "a.dim()", "a.numel()", "a.nelement()", "len(a)",
    "a.size(0)", "a.size(-1)", "a.narrow(1,1,2)", "a.narrow(-1,0,3)", "a.split(1,dim=1)", "a.split([1,2],dim=1)", "a.split(2)", "a.unbind()", "a.unbind(dim=2)", "a.unfold(2,2,2)",
    "a.unfold(1,3,1)", "a.repeat(2,1,1)", "a.repeat(1,1,1)", "a.repeat(2,2,1,1)", "a.expand(2,2,3,4)", "a.expand(-1,3,4)", "a.roll(1,0)", "a.roll((1,-1),(0,2))", "a.roll(2)", "a.flip(0)",
    "a.flip((0,2))", "a.flip(-1)", "a.index_select(2,torch.tensor([3,3,0]))", "a.cumsum(-1)", "a.cumsum(0)", "a.sum((0,2))", "a.sum(dim=(1,),keepdim=True)", "a.sum(-1,True)",
    "M.cat([a,b])", "M.cat([a,b],dim=-1)", "M.cat([a,b,a],dim=1)", "M.stack([a,b])", "M.stack([a,b],dim=-1)", "M.stack([a,b],dim=2)",
    "torch.cat([a,b],dim=1)", "torch.stack([a,b],dim=0)", "a.gather(1,gi)", "a.scatter(2,si,b)", "a.scatter(2,si,p)", "a.scatter_add(1,gi,b)", "a.scatter_add(1,gi,p)", "a.index_add(1,ii,b)",
    "a.index_add(1,ii,p)", "a.take(gi)", "setitem(a,0,b[1])", "setitem(a,(slice(None),1),2)", "setitem(a,(Ellipsis,torch.tensor([0,3])),1.5)", "setitem(a,torch.tensor([1]),p[:1])",
    "setitem(a,(0,0,0),-7)", "setitem(a,slice(None),b)", "a[0].t()", "a.t() if False else a[1].t()", "iop(a,'+',b)", "iop(a,'-',p)", "a.neg_()",
]


def single(r, ws):
    a, b = grid(r, (2, 3, 4), -30, 30), grid(r, (2, 3, 4), -30, 30)
    e = r.choice(SINGLE)
    gi = ints(r, (2, 3, 4), 0, 2)
    g = torch.Generator()
    g.manual_seed(r.randrange(2 ** 30))
    si = torch.rand(2, 3, 4, generator=g).argsort(2)
    mask = torch.rand(2, 3, 4, generator=g) > 0.5
    names = {"gi": gi, "si": si, "ii": ints(r, (3,), 0, 2), "p": grid(r, (2, 3, 4), -9, 9), "a_mask": mask}
    # public values ride along as extra operands c, d, ...
    ops = [enc(a, src=r.randrange(ws)), enc(b, src=r.randrange(ws))]
    ref = e
    import re

    for k, t in names.items():
        if re.search(r"\b%s\b" % k, e):
            n = "abcdefgh"[len(ops)]
            e = re.sub(r"\b%s\b" % k, n, e)
            ref = re.sub(r"\b%s\b" % k, n, ref)
            ops.append(pub(t))
    return {"expr": e, "ref": ref, "ops": ops, "tol": 0.0, "key": "single:" + re.sub(r"[^a-z_.]", "", e)[:20], "size": True}


def judge_single(case, outs):
    return ex.judge(case, outs)


def mixed(r, ws):
    """tensors of different precision meet in structural operations"""
    pa, pb = r.choice([(16, 8), (8, 16), (0, 16), (16, 0), (20, 16)])
    a, b = grid(r, (2, 3), -9, 9, min(pa, 16)), grid(r, (2, 3), -9, 9, min(pb, 16))
    e = r.choice(["M.cat([a,b])", "M.stack([a,b])", "setitem(a,0,b[1])", "a.scatter(1,torch.tensor([[0,2,1],[2,1,0]]),b)", "a.scatter_add(0,torch.tensor([[0,1,1],[0,0,1]]),b)",
                  "a.index_add(0,torch.tensor([1,0]),b)", "M.cat([a,b,a],dim=1)", "iop(a,'+',b)", "iop(b,'-',a)"])
    lossy = pb > pa and e[0] == "a" or (e.startswith("setitem") and pb > pa)
    n = 2 if ws <= 2 else ws + 1
    return {"expr": e, "ops": [enc(a, src=r.randrange(ws), precision=pa), enc(b, src=r.randrange(ws), precision=pb)],
            "tol": (n + 1) * 2.0 ** -pa if lossy else 0.0, "key": "mixed:" + e[:12]}


def check(ctx):
    ctx.rule = ("A case is a random program of structural, arithmetic-exact and in-place steps (or a single operation with one argument form); after every step all live "
                "tensors are decrypted at every party and compared exactly with the same program on plaintext tensors.")
    ctx.assumptions = ["tensors that alias an in-place target through view operations are no longer compared after the write"]
    jobs = []
    for ws, cfg, k in [(2, None, 2.0), (3, None, 1.0), (1, None, .5), (4, None, .3)]:
        lab = "%dPC" % ws
        r = ctx.rng(lab)
        n = int(ctx.n(150, 4000) * k)
        progs = [Prog(r, ws, r.choice([6, 10, 14])).case() for _ in range(n)]
        jobs.append(dict(label=lab, ws=ws, cfg=cfg, cases=progs, mod=ME, fn="run", judge=judge, sig=lambda c: repr([s[0] for s in c["steps"]])))
        sing = [single(r, ws) for _ in range(2 * n)] + [mixed(r, ws) for _ in range(n // 3)]
        jobs.append(dict(label=lab + "-single", ws=ws, cfg=cfg, cases=sing, mod="vf.ex", fn="run", judge=judge_single, sig=ex.sig))
    ctx.drive(jobs, parallel=4)
