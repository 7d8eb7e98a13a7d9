"""C27: random programs that switch recording on and off (nested blocks, decorators, plain calls, blocks left by exceptions)
around differentiable operations, detaching and backpropagation.  PyTorch executes the same program; flags, mode, values and
gradients have to agree after every step."""
import re

import torch

from ..core import Fail, agree
from ..gen import grid

ME = "vf.checks.c27"
MIN_EVAL = 60


class Boom(Exception):
    def __init__(self, levels):
        self.levels = levels


def has_y(e):
    return re.search(r"\by\b", e) is not None


UN = {
    "neg": "-x", "dbl": "x * 2", "rsub": "1.5 - x", "square": "x.square()", "sum0": "x.sum(0)", "mean": "x.mean()", "sum": "x.sum()", "t": "x.t()", "flat": "x.flatten()",
    "idx": "x[0]", "relu": "x.relu()", "clone": "x.clone()", "transpose": "x.transpose(0, 1)", "pow2": "x.pow(2)", "pow3": "x.pow(3)", "unsq": "x.unsqueeze(0)", "flip": "x.flip(0)", "roll": "x.roll(1, 0)",
    "cumsum": "x.cumsum(0)", "addp": "x + P", "mulp": "x * P", "div": "x / 4", "abs": "x.abs()", "reshape": "x.reshape(4, 1)",
}
BIN = {"add": "x + y", "sub": "x - y", "mul": "x * y", "matmul": "x.matmul(y)", "cat": "M.cat([x, y])", "stack": "M.stack([x, y], 0)", "tcat": "torch.cat([x, y], 1)", "where": "x.where(C, y)", "add3": "x.add(y)"}
VIEWS = [UN[k] for k in ("t", "flat", "idx", "transpose", "unsq", "reshape")]
LEAF = {"maskmul": "(x > 0) * y", "wherey": "x.where(x > y, y)", "mask": "x > y", "max": "x.max(0)", "relum": "(x > 0) * x", "eqm": "(x == y) * y + x"}
TORCH = {"x.where(C, y)": "torch.where(C > 0, x, y)", "x.where(x > y, y)": "torch.where(x > y, x, y)", "(x > 0) * y": "(x > 0).double() * y", "(x > 0) * x": "(x > 0).double() * x", "x > y": "(x > y).double()", "(x == y) * y + x": "(x == y).double() * y + x",
         "M.stack([x, y], 0)": "torch.stack([x, y], 0)", "M.cat([x, y])": "torch.cat([x, y])"}
P = torch.tensor([[.5, -1.25], [2., .75]])
C = torch.tensor([[1., 0.], [0., 1.]])


class TorchSide:
    name = "torch"

    def leaf(self, t, rg):
        return t.double().clone().requires_grad_(rg)

    def op(self, e, x, y=None):
        if e == "x.max(0)":
            v = x.max(0).values.clone()
            with torch.no_grad():
                i = (x == x.max(0, keepdim=True).values).double()
            return v, i
        return eval(TORCH.get(e, e), {"torch": torch, "x": x, "y": y, "P": P.double(), "C": C}).clone()

    no = staticmethod(torch.no_grad)
    en = staticmethod(torch.enable_grad)

    def set(self, m):
        torch.set_grad_enabled(m)

    def mode(self):
        return (torch.ones(1, requires_grad=True) * 2).requires_grad

    def plain(self, v):
        return v.detach().clone()

    def detach(self, v):
        return v.detach().clone()

    def detach_(self, v):
        return v.detach_()

    def backward(self, v, g):
        v.backward(None if g is None else g.double())

    def inplace(self, v, w, k):
        if self.mode() and (v.requires_grad or w.requires_grad):
            raise RuntimeError  # documented restriction
        {"a": v.add_, "s": v.sub_, "m": v.mul_, "i": v.add_}[k](w)


class CrypSide:
    name = "crypten"

    def __init__(self, alias):
        import crypten

        self.M = crypten
        h = crypten if alias else crypten.CrypTensor
        self.no, self.en, self._set = h.no_grad, h.enable_grad, h.set_grad_enabled

    def leaf(self, t, rg):
        return self.M.cryptensor(t, requires_grad=rg)

    def op(self, e, x, y=None):
        r = eval(e, {"torch": torch, "M": self.M, "x": x, "y": y, "P": P, "C": C})
        return r

    def set(self, m):
        self._set(m)

    def mode(self):
        return (self.M.cryptensor(torch.ones(1), requires_grad=True) * 2).requires_grad

    def plain(self, v):
        return v.get_plain_text()

    def detach(self, v):
        return v.detach()

    def detach_(self, v):
        return v.detach_()

    def backward(self, v, g):
        v.backward(None if g is None else self.M.cryptensor(g))

    def inplace(self, v, w, k):
        if k == "i":
            v += w
        else:
            {"a": v.add_, "s": v.sub_, "m": v.mul_}[k](w)


class Machine:
    def __init__(self, side):
        self.s, self.v, self.log = side, {}, []

    def note(self, what, ids=()):
        self.log.append((what, self.s.mode(), [(i, bool(self.v[i].requires_grad)) for i in ids]))

    def grads(self, what):
        out = {}
        for i, v in self.v.items():
            leaf = i in self.leaves
            if self.s.name == "torch":
                g = v.grad.clone() if leaf and v.grad is not None else None
            else:
                g = v.grad.get_plain_text() if v.grad is not None else None
            out[i] = g
        self.log.append((what, self.s.mode(), out))

    leaves = ()

    def do(self, st):
        k = st[0]
        s = self.s
        if k == "leaf":
            self.v[st[1]] = s.leaf(st[2], st[3])
            self.leaves = set(self.leaves) | {st[1]}
            self.note(k, [st[1]])
        elif k == "op":
            _, e, new, ins = st
            r = s.op(e, *[self.v[i] for i in ins])
            r = r if isinstance(r, tuple) else (r,)
            for i, q in zip(new, r):
                self.v[i] = q
            self.note(e, new)
        elif k == "set":
            s.set(st[1])
            self.note("set %s" % st[1])
        elif k == "detach":
            self.v[st[1]] = s.detach(self.v[st[2]])
            self.leaves = set(self.leaves) | {st[1]}
            self.note(k, [st[1], st[2]])
        elif k == "detach_":
            s.detach_(self.v[st[1]])
            self.leaves = set(self.leaves) | {st[1]}
            self.note(k, [st[1]])
        elif k == "req":
            self.v[st[1]].requires_grad = st[2]
            if st[2]:
                self.leaves = set(self.leaves) | {st[1]}
            self.note(k, [st[1]])
        elif k == "zero":
            self.v[st[1]].grad = None
        elif k == "backward":
            s.backward(self.v[st[1]], st[2])
            self.grads("backward")
        elif k == "noscalar":
            try:
                s.backward(self.v[st[1]], None)
                self.log.append(("backward of a non-scalar without gradient succeeded", s.mode(), []))
            except RuntimeError:
                self.note("noscalar", [st[1]])
        elif k == "inplace":
            try:
                s.inplace(self.v[st[1]], self.v[st[2]], st[3])
                res = "done"
            except RuntimeError:
                res = "refused"
            self.note("in-place %s %s" % (st[3], res), [st[1], st[2]])
        elif k == "fail":
            try:
                if st[1] == "shape":
                    s.op("x.matmul(y)", self.v[st[2]], s.leaf(torch.ones(5, 3), st[3]))
                elif st[1] == "attr":
                    self.v[st[2]].no_such_operation()
                else:
                    a, b = s.leaf(torch.ones(2, 3), True), s.leaf(torch.ones(3, 2), True)
                    s.backward(s.op("x.matmul(y)", a, b), torch.ones(5, 5))
                res = "no error"
            except Exception:  # noqa
                res = "error"
            if s.name == "torch" and st[1] == "back":
                res = "error"
            if s.name == "crypten" and st[1] == "back" and not st[3]:
                res = "error"  # nothing was recorded
            self.note("%s: %s" % (st[1], res))
        elif k == "block":
            _, how, steps, levels = st

            def inside():
                self.note("enter " + how)
                yield from steps
                if levels:
                    raise Boom(levels)
            return self.block(how, inside())
        elif k == "values":
            self.log.append(("values", s.mode(), {i: s.plain(self.v[i]) for i in self.v}))

    def block(self, how, steps):
        s = self.s

        def go():
            for st in steps:
                self.do(st)
        try:
            if how in ("no", "en"):
                with (s.no() if how == "no" else s.en()):
                    go()
            elif how in ("deco-no", "deco-en"):
                (s.no() if how == "deco-no" else s.en())(go)()
            elif how == "try":
                go()
        except Boom as b:
            self.note("left by exception")
            if b.levels > 1:
                raise Boom(b.levels - 1)
        else:
            self.note("exit " + how)


class Gen(Machine):
    """Draws the next step while PyTorch executes the program."""

    def __init__(self, r, side):
        super().__init__(side)
        self.r, self.nid = r, 0
        self.depth, self.anc, self.spent, self.has_dep, self.base = {}, {}, set(), set(), set()
        self.budget = r.randint(12, 26)
        self.hist = {}
        self.shared = set()

    def new(self):
        self.nid += 1
        return self.nid

    def usable(self, i):
        v = self.v[i]
        return self.depth[i] < 4 and i not in self.spent and float(v.detach().abs().max()) <= 6 and not (self.anc[i] & self.spent)

    def leaf(self):
        i = self.new()
        self.depth[i], self.anc[i] = 0, set()
        self.base.add(i)
        sign = torch.tensor([self.r.choice([1., -1.]) for _ in range(4)]).view(2, 2)
        t = grid(self.r, (2, 2), 0.125, 2, special=False) * sign
        self.hist["leaf"] = self.hist.get("leaf", 0) + 1
        return ("leaf", i, t, self.r.random() < .6)

    def draw(self, level):
        r = self.r
        ids = [i for i in self.v if self.usable(i)]
        k = r.random()
        if len(self.base) < 2 or not ids or k < .06:
            return self.leaf()
        if k < .5:
            kind = r.random()
            lf = [i for i in self.base if i in ids]
            if kind < .3 and len(lf) >= 2:
                e = r.choice(list(LEAF.values()))
                x, y = r.sample(lf, 2)
                if e == "x.max(0)" or e == "(x > 0) * x":
                    ins = [x]
                else:
                    ins = [x, y]
            elif kind < .65:
                x = r.choice(ids)
                sh = self.v[x].shape
                oth = [i for i in ids if self.v[i].shape == sh]
                y = r.choice(oth)
                ok = [e for e in BIN.values() if len(sh) == 2 or e in ("x + y", "x - y", "x * y", "x.add(y)", "M.stack([x, y], 0)")]
                ok = [e for e in ok if tuple(sh) == (2, 2) or e not in ("x.matmul(y)", "x.where(C, y)")]
                e, ins = r.choice(ok), [x, y]
            else:
                x = r.choice(ids)
                sh = tuple(self.v[x].shape)
                ok = [e for e in UN.values() if sh == (2, 2) or e in ("-x", "x * 2", "1.5 - x", "x.square()", "x.sum()", "x.clone()", "x.relu()", "x / 4", "x.pow(2)", "x.mean()")]
                if x not in self.base:  # kinks are only met by chance on inputs
                    ok = [e for e in ok if e not in ("x.relu()", "x.abs()")]
                e, ins = r.choice(ok), [x]
            new = [self.new()] + ([self.new()] if e == "x.max(0)" else [])
            for i in new:
                self.depth[i] = 1 + max(self.depth[j] for j in ins) + (9 if e == "x > y" or i != new[0] else 0)  # masks are integers
            if e in VIEWS:
                self.shared |= set(new) | set(ins)
            self.hist["op"] = self.hist.get("op", 0) + 1
            return ("op", e, new, ins)
        if k < .62 and level < 4:
            return ("block", r.choice(["no", "no", "en", "en", "deco-no", "deco-en", "try"]), None, r.choice([0, 0, 0, 1, 1, 2, 3]))
        if k < .67:
            return ("set", r.random() < .6)
        if k < .72:
            i = r.choice(ids)
            j = self.new()
            self.depth[j], self.anc[j] = self.depth[i], set()
            return ("detach", j, i)
        if k < .76:
            cand = [i for i in ids if i not in self.has_dep]
            if cand:
                return ("detach_", r.choice(cand))
        if k < .82:
            cand = [i for i in ids if self.v[i].is_leaf and not self.v[i].requires_grad and i not in self.has_dep]
            if cand:
                return ("req", r.choice(cand), True)
        if k < .84:
            cand = [i for i in self.v if i in self.leaves]
            return ("zero", r.choice(cand))
        if k < .88:
            return ("fail", r.choice(["shape", "attr", "back"]), r.choice([i for i in self.base]), self.s.mode())
        if k < .92:
            i = r.choice(ids)
            sh = self.v[i].shape
            w = r.choice([j for j in ids if self.v[j].shape == sh])
            if (self.s.mode() and (self.v[i].requires_grad or self.v[w].requires_grad)) or (i not in self.has_dep and (self.v[i].is_leaf) and float((self.v[i] * self.v[w]).abs().max()) < 6 and i not in self.base and i not in self.shared and w != i):
                return ("inplace", i, w, r.choice("asmi"))
        cand = [i for i in self.v if self.v[i].requires_grad and not (({i} | self.anc[i]) & self.spent) and not self.v[i].is_leaf]
        if cand:
            i = r.choice(cand)
            n = self.v[i].numel()
            if n > 1 and r.random() < .2:
                return ("noscalar", i)
            if n == 1 and tuple(self.v[i].shape) == () and r.random() < .5:
                return ("backward", i, None)
            return ("backward", i, grid(r, tuple(self.v[i].shape), -2, 2))
        cand = [i for i in self.v if self.v[i].is_leaf and self.v[i].requires_grad]
        if cand and r.random() < .3:
            i = r.choice(cand)
            return ("backward", i, grid(r, tuple(self.v[i].shape), -2, 2))
        return self.leaf()

    def after(self, st):
        if st[0] == "op":
            for i in st[2]:
                a = set()
                for j in st[3]:
                    a |= self.anc[j]
                    if self.v[i].requires_grad and not self.v[j].is_leaf:
                        a.add(j)
                self.anc[i] = a if self.v[i].requires_grad else set()
                if self.v[i].requires_grad:
                    self.has_dep |= set(st[3])
        elif st[0] == "backward":
            if not self.v[st[1]].is_leaf:
                self.spent |= {st[1]} | self.anc[st[1]]
        elif st[0] == "detach_":
            self.anc[st[1]] = set()

    def program(self, level=0, n=None):
        """Yields the steps of one level as they are drawn; blocks are executed recursively."""
        n = n if n is not None else self.budget

        def one():
            st = self.draw(level)
            if st[0] != "block":
                self.do(st)
                self.after(st)
                out.append(st)
                return
            inner = []
            m = self.r.randint(1, 5)
            self._nest(st[1], inner, level, m, st[3], out)

        out = []
        self._stack = out
        for _ in range(n):
            try:
                one()
            except Boom:
                pass
        return out

    def _nest(self, how, inner, level, m, levels, out):
        # the step is stored first, so that programs keep their order when the block is left by an exception
        out.append(("block", how, inner, levels))
        g = self

        class Lazy:
            def __iter__(s):
                g.note("enter " + how)
                for _ in range(m):
                    st = g.draw(level + 1)
                    if st[0] == "block":
                        sub = []
                        lv = st[3]
                        try:
                            g._nest(st[1], sub, level + 1, g.r.randint(1, 4), lv, inner)
                        except Boom:
                            raise
                    else:
                        yield st
                        g.after(st)
                        inner.append(st)
                if levels:
                    raise Boom(levels)
        self.block(how, Lazy())


def make(r):
    prior = torch.is_grad_enabled()
    torch.set_grad_enabled(True)
    try:
        g = Gen(r, TorchSide())
        prog = g.program()
        end = ("values",)
        g.do(end)
        prog.append(end)
        # at the end everything that was recorded last is differentiated
        torch.set_grad_enabled(True)
        g.do(("set", True))
        prog.append(("set", True))
        cand = [i for i in g.v if g.v[i].requires_grad and not (({i} | g.anc[i]) & g.spent) and not g.v[i].is_leaf]
        for i in cand[::-1][:3]:
            if ({i} | g.anc[i]) & g.spent:
                continue
            st = ("backward", i, grid(r, tuple(g.v[i].shape), -2, 2))
            g.do(st)
            g.after(st)
            prog.append(st)
        return {"prog": prog, "log": g.log}
    finally:
        torch.set_grad_enabled(prior)


def run(case):
    import crypten

    if case.get("expr"):
        return single(case)
    crypten.set_grad_enabled(True)
    m = Machine(CrypSide(case["alias"]))
    try:
        for st in case["prog"]:
            try:
                m.do(st)
            except Boom:
                pass
        return {"log": m.log}
    except Exception as e:  # noqa
        import traceback

        return {"log": m.log, "err": traceback.format_exc()[-600:]}
    finally:
        crypten.set_grad_enabled(True)


def single(case):
    """One operation: is its result recorded, and do gradients arrive?"""
    import crypten

    x, y = crypten.cryptensor(case["x"], requires_grad=case["rg"][0]), crypten.cryptensor(case["y"], requires_grad=case["rg"][1])
    env = {"x": x, "y": y, "M": crypten, "torch": torch, "P": P, "C": C}
    r = eval(case["expr"], env)
    r = r[0] if isinstance(r, (tuple, list)) else r
    out = {"rg": bool(r.requires_grad)}
    with crypten.no_grad():
        q = eval(case["expr"], env)
        out["rg_off"] = any(bool(z.requires_grad) for z in (q if isinstance(q, (tuple, list)) else [q]))
    if r.requires_grad:
        (r * 1.0).sum().backward()
    out["g"] = [x.grad is not None, y.grad is not None]
    out["mode"] = (crypten.cryptensor(torch.ones(1), requires_grad=True) * 2).requires_grad
    return out


def judge(case, outs):
    vals, f = agree(outs)
    if f:
        return f
    if vals is None:
        return Fail("raised", "raised %s on a program of switches and operations" % (outs[0],))
    for rk, v in enumerate(vals):
        if case.get("expr"):
            rg = case["rg"]
            want = case.get("diff", True) and any(rg)
            used = [rg[0] and "x" in case["uses"], rg[1] and "y" in case["uses"]]
            want = case.get("diff", True) and any(used)
            key = case["key"]
            src = key in ("unrecorded:scatter_add", "unrecorded:index_add")  # only y is missing there
            if v["rg"] != want:
                if v["rg"] or src and rg[0]:
                    key = "wrongly-" + key
                return Fail(key, "`%s` with requires_grad %s: the result %s requires gradients" % (case["expr"], rg, "unexpectedly" if v["rg"] else "does not"))
            if v["rg_off"]:
                return Fail("off:" + key, "`%s` was recorded although recording was off" % case["expr"])
            if not v["mode"]:
                return Fail("mode", "recording is off after `%s`" % case["expr"])
            if want and src and v["g"] == [rg[0], False]:
                return Fail(key, "`%s`: gradients arrived at (x, y) = %s, expected %s" % (case["expr"], v["g"], used))
            if want and v["g"] != used:
                return Fail("arrive:" + key, "`%s`: gradients arrived at (x, y) = %s, expected %s" % (case["expr"], v["g"], used))
            if not want and any(v["g"]):
                return Fail("arrive:" + key, "`%s`: gradients arrived although nothing requires them" % case["expr"])
            continue
        log = v["log"]
        for n, (a, b) in enumerate(zip(case["log"], log)):
            msg = None
            if a[0] != b[0]:
                msg = ("step", "`%s` instead of `%s`" % (b[0], a[0]))
            elif a[1] != b[1]:
                msg = ("mode", "recording is %s after `%s`, PyTorch has it %s" % (b[1], a[0], a[1]))
            elif a[0] in ("backward", "values"):
                for i in a[2]:
                    if i not in b[2]:
                        continue
                    p, q = a[2][i], b[2][i]
                    if (p is None) != (q is None):
                        msg = ("who", "after backpropagation variable %d has %s gradient, expected %s" % (i, "no" if q is None else "a", "none" if p is None else "one"))
                    elif p is not None and (p.shape != q.shape or p.numel() and float((p - q).abs().max()) > 5e-3 * (1 + float(p.abs().max()))):
                        msg = ("gradient" if a[0] == "backward" else "value", "%s of variable %d is %s, expected %s" % ("gradient" if a[0] == "backward" else "value", i, q.flatten()[:4].tolist(), p.flatten()[:4].tolist()))
                    if msg:
                        break
            elif a[2] != b[2]:
                msg = ("flag", "after `%s` the variables have requires_grad %s, PyTorch has %s" % (a[0], b[2], a[2]))
            if msg:
                return Fail(msg[0], "party %d, entry %d of the program: %s\nprogram: %s" % (rk, n, msg[1], show(case["prog"])))
        if v.get("err"):
            return Fail("raised", "party %d, after entry %d: %s\nprogram: %s" % (rk, len(log), v["err"], show(case["prog"])))
        if len(log) != len(case["log"]):
            return Fail("length", "%d entries instead of %d" % (len(log), len(case["log"])))
    return None


def show(prog, ind=0):
    out = []
    for s in prog:
        if s[0] == "block":
            out.append(" " * ind + "block %s (raises %d)" % (s[1], s[3]))
            out.append(show(s[2], ind + 2))
        else:
            out.append(" " * ind + " ".join(str(a.tolist()) if torch.is_tensor(a) else str(a) for a in s))
    return "\n".join(out)


# operations whose result has to be recorded (uses: operands through which a gradient exists), or must not be
S_OPS = [(e, "xy" if has_y(e) else "x", True) for e in list(UN.values()) + list(BIN.values()) + [
    "x.max()", "x.min(0)", "x.var()", "x.norm()", "x.tanh()", "x.sigmoid()", "x.exp()", "x.reciprocal()", "x.sqrt()", "x.log()", "x.softmax(0)", "x.log_softmax(1)", "x.erf()", "x.sin()", "x.cos()", "x.polynomial([1., 2.])", "x.hardtanh()", "x.relu6()",
    "x / (y * y + 1)", "x.rsub(1) if False else 1 - x", "x.dot(y[0][0] * x) if False else x.flatten().dot(y.flatten())", "x.ger(y) if False else x[0].ger(y[0])", "x.trace()", "x.narrow(0, 0, 1)", "x.permute((1, 0))", "x.view(4)", "x.squeeze()", "x.pad((1, 1))", "x.take(torch.tensor([0, 3]))",
    "x.index_select(0, torch.tensor([1]))", "x.gather(0, torch.tensor([[0, 1]]))", "x.scatter(0, torch.tensor([[0, 1]]), y)", "x.reshape(1, 1, 4).conv1d(y.reshape(1, 1, 4))", "x.reshape(1, 1, 2, 2).conv2d(y.reshape(1, 1, 2, 2))", "x.reshape(1, 1, 2, 2).avg_pool2d(2)",
    "x.reshape(1, 1, 2, 2).max_pool2d(2)", "x.cosine_similarity(y)", "x.pos_pow(1.5)", "x.dropout(0.1)", "x.sigmoid().binary_cross_entropy(y.detach())", "x.binary_cross_entropy_with_logits(y.detach())", "x.scatter_add(0, torch.tensor([[0, 1]]), y)", "x.index_add(0, torch.tensor([1, 0]), y)", "x.prod(0)", "x.expand(3, 2, 2)", "x.repeat(2, 1)",
    "x.split(1)", "x.unbind(0)", "x.argmax(0) * y", "(x > y) * y", "x.sign() * y", "abs(x)", "x @ y", "torch.stack([x, y])", "M.CrypTensor.cat([x, y]) if False else M.cat([x, x, y], 1)", "x ** 2 if False else x.pow(2)", "x.add(tensor=y) if False else x.add(y)", "x.chunk(2) if False else x[0:1]",
]]
NONDIFF = ["x > y", "x >= y", "x < y", "x <= y", "x == y", "x != y", "x.argmax(0)", "x.argmin(1)", "x.reveal() if False else x.detach()", "x.bernoulli()", "x.new(torch.ones(2))", "x.sigmoid().bernoulli()", "x.weighted_index(0)"]
UNRECORDED = ("prod", "expand", "repeat", "split", "unbind", "scatter_add", "index_add")
KEYWORD = [("x.add(y=y)", "xy"), ("x.mul(y=y)", "xy"), ("x.matmul(y=y)", "xy"), ("x.where(condition=C0, y=y)", "xy")]


def singles():
    for e, u, d in S_OPS:
        if e in ("(x > y) * y", "x.argmax(0) * y", "x.sign() * y"):
            u = "y" if "sign" not in e else "xy"
        if "y.detach()" in e:
            u = "x"
        yield e, u, True
    for e in NONDIFF:
        yield e, "", False


def check(ctx):
    ctx.rule = ("A case is a program of switches, operations, detachments and backpropagations executed by CrypTen and by PyTorch; recording mode, requires_grad flags, values and gradients are compared after every step. "
                "Single cases test each operation's recording.")
    ctx.assumptions = ["a tensor whose graph was already backpropagated is not used again (PyTorch refuses this)"]
    jobs = []
    for ws, k, alias in [(2, 1.0, True), (1, .7, False), (3, .5, False)]:
        r = ctx.rng("p", ws)
        cs = [dict(make(r), alias=alias) for _ in range(int(ctx.n(90, 1800) * k))]
        jobs.append(dict(label="%dPC-program" % ws, ws=ws, cases=cs, mod=ME, fn="run", judge=judge, sig=lambda c: str(c["prog"])))
    r = ctx.rng("single")
    cs = []
    for e, u, d in singles():
        for rg in [(True, True), (True, False), (False, True), (False, False)]:
            if not has_y(e) and rg[1]:
                continue
            op = e.split("(")[0].replace("x.", "")
            name = "unrecorded:" + op if op in UNRECORDED else "recorded:" + e
            x = grid(r, (2, 2), 0.25, 1, special=False)
            y = grid(r, (2, 2), 0.25, 1, special=False)
            cs.append({"expr": e, "uses": u, "diff": d, "rg": rg, "x": x, "y": y, "key": name})
    for ws in (2, 3) if ctx.quick else (1, 2, 3):
        jobs.append(dict(label="%dPC-single" % ws, ws=ws, cases=cs, mod=ME, fn="run", judge=judge, sig=lambda c: (c["expr"], c["rg"])))
    ctx.drive(jobs, reruns=2, parallel=4)
    ctx.count("program_steps", sum(len(c["log"]) for j in jobs for c in j["cases"] if "log" in c))
