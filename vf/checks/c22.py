"""C22: draws many encrypted random tensors, looks at each (shape, range, agreement, exact relations) and judges the pooled
samples of all parties, calls and sessions with statistical tests (false alarm probability below 1e-9 each)."""
import math

import torch

from ..core import Fail, agree

ME = "vf.checks.c22"
MIN_EVAL = 60
Z = 6.5  # standard deviations; two-sided probability 8e-11


def dec(t):
    return t.get_plain_text()


def run(case):
    import crypten
    import crypten.communicator as comm
    from crypten.config import cfg

    kind, sz = case["kind"], case["size"]
    with cfg.temp_override(case.get("cfg") or {}):
        if kind in ("rand", "randn"):
            f = getattr(crypten, kind)
            outs = []
            for _ in range(case["calls"]):
                v = f(*sz) if case["star"] else f(sz)
                outs.append((tuple(v.size()), dec(v)))
            return outs
        x = case["x"]
        ex = crypten.cryptensor(x, src=case.get("src", 0), requires_grad=bool(case.get("grad")))
        outs = []
        for _ in range(case["calls"]):
            if kind == "bernoulli":
                v = {"method": lambda: ex.bernoulli(), "enc": lambda: crypten.bernoulli(ex), "pub": lambda: crypten.bernoulli(x)}[case["how"]]()
                outs.append(dec(v))
            elif kind == "windex":
                if case["how"] == "sample":
                    s, i = ex.weighted_sample(case["dim"])
                    outs.append((dec(i), dec(s)))
                else:
                    outs.append((dec(ex.weighted_index(case["dim"])), None))
            else:
                nograd = crypten.no_grad() if case["nograd"] else None
                if nograd:
                    nograd.__enter__()
                try:
                    how, p, tr = case["how"], case["p"], case["training"]
                    before = ex
                    if how == "method":
                        v = ex.dropout(p=p, training=tr)
                    elif how == "inplace":
                        before = ex.clone()
                        v = before.dropout(p=p, training=tr, inplace=True)
                    elif how == "feature":
                        v = ex._feature_dropout(p=p, training=tr)
                    else:
                        m = {"module": crypten.nn.Dropout, "module2": crypten.nn.Dropout2d, "module3": crypten.nn.Dropout3d}[how](p)
                        m.train(tr)
                        m.encrypt()
                        v = m(ex)
                finally:
                    if nograd:
                        nograd.__exit__(None, None, None)
                o = [dec(v), None, dec(ex) if how != "inplace" else dec(before)]
                if v.requires_grad:
                    ex.grad = None
                    v.sum().backward()
                    o[1] = dec(ex.grad)
                outs.append(o)
        return outs


def agreed(vals):
    def flat(v):
        if torch.is_tensor(v):
            yield v
        elif isinstance(v, (list, tuple)):
            for q in v:
                yield from flat(q)
    a = list(flat(vals[0]))
    return all(all(torch.equal(p, q) for p, q in zip(a, flat(v))) for v in vals[1:])


class Pool:
    def __init__(self, ctx):
        self.ctx, self.d = ctx, {}

    def add(self, key, value):
        with self.ctx.lock:
            self.d.setdefault(key, []).append(value)


def make_judge(pool):
    def judge(case, outs):
        vals, f = agree(outs)
        if f:
            return f
        kind = case["kind"]
        d = {k: v for k, v in case.items() if k not in ("x", "tag")}
        if vals is None:
            return Fail("raised:" + kind, "%s raised %s" % (d, outs[0][1:3]))
        if not agreed(vals):
            return Fail("agree", "%s: the parties obtained different random tensors" % d)
        tag = case["tag"]
        if kind in ("rand", "randn"):
            bits = (case.get("cfg") or {}).get("encoder.precision_bits", 16)
            want = tuple(case["size"])
            for shp, v in vals[0]:
                if shp != want or tuple(v.shape) != want:
                    return Fail("shape", "%s: shape %s" % (d, shp))
                v = v.double()
                if kind == "rand":
                    if v.numel() and (float(v.min()) < 0 or float(v.max()) >= 1):
                        return Fail("range", "%s: uniform values between %s and %s" % (d, v.min(), v.max()))
                    if not torch.equal((v * 2**bits).round(), v * 2**bits):
                        return Fail("grid", "%s: values off the grid" % d)
                elif v.numel() and float(v.abs().max()) > 8:
                    return Fail("range", "%s: normal value %s" % (d, v.abs().max()))
                pool.add((kind, bits if kind == "rand" else 0, tag[0], tag[1] if kind == "randn" else 0), v.flatten())
            return None
        if kind == "bernoulli":
            for v in vals[0]:
                if v.shape != case["x"].shape:
                    return Fail("shape", "%s: shape %s for probabilities of shape %s" % (d, tuple(v.shape), tuple(case["x"].shape)))
                v = v.double()
                if bool(((v != 0) & (v != 1)).any()):
                    return Fail("range", "%s: values other than 0 and 1" % d)
                x = case["x"].double()
                if bool((v[x == 0] != 0).any()) or bool((v[x == 1] != 1).any()):
                    return Fail("certain", "%s: probability 0 or 1 did not decide the result" % d)
                pool.add(("bernoulli", case["how"], tag[0]), (x.flatten(), v.flatten()))
            return None
        if kind == "windex":
            x, dim = case["x"].double(), case["dim"]
            for i, s in vals[0]:
                i = i.double()
                if i.shape != x.shape:
                    return Fail("shape", "%s: shape %s" % (d, tuple(i.shape)))
                tot = i.sum() if dim is None else i.sum(dim)
                few = 0 if dim is None else 4  # of thousands of rows: the threshold is rounded, so it can reach the total weight
                if bool(((i != 0) & (i != 1)).any()) or int((tot != 1).sum()) > few:
                    return Fail("onehot", "%s: index %s is not one-hot" % (d, i.tolist()))
                if int((i[x == 0] != 0).sum()) > few:
                    return Fail("zero", "%s: an element of weight 0 was chosen" % d)
                if s is not None:
                    w = (x * i).sum() if dim is None else (x * i).sum(dim)
                    if s.shape != w.shape or float((s.double() - w).abs().max()) > 1e-3:
                        return Fail("sample", "%s: sample %s instead of %s" % (d, s.tolist(), w.tolist()))
                n = x / x.sum() if dim is None else x / x.sum(dim, keepdim=True)
                pool.add(("windex", case["how"]), (n.flatten(), i.flatten()))
                if dim is not None:
                    for k in range(x.shape[dim]):
                        if n.shape[dim] == 4:
                            pool.add(("windex", "position %d" % k), (n.select(dim, k).flatten(), i.select(dim, k).flatten()))
            return None
        x, p = case["x"].double(), case["p"]
        for v, g, x1 in vals[0]:
            v = v.double()
            if v.shape != x.shape:
                return Fail("shape", "%s: shape %s of %s" % (d, tuple(v.shape), tuple(x.shape)))
            if case["how"] == "inplace" and p not in (0, 1) and not torch.equal(x1.double(), v):
                return Fail("inplace", "%s: in-place dropout returned something else than it left behind" % d)
            if case["how"] != "inplace" and float((x1.double() - x).abs().max()) > 1e-4:
                return Fail("operand", "%s: dropout modified its input" % d)
            tol = 1e-3 * (1 + x.abs())
            if not case["training"] or p == 0:
                if bool(((v - x).abs() > 1e-4).any()):
                    return Fail("identity", "%s: not the identity" % d)
                continue
            if p == 1:
                if bool((v.abs() > 1e-4).any()):
                    return Fail("all", "%s: something was kept" % d)
                continue
            keep = (v - x / (1 - p)).abs() <= tol / (1 - p)
            drop = v.abs() <= 1e-4
            if bool((~(keep | drop)).any()):
                k = int((~(keep | drop)).flatten().nonzero()[0])
                return Fail("scale", "%s: value %s became %s, expected 0 or %s" % (d, float(x.flatten()[k]), float(v.flatten()[k]), float((x / (1 - p)).flatten()[k])))
            m = (~drop).double()
            if g is not None and bool(((g.double() - m / (1 - p)).abs() > 1e-3 / (1 - p)).any()):
                return Fail("gradient", "%s: the gradient does not match the elements that were kept" % d)
            if case["how"] in ("feature", "module2", "module3"):
                fl = m.reshape(m.shape[0], m.shape[1], -1)
                if bool((fl != fl[:, :, :1]).any()):
                    return Fail("channel", "%s: a channel was dropped in part" % d)
                m = fl[:, :, 0]
            pool.add(("dropout", case["how"], p, bool(case["grad"]), tag[0]), m.flatten())
        return None

    return judge


def chi_sf_bound(stat, dof):
    """Wilson-Hilferty: standard score of a chi-square value."""
    return ((stat / dof) ** (1 / 3) - (1 - 2 / (9 * dof))) / math.sqrt(2 / (9 * dof))


def tests(ctx, pool):
    """Yields (name, score, limit) for every pooled statistic, and repeats."""
    n_tests = 0

    def verdict(name, ok, msg):
        nonlocal n_tests
        n_tests += 1
        if not ok:
            ctx.violation(Fail("stat:" + name, msg), "pooled samples", {"pooled": name})

    def corr(name, a, b):
        if len(a) < 500:
            return
        a, b = a - a.mean(), b - b.mean()
        if float(a.std()) == 0 or float(b.std()) == 0:
            return
        c = float((a * b).mean() / (a.std() * b.std())) * math.sqrt(len(a))
        verdict(name, abs(c) < Z, "%s: correlated (%.1f standard deviations over %d samples)" % (name, c, len(a)))

    merged = {}
    for key, vs in pool.d.items():
        if key[0] == "rand":
            for scope in (("rand", key[1], key[2]), ("rand", key[1], "all")):
                merged.setdefault(scope, []).extend(vs)
        elif key[0] == "randn":
            merged.setdefault(("randn", key[2]), []).extend(vs)
            merged.setdefault(("randn", "all"), []).extend(vs)
        elif key[0] in ("bernoulli", "windex"):
            merged.setdefault(key, []).extend(vs)
        else:
            merged.setdefault(key, []).extend(vs)
            merged.setdefault(("dropout", key[2], key[3]), []).extend(vs)
    for key, vs in merged.items():
        name = " ".join(map(str, key))
        if key[0] == "rand":
            bits = key[1]
            v = torch.cat(vs)
            n = len(v)
            if n < 1000:
                continue
            q = (v * 2**bits).long()
            b = 32
            cnt = torch.bincount((v * b).long(), minlength=b).double()
            s = chi_sf_bound(float(((cnt - n / b) ** 2 / (n / b)).sum()), b - 1)
            verdict("uniform " + name, s < Z, "%s: %d samples are not uniform (score %.1f): %s" % (name, n, s, (cnt / n).tolist()))
            bt = torch.stack([(q >> k) & 1 for k in range(bits)]).double()
            for k in range(bits):
                z = (float(bt[k].mean()) - .5) * 2 * math.sqrt(n)
                verdict("bit %d of %s" % (k, name), abs(z) < Z, "%s: bit %d is 1 in %.4f of %d samples" % (name, k, float(bt[k].mean()), n))
            pair = (bt - .5) @ (bt - .5).t() / n * 4 * math.sqrt(n)
            pair.fill_diagonal_(0)
            verdict("bits of " + name, float(pair.abs().max()) < Z, "%s: two bits are correlated" % name)
        if key[0] == "randn":
            v = torch.cat(vs)
            n = len(v)
            if n < 1000:
                continue
            # the approximations behind the transform shift the distribution by up to 0.016 and the variance by up to 4 %
            s = v.sort().values
            cdf = .5 * (1 + torch.erf(s / 2**.5))
            i = torch.arange(n).double()
            ks = max(float((cdf - i / n).abs().max()), float((cdf - (i + 1) / n).abs().max()))
            verdict("normal " + name, ks < .024 + 3.3 / math.sqrt(n), "%s: %d samples are not normal: distance %.4f" % (name, n, ks))
            verdict("mean " + name, abs(float(v.mean())) < .01 + Z / math.sqrt(n), "%s: mean %.4f" % (name, float(v.mean())))
            verdict("variance " + name, abs(float(v.var()) - 1) < .06 + Z * math.sqrt(2.2 / n), "%s: variance %.4f" % (name, float(v.var())))
            verdict("skewness " + name, abs(float((v**3).mean())) < .03 + Z * math.sqrt(20 / n), "%s: third moment %.3f" % (name, float((v**3).mean())))
            for t in (1, 1.5, 2, 2.5, 3):
                want = n * .5 * math.erfc(t / 2**.5)
                if want < 25:
                    continue
                for side in (1, -1):
                    got = int((v * side > t).sum())
                    z = 2 * (math.sqrt(got) - math.sqrt(min(max(got, want * .9), want * 1.12)))
                    verdict("tail %s of %s" % (t * side, name), abs(z) < 7, "%s: %d of %d samples beyond %s instead of %.0f" % (name, got, n, t * side, want))
            verdict("kurtosis " + name, n < 4000 or abs(float((v**4).mean()) - 3.06) < .25 + Z * math.sqrt(100 / n), "%s: fourth moment %.3f" % (name, float((v**4).mean())))
        if key[0] in ("rand", "randn"):
            long = [v for v in vs if len(v) >= 64]
            for lag in (1, 2, 3):
                if long:
                    corr("lag %d of %s" % (lag, name), torch.cat([v[:-lag] for v in long]), torch.cat([v[lag:] for v in long]))
            half = [v for v in vs if len(v) >= 64]
            if half:
                h = [len(v) // 2 for v in half]
                corr("halves of " + name, torch.cat([v[:k] for v, k in zip(half, h)]), torch.cat([v[-k:] for v, k in zip(half, h)]))
                corr("squares of halves of " + name, torch.cat([v[:k] ** 2 for v, k in zip(half, h)]), torch.cat([v[-k:] ** 2 for v, k in zip(half, h)]))
            same = [(a, b) for a, b in zip(vs[:-1], vs[1:]) if len(a) == len(b) and len(a) >= 64]
            if same:
                corr("calls of " + name, torch.cat([a for a, _ in same]), torch.cat([b for _, b in same]))
            seen = {}
            for v in vs:
                if len(v) < 16:
                    continue
                for part in (v[:16], v[-16:]):
                    t = tuple(part.tolist())
                    if t in seen and len(v) >= 32:
                        verdict("repeat " + name, False, "%s: the same random values were drawn in two calls or sessions" % name)
                    seen[t] = 1
            n_tests += 1
        if key[0] == "bernoulli" or key[0] == "windex":
            p, v = torch.cat([a for a, _ in vs]), torch.cat([b for _, b in vs])
            for lo, hi in [(0, 1), (0, .1), (.1, .3), (.3, .5), (.5, .7), (.7, .9), (.9, 1)]:
                m = (p > lo) & (p < hi + 1e-9)
                n = int(m.sum())
                var = float((p[m] * (1 - p[m])).sum())
                if var < 20:
                    continue
                z = float((v[m] - p[m]).sum()) / math.sqrt(var)
                bias = n * 2**-14 / math.sqrt(var)
                verdict("%s in %s" % (name, (lo, hi)), abs(z) < Z + bias, "%s: chosen %.4f instead of %.4f of %d (score %.1f)" % (name, float(v[m].mean()), float(p[m].mean()), n, z))
            if key[0] == "bernoulli":
                r = (v - p) / (p * (1 - p)).clamp_min(1e-3).sqrt()
                r = r[(p > .02) & (p < .98)]
                corr("neighbours of " + name, r[:-1], r[1:])
        if key[0] == "dropout":
            v = torch.cat(vs)
            p = key[2] if len(key) > 3 else key[1]
            n = len(v)
            if n * p * (1 - p) < 20:
                continue
            z = (float(v.mean()) - (1 - p)) * math.sqrt(n / (p * (1 - p)))
            verdict(name, abs(z) < Z + n * 2**-14 / math.sqrt(n * p * (1 - p)), "%s: kept %.4f of %d elements instead of %.4f (score %.1f)" % (name, float(v.mean()), n, 1 - p, z))
            corr("neighbours of " + name, v[:-1], v[1:])
            same = [(a, b) for a, b in zip(vs[:-1], vs[1:]) if len(a) == len(b)]
            if same:
                corr("calls of " + name, torch.cat([a for a, _ in same]), torch.cat([b for _, b in same]))
    ctx.count("statistical_tests", n_tests)
    ctx.count("samples", sum(len(v if torch.is_tensor(v) else v[0]) for k, vs in pool.d.items() for v in vs))


def gen(r, ws, label, scale):
    big = [(1500,), (40, 50), (3, 20, 20), (2048,)]
    small = [(3,), (1,), (2, 3), (0,), (2, 0, 3), (), (5, 1), (7,)]
    out = []
    for i in range(max(2, int(4 * scale))):
        s = r.choice(big)
        out.append({"kind": "rand", "size": s, "star": r.random() < .5, "calls": 3})
        out.append({"kind": "randn", "size": r.choice(big), "star": r.random() < .5, "calls": 2})
    for s in small:
        for k in ("rand", "randn"):
            out.append({"kind": k, "size": s, "star": len(s) > 0 and r.random() < .5, "calls": 2})
    for b in r.sample([8, 12, 20, 22, 10], 2):
        out.append({"kind": "rand", "size": (2000,), "star": False, "calls": 2, "cfg": {"encoder.precision_bits": b}})
    if ws > 1:
        for how in ("method", "enc", "pub"):
            n = 1500
            p = torch.tensor([round(r.random() * 64) / 64 for _ in range(n)])
            out.append({"kind": "bernoulli", "size": (n,), "x": p.view(r.choice([(n,), (30, 50), (n, 1)])), "how": how, "calls": 2, "src": r.randrange(ws)})
        for how in ("index", "sample"):
            for _ in range(max(1, int(2 * scale))):
                dim = r.choice([0, 1, None, 1, 0])
                n = (4, 4000) if dim == 0 else (4000, 4) if dim == 1 else (2, 3)
                w = torch.tensor([[float(r.choice([0, 1, 2, .5, 3, 5])) for _ in range(n[1])] for _ in range(n[0])])
                if dim is not None:
                    w.select(dim, r.randrange(w.shape[dim])).add_(1.5)
                else:
                    w += .5
                out.append({"kind": "windex", "size": n, "x": w.float(), "dim": dim, "how": how, "calls": 2 if dim is not None else 10})
        combos = [(h, g, ng) for h in ("method", "module") for g in (False, True) for ng in (False, True)] + [(h, g, False) for h in ("feature", "module2", "module3") for g in (False, True)] + [("inplace", False, False)]
        for how, g, ng in combos:
            p = r.choice([.5, .1, .25, .75, .3, .9])
            for p, tr in [(p, True), (r.choice([0., 1.]), True), (r.choice([.5, 1., 0., .2]), False)]:
                if how in ("feature", "module2", "module3"):
                    s = (20, 40, 2, 2) if how == "module2" else (20, 40, 1, 2, 1) if how == "module3" else r.choice([(30, 30, 2), (25, 32, 2, 1)])
                else:
                    s = r.choice([(900,), (30, 40), (2, 20, 25)])
                if p in (0., 1.) or not tr:
                    s = tuple(min(q, 3) for q in s)
                nm = 1
                for q in s:
                    nm *= q
                x = torch.tensor([r.choice([1, -1]) * (r.randrange(16, 512) / 64) for _ in range(nm)]).view(s)
                out.append({"kind": "dropout", "size": s, "x": x, "how": how, "p": p, "training": tr, "grad": g, "nograd": ng, "calls": 2 if tr else 1, "src": r.randrange(ws)})
    r.shuffle(out)
    return [dict(c, tag=label) for c in out]


def check(ctx):
    ctx.rule = ("A case draws encrypted random tensors or applies dropout a few times; each result is examined, and the samples of all cases are pooled and tested for distribution, bit balance, correlation between elements, calls and halves, and repeats. "
                "The pooled tests alarm at 6.5 standard deviations.")
    ctx.assumptions = ["normal samples may deviate by the approximation error of logarithm, square root and sine (distribution distance 0.016, variance 4 %)"]
    pool = Pool(ctx)
    judge = make_judge(pool)
    jobs = []
    plan = [(2, None, 1, {}), (3, None, .6, {}), (4, None, .4, {}), (2, {"mpc.provider": "TTP"}, .5, {}), (3, {"mpc.provider": "TTP"}, .4, {}), (1, None, .5, {}),
            (2, None, .3, {"real_urandom": True, "torch_seed": 5}), (2, None, .3, {"real_urandom": True, "torch_seed": 5}), (3, None, .3, {"real_urandom": True, "torch_seed": 5})]
    for n, (ws, cfg, scale, opts) in enumerate(plan):
        lab = "%dPC%s-%d" % (ws, "".join("-" + v for v in (cfg or {}).values()), n)
        r = ctx.rng(lab)
        cs = [c for _ in range(ctx.n(1, 12)) for c in gen(r, ws, (lab, ws), scale)]
        jobs.append(dict(label=lab, ws=ws, cfg=cfg, cases=cs, mod=ME, fn="run", judge=judge, opts=opts, sig=lambda c: str({k: v for k, v in c.items() if k != "x"})))
    ctx.drive(jobs, reruns=2, parallel=4)
    tests(ctx, pool)
