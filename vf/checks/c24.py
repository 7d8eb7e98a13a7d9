"""C24: trains plaintext models of one party against the labels of another for a few steps with every setting of DPSplitModel, and
compares the gradients with those of the stated loss computed in plaintext, everything that anybody decrypted with what they may learn,
and, pooled over all cases, the added noise and the flipped labels with the configured distributions."""
import copy
import math

import torch

from ..core import Fail, agree
from .c22 import Pool, Z

ME = "vf.checks.c24"
MIN_EVAL = 40


def build(case):
    d = case["dims"]
    gen = torch.Generator().manual_seed(case["seed"])
    acts = {"relu": torch.nn.ReLU, "tanh": torch.nn.Tanh, "sigmoid": torch.nn.Sigmoid, "none": torch.nn.Identity}
    layers = []
    for i, (a, b) in enumerate(zip(d[:-1], d[1:])):
        layers.append(torch.nn.Linear(a, b))
        if i < len(d) - 2:
            layers.append(acts[case["act"]]())
    m = torch.nn.Sequential(*layers)
    for p in m.parameters():
        p.data = (torch.rand(p.shape, generator=gen) * 2 - 1) * (1.2 / math.sqrt(p.shape[-1]))
    if case["frozen"]:
        m[0].weight.requires_grad_(False)
    return m


def plain_loss(p, y, alpha):
    if alpha is not None:
        p = alpha * p + (1 - alpha) * (1 - p)
    return -(y * p.log() + (1 - y) * (1 - p).log()).mean()


def run(case):
    import crypten
    import crypten.communicator as comm
    from crypten.config import cfg
    from crypten.mpc.mpc import MPCTensor
    from crypten.nn.privacy import DPSplitModel

    me = comm.get().get_rank()
    f, l = case["feature_src"], case["label_src"]
    out = {"steps": []}
    model = build(case) if me == f else None
    seen, watching = [], [False]
    orig = {n: getattr(MPCTensor, n) for n in ("get_plain_text", "reveal")}

    def hook(name):
        def wrapped(self, *a, **k):
            v = orig[name](self, *a, **k)
            if watching[0] and torch.is_tensor(v) and v.numel():
                seen.append(v.detach().double().clone())
            return v

        return wrapped

    for n in orig:
        setattr(MPCTensor, n, hook(n))
    try:
        with cfg.temp_override({"nn.dpsmpc.skip_loss_forward": case["skip"], "nn.dpsmpc.cache_pred_size": case["cache"], "nn.dpsmpc.protocol": case["protocol"]}):
            dp = DPSplitModel(model, f, l, noise_magnitude=case["noise"], noise_src=case["noise_src"], randomized_response_prob=case["rr"], rappor_prob=case["alpha"])
            opt = torch.optim.SGD(model.parameters(), lr=.3) if me == f else None
            for k, (x, y) in enumerate(zip(case["x"], case["y"])):
                rec = {}
                ref = copy.deepcopy(model)
                mine = y.clone() if me == l or case["share_y"] else torch.empty(y.shape)
                given = crypten.cryptensor(mine, src=l) if case["enc"] else mine
                before = mine.clone()
                if case["evalfirst"]:
                    dp.eval()
                    o = dp(x.clone() if me == f else None)
                    rec["eval"] = (o is None) if me != f else bool(torch.equal(o, ref(x)))
                    dp.train()
                watching[0] = True
                del seen[:]
                if me == f:
                    dp.zero_grad()
                logits = dp(x.clone() if me == f else None)
                if me == f:
                    rec["logits"] = float((logits.detach() - ref(x).detach()).abs().max()) if logits.shape == ref(x).shape else 99.
                else:
                    rec["logits"] = 0. if tuple(logits.shape) == tuple(y.shape) else 99.
                loss = dp.compute_loss(given)
                loss.backward() if case["viahloss"] else dp.backward()
                watching[0] = False
                rec["seen"] = list(seen)
                rec["label_kept"] = bool(torch.equal(mine, before)) or (me != l and not case["share_y"])
                if case["enc"]:
                    w = given.get_plain_text()
                    rec["label_kept"] = rec["label_kept"] and float((w - y).abs().max()) < 1e-3
                t = dp.targets_enc.get_plain_text().double()  # for the judge
                rec["targets"] = t
                rec["loss"] = None if case["skip"] else float(loss.get_plain_text())
                if me == f:
                    ref = ref.double()
                    ref.zero_grad()
                    lg = ref(x.double())
                    pl = plain_loss(lg.sigmoid(), t.round(), case["alpha"])
                    pl.backward()
                    rec["want_loss"] = float(pl)
                    rec["want"] = [None if p.grad is None else p.grad.clone() for p in ref.parameters()]
                    rec["grads"] = [None if p.grad is None else p.grad.clone() for p in model.parameters()]
                    a = x.double()
                    for m in list(ref.children())[:-1]:
                        a = m(a)
                    sv = torch.linalg.svdvals(a)
                    rec["last"] = a.detach()
                    rec["sigma"] = float(sv[-1]) if a.shape[0] <= a.shape[1] else 0.
                    rec["max_logit"] = float(lg.detach().abs().max())
                    if not case["noise"]:
                        opt.step()
                    dp.zero_grad()
                else:
                    rec["grads"] = [] if dp.model is None else ["model"]
                out["steps"].append(rec)
    finally:
        for n in orig:
            setattr(MPCTensor, n, orig[n])
    return out


def affine_of(v, t):
    """Is v an affine function of t (and t not constant)?"""
    v, t = v.flatten(), t.flatten().double()
    if v.numel() != t.numel() or v.numel() < 6 or float(t.std()) < .1 or float(v.std()) == 0:
        return False
    a, b = v - v.mean(), t - t.mean()
    return abs(float((a * b).sum() / (a.norm() * b.norm()))) > .999


def make_judge(pool):
    def judge(case, outs):
        d = {k: v for k, v in case.items() if k not in ("x", "y")}
        if case["protocol"] != "layer_estimation":
            if any(o[0] != "err" for o in outs):
                return Fail("protocol", "%s: outcomes %s" % (d, [o[:3] if o[0] != "ok" else "ok" for o in outs]))
            return None
        if any(o[0] != "ok" for o in outs):
            return Fail("raised", "%s: %s" % (d, [o[:3] if o[0] != "ok" else "ok" for o in outs]))
        f, l = case["feature_src"], case["label_src"]
        for k, y in enumerate(case["y"]):
            rs = [o[1]["steps"][k] for o in outs]
            w = "step %d of %s" % (k, d)
            for r, rec in enumerate(rs):
                if rec.get("eval") is False:
                    return Fail("eval", "%s: evaluation mode gave a wrong result at party %d" % (w, r))
                if rec["logits"] > 1e-6:
                    return Fail("logits", "%s: wrong logits at party %d" % (w, r))
                if not rec["label_kept"]:
                    return Fail("labels modified", "%s: the label owner's data changed (party %d)" % (w, r))
                if r != f:
                    if rec["grads"]:
                        return Fail("gradient holder", "%s: party %d holds the model" % (w, r))
                    if rec["seen"]:
                        return Fail("decrypted", "%s: party %d, which does not own the model, decrypted %d tensors of sizes %s" % (w, r, len(rec["seen"]), [tuple(v.shape) for v in rec["seen"]]))
            me = rs[f]
            t = me["targets"]
            if any(not torch.equal(rec["targets"], t) for rec in rs):
                return Fail("targets", "%s: parties disagree on the encrypted labels" % w)
            flips = (t - y.double()).abs()
            if tuple(t.shape) != tuple(y.shape) or bool(((flips > 1e-3) & ((flips - 1).abs() > 1e-3)).any()) or bool(((t < -.1) | (t > 1.1)).any()):
                return Fail("targets", "%s: encrypted labels %s for labels %s" % (w, t.flatten()[:8].tolist(), y.flatten()[:8].tolist()))
            flips = flips.round()
            if case["rr"] is None:
                if float(flips.sum()):
                    return Fail("flipped", "%s: labels were flipped without randomised response" % w)
            else:
                pool.add(("flips", case["rr"], case["enc"]), (flips.flatten(), y.double().flatten()))
            for v in me["seen"]:
                # the owner of the model may only see aggregates
                if affine_of(v, t) or affine_of(v, y):
                    return Fail("label leak", "%s: the owner of the model decrypted a tensor that determines the labels" % w)
            if me["loss"] is not None:
                for rec in rs:
                    if rec["loss"] != me["loss"]:
                        return Fail("loss", "%s: parties disagree on the loss" % w)
                if me["max_logit"] < 4 and abs(me["loss"] - me["want_loss"]) > .12 + .12 * abs(me["want_loss"]):
                    return Fail("loss", "%s: loss %.4f instead of %.4f" % (w, me["loss"], me["want_loss"]))
            B, k_out = y.shape
            eps = (B + 8) * 2.**-15 * (1 + float(me["last"].abs().max()))
            if case["alpha"] is not None:
                eps *= 4
            g, want = me["grads"], me["want"]
            if [q is None for q in g] != [q is None for q in want]:
                return Fail("which", "%s: gradients exist for parameters %s instead of %s" % (w, [q is not None for q in g], [q is not None for q in want]))
            if any(q is not None and q.shape != v.shape for q, v in zip(g, want)):
                return Fail("shape", "%s: gradient shapes" % w)
            res = (g[-2].double() - want[-2])
            noise = case["noise"] or 0.
            # the gradient of the last weight is decrypted, as it is when the inputs of the last layer determine it
            sv = torch.linalg.svdvals(me["last"])
            if me["sigma"] > .05 or float(sv[-1]) > 1e-3 * float(sv[0]):
                if noise and B < me["last"].shape[1]:
                    # only the part of the noise within the span of the last layer's inputs survives; compare that part
                    q = torch.linalg.qr(me["last"].t())[0]
                    part = res @ q
                    pool.add(("noise", case["noise_src"] is not None, case["cfg"]), (part / noise).flatten())
                    pool.add(("noise", "of magnitude", noise), (part / noise).flatten())
                    if float(part.abs().max()) > noise * 6.5 + eps:
                        return Fail("noise", "%s: noise of %.3f in the gradient, configured magnitude %s" % (w, float(part.abs().max()), noise))
                elif noise:
                    pool.add(("noise", case["noise_src"] is not None, case["cfg"]), (res / noise).flatten())
                    pool.add(("noise", "of magnitude", noise), (res / noise).flatten())
                    if k_out > 1:
                        pool.add(("rows", case["noise_src"] is not None), ((res[:-1] / noise).flatten(), (res[1:] / noise).flatten()))
                    if float(res.abs().max()) > noise * 6.5 + eps:
                        return Fail("noise", "%s: noise of %.3f in the gradient, configured magnitude %s" % (w, float(res.abs().max()), noise))
                elif float(res.abs().max()) > eps:
                    return Fail("last weight", "%s: gradient of the last weight is off by %.5f (allowed %.5f)" % (w, float(res.abs().max()), eps))
            if me["sigma"] > .05:
                amp = eps * B / me["sigma"] * 3
                if not noise:
                    for i, (a, b) in enumerate(zip(g, want)):
                        if a is None:
                            continue
                        e = float((a.double() - b).abs().max())
                        if e > amp * (1 + float(case["x"][k].abs().max())):
                            return Fail("gradient", "%s: gradient of parameter %d is off by %.5f (allowed %.5f)" % (w, i, e, amp * (1 + float(case["x"][k].abs().max()))))
                    pool.ctx.count("exact_gradients")
            pool.ctx.count("steps")
        return None

    return judge


def tests(ctx, pool):
    n_tests = 0

    def verdict(name, ok, msg):
        nonlocal n_tests
        n_tests += 1
        if not ok:
            ctx.violation(Fail("stat:" + name, msg), "pooled observations", {"pooled": name})

    merged = {}
    for key, vs in pool.d.items():
        merged.setdefault(key, []).extend(vs)
        if key[0] == "rows":
            a, b = torch.cat([p for p, _ in vs]), torch.cat([q for _, q in vs])
            z = float((a * b).mean()) * math.sqrt(len(a))
            verdict("rows", len(a) < 200 or abs(z) < Z + .005 * math.sqrt(len(a)), "noise (source %s) of different rows of a gradient is correlated (%.1f)" % (key[1], z))
            del merged[key]
        elif key[0] == "noise":
            if key[1] != "of magnitude":
                merged.setdefault(("noise", key[1]), []).extend(vs)
                merged.setdefault(("noise", "all"), []).extend(vs)
        else:
            merged.setdefault(("flips", key[1]), []).extend(vs)
    for key, vs in merged.items():
        name = " ".join(map(str, key))
        if key[0] == "noise":
            v = torch.cat(vs)
            n = len(v)
            if n < 60:
                continue
            verdict(name + " mean", abs(float(v.mean())) < .02 + Z / math.sqrt(n), "%s: mean %.3f over %d" % (name, float(v.mean()), n))
            verdict(name + " variance", abs(float(v.var()) - 1) < .06 + Z * math.sqrt(2.4 / n), "%s: variance %.3f over %d samples" % (name, float(v.var()), n))
            for lag in (1, 2):
                a, b = v[:-lag], v[lag:]
                z = float((a * b).mean()) * math.sqrt(len(a))
                verdict(name + " lag %d" % lag, abs(z) < Z + .05 * math.sqrt(len(a)) * .1, "%s: neighbours are correlated (%.1f)" % (name, z))
            same = [(a, b) for a, b in zip(vs, vs[1:]) if len(a) == len(b) and len(a) >= 4]
            if same:
                a, b = torch.cat([p for p, _ in same]), torch.cat([q for _, q in same])
                z = float((a * b).mean()) * math.sqrt(len(a))
                verdict(name + " steps", abs(z) < Z, "%s: noise of successive steps is correlated (%.1f)" % (name, z))
            s = v.sort().values
            cdf = .5 * (1 + torch.erf(s / 2**.5))
            i = torch.arange(n).double()
            ks = max(float((cdf - i / n).abs().max()), float((cdf - (i + 1) / n).abs().max()))
            verdict(name + " normal", ks < .03 + 3.3 / math.sqrt(n), "%s: %d values are not normal: distance %.3f" % (name, n, ks))
            ctx.count("noise_samples", n) if key[1] == "all" else None
        else:
            p = key[1]
            fl, y = torch.cat([a for a, _ in vs]), torch.cat([b for _, b in vs])
            for lab, m in (("", y >= 0), (" of 0", y == 0), (" of 1", y == 1)):
                n = int(m.sum())
                if n * p * (1 - p) < 8:
                    continue
                z = (float(fl[m].sum()) - n * p) / math.sqrt(n * p * (1 - p))
                verdict(name + lab, abs(z) < 7.5, "%s%s: %.4f of %d labels were flipped (score %.1f)" % (name, lab, float(fl[m].mean()), n, z))
            a, b = fl[:-1] - p, fl[1:] - p
            z = float((a * b).mean()) / (p * (1 - p)) * math.sqrt(len(a))
            verdict(name + " neighbours", len(a) < 500 or abs(z) < 8, "%s: flips of neighbouring labels are correlated (%.1f)" % (name, z))
            same = [(a - p, b - p) for (a, _), (b, _) in zip(vs, vs[1:]) if len(a) == len(b) and len(a) >= 8]
            if same:
                a, b = torch.cat([q for q, _ in same]), torch.cat([q for _, q in same])
                z = float((a * b).mean()) / (p * (1 - p)) * math.sqrt(len(a))
                verdict(name + " steps", len(a) < 500 or abs(z) < 8, "%s: the same labels were flipped in two steps (%.1f)" % (name, z))
            ctx.count("flips", len(fl)) if len(key) == 2 else None
    ctx.count("statistical_tests", n_tests)


def one(r, ws, label, **over):
    f = r.randrange(ws)
    l = r.choice([q for q in range(ws) if q != f]) if r.random() < .9 else f
    k = r.choice([1, 1, 2, 3])
    mode = r.choice(["small", "small", "large"])
    hid = r.choice([4, 6, 9, 12])
    dims = r.choice([[5, hid, k], [hid, k], [4, 6, hid, k], [3, hid, k]])
    inn = dims[-2]
    B = r.randrange(1, min(inn, 7)) if mode == "small" else inn + r.randrange(0, 20)
    steps = r.choice([1, 2, 3])
    g = torch.Generator().manual_seed(r.randrange(2**31))
    cache = r.random() < .5
    xs, ys = [], []
    for s in range(steps):
        b = B if cache else max(1, B + r.choice([0, 0, 1, -1]))
        xs.append((torch.rand(b, dims[0], generator=g) * 4 - 2))
        ys.append(torch.randint(0, 2, (b, k), generator=g).float())
    c = {"dims": dims, "seed": r.randrange(2**31), "act": r.choice(["relu", "tanh", "sigmoid", "tanh"]), "frozen": len(dims) > 2 and r.random() < .15, "x": xs, "y": ys,
         "feature_src": f, "label_src": l, "noise": r.choice([None, None, 0.0, .5, 2., .1]), "noise_src": r.choice([None, r.randrange(ws), 0]), "rr": r.choice([None, None, .1, .3, .45]),
         "alpha": r.choice([None, None, .8, .6, 1.0, .1]), "skip": r.random() < .7, "cache": cache, "protocol": "layer_estimation", "enc": r.random() < .4, "share_y": r.random() < .3,
         "evalfirst": r.random() < .3, "viahloss": r.random() < .4, "cfg": label}
    c.update(over)
    return c


def gen(r, ws, label, n):
    out = [one(r, ws, label) for _ in range(n)]
    # many labels and many gradient entries for the statistics
    for enc in (False, True):
        for p in (.1, .4):
            c = one(r, ws, label, rr=p, enc=enc, noise=None, cache=True, skip=True)
            g = torch.Generator().manual_seed(r.randrange(2**31))
            c["dims"] = c["dims"][:-1] + [2]
            c["x"] = [torch.rand(700, c["dims"][0], generator=g) * 2 - 1 for _ in range(2)]
            c["y"] = [torch.randint(0, 2, (700, 2), generator=g).float() for _ in range(2)]
            out.append(c)
    for src in (None, r.randrange(ws), 0, ws - 1):
        c = one(r, ws, label, noise=r.choice([.3, 1., 4.]), noise_src=src, rr=None, cache=True, skip=True)
        g = torch.Generator().manual_seed(r.randrange(2**31))
        c["dims"], c["frozen"] = [3, 40, 12], False
        c["x"] = [torch.rand(30, 3, generator=g) * 4 - 2 for _ in range(3)]
        c["x"] = [torch.rand(60, 3, generator=g) * 4 - 2 for _ in range(3)]
        c["y"] = [torch.randint(0, 2, (60, 12), generator=g).float() for _ in range(3)]
        c["act"] = "relu"
        out.append(c)
    out.append(one(r, ws, label, protocol="unknown", skip=True))
    out.append(one(r, ws, label, protocol="full_jacobian", skip=True, noise=None, frozen=False))
    r.shuffle(out)
    return out


def check(ctx):
    ctx.rule = ("A case trains a random model of one party for one to three steps on random batches against another party's labels, over noise magnitude and source, randomised response on plaintext or encrypted labels, RAPPOR correction, loss forward, caching and evaluation mode in between. "
                "Gradients are compared with those of the stated loss for the labels actually used; tensors that any party decrypts are recorded; noise and flips are tested when pooled.")
    ctx.assumptions = ["all parameter gradients are compared when the inputs of the last layer have full row rank (the protocol estimates otherwise); then the gradient of the last layer is compared", "the last layer is a linear layer with bias, which the protocol requires"]
    pool = Pool(ctx)
    judge = make_judge(pool)
    jobs = []
    for n, (ws, cfg, m, opts) in enumerate([(2, None, 40, {}), (3, None, 30, {}), (2, {"mpc.provider": "TTP"}, 20, {}), (4, None, 6, {}), (3, {"mpc.provider": "TTP"}, 8, {"delay": .0005}), (2, None, 20, {"real_urandom": True, "torch_seed": 11})]):
        lab = "%dPC%s-%d" % (ws, "".join("-" + v for v in (cfg or {}).values()), n)
        cs = gen(ctx.rng(lab), ws, lab, ctx.n(m, m * 12))
        jobs.append(dict(label=lab, ws=ws, cfg=cfg, cases=cs, mod=ME, fn="run", judge=judge, opts=opts, sig=lambda c: str({k: v for k, v in c.items() if k not in "xy"})))
    ctx.drive(jobs, reruns=3, parallel=4)
    tests(ctx, pool)
