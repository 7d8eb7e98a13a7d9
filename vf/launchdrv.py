"""Body of the driver processes of C26: launches parties through crypten.mpc.run_multiprocess and through repeated
crypten.init()/uninit().  main(directory) reads case.pkl, appends to results.pkl."""
import gc
import multiprocessing
import os
import pickle
import signal
import sys
import time

_torch = None


def build(spec, rank):
    """The value a party returns."""
    import numpy
    import torch

    k = spec[0]
    if k == "int":
        return spec[1] + rank
    if k == "none":
        return None
    if k == "bytes":
        return bytes([rank + 1]) * spec[1]
    if k == "str":
        return ("p%d" % rank) * spec[1]
    if k == "tensor":
        g = torch.Generator()
        g.manual_seed(spec[3] + rank)
        t = torch.rand(spec[1], generator=g) * 100
        return t.to(getattr(torch, spec[2]))
    if k == "view":
        return torch.arange(24).view(4, 6).t()[1:4] + rank
    if k == "param":
        return torch.nn.Parameter(torch.full((3,), float(rank)))
    if k == "numpy":
        return numpy.arange(spec[1]) * (rank + 1)
    if k == "nest":
        return {"rank": rank, "l": [build(s, rank) for s in spec[1]], "t": tuple(build(s, rank) for s in spec[1])}
    if k == "some":
        return build(spec[1], rank) if rank in spec[2] else None
    if k == "exc":
        return ValueError("returned, not raised", rank)
    if k == "list":
        return [build(s, rank) for s in spec[1]]
    if k == "rev":  # larger for low ranks, so that high ranks finish first
        return b"r" * (spec[1] // (1 + rank)) + bytes([rank])
    raise KeyError(k)


def gens():
    import crypten
    import torch

    out = {}
    for name in ("prev", "next", "local", "global"):
        g = crypten.generators[name][torch.device("cpu")]
        out[name] = torch.randint(-(2**62), 2**62, (2,), generator=g).tolist()
    return out


def compute(seed):
    import crypten
    import crypten.communicator as comm
    import torch

    x = crypten.cryptensor(torch.tensor([1.5, -2.0, float(seed)]), src=0)
    y = crypten.cryptensor(torch.tensor([2.0, 0.25, -1.0]), src=comm.get().get_world_size() - 1)
    r = (x * y + 1).get_plain_text()
    c = (x < y).get_plain_text()
    return r.tolist(), c.tolist(), comm.get().get_rank(), comm.get().get_world_size()


def party(run, mark):
    """What a launched party executes."""
    import crypten.communicator as comm

    rank = comm.get().get_rank()
    if run.get("sleep"):
        time.sleep(run["sleep"][rank % len(run["sleep"])])
    out = {"mark": mark}
    if run.get("compute"):
        out["c"] = compute(run["n"])
    if run.get("gens"):
        out["g"] = gens()
    fail = run.get("fail")
    if fail and rank in fail["who"]:
        h = fail["how"]
        if h == "raise":
            raise ValueError("party %d fails" % rank)
        if h == "exit1":
            os._exit(1)
        if h == "sysexit":
            sys.exit(3)
        if h == "sysexit0":
            sys.exit(0)
        if h == "exit0":
            os._exit(0)
        if h == "kill":
            os.kill(os.getpid(), signal.SIGKILL)
        if h == "late":  # fails once its value is on the way
            from multiprocessing import util

            util.Finalize(None, os._exit, args=(3,), exitpriority=-100)
        if h == "latekill":
            from multiprocessing import util

            util.Finalize(None, os.kill, args=(os.getpid(), signal.SIGKILL), exitpriority=-100)
        if h == "unpicklable":
            return lambda: rank
    if fail and fail.get("together"):
        compute(0)
    if run.get("late"):
        out["c2"] = compute(1)
    out["v"] = build(run["value"], rank)
    return out


def tame():
    """gloo may abort when its threads are torn down while peers still talk; leave them a moment."""
    import torch.distributed as dist

    orig = dist.destroy_process_group

    def destroy(*a, **k):
        gc.collect()
        if not a and not k:
            time.sleep(0.25)
        return orig(*a, **k)

    dist.destroy_process_group = destroy


def do_launches(case, emit):
    import crypten
    import crypten.mpc
    import torch
    from crypten.config import cfg

    if case.get("seed") is not None:
        import random

        torch.manual_seed(case["seed"])
        random.seed(case["seed"])
    if case.get("parent_init"):
        for k in ("RANK", "WORLD_SIZE", "RENDEZVOUS"):
            os.environ.pop(k, None)
        crypten.init()
    env0 = {k: os.environ.get(k) for k in ("RANK", "WORLD_SIZE", "RENDEZVOUS")}
    for n, run in enumerate(case["runs"]):
        run = dict(run, n=n)
        cfg.mpc.provider = run.get("provider", "TFP")
        t0 = time.time()
        deco = crypten.mpc.run_multiprocess(world_size=run["ws"], **({"maxsize": run["maxsize"]} if run.get("maxsize") else {}))
        f = deco(party)
        mark = ("m", n, list(range(n)))
        err = None
        try:
            res = f(run, mark=mark) if n % 2 else f(run=run, mark=mark)
        except Exception as e:  # noqa
            res, err = None, repr(e)[:300]
        cfg.mpc.provider = "TFP"
        out = {"n": n, "res": res, "err": err, "time": time.time() - t0, "name": f.__name__}
        out["env"] = {k: os.environ.get(k) for k in env0} == env0
        if case.get("parent_init"):
            out["parent"] = crypten.is_initialized() and compute(5)
        elif not case.get("parent_init"):
            out["parent_clean"] = not crypten.is_initialized()
        emit(out)


def single_history(case, emit):
    """init/uninit in one process with the default environment."""
    import warnings

    import crypten
    import crypten.communicator as comm

    if case.get("seed") is not None:
        import torch

        torch.manual_seed(case["seed"])
    for k in ("RANK", "WORLD_SIZE", "RENDEZVOUS"):
        os.environ.pop(k, None)
    for n, g in enumerate(case["gens"]):
        out = {"n": n}
        try:
            out["before"] = crypten.is_initialized()
            crypten.init(**({"party_name": g["name"]} if g.get("name") else {}))
            out["name"] = comm.get().get_name()
            out["g"] = gens()
            out["c"] = compute(n)
            if g.get("twice"):
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    crypten.init()
                out["warned"] = len(w)
                out["g2"] = gens()
            crypten.uninit()
            out["after"] = crypten.is_initialized()
            try:
                comm.get()
                out["get"] = "returned"
            except RuntimeError:
                out["get"] = "refused"
        except Exception as e:  # noqa
            out["err"] = repr(e)[:300]
        emit(out)
        if out.get("err"):
            return


def hist_party(rank, case, d, bar, conn):
    """One of ws parties (or the third-party process, rank == ws) through all generations."""
    import crypten
    import crypten.communicator as comm
    import torch
    from crypten.config import cfg

    ws = case["ws"]
    if case.get("seed") is not None:
        torch.manual_seed(case["seed"])
    for n, g in enumerate(case["gens"]):
        out = {"n": n}
        try:
            for k, v in {"WORLD_SIZE": ws, "RANK": rank, "RENDEZVOUS": "file://%s/rdv%d" % (d, n), "DISTRIBUTED_BACKEND": "gloo"}.items():
                os.environ[k] = str(v)
            ttp = g["provider"] == "TTP"
            cfg.mpc.provider = g["provider"]
            bar.wait(60)
            if rank == ws:
                if ttp:
                    from crypten.mpc import provider

                    crypten.init()
                    provider.TTPServer()
                    if crypten.is_initialized():
                        crypten.uninit()
            else:
                crypten.init(**({"party_name": g["name"] % rank} if g.get("name") else {}))
                out["name"] = comm.get().get_name()
                out["stats"] = dict(comm.get().get_communication_stats()) if g.get("stats") else None
                out["g"] = gens()
                if g.get("delay"):
                    time.sleep(g["delay"][rank % len(g["delay"])])
                for _ in range(g.get("work", 1)):
                    out["c"] = compute(n)
                if g.get("error"):  # a failing operation just before the end
                    try:
                        crypten.cryptensor(torch.ones(2)).matmul(crypten.cryptensor(torch.ones(3)))
                    except Exception:  # noqa
                        pass
                if g.get("stat_on"):
                    cfg.communicator.verbose = True
                out["r"] = crypten.rand(3).get_plain_text().tolist()
                bar2 = comm.get().barrier()
                crypten.uninit()
                cfg.communicator.verbose = False
                out["after"] = crypten.is_initialized()
        except Exception as e:  # noqa
            import traceback

            out["err"] = traceback.format_exc()[-700:]
        conn.send(out)
        if out.get("err"):
            os._exit(1)
    conn.send("done")
    time.sleep(0.3)
    os._exit(0)


def multi_history(case, emit, d):
    n = case["ws"] + 1
    bar = multiprocessing.Barrier(n)
    ps = []
    for r in range(n):
        a, b = multiprocessing.Pipe()
        p = multiprocessing.Process(target=hist_party, args=(r, case, d, bar, b))
        p.start()
        b.close()
        ps.append((p, a))
    for k in range(len(case["gens"]) + 1):
        rows = []
        for p, a in ps:
            try:
                rows.append(a.recv())
            except EOFError:
                rows.append({"err": "process ended"})
        emit(rows)
        if any(isinstance(x, dict) and x.get("err") for x in rows):
            break
    for p, a in ps:
        p.join(5)
        if p.is_alive():
            p.kill()


def main(d):
    os.chdir(d)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    case = pickle.load(open("case.pkl", "rb"))
    out = open("results.pkl", "ab")

    def emit(x):
        out.write(pickle.dumps(x))
        out.flush()

    import crypten  # noqa

    tame()
    {"launch": lambda: do_launches(case, emit), "single": lambda: single_history(case, emit), "multi": lambda: multi_history(case, emit, d)}[case["kind"]]()
    emit("end")

