"""Groups of real gloo parties, one process each, driven over pipes from the check process."""
import importlib
import multiprocessing
import os
import pickle
import random
import shutil
import signal
import tempfile
import time
import traceback

_CTX = None


def ctx():
    global _CTX
    if _CTX is None:
        _CTX = multiprocessing.get_context("forkserver")
        _CTX.set_forkserver_preload(["vf.preload"])
    return _CTX


SETTLE = 12.0  # seconds without any progress before a blocked state is believed
HARD = 400.0


class Inconclusive(Exception):
    pass


def _seeded_urandom(seed):
    r = random.Random(seed)
    return lambda n: r.getrandbits(8 * n).to_bytes(n, "big") if n else b""


def _child(conn, progress, rank, world_size, rdv, opts):
    """Body of one party (rank < world_size) or of the trusted third party (rank == world_size)."""
    os.setpgrp()
    from . import preload  # noqa
    from . import instrument
    import torch

    instrument.STATE["progress"] = progress
    instrument.STATE["base"] = 2 * rank
    seed = opts["seed"]
    if not opts.get("real_urandom"):
        os.urandom = _seeded_urandom("%s/%s/urandom" % (seed, rank))
        torch.manual_seed(random.Random("%s/%s/torch" % (seed, rank)).getrandbits(62))
    random.seed("%s/%s/py" % (seed, rank))
    if opts.get("torch_seed") is not None:  # what an application might do before starting
        import numpy

        torch.manual_seed(opts["torch_seed"])
        random.seed(opts["torch_seed"])
        numpy.random.seed(opts["torch_seed"])
    import crypten
    import crypten.communicator as comm
    from crypten.config import cfg

    for k, v in opts.get("cfg", {}).items():
        _cfg_set(cfg, k, v)
    os.environ.update(
        {"WORLD_SIZE": str(world_size), "RANK": str(rank), "RENDEZVOUS": "file://" + rdv,
         "DISTRIBUTED_BACKEND": "gloo"}
    )
    if opts.get("delay"):
        instrument.set_delay("%s/%s/delay" % (seed, rank), opts["delay"])
    dn = os.open(os.devnull, os.O_WRONLY)
    if not opts.get("keep_output"):
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    try:
        if rank == world_size:
            from crypten.mpc import provider

            provider.TTPServer()
            os._exit(0)
        if not opts.get("no_init"):
            crypten.init()
        conn.send_bytes(pickle.dumps(("ok", None)))
    except BaseException as e:  # noqa
        try:
            conn.send_bytes(pickle.dumps(("err", type(e).__name__, str(e)[:500], traceback.format_exc())))
        except Exception:
            pass
        os._exit(3)
    while True:
        try:
            msg = pickle.loads(conn.recv_bytes())
        except EOFError:
            os._exit(0)
        if msg is None:
            os._exit(0)
        mod, fn, args, kwargs = msg
        try:
            f = getattr(importlib.import_module(mod), fn)
            out = ("ok", f(*args, **kwargs))
            data = pickle.dumps(out)
        except SystemExit:
            raise
        except BaseException as e:  # noqa
            data = pickle.dumps(("err", type(e).__name__, str(e)[:500], traceback.format_exc()[-3000:]))
        conn.send_bytes(data)


def _cfg_set(cfg, key, value):
    cur = cfg
    parts = key.split(".")
    for p in parts[:-1]:
        cur = getattr(cur, p)
    setattr(cur, parts[-1], value)


class Group:
    """world_size parties (plus a trusted third party when the provider is TTP)."""

    _n = 0

    def __init__(self, world_size, seed, cfg=None, label="", **opts):
        self.ws = world_size
        self.cfg = dict(cfg or {})
        self.opts = opts
        self.seed = seed
        self.label = label
        self.restarts = 0
        self.events = 0
        self.procs = []
        self.dir = None
        self._start()

    @property
    def ttp(self):
        return self.cfg.get("mpc.provider") == "TTP"

    def _start(self):
        c = ctx()
        self.dir = tempfile.mkdtemp(prefix="vfgrp-")
        n = self.ws + (1 if self.ttp else 0)
        self.progress = c.RawArray("q", 2 * n)
        self.procs, self.conns = [], []
        opts = dict(self.opts, seed="%s/%s/%d" % (self.seed, self.label, self.restarts), cfg=self.cfg)
        for r in range(n):
            a, b = c.Pipe()
            p = c.Process(target=_child, args=(b, self.progress, r, self.ws, self.dir + "/rdv", opts), daemon=True)
            p.start()
            b.close()
            self.procs.append(p)
            self.conns.append(a)
        outs = self._collect(self.ws)
        bad = [o for o in outs if o[0] != "ok"]
        if bad:
            self.kill()
            raise InitFailure(outs)

    def _blocked(self, r):
        return self.progress[2 * r] > self.progress[2 * r + 1]

    def _collect(self, n):
        """Collects one reply per party.  A party still silent is declared blocked only when every
        silent process (third party included) sits inside a communication primitive and nothing has
        moved for SETTLE seconds; silence without that is never a verdict."""
        from multiprocessing.connection import wait

        outs = [None] * n
        pending = set(range(n))
        t0 = last_t = time.monotonic()
        snap = None
        while pending:
            ready = wait([self.conns[r] for r in pending], timeout=0.5)
            for r in list(pending):
                if self.conns[r] in ready:
                    try:
                        outs[r] = pickle.loads(self.conns[r].recv_bytes())
                    except (EOFError, ConnectionResetError, OSError):
                        self.procs[r].join(1)
                        outs[r] = ("dead", self.procs[r].exitcode)
                    pending.discard(r)
            now = time.monotonic()
            cur = (tuple(self.progress), len(pending))
            if cur != snap:
                snap, last_t = cur, now
            elif now - last_t > (4.0 if any(o is not None and o[0] != "ok" for o in outs) else SETTLE):
                silent = list(pending) + list(range(n, len(self.procs)))
                if all(self._blocked(r) or not self.procs[r].is_alive() for r in silent):
                    for r in pending:
                        outs[r] = ("blocked", int(self.progress[2 * r]))
                    pending = set()
            if now - t0 > HARD:
                self.kill()
                raise Inconclusive("no verdict: party silent without being blocked (%s)" % self.label)
        return outs

    def call(self, mod, fn, *args, **kwargs):
        """Runs mod.fn(*args) on all parties; returns one outcome per party."""
        return self.call_each(mod, fn, [(args, kwargs)] * self.ws)

    def call_each(self, mod, fn, per_rank):
        for r in range(self.ws):
            a, k = per_rank[r]
            try:
                self.conns[r].send_bytes(pickle.dumps((mod, fn, a, k)))
            except (BrokenPipeError, OSError):
                pass
        outs = self._collect(self.ws)
        self.events += 1
        if any(o[0] in ("blocked", "dead") for o in outs):
            self.restart()
        return outs

    def comm_events(self):
        return int(sum(self.progress[2 * r + 1] for r in range(self.ws)))

    def restart(self):
        self._carry = getattr(self, "_carry", 0) + self.comm_events()
        self.kill()
        self.restarts += 1
        self._start()

    def total_events(self):
        return getattr(self, "_carry", 0) + self.comm_events()

    def kill(self):
        for p in self.procs:
            try:
                if p.is_alive():
                    os.kill(p.pid, signal.SIGKILL)
            except Exception:
                pass
        for p in self.procs:
            p.join(5)
        for c in self.conns:
            try:
                c.close()
            except Exception:
                pass
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
        self.procs, self.dir = [], None

    close = kill

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.kill()


class InitFailure(Exception):
    def __init__(self, outs):
        super().__init__(str(outs)[:2000])
        self.outs = outs
