"""A message-passing stand-in for MPI: every rank is a forked process, a hub in the parent serves the collectives and checks
that all ranks enter the same ones in the same order."""
import multiprocessing as mp
import os
import pickle
import signal
import time
import traceback

import numpy as np

_ctx = mp.get_context("fork")


class Comm:
    def __init__(self, rank, size, pipe):
        self.rank, self.size, self._pipe = rank, size, pipe

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _call(self, op, data=None, root=0):
        self._pipe.send(("coll", op, root, data))
        return self._pipe.recv()

    def _red(self, data):
        return data.copy() if isinstance(data, np.ndarray) else data

    def allreduce(self, x, op=None, root=0):
        return self._call("allreduce", self._red(x))

    def Allreduce(self, x, out, op=None, root=0):
        out[...] = self._call("allreduce", np.array(x))

    def Reduce(self, x, out, op=None, root=0):
        r = self._call("allreduce", np.array(x))
        if self.rank == root:
            out[...] = r

    def reduce(self, x, op=None, root=0):
        r = self._call("allreduce", self._red(x))
        return r if self.rank == root else None

    def allgather(self, x):
        return self._call("allgather", x)

    def gather(self, x, root=0):
        r = self._call("allgather", x)
        return r if self.rank == root else None

    def bcast(self, x=None, root=0):
        return self._call("allgather", x if self.rank == root else None)[root]

    def Bcast(self, x, root=0):
        r = self._call("allgather", np.array(x) if self.rank == root else None)[root]
        x[...] = r

    def Barrier(self):
        self._call("barrier")

    barrier = Barrier

    def scatter(self, x, root=0):
        return self._call("allgather", list(x) if self.rank == root else None)[root][self.rank]

    def Scatterv(self, send, recv, root=0):
        buf, counts, displs = send[0], send[1], send[2]
        full = self._call("allgather", np.array(buf).ravel() if self.rank == root else None)[root]
        recv[...] = full[displs[self.rank]: displs[self.rank] + counts[self.rank]].reshape(recv.shape)

    def Gatherv(self, send, recv, root=0):
        parts = self._call("allgather", np.array(send).ravel())
        if self.rank == root:
            out, counts, displs = recv[0], recv[1], recv[2]
            flat = out.reshape(-1)
            for r, p in enumerate(parts):
                if len(p) != counts[r]:
                    raise ValueError("Gatherv count mismatch")
                flat[displs[r]: displs[r] + counts[r]] = p

    def Split(self, color=0, key=0):
        return self


def run(size, fn, timeout=240):
    """fn(rank, size) in every rank -> (results, trace); raises Mismatch / RankError"""
    pipes, procs = [], []
    for r in range(size):
        a, b = _ctx.Pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                a.close()
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(timeout)
                import openms.__mpi__ as om

                om.MPI.COMM_WORLD = Comm(r, size, b)
                try:
                    out = ("done", fn(r, size))
                except BaseException as e:
                    out = ("error", f"{type(e).__name__}: {e}", traceback.format_exc())
                b.send(out)
                code = 0
            finally:
                os._exit(code)
        b.close()
        pipes.append(a)
        procs.append(pid)
    results, trace = [None] * size, []
    err = None
    t0 = time.time()
    try:
        active = set(range(size))
        while active and err is None:
            msgs = {}
            for r in sorted(active):
                if not pipes[r].poll(max(0.0, timeout - (time.time() - t0))):
                    err = ("timeout", f"rank {r} did not answer", "")
                    break
                try:
                    msgs[r] = pipes[r].recv()
                except EOFError:
                    err = ("timeout", f"rank {r} ended", "")
                    break
            if err:
                break
            bad = [m for m in msgs.values() if m[0] == "error"]
            if bad:
                err = ("error",) + tuple(bad[0][1:])
                break
            kinds = {(m[0],) if m[0] == "done" else ("coll", m[1], m[2]) for m in msgs.values()}
            if len(kinds) > 1:
                err = ("mismatch", f"ranks meet in different collectives: {sorted(map(str, kinds))}", "")
                break
            kind = next(iter(kinds))
            if kind[0] == "done":
                for r in active:
                    results[r] = msgs[r][1]
                break
            data = [msgs[r][3] for r in range(size)]
            trace.append(kind[1])
            if kind[1] == "allreduce":
                tot = data[0]
                for d in data[1:]:
                    tot = tot + d
                out = tot
            elif kind[1] == "allgather":
                out = data
            else:
                out = None
            for r in range(size):
                pipes[r].send(out)
    finally:
        for p in procs:
            try:
                os.kill(p, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for p in procs:
            try:
                os.waitpid(p, 0)
            except ChildProcessError:
                pass
        for a in pipes:
            a.close()
    return results, trace, err
