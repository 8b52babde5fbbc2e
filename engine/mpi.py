"""A communicator for running the same code as several ranks in one process.

Ranks are threads of which exactly one runs at a time; a rank runs until it enters a collective operation, and the
operation is carried out when all ranks have entered it.  Buffers are combined in memory order, as MPI does."""
import sys
import threading

import numpy as np


class Deadlock(Exception):
    pass


class _Kill(BaseException):
    pass


def raw(x):
    """One-dimensional view of the memory of a contiguous buffer."""
    if not isinstance(x, np.ndarray):
        raise TypeError("buffer expected")
    b = x.view(np.ndarray)
    if b.flags.c_contiguous:
        return b.reshape(-1)
    if b.flags.f_contiguous:
        return b.T.reshape(-1)
    raise ValueError("ndarray is not contiguous")


def clone(x):
    return x.copy() if isinstance(x, np.ndarray) else x


class Comm:
    def __init__(self, w):
        self.w = w

    def Get_rank(self):
        return self.w.current

    def Get_size(self):
        return self.w.size
    rank = property(Get_rank)
    size = property(Get_size)

    def _op(self, kind, *a):
        return self.w.enter(kind, a)

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        self._op("Reduce", sendbuf, recvbuf, op, root)

    def Allreduce(self, sendbuf, recvbuf, op=None):
        self._op("Allreduce", sendbuf, recvbuf, op, None)

    def Bcast(self, buf, root=0):
        self._op("Bcast", buf, None, None, root)

    def Barrier(self):
        self._op("Barrier", None, None, None, None)
    barrier = Barrier

    def allreduce(self, x, op=None):
        return self._op("allreduce", x, None, op, None)

    def reduce(self, x, op=None, root=0):
        return self._op("reduce", x, None, op, root)

    def bcast(self, x, root=0):
        return self._op("bcast", x, None, None, root)


class MPIStub:
    SUM = "MPI.SUM"
    IN_PLACE = "MPI.IN_PLACE"

    def __init__(self, w):
        self.COMM_WORLD = Comm(w)


class World:
    def __init__(self, size):
        self.size, self.current = size, 0
        self.sem = [threading.Semaphore(0) for _ in range(size)]
        self.done = [False] * size
        self.post = [None] * size
        self.out = [None] * size
        self.exc = None
        self.kill = False
        self.ops = []
        self.main = threading.Semaphore(0)

    def run(self, fn):
        prof = sys.getprofile()
        res = [None] * self.size

        def body(r):
            self.sem[r].acquire()
            if prof is not None:
                sys.setprofile(prof)
            try:
                if not self.kill:
                    res[r] = fn(r)
            except _Kill:
                pass
            except BaseException as e:
                if self.exc is None:
                    self.exc = e
                self.kill = True
            self.done[r] = True
            sys.setprofile(None)
            self.step(r)
        ts = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(self.size)]
        for t in ts:
            t.start()
        self.current = 0
        self.sem[0].release()
        self.main.acquire()
        for t in ts:
            t.join()
        if self.exc is not None:
            raise self.exc
        return res

    def step(self, r):
        """Hand over to the next rank that can run; called by the running rank."""
        if self.kill:
            nxt = [q for q in range(self.size) if not self.done[q]]
            if not nxt:
                self.main.release()
            else:
                self.go(nxt[0])
            return
        nxt = [q for q in range(self.size) if not self.done[q] and self.post[q] is None]
        if not nxt:
            if all(self.done):
                self.main.release()
                return
            try:
                if any(self.done):
                    raise Deadlock("some ranks have finished while others wait in " + self.post[self.done.index(False)][0])
                self.combine()
            except BaseException as e:
                if self.exc is None:
                    self.exc = e
                self.kill = True
            self.post = [None] * self.size
            nxt = [q for q in range(self.size) if not self.done[q]]
        self.go(nxt[0])

    def go(self, q):
        self.current = q
        self.sem[q].release()

    def enter(self, kind, a):
        if self.kill:
            raise _Kill()
        r = self.current
        self.post[r] = (kind, a)
        self.step(r)
        self.sem[r].acquire()
        if self.kill:
            raise _Kill()
        return self.out[r]

    def combine(self):
        kinds = [p[0] for p in self.post]
        self.ops.append(kinds[0])
        if len(set(kinds)) != 1:
            raise Deadlock("ranks enter different operations: " + ", ".join(kinds))
        a = [p[1] for p in self.post]
        kind = kinds[0]
        if len({str(x[3]) for x in a}) != 1:
            raise Deadlock("ranks name different roots")
        root = a[0][3]
        self.out = [None] * self.size
        if kind == "Barrier":
            return
        if "educe" in kind:
            if any(x[2] not in (None, MPIStub.SUM) for x in a):
                raise NotImplementedError("reduction other than SUM")
        if kind in ("allreduce", "reduce"):
            s = a[0][0]
            for x in a[1:]:
                s = s + x[0]
            for q in range(self.size):
                self.out[q] = clone(s) if kind == "allreduce" or q == root else None
            return
        if kind == "bcast":
            self.out = [clone(a[root][0]) for _ in range(self.size)]
            return
        if kind == "Bcast":
            src = raw(a[root][0]).copy()
            for q in range(self.size):
                self.same(a[root][0], a[q][0])
                if q != root:
                    raw(a[q][0])[:] = src
            return
        send = [(x[1] if isinstance(x[0], str) else x[0]) for x in a]
        for x in send[1:]:
            self.same(send[0], x)
        bufs = [raw(x).copy() for x in send]
        tot = bufs[0]
        for b in bufs[1:]:
            tot = tot + b
        for q in range(self.size):
            if kind == "Allreduce" or q == root:
                self.same(send[0], a[q][1])
                raw(a[q][1])[:] = tot

    @staticmethod
    def same(x, y):
        if raw(x).shape != raw(y).shape or np.dtype(x.dtype) != np.dtype(y.dtype):
            raise Deadlock(f"buffers of different size or type: {x.shape} {x.dtype} and {y.shape} {y.dtype}")


def ranks(c, size, fn):
    """Run fn(rank) as rank 0 .. size-1 of a communicator; returns the results by rank."""
    par = c.mod("tbplas.parallel")
    w = World(size)
    old = getattr(par, "MPI", None)
    par.MPI = MPIStub(w)
    try:
        return w.run(fn)
    finally:
        par.MPI = old
