"""A simulated mpi4py.MPI: every delivery, matching and completion order is a scheduler decision."""
import collections
import pickle
import types

from . import seams
from .core import SimKill

ANY_SOURCE = -1
ANY_TAG = -1
PROC_NULL = -2


class Message:
    __slots__ = ("ctx", "src", "dst", "tag", "data", "matched", "seq", "sync")

    def __init__(self, ctx, src, dst, tag, data, seq, sync):
        self.ctx, self.src, self.dst, self.tag = ctx, src, dst, tag
        self.data, self.seq, self.sync = data, seq, sync
        self.matched = False


class World:
    """State of the transport shared by the ranks of one job."""

    def __init__(self, sim, nranks, send_mode="eager", coll_mode="lazy"):
        self.sim = sim
        self.n = nranks
        self.send_mode = send_mode          # eager | rendezvous | mixed
        self.coll_mode = coll_mode          # lazy: leave as early as MPI allows | sync: all leave together
        self.channels = collections.OrderedDict()
        self.mailbox = {r: [] for r in range(nranks)}
        self.colls = {}                     # (ctx, idx) -> instance
        self.coll_idx = collections.Counter()
        self.finalized = set()
        self.initialized = set()
        self.aborted = None
        self.problems = []
        self.stats = collections.Counter()
        self.seq = 0
        sim.extra_options = self.options

    # ---- network -------------------------------------------------------------------------------
    def options(self):
        out = []
        for key, q in self.channels.items():
            if q:
                out.append((("msg", key[1], key[2], key[0]), lambda q=q: self.deliver(q)))
        return out

    def deliver(self, q):
        m = q.popleft()
        self.mailbox[m.dst].append(m)
        self.stats["delivered"] += 1
        self.sim.events.append((self.sim.steps, ("net", m.dst), "deliver", "%d>%d tag %d" % (m.src, m.dst, m.tag)))

    def inject(self, ctx, src, dst, tag, data, sync):
        self.seq += 1
        m = Message(ctx, src, dst, tag, data, self.seq, sync)
        self.channels.setdefault((ctx, src, dst), collections.deque()).append(m)
        self.stats["sent"] += 1
        return m

    def find(self, ctx, rank, source, tag):
        """First deliverable message of each source, in order of arrival."""
        seen, out = set(), []
        for m in self.mailbox[rank]:
            if m.ctx != ctx or (source not in (ANY_SOURCE, m.src)) or (tag not in (ANY_TAG, m.tag)):
                continue
            if m.src not in seen:
                seen.add(m.src)
                out.append(m)
        return out

    def leftovers(self):
        return [m for q in self.channels.values() for m in q] + \
            [m for b in self.mailbox.values() for m in b]

    def abort(self, rank, code):
        self.aborted = (rank, code)
        self.sim.events.append((self.sim.steps, ("rank", rank), "mpi.Abort", str(code)))


class Status:
    def __init__(self):
        self.source = ANY_SOURCE
        self.tag = ANY_TAG
        self.error = 0
        self.count = 0
        self.cancelled = False

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_error(self):
        return self.error

    def Get_count(self, datatype=None):
        return self.count

    def _set(self, m):
        self.source, self.tag, self.count = m.src, m.tag, len(m.data)


class MPIError(RuntimeError):
    """Stands for mpi4py.MPI.Exception."""

    def __init__(self, ierr=15):
        super().__init__(ierr)
        self.ierr = ierr

    def Get_error_code(self):
        return self.ierr

    Get_error_class = Get_error_code

    def Get_error_string(self):
        return "MPI_ERR_OTHER: known error not in list"

    error_code = property(Get_error_code)
    error_string = property(Get_error_string)

    def __str__(self):
        return self.Get_error_string()


class Request:
    def __init__(self, comm, kind, msg=None, source=None, tag=None):
        self.comm, self.kind, self.msg = comm, kind, msg
        self.source, self.tag = source, tag
        self.complete = False
        self.value = None

    def _ready(self):
        w = self.comm.world
        if self.complete:
            return True
        if self.kind == "send":
            return (not self.msg.sync) or self.msg.matched
        return bool(w.find(self.comm.ctx, self.comm.rank, self.source, self.tag))

    def _finish(self, status=None):
        if not self.complete:
            if self.kind == "recv":
                self.value = self.comm._take(self.source, self.tag, status)
            self.complete = True
        return self.value

    def wait(self, status=None):
        self.comm._op("mpi.wait", None)
        if not self._ready():
            self.comm.world.sim.yield_(pred=self._ready, why="wait")
        return self._finish(status)

    def test(self, status=None):
        self.comm._op("mpi.test", None)
        if self._ready():
            return True, self._finish(status)
        return False, None

    Wait = wait

    def Test(self, status=None):
        return self.test(status)[0]

    @staticmethod
    def waitall(requests, statuses=None):
        return [r.wait() for r in requests]

    Waitall = waitall

    @staticmethod
    def waitany(requests, status=None):
        sim = requests[0].comm.world.sim
        requests[0].comm._op("mpi.waitany", None)
        live = [r for r in requests if not r.complete]
        if not live:
            return -32766, None
        sim.yield_(pred=lambda: any(r._ready() for r in live), why="waitany")
        ready = [i for i, r in enumerate(requests) if not r.complete and r._ready()]
        i = ready[sim.dec.choose("any", len(ready))]
        return i, requests[i]._finish(status)


class SimComm:
    """COMM_WORLD (or a duplicate) as seen by one rank."""

    def __init__(self, world, rank, ctx=0, name="MPI_COMM_WORLD", exc=MPIError):
        self.world, self.rank, self.ctx, self.name = world, rank, ctx, name
        self.size = world.n
        self._exc = exc
        self._dups = 0

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def Get_name(self):
        return self.name

    def Set_errhandler(self, eh):
        pass

    def __bool__(self):
        return True

    def __hash__(self):
        return hash(("comm", self.ctx))

    def __eq__(self, other):
        return isinstance(other, SimComm) and other.ctx == self.ctx

    def Dup(self, info=None):
        self._dups += 1
        self._collective("dup", None, None)
        return SimComm(self.world, self.rank, ctx=self.ctx * 100 + self._dups, name=self.name + "_dup",
                       exc=self._exc)

    Clone = Dup

    def Free(self):
        pass

    # ---- operations ----------------------------------------------------------------------------
    def _op(self, kind, path):
        w = self.world
        if self.rank in w.finalized:
            raise self._exc(16)
        f = w.sim.op(kind, path)
        if f is not None and not seams.apply_common(w.sim.cur, f):
            raise self._exc(15)

    def _sync(self, data):
        mode = self.world.send_mode
        if mode == "eager":
            return False
        if mode == "rendezvous":
            return True
        return bool(self.world.sim.dec.choose("sendmode", 2))

    def _check_peer(self, peer):
        if not (0 <= peer < self.size):
            raise self._exc(6)

    def send(self, obj, dest, tag=0, _force=None):
        self._op("mpi.send", "%d>%d" % (self.rank, dest))
        self._check_peer(dest)
        data = pickle.dumps(obj)
        sync = self._sync(data) if _force is None else _force
        m = self.world.inject(self.ctx, self.rank, dest, tag, data, sync)
        if sync:
            self.world.sim.yield_(pred=lambda: m.matched, why="send %d>%d" % (self.rank, dest))

    def ssend(self, obj, dest, tag=0):
        self.send(obj, dest, tag, _force=True)

    def bsend(self, obj, dest, tag=0):
        self.send(obj, dest, tag, _force=False)

    def isend(self, obj, dest, tag=0):
        self._op("mpi.isend", "%d>%d" % (self.rank, dest))
        self._check_peer(dest)
        data = pickle.dumps(obj)
        m = self.world.inject(self.ctx, self.rank, dest, tag, data, self._sync(data))
        return Request(self, "send", msg=m)

    issend = isend

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        self._op("mpi.irecv", None)
        return Request(self, "recv", source=source, tag=tag)

    def _take(self, source, tag, status):
        w = self.world
        ms = w.find(self.ctx, self.rank, source, tag)
        m = ms[w.sim.dec.choose("any", len(ms))]
        w.mailbox[self.rank].remove(m)
        m.matched = True
        if status is not None:
            status._set(m)
        return pickle.loads(m.data)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._op("mpi.recv", "%d<%d" % (self.rank, source))
        w = self.world
        pred = lambda: bool(w.find(self.ctx, self.rank, source, tag))
        if not pred():
            w.sim.yield_(pred=pred, why="recv %d<%d tag %d" % (self.rank, source, tag))
        return self._take(source, tag, status)

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        r = self.isend(sendobj, dest, sendtag)
        out = self.recv(None, source, recvtag, status)
        r.wait()
        return out

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._op("mpi.probe", None)
        w = self.world
        w.sim.yield_(pred=lambda: bool(w.find(self.ctx, self.rank, source, tag)), why="probe")
        ms = w.find(self.ctx, self.rank, source, tag)
        if status is not None:
            status._set(ms[0])
        return True

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._op("mpi.iprobe", None)
        ms = self.world.find(self.ctx, self.rank, source, tag)
        if ms and status is not None:
            status._set(ms[0])
        return bool(ms)

    Probe, Iprobe = probe, iprobe

    # ---- collectives ---------------------------------------------------------------------------
    def _collective(self, name, root, data, need_all=True):
        """Enter the next collective of this communicator; returns its data by rank."""
        w = self.world
        self._op("mpi." + name, None if root is None else "root %d" % root)
        k = (self.ctx, self.rank)
        idx = w.coll_idx[k]
        w.coll_idx[k] += 1
        inst = w.colls.get((self.ctx, idx))
        if inst is None:
            inst = w.colls[(self.ctx, idx)] = {"name": name, "root": root, "in": {}}
        elif inst["name"] != name or inst["root"] != root:
            w.problems.append("collective mismatch: rank %d entered %s(root=%s) where others entered %s(root=%s)"
                              % (self.rank, name, root, inst["name"], inst["root"]))
            w.sim.stop("collective-mismatch")
        inst["in"][self.rank] = data
        everyone = lambda: len(inst["in"]) == self.size
        if need_all is True or w.coll_mode == "sync":
            cond = everyone
        elif need_all == "root":
            cond = lambda: root in inst["in"]
        else:
            cond = None
        if cond is not None and not cond():
            w.sim.yield_(pred=cond, why=name)
        return inst["in"]

    def barrier(self):
        self._collective("barrier", None, None)

    Barrier = barrier

    def bcast(self, obj=None, root=0):
        data = pickle.dumps(obj) if self.rank == root else None
        got = self._collective("bcast", root, data, None if self.rank == root else "root")
        return obj if self.rank == root else pickle.loads(got[root])

    def scatter(self, sendobj=None, root=0):
        data = None
        if self.rank == root:
            parts = list(sendobj)
            if len(parts) != self.size:
                raise ValueError("expecting %d items, got %d" % (self.size, len(parts)))
            data = [pickle.dumps(p) for p in parts]
        got = self._collective("scatter", root, data, None if self.rank == root else "root")
        return pickle.loads(got[root][self.rank])

    def gather(self, sendobj, root=0):
        got = self._collective("gather", root, pickle.dumps(sendobj), True if self.rank == root else None)
        if self.rank != root:
            return None
        return [pickle.loads(got[r]) for r in range(self.size)]

    def allgather(self, sendobj):
        got = self._collective("allgather", None, pickle.dumps(sendobj))
        return [pickle.loads(got[r]) for r in range(self.size)]

    def alltoall(self, sendobj):
        got = self._collective("alltoall", None, [pickle.dumps(x) for x in sendobj])
        return [pickle.loads(got[r][self.rank]) for r in range(self.size)]

    def reduce(self, sendobj, op=None, root=0):
        got = self._collective("reduce", root, pickle.dumps(sendobj), True if self.rank == root else None)
        if self.rank != root:
            return None
        return self._fold([pickle.loads(got[r]) for r in range(self.size)], op)

    def allreduce(self, sendobj, op=None):
        got = self._collective("allreduce", None, pickle.dumps(sendobj))
        return self._fold([pickle.loads(got[r]) for r in range(self.size)], op)

    @staticmethod
    def _fold(vals, op):
        f = op or (lambda a, b: a + b)
        out = vals[0]
        for v in vals[1:]:
            out = f(out, v)
        return out

    # ---- buffers (numpy) -----------------------------------------------------------------------
    def Send(self, buf, dest, tag=0):
        self.send(_array(buf).copy(), dest, tag)

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        _array(buf)[...] = self.recv(None, source, tag, status)

    def Bcast(self, buf, root=0):
        a = _array(buf)
        v = self.bcast(a.copy() if self.rank == root else None, root)
        if self.rank != root:
            a[...] = v

    # ---- end -----------------------------------------------------------------------------------
    def Abort(self, errorcode=0):
        w = self.world
        w.sim.op("mpi.Abort", str(errorcode), nosched=True)
        w.abort(self.rank, errorcode)
        w.job.on_abort(self.rank, errorcode)

    def finalize(self):
        pass


def _array(buf):
    import numpy
    if isinstance(buf, (list, tuple)):
        buf = buf[0]
    return numpy.asarray(buf)


def make_mpi(world, rank, on_init):
    """The per-rank `mpi4py` and `mpi4py.MPI` modules."""
    mpi = types.ModuleType("mpi4py.MPI")
    exc = type("Exception", (MPIError,), {"__module__": "mpi4py.MPI"})
    comm = SimComm(world, rank, exc=exc)

    def Finalize():
        if rank in world.finalized:
            raise exc(16)
        world.sim.op("mpi.Finalize", None)
        world.initialized.add(rank)
        comm_fin = world.__dict__.setdefault("_finalizing", set())
        comm_fin.add(rank)
        pred = lambda: len(comm_fin) == world.n
        if not pred():
            world.sim.yield_(pred=pred, why="Finalize")
        world.finalized.add(rank)

    mpi.COMM_WORLD = comm
    solo = World.__new__(World)
    solo.__dict__.update(world.__dict__)
    solo.n, solo.mailbox, solo.channels, solo.colls, solo.coll_idx = 1, {0: []}, {}, {}, collections.Counter()
    mpi.COMM_SELF = SimComm(solo, 0, ctx=-1 - rank, name="MPI_COMM_SELF", exc=exc)
    mpi.Status = Status
    mpi.Request = Request
    mpi.Exception = exc
    mpi.Comm = mpi.Intracomm = SimComm
    mpi.ANY_SOURCE, mpi.ANY_TAG, mpi.PROC_NULL = ANY_SOURCE, ANY_TAG, PROC_NULL
    mpi.COMM_NULL = None
    mpi.SUCCESS = 0
    mpi.ERRORS_RETURN = 0
    mpi.ERRORS_ARE_FATAL = 1
    mpi.THREAD_MULTIPLE = 3
    mpi.SUM = lambda a, b: a + b
    mpi.PROD = lambda a, b: a * b
    mpi.MAX = max
    mpi.MIN = min
    mpi.LAND = lambda a, b: bool(a and b)
    mpi.LOR = lambda a, b: bool(a or b)
    mpi.Init = lambda: None
    mpi.Finalize = Finalize
    mpi.Is_initialized = lambda: True
    mpi.Is_finalized = lambda: rank in world.finalized
    mpi.Wtime = lambda: world.sim.now
    mpi.Get_processor_name = lambda: "node%d" % (rank // 4)

    class Package(types.ModuleType):
        def __getattr__(self, name):
            if name == "MPI":
                on_init()
                return mpi
            raise AttributeError(name)

    pkg = Package("mpi4py")
    pkg.__path__ = []
    pkg.rc = types.SimpleNamespace(initialize=True, finalize=True, threads=True, thread_level="multiple")
    pkg.get_config = lambda: {}
    return pkg, mpi
