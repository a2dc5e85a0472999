"""Schedules of real threads over one module's global mode and locks.

The operations a program performs on the shared state are recorded by running
it alone under opcode tracing (reads and writes of one module global from any
function of the module, operations of the module's locks). The recorded
programs of several threads are then encoded with one symbolic time per
operation; a solution of the constraints is a schedule, and it is replayed by
real threads which wait, before each of these operations, for their turn.
"""

from __future__ import annotations

import dis
import sys
import threading

import z3

from .ctx import Inconclusive

LOCKS = (type(threading.Lock()), type(threading.RLock()))
READS = {"LOAD_GLOBAL", "LOAD_NAME"}
WRITES = {"STORE_GLOBAL", "STORE_NAME"}
_ins = {}


def instruction(frame):
    code = frame.f_code
    if code not in _ins:
        _ins[code] = {i.offset: (i.opname, i.argval) for i in dis.get_instructions(code)}
    return _ins[code].get(frame.f_lasti, ("", None))


class Stuck(Exception):
    pass


class Gate:
    """What happens around every shared operation of a thread."""

    def before(self, kind, what):
        pass

    def after(self, kind, what):
        pass


class Tracer:
    def __init__(self, module, name, gate):
        self.module, self.name, self.gate = module, name, gate
        self.file = module.__file__
        self.open = None

    def flush(self):
        if self.open is not None:
            k, self.open = self.open, None
            self.gate.after(k, self.name)

    def trace(self, frame, event, arg):
        if event != "call" or frame.f_code.co_filename != self.file:
            return None
        frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        self.flush()
        if event == "opcode":
            op, a = instruction(frame)
            if a == self.name and (op in READS or op in WRITES):
                k = "read" if op in READS else "write"
                self.gate.before(k, self.name)
                self.open = k
        return self.local


class Lock:
    """Stand-in for a lock of the module: same lock, with the gate around."""

    def __init__(self, name, lock, gates):
        self.name, self.lock, self.gates = name, lock, gates

    def acquire(self, *a, **k):
        g = self.gates.get(threading.get_ident())
        if g is None:
            return self.lock.acquire(*a, **k)
        g.tracer.flush()
        g.before("acquire", self.name)
        r = self.lock.acquire(timeout=10)
        if not r:
            raise Stuck("lock not obtained")
        g.after("acquire", self.name)
        return r

    def release(self):
        g = self.gates.get(threading.get_ident())
        if g is None:
            return self.lock.release()
        g.tracer.flush()
        g.before("release", self.name)
        self.lock.release()
        g.after("release", self.name)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class Shared:
    """The module with its locks replaced for the duration of a run."""

    def __init__(self, module, name):
        self.module, self.name = module, name
        self.gates = {}

    def __enter__(self):
        self.mode = getattr(self.module, self.name)
        self.locks = {k: v for k, v in vars(self.module).items() if isinstance(v, LOCKS)}
        for k, v in self.locks.items():
            fresh = threading.RLock() if isinstance(v, LOCKS[1]) else threading.Lock()
            setattr(self.module, k, Lock(k, fresh, self.gates))
        return self

    def __exit__(self, *a):
        for k, v in self.locks.items():
            setattr(self.module, k, v)
        setattr(self.module, self.name, self.mode)

    def run(self, gate, program):
        """program(observe) under the gate, in the current thread."""
        gate.tracer = t = Tracer(self.module, self.name, gate)
        self.gates[threading.get_ident()] = gate

        def observe():
            t.flush()
            gate.before("observe", self.name)
            v = getattr(self.module, self.name)
            gate.after("observe", self.name)
            return v
        old = sys.gettrace()
        sys.settrace(t.trace)
        try:
            program(observe)
        finally:
            sys.settrace(old)
            t.flush()
            del self.gates[threading.get_ident()]


class Token:
    """A value nobody else has."""

    def __init__(self, term):
        self.term = term

    def __bool__(self):
        raise Inconclusive("the mode is inspected, not only moved")


class Recorder(Gate):
    def __init__(self, shared, init, tokens):
        self.shared, self.events = shared, []
        self.last = init
        self.tokens = tokens

    def get(self):
        return getattr(self.shared.module, self.shared.name)

    def unseen(self):
        if self.get() is not self.last:
            raise Inconclusive("the mode changed by an operation that is not seen")

    def before(self, kind, what):
        self.unseen()

    def after(self, kind, what):
        v = None
        if kind in ("read", "observe"):
            # later writes of what was read here are recognised by identity
            v = Token(None)
            self.unseen()
        if kind == "write":
            v = self.last = self.get()
        self.events.append((kind, what, v))


def record(shared, program):
    """Events of one thread: (kind, what, source of a written value)."""
    try:  # the first traced run of a function may not report its opcodes yet
        return record1(shared, program)
    except Inconclusive:
        return record1(shared, program)


def record1(shared, program):
    init = Token(None)
    setattr(shared.module, shared.name, init)
    rec = Recorder(shared, init, {})
    # The value of the n-th read is made recognisable by writing a new token
    # just before it; the observed behaviour of the code cannot depend on it.
    reads = []
    plain = rec.before

    def before(kind, what):
        plain(kind, what)
        if kind in ("read", "observe"):
            t = Token(None)
            setattr(shared.module, shared.name, t)
            rec.last = t
            reads.append((len(rec.events), t))
    rec.before = before
    shared.run(rec, program)
    rec.unseen()
    out = []
    for kind, what, v in rec.events:
        src = None
        if kind == "write":
            src = next((("read", i) for i, t in reads if t is v), ("value", v))
        out.append((kind, what, src))
    return out


def sections(events):
    """Outermost critical sections per lock: (lock, first index, last index)."""
    depth, start, out = {}, {}, []
    for i, (kind, what, _) in enumerate(events):
        if kind == "acquire":
            if depth.get(what, 0) == 0:
                start[what] = i
            depth[what] = depth.get(what, 0) + 1
        elif kind == "release":
            depth[what] -= 1
            if depth[what] == 0:
                out.append((what, start[what], i))
    for what, d in depth.items():
        if d:
            out.append((what, start[what], None))
    return out


def encode(h, threads, init, value):
    """Constrain symbolic times so that they are schedules of the threads;
    gives, per thread, the mode seen at each of its observations, and the
    final mode. value(v) is the term of a written value."""
    N = sum(map(len, threads))
    T = [[h.ctx.int(f"time_{t}_{i}") for i in range(len(ev))] for t, ev in enumerate(threads)]
    for ts in T:
        for a, b in zip(ts, ts[1:]):
            h.assume(a < b)
        if ts:
            h.assume(ts[0] >= 0, ts[-1] < 4 * N)
    for i, a in enumerate(T):
        for b in T[:i]:
            for x in a:
                for y in b:
                    h.assume(x != y)
    secs = [[(n, T[t][i], None if j is None else T[t][j]) for n, i, j in sections(ev)] for t, ev in enumerate(threads)]
    for i, a in enumerate(secs):
        for b in secs[:i]:
            for n, s, e in a:
                for m, s2, e2 in b:
                    if n == m:
                        h.assume(z3.Or(False if e is None else e < s2, False if e2 is None else e2 < s))
    seen, writes = {}, []
    for t, ev in enumerate(threads):
        for i, (kind, _, src) in enumerate(ev):
            if kind in ("read", "observe"):
                seen[t, i] = z3.Bool(h.ctx.fresh_name("mode"))
    for t, ev in enumerate(threads):
        for i, (kind, _, src) in enumerate(ev):
            if kind == "write":
                writes.append((T[t][i], seen[t, src[1]] if src[0] == "read" else value(src[1])))

    def at(time, var):
        h.assume(z3.Implies(z3.And(*[w > time for w, _ in writes]), var == init))
        for w, v in writes:
            h.assume(z3.Implies(z3.And(w < time, *[z3.Or(u <= w, u > time) for u, _ in writes]), var == v))
    for (t, i), var in seen.items():
        at(T[t][i], var)
    end = z3.Bool(h.ctx.fresh_name("mode"))
    at(z3.IntVal(4 * N), end)
    return [[seen[t, i] for i, e in enumerate(ev) if e[0] == "observe"] for t, ev in enumerate(threads)], end


class Turn(Gate):
    def __init__(self, world, me, events):
        self.w, self.me, self.events, self.n = world, me, events, 0

    def before(self, kind, what):
        if self.n >= len(self.events) or self.events[self.n][:2] != (kind, what):
            raise Stuck("unexpected operation")
        with self.w.cond:
            if not self.w.cond.wait_for(lambda: self.w.failed or self.w.order[self.w.pos] == (self.me, self.n), timeout=20):
                self.w.failed = True
            if self.w.failed:
                raise Stuck("turn never came")

    def after(self, kind, what):
        self.n += 1
        with self.w.cond:
            self.w.pos += 1
            self.w.cond.notify_all()


class World:
    def __init__(self, order):
        self.order, self.pos, self.failed = [*order, None], 0, False
        self.cond = threading.Condition()


def replay(shared, threads, programs, times, init):
    """Run the programs in real threads along a schedule; gives, per thread,
    the modes observed, and the final mode."""
    order = [k for _, k in sorted((times(t, i), (t, i)) for t, ev in enumerate(threads) for i in range(len(ev)))]
    w = World(order)
    setattr(shared.module, shared.name, init)
    seen, errors = [[] for _ in programs], []

    def body(t, prog):
        try:
            def go(observe):
                prog(lambda: seen[t].append(observe()))
            shared.run(Turn(w, t, threads[t]), go)
        except BaseException as e:  # noqa: BLE001
            errors.append(e)
            with w.cond:
                w.failed = True
                w.cond.notify_all()
    ts = [threading.Thread(target=body, args=(t, p), daemon=True) for t, p in enumerate(programs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(60)
    if errors or any(t.is_alive() for t in ts):
        raise Inconclusive(f"schedule not followed by the real threads: {errors[:1]}")
    return seen, getattr(shared.module, shared.name)
