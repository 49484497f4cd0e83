"""
A deterministic asyncio event loop with a virtual clock and virtual network, for
exploring the schedules of the real procstar agent server library.

Nothing of procstar or of the websockets library is replaced: the server's
`create_server()` call ends in this loop, connections are in-memory transports,
and the peers speak HTTP upgrade and websocket frames in bytes.  External events
(bytes that arrive, connections lost, calls by users, time) happen between two
iterations of the loop, as in reality; which, is up to the explorer.
"""
import signal
import asyncio, traceback, base64, gc, logging, os, random, struct, sys, threading, time, warnings
from asyncio import base_events, events

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
import msgpack
import websockets.legacy.server   # noqa

T0 = 1000.0

class Violation(Exception):
    def __init__(self, sig, text=""):
        super().__init__(sig)
        self.sig, self.text = sig, text

class HarnessError(Exception): pass

class _Sel:
    def select(self, timeout): return []
    def close(self): pass
    def get_map(self): return {}

class Loop(base_events.BaseEventLoop):
    def __init__(self):
        super().__init__()
        self.vt = T0
        self._selector = _Sel()
        self._clock_resolution = 1e-9
        self.servers = []
        self.tasks = []
        self.set_task_factory(self._mk)
        self.set_exception_handler(lambda *a: None)

    def _mk(self, loop, coro, **kw):
        t = asyncio.Task(coro, loop=loop, **kw)
        self.tasks.append(t)
        return t

    def time(self): return self.vt
    def _process_events(self, l): pass
    def _write_to_self(self): pass

    async def create_server(self, factory, host=None, port=None, **kw):
        s = Server(self, factory, host, port, kw)
        self.servers.append(s)
        return s

    def due(self):
        if self._ready: return True
        return any(not h._cancelled and h._when <= self.vt for h in self._scheduled)

    def next_timer(self):
        return min((h._when for h in self._scheduled if not h._cancelled), default=None)

class Sock:
    type = 1; family = 2
    def getsockname(self): return ("127.0.0.1", 59789)

class Server:
    def __init__(self, loop, factory, host, port, kw):
        self.loop, self.factory, self.host, self.port, self.kw = loop, factory, host, port, kw
        self.sockets = [Sock()]
        self.closed = False
    def close(self): self.closed = True
    async def wait_closed(self): pass
    def is_serving(self): return not self.closed
    def get_loop(self): return self.loop
    async def start_serving(self): pass
    async def serve_forever(self): await self.loop.create_future()

class Transport(asyncio.Transport):
    def __init__(self, peer, extra):
        super().__init__(extra)
        self.peer = peer
        self.closing = False
        self.lost = False
        self.buf = 0       # bytes the peer has not taken
        self.limit = 65536
        self.paused = False
    def set_write_buffer_limits(self, high=None, low=None):
        if high is not None: self.limit = high
    def get_write_buffer_size(self): return self.buf
    def get_write_buffer_limits(self): return (0, self.limit)
    def pause_reading(self): pass
    def resume_reading(self): pass
    def is_reading(self): return True
    def is_closing(self): return self.closing
    def can_write_eof(self): return False     # as with TLS
    def get_protocol(self): return self.peer.proto
    def write(self, data):
        if self.closing: return
        data = bytes(data)
        if self.peer.stalled:
            self.buf += len(data)
            self.peer.held += data
            if not self.paused and self.buf > self.limit:
                self.paused = True
                self.peer.proto.pause_writing()
        else:
            self.peer._bytes(data)
    def writelines(self, l): self.write(b"".join(l))
    def close(self):
        if self.closing: return
        self.closing = True
        if not self.peer.held: self._later(None)
    def abort(self):
        if self.lost: return
        self.closing = True
        self._later(None)
    def _later(self, exc):
        if self.lost: return
        self.lost = True
        self.peer.proto.loop.call_soon(self._lose, exc)
    def _lose(self, exc):
        self.peer.tcp_closed = True
        self.peer.dead_at = self.peer.w.loop.vt
        self.peer.proto.connection_lost(exc)

class Peer:
    """The other end of one websocket connection."""
    n = 0
    def __init__(self, w, ip="10.0.0.1", handshake=True, silent=False):
        self.w = w
        self.got = []            # messages, decoded
        self.frames = []         # other frames
        self.rx = b""
        self.up = False
        self.status = None       # HTTP status
        self.stalled = False     # does not read
        self.held = b""
        self.silent = silent     # neither pongs nor answers a close frame
        self.close_sent = self.close_rcvd = None
        self.tcp_closed = False
        self.gone = False        # this end is gone
        Peer.n += 1
        srv = w.loop.servers[-1]
        if srv.closed: raise HarnessError("server closed")
        self.proto = srv.factory()
        self.tr = Transport(self, {"peername": (ip, 40000 + len(w.peers)), "sockname": ("127.0.0.1", 59789)})
        w.peers.append(self)
        self.proto.connection_made(self.tr)
        if handshake: self.handshake()
    @property
    def dead(self): return self.tcp_closed or self.gone
    def handshake(self):
        self.raw(b"GET / HTTP/1.1\r\nHost: server:59789\r\nConnection: Upgrade\r\nUpgrade: websocket\r\n"
            b"Sec-WebSocket-Version: 13\r\nSec-WebSocket-Key: " + base64.b64encode(b"0123456789abcdef") + b"\r\n\r\n")
    def raw(self, data):
        if not self.dead and not self.tr.closing: self.proto.data_received(data)
    def frame(self, op, data=b"", fin=True):
        n = len(data)
        h = bytes([(0x80 if fin else 0) | op])
        if n < 126: h += bytes([0x80 | n])
        elif n < 65536: h += bytes([0x80 | 126]) + struct.pack(">H", n)
        else: h += bytes([0x80 | 127]) + struct.pack(">Q", n)
        self.raw(h + b"\0\0\0\0" + data)          # a mask of zeros
    def send(self, msg): self.frame(2, msgpack.dumps(msg))
    def close(self, code=1000):
        if self.close_sent is None:
            self.close_sent = code
            self.frame(8, struct.pack(">H", code))
    def lose(self, exc=True):
        """The connection breaks, noticed by the server."""
        if self.dead: return
        self.gone = True
        self.dead_at = self.w.loop.vt
        self.tr.closing = self.tr.lost = True
        if not exc: self.proto.eof_received()
        self.proto.connection_lost(ConnectionResetError() if exc else None)
    def stall(self): self.stalled = True
    def unstall(self):
        self.stalled = False
        data, self.held = self.held, b""
        self.tr.buf = 0
        if not self.gone: self._bytes(data)
        if self.tr.paused:
            self.tr.paused = False
            self.proto.resume_writing()
        if self.tr.closing and not self.tr.lost: self.tr._later(None)
    def _bytes(self, data):
        self.rx += data
        if not self.up and self.status is None:
            if b"\r\n\r\n" not in self.rx: return
            head, self.rx = self.rx.split(b"\r\n\r\n", 1)
            self.status = int(head.split()[1])
            self.up = self.status == 101
        while self.up and len(self.rx) >= 2:
            b0, b1 = self.rx[:2]
            n, o = b1 & 127, 2
            if n == 126: n, o = struct.unpack(">H", self.rx[2:4])[0], 4
            elif n == 127: n, o = struct.unpack(">Q", self.rx[2:10])[0], 10
            if len(self.rx) < o + n: break
            self._frame(b0 & 15, self.rx[o: o + n])
            self.rx = self.rx[o + n:]
    def _frame(self, op, data):
        if op == 2:
            m = msgpack.loads(data, strict_map_key=False)
            self.got.append(m)
            self.w.log("server->%s %s" % (getattr(self, "name", "?"), m))
            self.on_message(m)
        elif op == 9:
            if not self.silent: self.w.auto(lambda: self.frame(10, data))
        elif op == 8:
            self.close_rcvd = struct.unpack(">H", data[:2])[0] if data else 1005
            self.w.log("server closes %s: %d" % (getattr(self, "name", "?"), self.close_rcvd))
            if not self.silent: self.w.auto(lambda: self.close(1000))
        else: self.frames.append((op, data))
    def on_message(self, m): pass

class Actor:
    def __init__(self, name, gen): self.name, self.gen, self.cond, self.wake, self.what, self.done, self.soft = name, gen, None, None, None, False, False

class until:
    def __init__(self, cond, timeout=200, what="?", soft=False): self.cond, self.timeout, self.what, self.soft = cond, timeout, what, soft
class sleep:
    def __init__(self, dt): self.dt = dt
class idle: pass

class User:
    """A call of the library by its user."""
    def __init__(self, w, coro, name):
        self.name, self.t0, self.t1 = name, w.loop.vt, None
        self.task = w.loop.create_task(coro)
        self.w = w
        self.task.add_done_callback(self._done)
    def _done(self, t):
        self.t1 = self.w.loop.vt
        self.w.log("%s: %s" % (self.name, "cancelled" if t.cancelled() else repr(t.exception()) if t.exception() else "returned"))
        f = getattr(self, "on_done", None)
        if f: f(self)
    @property
    def done(self): return self.t1 is not None
    @property
    def exc(self):
        if self.t1 is None: return None
        return asyncio.CancelledError() if self.task.cancelled() else self.task.exception()
    @property
    def res(self): return self.task.result()

class Run:
    """The choices of one execution."""
    def __init__(self, prefix): self.prefix, self.trail = prefix, []
    def choose(self, n, kind, cost=1):
        i = len(self.trail)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n: raise HarnessError("choice %d of %d (%s)" % (c, n, kind))
        self.trail.append((n, c, cost, kind))
        return c

class World:
    STEPS = 60000
    def __init__(self, run, scen):
        self.run_, self.scen = run, scen
        self.loop = Loop()
        self.peers, self.actors, self.autos, self.events, self.users = [], [], [], [], []
        self.eps = 0.0
        self.order_cost = scen.order_cost
        self.finals = []
        self.quiet_checks = []     # called whenever nothing is going on
        self.iters = 0
        self.early = True
        self.states = set()
    def log(self, s): self.events.append("%9.3f %s" % (self.loop.vt - T0, s))
    def auto(self, f): self.autos.append(f)
    def actor(self, name, gen):
        self.actors.append(Actor(name, gen))
    def call(self, coro, name):
        self.log("call %s" % name)
        u = User(self, coro, name)
        self.users.append(u)
        return u
    def choose(self, n, kind="what", cost=0): return self.run_.choose(n, kind, cost)
    def fail(self, sig, text=""): raise Violation(sig, text)
    def check(self, ok, sig, text=""):
        if not ok: raise Violation(sig, text)
    def enabled(self, a, busy):
        if a.done: return False
        if a.cond is idle: return not busy
        if a.cond is not None and a.cond(): return True
        if a.wake is not None: return self.loop.vt >= a.wake
        return a.cond is None
    def go(self, a):
        if a.cond is not None and a.cond is not idle and not a.soft and not a.cond():
            raise Violation("never: " + a.what, "%s waited for %s" % (a.name, a.what))
        try: y = next(a.gen)
        except StopIteration: a.done = True; return
        a.cond = a.wake = None
        if y is None: pass
        elif y is idle: a.cond = idle
        elif isinstance(y, until): a.cond, a.wake, a.what, a.soft = y.cond, self.loop.vt + y.timeout, y.what, y.soft
        elif isinstance(y, sleep): a.wake = self.loop.vt + y.dt
        else: raise HarnessError("yield %r" % (y,))
    def step(self):
        self.iters += 1
        if self.iters > self.STEPS: raise Violation("busy loop", "no end of loop iterations")
        self.loop._run_once()
    def settle(self):
        """Runs the loop until nothing is going on."""
        while True:
            if self.loop.due(): self.step()
            elif self.autos: self.autos.pop(0)()
            else: return
    def advance(self, dt):
        """Time passes, no one acts."""
        t = self.loop.vt + dt
        while True:
            self.settle()
            n = self.loop.next_timer()
            if n is None or n > t: break
            self.loop.vt = max(self.loop.vt, n)
        self.loop.vt = t
        self.settle()
    def explore(self):
        loop = self.loop
        while True:
            busy = loop.due()
            if not busy and self.autos:
                self.autos.pop(0)(); continue
            if not busy:
                for c in self.quiet_checks: c()
            en = [a for a in self.actors if self.enabled(a, busy)]
            if busy:
                k = self.choose(1 + len(en), "early", 1) if en and self.early else 0
                if k == 0: self.step()
                else: self.go(en[k - 1])
            elif en:
                k = self.choose(len(en), "order", self.order_cost) if len(en) > 1 else 0
                self.go(en[k])
            else:
                left = [a for a in self.actors if not a.done]
                if not left: return
                t = min((a.wake for a in left if a.wake is not None), default=None)
                n = loop.next_timer()
                if t is None and n is None: raise HarnessError("stuck")
                loop.vt = max(loop.vt, min(x for x in (t, n) if x is not None))

def install(w):
    time.monotonic = lambda: _mono(w)
    events._set_running_loop(w.loop)
    w.loop._thread_id = threading.get_ident()
    random.seed(1)
    random._inst._randbelow = lambda n: w.choose(n, "random", 0) if n > 1 else 0

_real_mono = time.monotonic
def _mono(w):
    w.eps += 1e-7
    return w.loop.vt + w.eps

def uninstall(w):
    time.monotonic = _real_mono
    events._set_running_loop(None)
    w.loop._thread_id = None
    w.loop._ready.clear(); w.loop._scheduled.clear()

class Scenario:
    def __init__(self, name, fn, bound=1, order_cost=1, dbound=None, var=0): self.name, self.fn, self.bound, self.order_cost, self.dbound, self.var = name, fn, bound, order_cost, dbound, var

_count = 0
HUNG = "endless loop"
class Hang(KeyboardInterrupt):
    """Not swallowed by tasks."""
HANG_S = 6            # of CPU time; no execution takes more than a second
def hang(*_): raise Hang

def execute(scen, prefix):
    """Runs scenario `scen` once.  Returns (trail, violation or None, events, iterations)."""
    global _count
    _count += 1
    if _count % 200 == 0: gc.collect()
    r = Run(prefix)
    w = World(r, scen)
    install(w)
    v = None
    try:
        signal.signal(signal.SIGPROF, hang)
        signal.setitimer(signal.ITIMER_PROF, HANG_S, 1)
        try:
            fin = scen.fn(w)
            w.explore()
            if fin: fin()
            for f in w.finals: f()
        finally: signal.setitimer(signal.ITIMER_PROF, 0)
    except Hang: v = (HUNG, "the library's code does not return to the event loop")
    except Violation as e: v = (e.sig, e.text)
    except HarnessError: raise
    except Exception as e: v = ("exception: " + type(e).__name__, traceback.format_exc())
    finally:
        for t in w.loop.tasks:
            # Silence what is left.
            t._log_destroy_pending = False
        uninstall(w)
    return r.trail, v, w.events, w.iters
