"""Set-up of servers, users, and agents that behave as procstar does."""
import asyncio, copy, os
import msgpack
from sim import *

PROC = dict(pid=100, ppid=1, uid=10, euid=10, username="u", gid=20, egid=20, groupname="g", hostname="h")
GROUP = "default"

def register(conn_id="A", group="default", token="tok", proc_ids=(), state="active", **kw):
    return dict(type="Register", conn=dict(conn_id=conn_id, group_id=group, restricted_exe=None), proc=dict(PROC),
        proc_ids=proc_ids and list(proc_ids) or ([] if proc_ids is not None else None), access_token=token, shutdown_state=state) | kw

def serve(w, **kw):
    """A server, listening."""
    from procstar.agent.server import Server
    kw = dict(host="localhost", port=59789, tls_cert=None, access_token="tok") | kw
    w.server = Server()
    async def go(): return await w.server.run(**kw)
    t = w.loop.create_task(go())
    w.settle()
    t.result()
    w.changes = []
    async def watch():
        with w.server.connections.subscription() as sub:
            async for e in sub: w.changes.append(e)
    w.loop.create_task(watch())
    # One that subscribes, but looks only in the end.
    w.lag = w.server.connections.subscription()
    late, n = w.lag.__enter__(), len(w.changes)
    w.settle()
    def final():
        got = []
        async def read():
            async for e in late: got.append(e)
        t = w.loop.create_task(read())
        w.settle()
        t.cancel()
        w.settle()
        w.lag.__exit__(None, None, None)
        w.check(got == w.changes[n:], "a subscriber that lags is told something else", "%r instead of %r" % (got, w.changes[n:]))
    w.finals.append(final)
    return w.server

def result(state="running", exit_code=None, **kw):
    return dict(state=state, errors=[], pid=123, proc_stat=None, proc_statm=None, times=dict(start="2026-01-01T00:00:00Z", stop=None, elapsed=1.0),
        status=None if exit_code is None else dict(status=exit_code << 8, exit_code=exit_code, signum=None, signame=None, core_dump=False),
        rusage=None, fds=dict(stdin=None, stdout=dict(type="detached", length=3, encoding="utf-8"))) | kw

class Conn(Peer):
    """A websocket connection of an agent."""
    def __init__(self, agent, **kw):
        self.agent, self.name = agent, "%s.%d" % (agent.conn_id, len(agent.conns))
        self.registered = False
        self.reg_no = None          # order of registration
        self.refused = False
        self.ip = agent.ip
        self.inbox = []
        self.sent = []
        super().__init__(agent.w, ip=agent.ip, **kw)
    def on_message(self, m):
        if m["type"] == "Registered":
            self.registered = True
            self.w.nreg = self.reg_no = getattr(self.w, "nreg", 0) + 1
        else: self.inbox.append(m)
        self.agent.on_message(self, m)
    def tell(self, m):
        """Sends a message, if it still can.  `sent` is what a server that reads all gets."""
        if self.dead or self.tr.closing or self.close_sent is not None: return False
        self.w.log("%s->server %s" % (self.name, m))
        self.sent.append(m)
        self.send(m)
        return True

class Agent:
    """
    A procstar, as the properties of the Rust part have it: it answers requests in
    order, and gives notice of starts, ends, deletions.
    """
    def __init__(self, w, conn_id="A", group="default", ip="10.0.0.1"):
        self.w, self.conn_id, self.group, self.ip = w, conn_id, group, ip
        self.procs = {}          # id -> result
        self.conns = []
        self.state = "active"
        self.n = 0
        self.requests = []       # all requests got, in order, with the connection
        self.on_start = None
    @property
    def conn(self): return self.conns[-1] if self.conns else None
    def connect(self, reg=True, **kw):
        kw2 = {k: kw.pop(k) for k in list(kw) if k in ("handshake", "silent")}
        c = Conn(self, **kw2)
        self.conns.append(c)
        self.w.log("%s connects from %s" % (c.name, self.ip))
        if reg: self.register(**kw)
        return c
    def register(self, **kw):
        self.conn.tell(register(**(dict(conn_id=self.conn_id, group=self.group, proc_ids=sorted(self.procs), state=self.state) | kw)))
    def on_message(self, conn, m):
        if m["type"] != "Registered": self.requests.append((conn, m, self.w.loop.vt))
    def connected(self): return self.conn is not None and self.conn.registered
    def notify(self, m):
        c = self.conn
        if c is not None and c.registered: return c.tell(m)
    def res(self, id): return dict(self.procs[id])
    def start(self, id, **kw):
        self.n += 1
        self.procs[id] = result(pid=self.n, **kw)
        self.notify(dict(type="ProcResult", proc_id=id, res=self.res(id)))
    def end(self, id, code=0):
        self.procs[id] = result("terminated", code, pid=self.procs[id]["pid"])
        self.notify(dict(type="ProcResult", proc_id=id, res=self.res(id)))
    def delete(self, id):
        del self.procs[id]
        self.notify(dict(type="ProcDelete", proc_id=id))
    def shut(self, state):
        self.state = state
        self.notify(dict(type="ShutDown", shutdown_state=state))
    def has_request(self):
        return self.conn is not None and not self.conn.dead and len(self.conn.inbox) > 0
    def answer(self):
        """Answers the first request."""
        c = self.conn
        if not self.has_request(): return
        m = c.inbox.pop(0)
        t = m["type"]
        id = m.get("proc_id")
        err = lambda e: c.tell(dict(type="RequestError", msg=m, err=e))
        if t == "ProcStartRequest":
            if any(i in self.procs for i in m["specs"]): err("process ID in use")
            elif self.state != "active": err("shutting down")
            elif any("argv" not in s and "exe" not in s for s in m["specs"].values()): err("no exe or argv")
            else:
                for i in m["specs"]: self.start(i)
        elif t == "ProcidListRequest": c.tell(dict(type="ProcidList", proc_ids=sorted(self.procs)))
        elif id not in self.procs: c.tell(dict(type="ProcUnknown", proc_id=id))
        elif t == "ProcResultRequest": c.tell(dict(type="ProcResult", proc_id=id, res=self.res(id)))
        elif t == "ProcSignalRequest":
            if self.procs[id]["state"] != "running": err("not running")
            else: self.end(id, 99)
        elif t == "ProcFdDataRequest":
            data = b"0123456789"[m["start"]: m["stop"]]
            c.tell(dict(type="ProcFdData", proc_id=id, fd=m["fd"], start=m["start"], stop=m["start"] + len(data), encoding="utf-8", data=data))
        elif t == "ProcDeleteRequest":
            if self.procs[id]["state"] == "running": err("running")
            else: self.delete(id)
        else: raise HarnessError("request %r" % m)
    def serving(self, n):
        """An actor that answers `n` requests, if they come."""
        for _ in range(n):
            yield until(self.has_request, 15, "a request", soft=True)
            if self.has_request(): self.answer()

class Updates:
    """Collects the updates of a process."""
    def __init__(self, w, proc, name=None):
        self.w, self.proc, self.got, self.over = w, proc, [], None
        self.user = w.call(self.go(), "updates of %s" % (name or proc.proc_id))
        self.when, self.again = None, None
        w.quiet_checks.append(self.quiet)
    def quiet(self):
        # The updates have ended, and this one gets told so: whoever waits again is told so too.
        self.w.check(self.again != "waiting", "the updates have ended, but waiting again never ends", self.proc.proc_id)
    async def go(self):
        try:
            async for u in self.proc.updates:
                self.got.append(norm(u))
                self.w.log("update of %s: %s" % (self.proc.proc_id, brief(u)))
            self.over = "end"
        except asyncio.CancelledError: self.over = "cancelled"; raise
        except Exception as e:
            self.over, self.exc = type(e).__name__, e
            if self.over == "ProcessUnknownError": self.w.check(e.proc_id == self.proc.proc_id, "an error tells of another process", repr(e.proc_id))
            if self.over == "ConnectionTimeoutError": self.w.check(e.conn_id == self.proc.conn_id, "an error tells of another connection", repr(e.conn_id))
        self.when = self.w.loop.vt
        if self.over in ("end", "ProcessUnknownError", "ConnectionTimeoutError"):
            self.again = "waiting"
            try: u = await anext(self.proc.updates); self.again = "an update %s" % brief(u)
            except asyncio.CancelledError: self.again = "cancelled"; raise
            except StopAsyncIteration: self.again = "end"
            except Exception as e: self.again = type(e).__name__
            self.w.check(self.again == self.over, "the updates have ended, but waiting again ends otherwise", "%s: %s %s" % (self.proc.proc_id, self.over, self.again))

def unjso(v):
    from procstar.lib.json import Jso
    return {k: unjso(getattr(v, k)) for k in dir(v) if k != "procstar"} if isinstance(v, Jso) else v

def norm(u):
    from procstar.agent.proc import Result, FdData
    if isinstance(u, Result): return ("result", unjso(u))
    if isinstance(u, FdData): return ("fd", u.fd, u.interval.start, u.interval.stop, u.encoding, u.data)
    return ("?", repr(u))

def brief(u):
    n = norm(u)
    return "%s %s" % (n[1].get("state"), n[1].get("pid")) if n[0] == "result" else repr(n)

def expected(m):
    """The update that a message amounts to."""
    if m["type"] == "ProcResult": return ("result", m["res"])
    if m["type"] == "ProcFdData": return ("fd", m["fd"], m["start"], m["stop"], m["encoding"], m["data"])
