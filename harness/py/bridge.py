"""
The Python library as one side of an end-to-end exploration: the explorer of the
Rust part (ctl) has the real procstar on the other side, and moves each message,
loss and call itself.  One session per execution, each in a fork of this process.

Each command is a line of JSON, as is each reply.
"""
import base64, gc, json, os, sys
from sim import *
from common import *

def b64(b): return base64.b64encode(b).decode()

class Stream:
    """Lines on file descriptors, never reading ahead of a reply."""
    buf = b""
    def read(self):
        while b"\n" not in self.buf:
            d = os.read(0, 1 << 20)
            if not d: os._exit(0)
            self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        return json.loads(l)
    def write(self, j):
        d = json.dumps(j).encode() + b"\n"
        while d: d = d[os.write(1, d):]

class Link(Peer):
    """A connection; whatever the server sends goes to the explorer."""
    def __init__(self, s, c, ip): self.s, self.c, self.told = s, c, False; super().__init__(s.w, ip=ip)
    def _frame(self, op, data): self.s.out.append([self.c, op, b64(data)])

class Reader:
    """Reads the updates of a process; goes on after an error."""
    def __init__(self, w, proc):
        self.got, self.over = [], None
        self.user = w.call(self.go(proc), "updates of %s" % proc.proc_id)
    async def go(self, proc):
        from procstar.agent.proc import AgentMessageError
        while self.over is None:
            try:
                async for u in proc.updates: self.got.append(norm(u))
                self.over = "end"
            except AgentMessageError: self.got.append(("error",))
            except Exception as e: self.over = type(e).__name__

def jso(v):
    if isinstance(v, bytes): return {"$b": list(v)}
    if isinstance(v, dict): return {k if isinstance(k, str) else repr(k): jso(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)): return [jso(x) for x in v]
    if v is None or isinstance(v, (bool, int, float, str)): return v
    return repr(v)

class Session:
    def __init__(self, st, cmd):
        self.st = st
        self.w = World(Run([]), Scenario("bridge", None))
        self.w.STEPS = 10 ** 9
        install(self.w)
        random._inst._randbelow = lambda n: 0
        self.links, self.out, self.calls, self.ups, self.first = {}, [], {}, [], {}
        self.server(cmd)
    def server(self, cmd):
        self.links = {}
        serve(self.w, **({"reconnect_timeout": cmd["reconnect_timeout"]} if "reconnect_timeout" in cmd else {}), access_token="")
    def consume(self):
        """Read the updates of each new process, but for what start() itself has to get."""
        for id, p in list(self.w.server.processes.items()):
            if any(u["proc"] is p for u in self.ups): continue
            if any(c["m"] == "start" and c["a"][0] == id and not c["u"].done for c in self.calls.values()): continue
            u = dict(id=id, proc=p, up=Reader(self.w, p), first=self.first.pop(id, []), sent=0)
            self.ups.append(u)
    def settle(self):
        while True:
            self.w.settle()
            n = len(self.ups)
            for c in self.calls.values():
                u = c["u"]
                if u.done and not c["told"] and c["m"] == "start" and u.exc is None and not c.get("first"):
                    c["first"] = True
                    self.first[c["a"][0]] = [norm(u.res[1])]
            self.consume()
            if len(self.ups) == n and not self.w.loop.due(): break
    def reply(self):
        self.settle()
        for u in self.ups:
            if u["up"].over is None and u["up"].user.done: raise u["up"].user.exc
        r = dict(out=self.out)
        self.out = []
        closed = []
        for c, l in self.links.items():
            if l.tcp_closed and not l.told: l.told = True; closed.append(c)
        if closed: r["closed"] = closed
        calls = {}
        for k, c in self.calls.items():
            if c["u"].done and not c["told"]:
                c["told"] = True
                e = c["u"].exc
                calls[k] = dict(exc=type(e).__name__ if e else None, msg=str(e) if e else "", res=jso(self.value(c)) if e is None else None)
        if calls: r["calls"] = calls
        self.st.write(r)
    def value(self, c):
        r = c["u"].res
        if c["m"] == "start": return norm(r[1])[1]
        return r if isinstance(r, (dict, list, str, bytes, int, float, bool, type(None))) else repr(r)
    def state(self):
        self.settle()
        s = self.w.server
        self.st.write(dict(
            procs={i: p.conn_id for i, p in s.processes.items()},
            conns={i: dict(open=c.open, shutdown=c.shutdown_state.name, group=c.info.conn.group_id, pid=c.info.proc.pid, host=c.info.proc.hostname) for i, c in s.connections.items()},
            ups=[dict(id=u["id"], cur=s.processes[u["id"]] is u["proc"] if u["id"] in s.processes else False, got=[jso(x) for x in u["first"] + u["up"].got], over=u["up"].over) for u in self.ups],
            pending=[k for k, c in self.calls.items() if not c["u"].done]))
    def spec(self, s):
        """A spec made by the library's builders."""
        from procstar.spec import Proc, make_proc
        if "raw" in s:
            class Raw:
                def to_jso(_): return s["raw"]
            return Raw()
        def fd(f):
            f = dict(f)
            return getattr(Proc.Fd, f.pop("class"))(**f)
        def key(k): return int(k[1:]) if k.startswith("#") else k
        fds = {key(n): fd(f) for n, f in s.get("fds", [])}
        if "make" in s:
            kw = {}
            if "env_vars" in s: kw["env_vars"] = s["env_vars"]
            return make_proc(s["make"], fds=fds, **kw)
        kw = {}
        if "env" in s: kw["env"] = Proc.Env(**s["env"])
        return Proc(s["argv"], fds=fds, **kw)
    def call(self, cmd):
        k, m, a = cmd["k"], cmd["m"], cmd["a"]
        s = self.w.server
        if m in ("start", "request_start"):
            async def go():
                return await getattr(s, m)(a[0], self.spec(a[1]), **cmd.get("kw", {}))
            c = go()
        elif m == "to_jso":
            from procstar.spec import to_jso
            async def go(): return json.loads(json.dumps(to_jso(**{i: self.spec(x) for i, x in a[0].items()})))
            c = go()
        elif m == "request_fd_data":
            from procstar.agent.proc import Interval
            async def go(): return await s.processes[a[0]].request_fd_data(a[1], **({"interval": Interval(*a[2])} if len(a) > 2 else {}))
            c = go()
        elif m == "reconnect": c = s.reconnect(*a, **cmd.get("kw", {}))
        else:
            async def go(): return await getattr(s.processes[a[0]], m)(*a[1:])
            c = go()
        self.calls[k] = dict(m=m, a=a, u=self.w.call(c, m), told=False)
    def http(self, cmd):
        """A call of the HTTP client; its requests are handed to the explorer."""
        import httpx
        from procstar.http.client import AsyncClient
        ses = self
        class T(httpx.AsyncBaseTransport):
            async def handle_async_request(self, req):
                body = await req.aread()
                ses.st.write(dict(http=dict(method=req.method, path=req.url.raw_path.decode(), headers=[[k.decode(), v.decode()] for k, v in req.headers.raw], body=b64(body))))
                r = ses.st.read()
                return httpx.Response(r["status"], headers=r["headers"], content=base64.b64decode(r["body"]))
        async def go():
            async with httpx.AsyncClient(transport=T()) as h:
                c = AsyncClient(("127.0.0.1", 59788), h)
                a = list(cmd["a"])
                if cmd["m"] == "start_proc":
                    return await c.start_proc(ses.spec(a[0]), **({"proc_id": a[1]} if len(a) > 1 else {}))
                return await getattr(c, cmd["m"])(*a)
        self.calls[cmd["k"]] = dict(m=cmd["m"], a=cmd["a"], u=self.w.call(go(), cmd["m"]), told=False)
    def http_sync(self, cmd):
        import requests, procstar.http.client as hc
        ses = self
        class A(requests.adapters.BaseAdapter):
            def send(self, req, **kw):
                ses.st.write(dict(http=dict(method=req.method, path=req.path_url, headers=[[k, v] for k, v in req.headers.items()], body=b64(req.body or b""))))
                j = ses.st.read()
                r = requests.Response()
                r.status_code, r._content, r.url, r.request = j["status"], base64.b64decode(j["body"]), req.url, req
                r.headers.update(dict(j["headers"]))
                return r
            def close(self): pass
        async def go():
            real, hc.requests.adapters.HTTPAdapter = hc.requests.adapters.HTTPAdapter, lambda **kw: A()
            try: return getattr(hc.Client(("127.0.0.1", 59788)), cmd["m"])(*cmd["a"])
            finally: hc.requests.adapters.HTTPAdapter = real
        self.calls[cmd["k"]] = dict(m=cmd["m"], a=cmd["a"], u=self.w.call(go(), cmd["m"]), told=False)
    def run(self):
        self.reply()
        while True:
            cmd = self.st.read()
            o = cmd["op"]
            if o == "end": self.st.write({}); return
            elif o == "open": self.links[cmd["c"]] = Link(self, cmd["c"], cmd.get("ip", "10.0.0.1"))
            elif o == "frame": self.links[cmd["c"]].frame(cmd["kind"], base64.b64decode(cmd["data"]))
            elif o == "lost": self.links[cmd["c"]].lose(cmd["how"] == "reset")
            elif o == "call": self.call(cmd)
            elif o == "http": self.http(cmd)
            elif o == "http_sync": self.http_sync(cmd)
            elif o == "sleep": self.w.advance(cmd["dt"])
            elif o == "restart":
                for l in self.links.values(): l.told = True
                self.server(cmd)
                self.ups.clear(); self.calls.clear(); self.first.clear()
            elif o == "state": self.state(); continue
            else: raise HarnessError(o)
            self.reply()

def main():
    import procstar.agent.server, procstar.agent.proc, procstar.spec, procstar.http.client, httpx, requests
    gc.collect(); gc.freeze()
    st = Stream()
    while True:
        cmd = st.read()
        if cmd["op"] == "end": st.write({}); continue
        pid = os.fork()
        if pid == 0:
            # No session takes more than a few seconds, even with much data.
            signal.signal(signal.SIGPROF, hang)
            signal.setitimer(signal.ITIMER_PROF, 20, 1)
            try: Session(st, cmd).run()
            except BaseException:
                st.write(dict(failed=traceback.format_exc()))
                os._exit(1)
            os._exit(0)
        os.waitpid(pid, 0)

main()
