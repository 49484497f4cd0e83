"""Connections: admission, registry, reconnection, choice."""
import os
from sim import *
from common import *

PROPS = {}
def prop(f):
    PROPS[f.__name__.upper()] = f
    return f

def mp(x): return msgpack.dumps(x)

# First messages.  (name, bytes or ("text", str) or None, admissible: True, False, None if either)
def firsts(token):
    R = lambda **kw: register(**({"token": token} | kw))
    def without(*path):
        m = copy.deepcopy(R())
        d = m
        for k in path[:-1]: d = d[k]
        del d[path[-1]]
        return m
    def with_(v, *path):
        m = copy.deepcopy(R())
        d = m
        for k in path[:-1]: d = d[k]
        d[path[-1]] = v
        return m
    l = [("good", mp(R()), True), ("good, idling", mp(R(state="idling")), True), ("good, with processes", mp(R(proc_ids=["x", "y"])), True),
        ("text", ("text", "hello"), False), ("empty", b"", False), ("garbage", b"\xc1\xff", False), ("truncated", mp(R())[:-5], False), ("trailing", mp(R()) + b"\0", False),
        ("number", mp(7), False), ("list", mp([R()]), False), ("nil", mp(None), False), ("no type", mp({k: v for k, v in R().items() if k != "type"}), False),
        ("unknown type", mp(R() | {"type": "Registre"}), False), ("type case", mp(R() | {"type": "register"}), False), ("nil type", mp(R() | {"type": None}), False), ("list type", mp(R() | {"type": []}), False),
        ("Registered", mp({"type": "Registered"}), False),
        ("result", mp(dict(type="ProcResult", proc_id="x", res=result())), False), ("fd data", mp(dict(type="ProcFdData", proc_id="x", fd="stdout", start=0, stop=1, encoding=None, data=b"x")), False),
        ("delete", mp(dict(type="ProcDelete", proc_id="x")), False), ("unknown", mp(dict(type="ProcUnknown", proc_id="x")), False), ("list of IDs", mp(dict(type="ProcidList", proc_ids=["x"])), False),
        ("shutdown", mp(dict(type="ShutDown", shutdown_state="done")), False), ("error", mp(dict(type="RequestError", msg={}, err="x")), False),
        ("start request", mp(dict(type="ProcStartRequest", specs={})), False), ("disguised", mp(R() | {"type": "ShutDown"}), False),
        ("no conn", mp(without("conn")), False), ("no conn_id", mp(without("conn", "conn_id")), False), ("no group_id", mp(without("conn", "group_id")), False),
        ("no proc", mp(without("proc")), False), ("no pid", mp(without("proc", "pid")), False), ("no token", mp(without("access_token")), False if token else None), ("no shutdown state", mp(without("shutdown_state")), None),
        ("bad shutdown state", mp(with_("gone", "shutdown_state")), False), ("nil shutdown state", mp(with_(None, "shutdown_state")), False),
        ("no proc_ids", mp(without("proc_ids")), True), ("nil proc_ids", mp(with_(None, "proc_ids")), None), ("conn is a list", mp(with_([], "conn")), False), ("proc is a string", mp(with_("x", "proc")), False),
        ("conn_id is a list", mp(with_([], "conn", "conn_id")), "X"), ("conn_id is a map", mp(with_({}, "conn", "conn_id")), "X"), ("group_id is a list", mp(with_([], "conn", "group_id")), "X"),
        ("additional field", mp(with_(1, "conn", "color")), None)]
    bad = [None, 0, 1, False, True, b"tok", ["tok"], {"tok": 1}, token + "x", "x" + token, token + " ", token + "\0", token.upper() if token else "T", token[:-1] if token else "x", token * 2 if token else " ", "tok" if not token else "", 7.5]
    for t in bad: l.append(("token %r" % (t,), mp(R() | {"access_token": t}), False))
    return l

def admission(w, peer, ok, before=()):
    """What must hold once it is settled whether a connection is admitted."""
    conns = w.server.connections
    n = sum(m["type"] == "Registered" for m in peer.got)
    if ok is None: ok = n > 0
    if ok == "X": ok, p = False, None       # an ill-formed registration may be answered, but nothing more
    else: p = peer.got
    if ok:
        w.check(n == 1 and peer.got[0]["type"] == "Registered", "not Registered", repr(peer.got))
        w.check("A" in conns and conns["A"].open, "not among connections")
    else:
        w.check(not p, "answered an inadmissible connection", repr(peer.got))
        w.check(peer.dead or peer.close_rcvd is not None, "an inadmissible connection was not closed")
        w.check(set(conns) == set(before), "an inadmissible connection is among connections", repr(set(conns)))
        w.check(all(e[0] in before for e in w.changes), "an inadmissible connection was announced", repr(w.changes))
        w.check(not (set(w.server.processes) - set(p for b in before for p in b and ["b1"])), "an inadmissible connection made processes", repr(set(w.server.processes)))

@prop
def q01(tier):
    deep = tier == "thorough"
    def first(i, token, then):
        def fn(w):
            serve(w, access_token=token)
            name, data, ok = firsts(token)[i]
            p = Peer(w); p.name = "peer"
            def agent():
                w.log("first message: " + name)
                if isinstance(data, tuple): p.frame(1, data[1].encode())
                elif data is not None: p.frame(2, data)
                if then == "result": yield; p.send(dict(type="ProcResult", proc_id="y", res=result()))
                if then == "register": yield; p.send(register(token=token))
                if then == "shutdown": yield; p.send(dict(type="ShutDown", shutdown_state="done")); yield; p.close()
                if then == "close": yield; p.close()
                if then == "reset": yield; p.lose()
                yield sleep(25)
                if then in ("", "result", "register") :
                    if then != "register" or ok is not None:
                        admission(w, p, ok)
                    if ok is True and then == "result": w.check("y" in w.server.processes, "a result of an admitted agent was not taken")
                else:
                    n = sum(m["type"] == "Registered" for m in p.got)
                    w.check(n <= (0 if ok is False else 1), "Registered twice or in spite of an inadmissible message")
                    if ok in (False, "X"): w.check(not len(w.server.connections) and not len(w.server.processes) and not w.changes, "an inadmissible connection had an effect")
                    if then == "shutdown": w.check("A" not in w.server.connections, "shut down but among connections")
            w.actor("agent", agent())
        return fn
    out = []
    for token in ("tok", ""):
        for i, (name, _, _) in enumerate(firsts(token)):
            for then in ("", "result", "register", "shutdown", "close", "reset"):
                out.append(Scenario("first message#%s/%s/%s" % (token, name, then), first(i, token, then), bound=1, dbound=2))

    def silent(w):
        # An agent that registers late, or never; with fragments and pings before.
        serve(w)
        t = [0, 5, 30, 59, 61, 90, None][w.choose(7, "when")]
        what = w.choose(3, "meanwhile")
        pm = [False, True][w.choose(2, "pong")]
        p = Peer(w, silent=pm); p.name = "peer"
        def agent():
            if what == 1: p.frame(9, b"hi")
            if what == 2: p.frame(2, mp(register())[:40], fin=False)
            yield
            if t is not None:
                yield sleep(t)
                if what == 2: p.frame(0, mp(register())[40:])
                else: p.send(register())
                yield sleep(3)
                late = t >= 60 or (pm and t >= 39)
                if late: admission(w, p, False)
                elif not pm: admission(w, p, True)
            else:
                yield sleep(85)
                admission(w, p, False)
        w.actor("agent", agent())
    out.append(Scenario("late registration", silent, bound=1, dbound=2))

    def boundary(w):
        # Just at the end of the time to register.
        serve(w)
        p = Peer(w); p.name = "peer"
        def agent():
            yield sleep(60)
            p.send(register())
            yield sleep(15)
            admission(w, p, None)
        w.actor("agent", agent())
    out.append(Scenario("registration at the last moment", boundary, bound=3, dbound=5))

    def impostor(kind, when):
        def fn(w):
            # A registered agent, and another one without the token.
            serve(w, reconnect_timeout=500)
            a = Agent(w, "A")
            p = [None]
            def agent():
                a.connect()
                yield until(a.connected, what="registration")
                a.start("p1")
                yield
                if when == "lost": a.conn.lose()
                yield
                a.start("p2")
                yield
                if when == "lost": a.connect()
                a.end("p1")
                yield sleep(30)
                w.check(a.conn.registered and not a.conn.dead and a.conn.close_rcvd is None, "an impostor disturbed a connection")
                w.check(set(w.server.processes) == {"p1", "p2"}, "processes changed by an impostor", repr(set(w.server.processes)))
                w.check(set(w.server.connections) == {"A"} and w.server.connections["A"].open, "connections changed by an impostor")
                w.check(w.server.connections["A"].info.conn.group_id == "default", "group changed by an impostor")
            def bad():
                q = Peer(w, ip="10.6.6.6"); q.name = "impostor"
                yield
                if kind == "token": q.send(register(token="wrong", proc_ids=["z"]))
                elif kind == "group": q.send(register(token="wrong", group="other"))
                elif kind == "new": q.send(register("B", token="wrong", proc_ids=["z"]))
                elif kind == "result": q.send(dict(type="ProcResult", proc_id="p1", res=result("terminated", 1)))
                elif kind == "shutdown": q.send(dict(type="ShutDown", shutdown_state="done"))
                yield
                q.send(dict(type="ProcDelete", proc_id="p1"))
                yield sleep(30)
                w.check(not q.got, "answered an impostor", repr(q.got))
                w.check(q.dead or q.close_rcvd is not None, "an impostor was not disconnected")
            w.actor("agent", agent()); w.actor("impostor", bad())
        return fn
    for kind in ("token", "group", "new", "result", "shutdown"):
        for when in ("", "lost"):
            out.append(Scenario("impostor#%s/%s" % (kind, when), impostor(kind, when), bound=1, dbound=2, order_cost=0))

    def config(w):
        # Where to listen, with which token and certificate.
        from procstar.agent.server import Server, FROM_ENV
        from procstar.testing import TLS_CERT_PATH, TLS_KEY_PATH
        import ssl, tempfile, shutil
        for k in list(os.environ):
            if k.startswith("PROCSTAR_AGENT"): del os.environ[k]
        kw, want = {}, {}
        def opt(name, env, arg_val, env_val, default):
            how = w.choose(3, name)
            if how == 1: kw[name] = arg_val; return arg_val
            if how == 2 and env: os.environ[env] = env_val; return env_val
            if how == 2: return default
            return default
        want["host"] = opt("host", "PROCSTAR_AGENT_HOST", "10.1.1.1", "10.2.2.2", "*")
        want["port"] = int(opt("port", "PROCSTAR_AGENT_PORT", 4444, "5555", 59789))
        want["token"] = opt("access_token", "PROCSTAR_AGENT_TOKEN", "argtok", "envtok", "")
        dirs = []
        def pair(copy_key):
            d = tempfile.mkdtemp(prefix="q01")
            dirs.append(d)
            shutil.copy(TLS_CERT_PATH, d + "/c.crt")
            if copy_key: shutil.copy(TLS_KEY_PATH, d + "/c.key")
            else: shutil.copy(TLS_KEY_PATH, d + "/other.key")
            return d
        cert = w.choose(5, "cert")
        ok = True
        if cert == 0: kw["tls_cert"] = (TLS_CERT_PATH, TLS_KEY_PATH)
        if cert == 1: d = pair(True); os.environ["PROCSTAR_AGENT_CERT"] = d + "/c.crt"
        if cert == 2: d = pair(False); os.environ["PROCSTAR_AGENT_CERT"] = d + "/c.crt"; os.environ["PROCSTAR_AGENT_KEY"] = d + "/other.key"
        if cert == 3: d = pair(False); os.environ["PROCSTAR_AGENT_CERT"] = d + "/c.crt"; ok = False       # no key
        if cert == 4: os.environ["PROCSTAR_AGENT_CERT"] = "/nonexistent.crt"; ok = False
        try:
            w.server = Server()
            w.changes = []
            async def go(): return await w.server.run(**kw)
            t = w.loop.create_task(go())
            w.settle()
            w.check(t.done(), "the server does not start")
            w.check((t.exception() is None) == ok, "the server %s" % ("does not start" if ok else "starts without its certificate"), repr(t.exception()))
            if not ok:
                w.check(not w.loop.servers, "listens without its certificate"); return
            s = w.loop.servers[0]
            w.check((None if want["host"] == "*" else want["host"]) == s.host and s.port == want["port"], "listens elsewhere", "%r %r" % (s.host, s.port))
            ctx = s.kw.get("ssl")
            w.check(isinstance(ctx, ssl.SSLContext), "no TLS")
            # A handshake with a client that trusts only the certificate.
            i, o = ssl.MemoryBIO(), ssl.MemoryBIO()
            so = ctx.wrap_bio(i, o, server_side=True)
            cc = ssl.create_default_context(cafile=str(TLS_CERT_PATH))
            cc.check_hostname = False
            co = cc.wrap_bio(o, i, server_side=False)
            done = [False, False]
            for _ in range(10):
                for k, x in enumerate((co, so)):
                    if not done[k]:
                        try: x.do_handshake(); done[k] = True
                        except ssl.SSLWantReadError: pass
                        except ssl.SSLError as e: w.fail("TLS handshake fails", repr(e))
            w.check(all(done), "TLS handshake fails")
            tok = [want["token"], "argtok", "envtok", ""][w.choose(4, "token given")]
            p = Peer(w); p.name = "peer"
            p.send(register(token=tok))
            w.advance(1)
            admission(w, p, tok == want["token"])
        finally:
            for k in list(os.environ):
                if k.startswith("PROCSTAR_AGENT"): del os.environ[k]
            for d in dirs: shutil.rmtree(d)
    out.append(Scenario("configuration", config, bound=0))
    return out

#-------------------------------------------------------------------------------
# Q02: the registry.

class Registry:
    """What the mapping of connections must be, from what the agents did."""
    def __init__(self, w, timeout, agents):
        self.w, self.timeout, self.agents = w, timeout, agents
        self.st = {}
        w.quiet_checks.append(self.check)
    def check(self):
        w = self.w
        conns = w.server.connections
        ids = set(conns)
        now = w.loop.vt
        w.check(len(conns) == len(ids) and {i for i, _ in conns.items()} == ids and len(list(conns.values())) == len(ids) and all(i in conns for i in ids), "the mapping of connections is inconsistent")
        groups = {}
        for i in ids:
            c = conns[i]
            w.check(c.conn_id == i and c.info.conn.conn_id == i, "a connection under another ID")
            groups.setdefault(c.info.conn.group_id, set()).add(i)
        w.check({g: set(x) for g, x in w.server.connections.groups.items()} == groups, "groups do not match the connections", "%r %r" % (w.server.connections.groups, groups))
        w.check(ids <= {a.conn_id for a in self.agents}, "an unexpected connection", repr(ids))
        for i in {a.conn_id for a in self.agents}:
            live = sorted((c for a in self.agents if a.conn_id == i for c in a.conns if c.reg_no is not None and not c.refused), key=lambda c: c.reg_no)
            st = self.st.setdefault(i, dict(base=0, obj=None))
            last = [x for k, x in w.changes if k == i]
            live = live[st["base"]:]
            c = conns[i] if i in ids else None
            if not live:
                w.check(c is None, "a connection is still there", i)
                continue
            cur = live[-1]
            up = not cur.dead and cur.close_rcvd is None and cur.close_sent is None
            closing = not up and not cur.dead
            done = any(m["type"] == "ShutDown" and m["shutdown_state"] == "done" for m in cur.sent)
            if cur.dead and done: must = False
            elif cur.dead and self.timeout is not None and now > cur.dead_at + self.timeout + 0.01: must = False
            elif cur.dead and self.timeout is not None and now > cur.dead_at + self.timeout - 0.01: must = None
            elif done: must = None
            else: must = True
            w.check(must is not True or c is not None, "a connection is missing", i)
            w.check(must is not False or c is None, "a connection is still there", i)
            # A subscriber knows.
            if c is None:
                w.check(last and last[-1] is None, "a subscriber was not told of the end of a connection")
                st["base"] += len(live); st["obj"] = None
                continue
            w.check(last and last[-1] is c, "a subscriber was not told of a connection")
            w.check(sum(x is not None for x in last) >= st["base"] + len(live), "a subscriber was not told of a connection")
            if st["obj"] is not None and st["obj"] is not c and len(live) > 1 and self.timeout is not None and abs(now - live[-2].dead_at - self.timeout) < 0.01:
                # Timed out and came back at the same moment.
                st["base"] += len(live) - 1; live = live[-1:]; st["obj"] = c
            if st["obj"] is not None: w.check(st["obj"] is c, "a reconnected agent has another connection object")
            st["obj"] = c
            w.check(c.info.conn.group_id == cur.agent.group, "wrong group")
            if not closing: w.check(c.open == up, "open is not true", "%s open=%s, really %s" % (i, c.open, up))
            w.check(str(c.info.socket.address) == cur.ip, "wrong address", str(c.info.socket))
            told = [m["shutdown_state"] for m in cur.sent if m["type"] in ("Register", "ShutDown")][-1]
            w.check(c.shutdown_state.name == told, "wrong shutdown state", "%s %s" % (c.shutdown_state, told))
            for o in live[:-1]: w.check(o.dead or o.silent or o.close_rcvd is not None or o.close_sent is not None, "a connection that was replaced is left open", o.name)
            st_ = c.info.stats
            w.check(st_.last_connect_time is not None and st_.first_connect_time is not None and st_.first_connect_time <= st_.last_connect_time, "statistics: time of connection")
            if up: w.check(st_.connected, "statistics: an open connection is not connected")
            if cur.dead:
                w.check(not st_.connected, "statistics: a lost connection is connected")
                w.check(st_.last_disconnect_time is not None, "statistics: no time of disconnection")
            w.check(st_.num_connections == len(live), "statistics: number of connections", "%d, really %d" % (st_.num_connections, len(live)))
            if up and len(live) == 1 and st["base"] == 0:
                w.check(st_.num_received == len(cur.sent), "statistics: number of messages received", "%d, really %d" % (st_.num_received, len(cur.sent)))
                n = sum(r[0] is cur for r in cur.agent.requests)
                w.check(st_.num_sent == n or cur.stalled and st_.num_sent >= n, "statistics: number of messages sent", "%d, really %d" % (st_.num_sent, n))
            iso = lambda t: None if t is None else t.isoformat()
            reg = [m for m in cur.sent if m["type"] == "Register"][0]
            w.check(c.to_jso() == {"shutdown_state": told, "info": {
                "conn": reg["conn"], "proc": reg["proc"], "socket": {"address": cur.ip, "port": c.info.socket.port},
                "stats": {"connected": st_.connected, "first_connect_time": iso(st_.first_connect_time), "last_connect_time": iso(st_.last_connect_time), "last_disconnect_time": iso(st_.last_disconnect_time),
                          "num_connections": st_.num_connections, "num_received": st_.num_received, "num_sent": st_.num_sent}}}, "wrong JSON of a connection", repr(c.to_jso()))

def lose(c, how):
    """How a connection ends."""
    c.w.log("%s: %s" % (c.name, how))
    if how == "close": c.close()
    elif how == "error": c.close(1011)
    elif how == "reset": c.lose()
    elif how == "eof": c.lose(False)
    elif how == "garbage": c.frame(2, b"\xc1")
    elif how == "text": c.frame(1, b"hi")
    elif how == "frame": c.frame(3, b"hi")          # no such opcode
    elif how == "silent": c.silent = True
LOSSES = ("close", "error", "reset", "eof", "garbage", "text", "frame")

def admitted(a): return until(a.connected, 100, "registration of " + a.conn_id)

@prop
def q02(tier):
    out = []
    deep = tier == "thorough"
    def story(hows, timeout, others):
        def fn(w):
            serve(w, reconnect_timeout=timeout)
            a = Agent(w, "A")
            agents = [a] + [Agent(w, id, g, ip="10.0.0.2") for id, g in others]
            r = Registry(w, timeout, agents)
            def agent():
                for i, how in enumerate(hows):
                    a.connect()
                    yield admitted(a)
                    yield sleep(0.5)
                    if how in ("idling", "active"):
                        a.shut(how); yield idle; how = "close"
                    if how == "done":
                        a.shut("idling"); yield
                        a.shut("done"); yield
                        how = "close"
                    lose(a.conn, how)
                    yield sleep(1)
                    a.state = "active"
                yield sleep(60)
            def other(b):
                b.connect()
                yield admitted(b)
                yield sleep(0.8)
                b.shut("idling")
                yield sleep(60)
            for b in agents[1:]: w.actor(b.conn_id, other(b))
            w.actor("A", agent())
        return fn
    hows = LOSSES + ("done", "idling")
    for h1 in hows:
        for h2 in hows:
            for timeout in (None, 30):
                for others in ((), (("B", "default"),), (("B", "other"),)) if h1 == h2 or deep else ((),):
                    out.append(Scenario("histories#%s,%s,%s,%s" % (h1, h2, timeout, others), story((h1, h2), timeout, others), bound=1, dbound=2))

    def again(how, timeout, ip2, gap, noticed):
        # The agent connects again while its previous connection still seems open, or is closing.
        def fn(w):
            serve(w, reconnect_timeout=timeout)
            a = Agent(w, "A")
            r = Registry(w, timeout, [a])
            def agent():
                a.connect()
                yield admitted(a)
                yield
                old = a.conn
                if how == "silent": old.silent = True
                elif how == "closing": old.close()
                elif how == "reset": old.lose()
                if gap: yield sleep(gap)
                if ip2: a.ip = "10.0.0.9"
                a.connect()
                yield admitted(a)
                if noticed:
                    yield sleep(noticed)
                    old.lose()
                yield sleep(100)
                a.shut("idling")
                yield sleep(1)
                a.conn.lose()
                yield sleep(1)
                a.connect()
                yield admitted(a)
                yield sleep(50)
                a.shut("done")
                yield
                a.conn.close()
                yield sleep(3)
            w.actor("A", agent())
        return fn
    for how in ("open", "silent", "closing", "reset"):
        for timeout in (None, 7, 30):
            for ip2 in (False, True):
                for gap in (0, 3, 25):
                    for noticed in (0, 5) if how == "silent" else (0,):
                        if gap == 25 and how in ("reset", "closing") and timeout == 7: pass
                        out.append(Scenario("connected again#%s,%s,%s,%s,%s" % (how, timeout, ip2, gap, noticed), again(how, timeout, ip2, gap, noticed), bound=1 if ip2 else 2, dbound=3))

    def other_group(w):
        # The same ID in another group is refused, and changes nothing.
        timeout = [None, 5][w.choose(2, "timeout")]
        serve(w, reconnect_timeout=timeout)
        a = Agent(w, "A")
        r = Registry(w, timeout, [a])
        lost = w.choose(2, "lost")
        def agent():
            a.connect()
            yield admitted(a)
            yield sleep(1)
            if lost: a.conn.lose(); yield
            b = Agent(w, "A", group="other", ip="10.0.0.3")
            b.connect()
            yield sleep(2)
            w.check(b.conn.dead or b.conn.close_rcvd is not None, "a connection in another group is not refused")
            yield sleep(10)
        w.actor("A", agent())
    out.append(Scenario("the same ID in another group", other_group, bound=2, dbound=3))

    def concurrent(groups):
        def fn(w):
            # Several agents, all interleavings of what happens to them.
            serve(w, reconnect_timeout=50)
            agents = [Agent(w, "ABC"[i], g, ip="10.0.0.%d" % i) for i, g in enumerate(groups)]
            r = Registry(w, 50, agents)
            def agent(a):
                a.connect()
                yield admitted(a)
                lose(a.conn, ["reset", "close", "eof"]["ABC".index(a.conn_id)])
                yield
                a.connect()
                yield admitted(a)
                a.shut("idling")
                yield
                a.shut("done")
                yield
                a.conn.close()
                yield sleep(1)
            for a in agents: w.actor(a.conn_id, agent(a))
        return fn
    for g in (("default", "default"), ("default", "other"), ("default", "default", "other")):
        out.append(Scenario("several agents#%s" % (g,), concurrent(g), bound=2, dbound=3))
        if deep and len(g) == 2: out.append(Scenario("several agents in any order#%s" % (g,), concurrent(g), bound=0, order_cost=0))
    return out

#-------------------------------------------------------------------------------
# Q03: reconnection timeouts.

@prop
def q03(tier):
    out = []
    TO = 30
    deep = tier == "thorough"
    def expiry(w, ups, agents_t):
        """When the timeout of a connection that was lost at `t` runs out, given when it came back."""
    def story(gaps, how, procs_at, when_consume, tie=False):
        def fn(w):
            serve(w, reconnect_timeout=TO)
            a, b = Agent(w, "A"), Agent(w, "B", ip="10.0.0.2")
            r = Registry(w, TO, [a, b])
            ups = {}
            state = dict(lost=None, expired=None, t=None)
            def consume(id):
                if id not in ups and id in w.server.processes: ups[id] = Updates(w, w.server.processes[id])
            def agent():
                a.connect()
                yield admitted(a)
                a.start("p1"); a.start("p2")
                yield
                if procs_at == "ended": a.end("p1"); yield
                if procs_at == "deleted": a.end("p1"); a.delete("p1"); yield
                if when_consume == "before": consume("p1"); consume("p2"); yield
                yield sleep(1)
                for gap in gaps:
                    t0 = w.loop.vt
                    dead_at = None
                    if how == "silent":
                        a.conn.silent = True
                        yield until(lambda: a.conn.dead, 200, "notice that a connection is dead")
                    else:
                        lose(a.conn, how)
                        yield until(lambda: a.conn.dead, 200, "notice that a connection is dead")
                    lost = a.conn.dead_at
                    if when_consume == "while": consume("p1"); consume("p2")
                    if gap is None:
                        yield sleep(TO - 0.5)
                        w.check(all(u.over in (None, "end") for u in ups.values()), "a timeout too early", repr({k: u.over for k, u in ups.items()}))
                        yield sleep(1)
                        state["expired"] = lost + TO
                        if when_consume == "after":
                            pass
                        yield sleep(60)
                        break
                    yield sleep(gap)
                    before = set(w.server.connections)
                    a.connect()
                    yield admitted(a)
                    if gap < TO: w.check(all(u.over in (None, "end") for u in ups.values()), "a timeout in spite of reconnection", repr({k: u.over for k, u in ups.items()}))
                    if gap > TO: state["expired"] = lost + TO
                    yield sleep(5)
                    if gap > TO: break
                yield sleep(2 * TO)
                # Serves as before.
                if state["expired"] is None and not tie:
                    w.check("A" in w.server.connections and w.server.connections["A"].open, "a reconnected agent is not connected")
                    a.start("p3")
                    for i in list(a.procs):
                        if a.procs[i]["state"] == "running": a.end(i, 3)
                    yield
                    for i in ("p1", "p2"):
                        if i in a.procs: consume(i)
                    yield idle
                    for i in ("p1", "p2"):
                        if i in a.procs: w.check(ups[i].over is None and ups[i].got and ups[i].got[-1] == ("result", a.procs[i]), "a process of a reconnected agent is not served", "%s %s" % (i, ups[i].got[-1:]))
            def other():
                b.connect()
                yield admitted(b)
                b.start("q1")
                yield idle
                consume("q1")
            w.actor("A", agent()); w.actor("B", other())
            def fin():
                w.check(ups["q1"].over is None, "a process of another agent was told of a timeout", repr(ups["q1"].over))
                w.check("B" in w.server.connections, "another connection is gone")
                if tie:
                    # Either, but all the same.
                    over = {k: u.over for k, u in ups.items() if k != "q1"}
                    w.check(len(set(over.values())) <= 1, "only some processes were told of a timeout", repr(over))
                    w.check("A" in w.server.connections and w.server.connections["A"].open, "a reconnected agent is not connected")
                    return
                for i, u in ups.items():
                    if i == "q1": continue
                    if i not in a.procs: w.check(u.over == "end", "no end of the updates of a deleted process", repr(u.over)); continue
                    if state["expired"] is None: w.check(u.over is None, "a timeout in spite of reconnection", repr(u.over))
                    elif when_consume in ("before", "while"):
                        w.check(u.over == "ConnectionTimeoutError", "no timeout", repr(u.over))
                        w.check(abs(u.when - state["expired"]) < 0.1, "a timeout at the wrong time", "%s instead of %s" % (u.when, state["expired"]))
            return fin
        return fn
    hows = ("reset", "close", "error", "eof", "garbage", "silent")
    for gaps in ((None,), (29,), (31,), (0,), (29, 29), (29, None), (0, 0, None), (20, 20, 20), (29, 31)):
        for how in hows:
            for procs_at in ("", "ended", "deleted"):
                for wc in ("before", "while"):
                    if procs_at and len(gaps) > 1 and not deep: continue
                    out.append(Scenario("lost and found#%s,%s,%s,%s" % (gaps, how, procs_at, wc), story(gaps, how, procs_at, wc), bound=1, dbound=2))
    for how in hows:
        out.append(Scenario("reconnection at the last moment#%s" % how, story((TO,), how, "", "before", tie=True), bound=2, dbound=3))

    def replaced(noticed, gap, again):
        # The agent connects again before the server knows that its connection is lost.
        def fn(w):
            serve(w, reconnect_timeout=TO)
            a = Agent(w, "A")
            Registry(w, TO, [a])
            ups = {}
            def agent():
                a.connect()
                yield admitted(a)
                a.start("p1")
                yield idle
                ups["p1"] = Updates(w, w.server.processes["p1"])
                old = a.conn
                old.silent = True
                yield sleep(gap)
                a.connect()
                yield admitted(a)
                if noticed is not None: yield sleep(noticed); old.lose()
                if again:
                    yield sleep(1)
                    a.conn.silent = True; old2 = a.conn
                    a.connect()
                    yield admitted(a)
                yield sleep(200)
                w.check(ups["p1"].over is None, "a timeout in spite of reconnection", repr(ups["p1"].over))
                a.end("p1")
                yield idle
                w.check(ups["p1"].got[-1:] == [("result", a.procs["p1"])], "a process of a reconnected agent is not served")
                a.conn.lose()
                t = w.loop.vt
                yield sleep(TO + 1)
                w.check(ups["p1"].over == "ConnectionTimeoutError" and abs(ups["p1"].when - t - TO) < 0.1, "no timeout at the right time", "%s %s" % (ups["p1"].over, ups["p1"].when))
            w.actor("A", agent())
        return fn
    for noticed in (None, 1, 12):
        for gap in (0, 5, 25, 39):
            for again in (False, True):
                out.append(Scenario("replaced#%s,%s,%s" % (noticed, gap, again), replaced(noticed, gap, again), bound=2, dbound=3))

    def comeback(w):
        # After the timeout, the agent returns; its processes can be attached to anew.
        serve(w, reconnect_timeout=TO)
        a = Agent(w, "A")
        Registry(w, TO, [a])
        old = [None]
        consume = w.choose(2, "consumed before")
        via = w.choose(2, "attach by reconnect()")
        def agent():
            a.connect()
            yield admitted(a)
            a.start("p1")
            yield idle
            p = w.server.processes["p1"]
            if consume: old[0] = Updates(w, p)
            a.conn.lose()
            yield sleep(TO + 5)
            if not consume:
                u = Updates(w, p); yield idle
                w.check(u.over == "ConnectionTimeoutError", "no timeout", repr(u.over))
            else: w.check(old[0].over == "ConnectionTimeoutError", "no timeout", repr(old[0].over))
            a.connect()
            yield admitted(a)
            yield idle
            if via:
                c = w.call(w.server.reconnect("A", "p1", conn_timeout=5), "reconnect")
                yield until(lambda: c.done, 20, "return of reconnect()")
                w.check(c.exc is None, "no reconnection to a process", repr(c.exc))
                np = c.res
            else:
                w.check("p1" in w.server.processes, "a process of a returned agent is unknown")
                np = w.server.processes["p1"]
            u = Updates(w, np)
            yield idle
            a.end("p1")
            yield idle
            w.check(u.over is None and u.got[-1:] == [("result", a.procs["p1"])], "a process of a returned agent is not served", "%r %r" % (u.over, u.got[-1:]))
            c = w.call(np.request_delete(), "request_delete")
            yield until(a.has_request, 10, "the request")
            while a.has_request(): a.answer(); yield
            yield idle
            w.check(c.done and c.exc is None and u.over == "end", "a process of a returned agent cannot be deleted", "%r %r" % (c.exc, u.over))
        w.actor("A", agent())
    out.append(Scenario("return after the timeout", comeback, bound=2, dbound=3))

    def never(w):
        # Without a timeout configured, a lost connection is kept.
        serve(w, reconnect_timeout=None)
        a = Agent(w, "A")
        Registry(w, None, [a])
        how = hows[w.choose(len(hows), "how")]
        def agent():
            a.connect()
            yield admitted(a)
            a.start("p1")
            yield idle
            u = Updates(w, w.server.processes["p1"])
            lose(a.conn, how)
            yield sleep(5000)
            w.check(u.over is None, "updates ended without a timeout configured", repr(u.over))
            a.connect()
            yield admitted(a)
            a.end("p1")
            yield idle
            w.check(u.got[-1:] == [("result", a.procs["p1"])], "a process of a reconnected agent is not served")
        w.actor("A", agent())
    out.append(Scenario("no timeout configured", never, bound=1, dbound=2))

    def shut_down(how, procs, others):
        def fn(w):
            # An agent that has shut down is gone at once, with its processes, but no other's.
            serve(w, reconnect_timeout=TO)
            a, b, c = Agent(w, "A"), Agent(w, "B", ip="10.0.0.2"), Agent(w, "C", "other", ip="10.0.0.3")
            Registry(w, TO, [a, b, c])
            ups, st = {}, {}
            def lives(x, ids):
                x.connect()
                yield admitted(x)
                for i in ids: x.start(i)
                yield until(lambda: all(i in w.server.processes for i in ids), 20, "processes")
                for i in ids: ups[i] = Updates(w, w.server.processes[i])
            def agent():
                yield from lives(a, ("a0", "a1"))
                yield until(lambda: {"b0", "c0"} <= set(ups), 50, "processes of others")
                a.shut("idling"); yield
                if procs == "ended": a.end("a0"); a.end("a1"); yield
                if procs == "deleted": a.end("a0"); a.delete("a0"); yield
                a.shut("done"); yield
                st["gone"] = dict(a.procs)
                if how == "reset": yield idle        # what is on its way may be lost
                lose(a.conn, how)
                yield until(lambda: a.conn.dead, 50, "end of the connection")
                yield idle
                w.check("A" not in w.server.connections, "an agent that has shut down is still there")
                w.check(not any(p.conn_id == "A" for p in w.server.processes.values()), "an agent has shut down, but its processes are still there")
                for i in ("a0", "a1"): w.check(ups[i].over == ("ProcessUnknownError" if i in a.procs else "end"), "the updates of a process of an agent that has shut down", "%s %r" % (i, ups[i].over))
            def other(x, ids, lost):
                yield from lives(x, ids)
                for k in range(2):
                    yield
                    x.n += 1
                    x.notify(dict(type="ProcFdData", proc_id=ids[0], fd="stdout", start=x.n, stop=x.n + 3, encoding=None, data=b"%03d" % x.n))
                if lost:
                    yield idle
                    x.conn.lose()
                    yield sleep(TO - 1)
                    x.connect()
                    yield admitted(x)
                yield until(lambda: "gone" in st, 50, "end of A")
                yield sleep(1)
                x.end(ids[0])
            w.actor("A", agent()); w.actor("B", other(b, ("b0", "b1"), others)); w.actor("C", other(c, ("c0",), False))
            def fin():
                have = {i: p.conn_id for i, p in w.server.processes.items()}
                w.check(have == {"b0": "B", "b1": "B", "c0": "C"}, "not the processes of the agents left", repr(have))
                for x in (b, c):
                    w.check(x.conn_id in w.server.connections and w.server.connections[x.conn_id].open, "the end of an agent ended another's connection")
                    for i in x.procs:
                        w.check(ups[i].over is None, "the end of an agent ended another's process", "%s %r" % (i, ups[i].over))
                        w.check(ups[i].got[-1:] == [("result", x.procs[i])] or ups[i].got and x.procs[i]["state"] == "running", "a process of another agent is not served", i)
            return fin
        return fn
    for how in ("close", "reset", "eof"):
        for procs in ("", "ended", "deleted"):
            for others in (False, True):
                out.append(Scenario("shut down#%s,%s,%s" % (how, procs, others), shut_down(how, procs, others), bound=1, dbound=2))

    def other_timeouts(TO, how, wc):
        def fn(w):
            serve(w, reconnect_timeout=TO)
            a, b = Agent(w, "A"), Agent(w, "B", ip="10.0.0.2")
            Registry(w, TO, [a, b])
            def agent():
                b.connect(); yield admitted(b); b.start("q")
                a.connect()
                yield admitted(a)
                a.start("p1"); a.start("p2"); yield
                a.end("p2")
                yield idle
                ps = {i: w.server.processes[i] for i in ("p1", "p2", "q")}
                ups = {i: Updates(w, p) for i, p in ps.items()} if wc else {}
                yield
                lose(a.conn, how)
                yield until(lambda: a.conn.dead, 200, "notice that a connection is dead")
                t = a.conn.dead_at
                if TO > 1:
                    yield sleep(TO - 0.5)
                    w.check(all(u.over is None for u in ups.values()), "a timeout too early", repr({k: u.over for k, u in ups.items()}))
                yield sleep(1)
                for i in ps:
                    if i not in ups: ups[i] = Updates(w, ps[i])
                yield idle
                for i in ("p1", "p2"):
                    w.check(ups[i].over == "ConnectionTimeoutError", "no timeout", "%s %r" % (i, ups[i].over))
                    if wc: w.check(abs(ups[i].when - t - TO) < 0.1, "a timeout at the wrong time", "%s instead of %s" % (ups[i].when, t + TO))
                w.check(ups["q"].over is None, "a process of another agent was told of a timeout")
                w.check(set(w.server.processes) == {"q"} and set(w.server.connections) == {"B"}, "an agent or its processes are still there after the timeout", repr((list(w.server.processes), list(w.server.connections))))
                a.connect()
                yield admitted(a)
                while True:
                    yield idle
                    if not a.has_request(): break
                    a.answer()
                w.check(set(w.server.processes) == {"p1", "p2", "q"}, "a process of a returned agent is unknown")
                u = Updates(w, w.server.processes["p1"])
                a.end("p1"); yield idle
                w.check(u.over is None and u.got[-1:] == [("result", a.procs["p1"])], "a process of a returned agent is not served", "%r %r" % (u.over, u.got[-1:]))
            w.actor("A", agent())
        return fn
    for t in (0, 0.25, 1, 3600):
        for how in hows:
            for wc in (True, False): out.append(Scenario("other timeouts#%s,%s,%s" % (t, how, wc), other_timeouts(t, how, wc), bound=1, dbound=2))
    return out

#-------------------------------------------------------------------------------
# Q04: the choice of a connection.

class Starts:
    """Watches requests to start processes: where they go, and that those that fail had to."""
    def __init__(self, w, agents):
        self.w, self.agents = w, agents
        self.calls = []
        w.quiet_checks.append(self.quiet)
        self.last_eligible = {}      # group -> last time an eligible connection was seen
        self.first_eligible = {}
        self.hist = []               # (time, group -> eligible conn IDs)
    def eligible(self, group):
        """Agents that are registered, open, active, as far as the server can know."""
        l = []
        for a in self.agents:
            live = [c for c in a.conns if c.reg_no is not None]
            if a.group == group and live and not live[-1].dead and live[-1].close_sent is None and live[-1].close_rcvd is None and a.state == "active": l.append(a)
        return l
    def quiet(self):
        self.hist.append((self.w.loop.vt, {g: {a.conn_id for a in self.eligible(g)} for g in {a.group for a in self.agents} | {"default"}}))
        for c in self.calls: self.check(c)
    def start(self, id, group="default", timeout=0, spec=None, what="request_start"):
        spec = spec or {"argv": ["/bin/true", id]}
        kw = dict(conn_timeout=timeout)
        if group is not None: kw["group_id"] = group
        u = self.w.call(getattr(self.w.server, what)(id, spec, **kw), "%s(%s, %s, %s)" % (what, id, group, timeout))
        u.id, u.group, u.timeout, u.spec, u.checked = id, group or "default", timeout, spec, False
        # What was eligible at some moment since the call.
        self.calls.append(u)
        return u
    def requests(self, id):
        return [(c, m) for a in self.agents for c, m, t in a.requests if m["type"] == "ProcStartRequest" and id in m["specs"]]
    def check(self, u):
        w = self.w
        req = self.requests(u.id)
        w.check(len(req) <= 1, "a process was started twice", u.id)
        for c, m in req:
            w.check(c.agent.group == u.group, "a process was started in another group", "%s on %s" % (u.id, c.name))
            w.check(m["specs"] == {u.id: u.spec}, "a process was started with another spec", repr(m))
        if not u.done:
            # Nothing to wait for?
            e = self.eligible(u.group)
            w.check(req or not e, "a process is not started though there is a connection", u.id)
            w.check(w.loop.vt <= u.t0 + u.timeout + 0.001, "no failure after the timeout", u.id)
            return
        if u.checked: return
        u.checked = True
        if u.exc is None:
            w.check(len(req) == 1, "a process was not started", u.id)
            p = u.res[0] if isinstance(u.res, tuple) else u.res
            w.check(p.proc_id == u.id and p.conn_id == req[0][0].agent.conn_id, "a process on another connection", "%s %s" % (p.proc_id, p.conn_id))
        else:
            n = type(u.exc).__name__
            if n == "NoOpenConnectionInGroup":
                w.check(not req, "a process was started in spite of failure", u.id)
                w.check(u.exc.group_id == u.group, "failure for another group", repr(u.exc.group_id))
                w.check(abs(u.t1 - u.t0 - u.timeout) < 0.01, "failure at the wrong time", "after %s instead of %s" % (u.t1 - u.t0, u.timeout))
                # At all quiet moments since there was none.
                for t, g in self.hist:
                    if u.t0 < t < u.t1 - 0.001: w.check(not g.get(u.group), "failure though there was a connection", "%s at %s" % (g, t))
            elif n == "WebSocketNotOpen": w.check(not req or True, "")
            else: w.fail("unexpected failure", repr(u.exc))

@prop
def q04(tier):
    out = []
    deep = tier == "thorough"
    # Agents in every state, then a request.
    STATES = ("active", "idling", "closed", "lost", "replaced", "reactivated", "none")
    def prepare(a, st):
        if st == "none": return
        a.connect()
        yield admitted(a)
        if st == "idling": a.shut("idling"); yield idle
        if st == "closed": a.conn.close(); yield idle
        if st == "lost": a.conn.lose(); yield idle
        if st == "replaced": a.conn.silent = True; a.connect(); yield admitted(a)
        if st == "reactivated": a.shut("idling"); yield idle; a.conn.lose(); yield idle; a.state = "active"; a.connect(); yield admitted(a)
    def states(w):
        serve(w, reconnect_timeout=500)
        l = [(STATES[w.choose(len(STATES), "state")], ("default", "other")[w.choose(2, "group")]) for _ in range(2)] + [(STATES[w.choose(len(STATES) if deep else 3, "state")], "default")]
        agents = [Agent(w, "ABC"[i], g, ip="10.0.0.%d" % i) for i, (s, g) in enumerate(l)]
        S = Starts(w, agents)
        group = ("default", "other", "empty", None)[w.choose(4 if deep else 3, "group asked for")]
        timeout = (0, 5)[w.choose(2, "timeout")]
        def user():
            for a, (s, _) in zip(agents, l): yield from prepare(a, s)
            yield idle
            w.early = False
            e = {a.conn_id for a in S.eligible(group or "default")}
            u = S.start("x", group, timeout)
            yield until(lambda: u.done, 50, "return of request_start()")
            w.check((u.exc is None) == bool(e), "a start %s" % ("failed though there was a connection" if e else "did not fail"), repr(u.exc))
            if e: w.check(u.t1 == u.t0 and S.requests("x")[0][0].agent.conn_id in e, "a process was started on an unsuitable connection")
        w.actor("user", user())
    out.append(Scenario("states of connections", states, bound=0))

    def waiting(w, timeout, events, n):
        serve(w, reconnect_timeout=500)
        agents = [Agent(w, "A"), Agent(w, "B", ip="10.0.0.2"), Agent(w, "O", "other", ip="10.0.0.3")]
        A, B, O = agents
        S = Starts(w, agents)
        def user():
            us = []
            for i in range(n):
                yield
                us.append(S.start("x%d" % i, "default", timeout))
            yield until(lambda: all(u.done for u in us), 60, "return of request_start()")
            yield idle
        def agent():
            for t, what in events:
                if t: yield sleep(t)
                else: yield
                a = {"A": A, "B": B, "O": O}[what[0]]
                k = what[1:]
                if k == "+": a.connect(); yield admitted(a)
                elif k == "-": a.conn.lose()
                elif k == "c": a.conn.close()
                elif k == "i": a.shut("idling")
                elif k == "I":
                    # It comes when it is already shutting down.
                    a.state = "idling"; a.connect(); yield admitted(a)
                elif k == "r": a.state = "active"; a.connect(); yield admitted(a)
        w.actor("user", user()); w.actor("agents", agent())
    for timeout in (0, 5):
        for ev in (((4.9, "A+"),), ((5.1, "A+"),), ((1, "O+"), (1, "B+")), ((1, "AI"), (1, "Oi" if False else "O+"), (1, "Ar")), ((0, "A+"), (0, "A-")), ((0, "A+"), (0, "Ac"), (1, "A+")),
                ((0, "A+"), (0, "Ai"), (0, "B+")), ((0, "A+"), (0, "B+"), (0, "A-")), ((2, "AI"), (2, "A-"), (2, "Ar")), ((0, "A+"), (0, "A+"), (0, "A-")), ((5, "A+"),), ((0, "A+"), (5, "A-"))):
            for n in (1, 2):
                out.append(Scenario("waiting for a connection#%s,%s,%s" % (timeout, ev, n), (lambda *k: lambda w: waiting(w, *k))(timeout, ev, n), bound=3 if n == 1 else 2, dbound=4 if n == 1 else 3))

    def reconnect(w, timeout, ev, known):
        # Attaching to a process waits for its connection likewise.
        serve(w, reconnect_timeout=500)
        A, B = agents = [Agent(w, "A"), Agent(w, "B", ip="10.0.0.2")]
        A.procs["p"] = result(pid=7); A.n = 10
        def go():
            if known:
                A.connect(); yield admitted(A); yield idle
                A.conn.lose(); yield idle
            up = lambda: A.conn is not None and A.conn.registered and not A.conn.dead and A.conn.close_sent is None
            pre = ev == "up"
            B.connect(); yield admitted(B)
            if pre: A.connect(); yield admitted(A); yield idle
            t0 = w.loop.vt
            pid = "q" if known == "unknown" else "p"
            u = w.call(w.server.reconnect("A", pid, conn_timeout=timeout), "reconnect")
            if ev not in ("up", None):
                yield sleep(ev)
                A.connect()
            yield until(lambda: u.done, 30, "return of reconnect()")
            ok = ev == "up" or (ev is not None and ev < timeout)
            if ev == timeout: ok = u.exc is None
            if ok:
                w.check(u.exc is None, "no attachment though the agent is there", repr(u.exc))
                w.check(u.res is not None and u.res.proc_id == pid and u.res.conn_id == "A", "attached to something else")
                w.check(w.server.processes[pid] is u.res, "attached to an unknown process")
                x = Updates(w, u.res)
                if known == "unknown":
                    # The agent does not know it, or it gets to, later.
                    yield admitted(A)
                    while A.has_request(): A.answer()
                    if w.choose(2, "agent"): A.procs["q"] = result(pid=9)
                    r = w.call(u.res.request_result(), "request_result")
                    yield until(lambda: A.has_request(), 10, "a request")
                    A.answer(); yield idle
                    if "q" in A.procs: w.check(x.over is None and x.got == [("result", A.procs["q"])], "an attached process is not served", repr(x.got))
                    else: w.check(x.over == "ProcessUnknownError" and not x.got and "q" not in w.server.processes, "an attached process that is unknown is not known to be", "%r %r" % (x.over, x.got))
                    return
                yield admitted(A)
                while A.has_request(): A.answer()
                yield idle
                n = len(x.got)
                A.end("p", 4)
                yield idle
                w.check(x.got[n:] == [("result", A.procs["p"])], "an attached process is not served", repr(x.got))
            else:
                w.check(type(u.exc).__name__ == "NoConnectionError" and u.exc.conn_id == "A", "attached without a connection", repr(u.exc))
                w.check(abs(u.t1 - t0 - timeout) < 0.01, "failure at the wrong time", str(u.t1 - t0))
        w.actor("user", go())
    for timeout in (0, 5):
        for ev in ("up", None, 1, 4.9, 5, 5.1):
            for known in (False, True, "unknown"):
                if known == "unknown" and ev == timeout: continue
                out.append(Scenario("attaching to a process#%s,%s,%s" % (timeout, ev, known), (lambda *k: lambda w: reconnect(w, *k))(timeout, ev, known), bound=2, dbound=3))
    return out
