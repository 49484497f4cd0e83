"""Processes: updates, start and deletion, reconciliation, malformed messages."""
from sim import *
from common import *
from q_conn import Registry, admitted, lose, LOSSES

PROPS = {}
def prop(f):
    PROPS[f.__name__.upper()] = f
    return f

def told(agent, id):
    """All updates of a process that an agent has sent, in order, up to the first terminal one; and that one."""
    l, over = [], None
    for c in agent.conns:
        if c.reg_no is None: continue
        for m in c.sent:
            t = m["type"]
            if m.get("proc_id") != id: continue
            if t in ("ProcResult", "ProcFdData"): l.append(expected(m))
            elif t == "ProcDelete": return l, "end"
            elif t == "ProcUnknown": return l, "ProcessUnknownError"
    return l, over

def check_updates(w, u, agent, exact=True):
    l, over = told(agent, u.proc.proc_id)
    w.check(u.got == l[: len(u.got)], "updates that were not sent, or not in this order", "%r\nsent %r" % (u.got, l))
    if exact:
        w.check(u.got == l, "updates are missing", "%r\nsent %r" % (u.got, l))
        w.check(u.over == over, "the updates %s" % ("do not end" if over else "ended"), "%r instead of %r" % (u.over, over))

#-------------------------------------------------------------------------------

@prop
def q05(tier):
    out = []
    deep = tier == "thorough"

    def script(a, ids, ops):
        """An agent's messages about its processes."""
        for op in ops:
            id, k = ids[int(op[0])], op[1]
            if k == "s": a.start(id)
            elif k == "e": a.end(id, 1)
            elif k == "d": a.delete(id)
            elif k == "r": a.notify(dict(type="ProcResult", proc_id=id, res=a.res(id)))
            elif k == "f":
                a.n += 1
                a.notify(dict(type="ProcFdData", proc_id=id, fd="stdout", start=a.n, stop=a.n + 3, encoding=None, data=b"%03d" % a.n))
            elif k == "l": a.notify(dict(type="ProcidList", proc_ids=sorted(a.procs)))
            elif k == "u": a.procs.pop(id, None); a.notify(dict(type="ProcUnknown", proc_id=id))
            yield

    def routing(opsA, opsB, when):
        def fn(w):
            serve(w, reconnect_timeout=500)
            A, B = Agent(w, "A"), Agent(w, "B", ip="10.0.0.2")
            idsA, idsB = ["a0", "a1"], ["b0", "b1"]
            ups = {}
            def agent(a, ids, ops):
                a.connect()
                yield admitted(a)
                yield from script(a, ids, ops)
            def user(id, k):
                if when == "early": 
                    yield until(lambda: id in w.server.processes, 15, "process " + id, soft=True)
                    if id not in w.server.processes: return
                else:
                    p = [None]
                    def there():
                        if id in w.server.processes: p[0] = w.server.processes[id]
                        return p[0] is not None
                    yield until(there, 15, "process " + id, soft=True)
                    if p[0] is None: return
                    yield until(lambda: len(told(A if id[0] == "a" else B, id)[0]) > k, 15, "results", soft=True)
                    ups[id] = Updates(w, p[0])
                    return
                ups[id] = Updates(w, w.server.processes[id])
            w.actor("A", agent(A, idsA, opsA)); w.actor("B", agent(B, idsB, opsB))
            for i, id in enumerate(idsA + idsB):
                ops = opsA if id[0] == "a" else opsB
                if any(o[0] == id[1] and o[1] == "s" for o in ops): w.actor("user of " + id, user(id, min(i, sum(o[0] == id[1] and o[1] in "serf" for o in ops) - 1)))
            def fin():
                for id, u in ups.items(): check_updates(w, u, A if id[0] == "a" else B)
                have = {i: p.conn_id for i, p in w.server.processes.items()}
                w.check(have == {i: a.conn_id for a in (A, B) for i in a.procs}, "processes are not those of the agents", repr(have))
                w.check(len(w.server.processes) == len(have) and all(w.server.processes[i].proc_id == i for i in have), "the mapping of processes is inconsistent")
            return fin
        return fn
    S = (("0s 0e 0d", "0s 0f 0r 0e"), ("0s 1s 0f 1f 0e 1e 1d 0d", "0s 0e"), ("0s 0f 0f 0r 0f 0e 0r 0f 0d", "0s 1s 1e 0e 1d 0d"), ("0s 1s l 0u 1e" .replace(" l ", " 0l "), "0s 0l 0l 0d".replace(" 0d", " 0e 0d")), ("0s 1s 0e 0u 1r 1u", "0s"))
    for i, (x, y) in enumerate(S):
        for when in ("early", "late"):
            out.append(Scenario("routing#%d,%s" % (i, when), routing(x.split(), y.split(), when), bound=2 if i == 0 else 1, dbound=2))

    IDS = ("p", "", "a b", "ü☃", "../x", "x" * 3000, "0", "None", "\n", "proc_id")
    DATA = (b"", b"x", bytes(range(256)), "ü☃".encode(), b"\xff\xfe\x00", b"y" * 70000, b"z" * 3000000)
    def content(w):
        # Whatever is in them.
        serve(w)
        A = Agent(w, "A")
        id = IDS[w.choose(len(IDS), "ID")]
        data = DATA[w.choose(len(DATA), "data")]
        enc = (None, "utf-8")[w.choose(2, "encoding")]
        fd = ("stdout", "stderr", "3")[w.choose(3, "fd")]
        start = (0, 5, 2 ** 40)[w.choose(3, "start")]
        def agent():
            A.connect()
            yield admitted(A)
            A.procs[id] = None
            A.start(id, errors=["e1", "ü\n"], fds={"stdout": {"type": "memory", "data": data[:50]}, "3": None}, extra={"deep": [1, {"x": None, "y": [2.5, True]}], "empty": {}})
            yield idle
            u = Updates(w, w.server.processes[id])
            A.notify(dict(type="ProcFdData", proc_id=id, fd=fd, start=start, stop=start + len(data), encoding=enc, data=data))
            yield idle
            A.end(id, 255)
            yield idle
            check_updates(w, u, A)
            # What the server adds.
            y = [x for x in [u]][0]
            A.delete(id)
            yield idle
            check_updates(w, u, A)
        w.actor("A", agent())
        w.early = False
    out.append(Scenario("content", content, bound=0))

    def info(w):
        # Each result has where it is from.
        serve(w)
        agents = [Agent(w, i, g, ip="10.0.0.%d" % k) for k, (i, g) in enumerate((("A", "default"), ("B", "other")))]
        seen = []
        def go():
            for a in agents:
                a.connect()
                yield admitted(a)
                a.start("p" + a.conn_id)
                yield idle
                p = w.server.processes["p" + a.conn_id]
                x = w.call(p.updates.__anext__(), "next update")
                yield idle
                r = x.res
                w.check(r.procstar.conn.conn_id == a.conn_id and r.procstar.conn.group_id == a.group and str(r.procstar.socket.address) == a.ip and r.procstar.proc.hostname == "h", "a result from elsewhere")
                w.check(p.conn_id == a.conn_id and p.proc_id == "p" + a.conn_id, "a process of another connection")
        w.actor("A", go())
    out.append(Scenario("origin", info, bound=1))

    def patience(ops, waits):
        def fn(w):
            # A wait for an update that times out, or is cancelled, loses nothing.
            serve(w)
            A = Agent(w, "A")
            got = []
            state = dict(over=None)
            def agent():
                A.connect()
                yield admitted(A)
                A.start("p")
                for op in ops:
                    yield sleep(1)
                    if op == "f":
                        A.n += 1
                        A.notify(dict(type="ProcFdData", proc_id="p", fd="stdout", start=A.n, stop=A.n + 3, encoding=None, data=b"%03d" % A.n))
                    if op == "e": A.end("p")
                    if op == "d": A.delete("p")
            def user():
                yield until(lambda: "p" in w.server.processes, 50, "the process")
                p = w.server.processes["p"]
                async def wait(t):
                    try: got.append(norm(await asyncio.wait_for(anext(p.updates), t)))
                    except TimeoutError: pass
                    except StopAsyncIteration: state["over"] = "end"
                async def plain():
                    try: got.append(norm(await anext(p.updates)))
                    except StopAsyncIteration: state["over"] = "end"
                for t in waits:
                    if t == "cancel":
                        c = w.call(plain(), "wait for an update")
                        yield sleep(0.5)
                        c.task.cancel()
                        yield until(lambda: c.done, 5, "cancellation")
                    else:
                        c = w.call(wait(t), "wait %s for an update" % t)
                        yield until(lambda: c.done, 50, "timeout")
                yield sleep(60)
                for _ in range(20):
                    if state["over"]: break
                    c = w.call(plain(), "wait for an update")
                    yield idle
                    if not c.done: break
                l, over = told(A, "p")
                # Cancelling at the moment it arrives may lose it; a timeout must not.
                w.check(got == l, "updates are missing", "%r\nsent %r" % (got, l))
                w.check(state["over"] == over, "the updates %s" % ("do not end" if over else "ended"))
            w.actor("A", agent()); w.actor("user", user())
        return fn
    for ops in ("fe", "fed", "ed", "ffffe"):
        for waits in ((0.3,) * 4, (0.3, 0.9, 2.5, 0.3), ("cancel", "cancel"), (0.5, "cancel", 0.7, "cancel")):
            out.append(Scenario("patience#%s,%s" % (ops, waits), patience(ops, waits), bound=0 if "cancel" in waits else 1))

    def across(w):
        # Updates go on across connections, in order.
        serve(w, reconnect_timeout=50)
        A = Agent(w, "A")
        h1 = LOSSES[w.choose(len(LOSSES), "loss")]
        ups = []
        def agent():
            A.connect()
            yield admitted(A)
            A.start("p")
            yield
            A.n += 1
            A.notify(dict(type="ProcFdData", proc_id="p", fd="stdout", start=0, stop=3, encoding=None, data=b"123"))
            if h1 in ("reset", "garbage", "text", "frame"): yield idle        # what is on its way may be lost
            else: yield
            lose(A.conn, h1)
            yield sleep(1)
            A.connect()
            yield admitted(A)
            yield
            A.end("p")
            yield
            A.delete("p")
        def user():
            yield until(lambda: "p" in w.server.processes, 50, "the process")
            ups.append(Updates(w, w.server.processes["p"]))
            yield from A.serving(1)
        w.actor("A", agent()); w.actor("user", user())
        def fin():
            # The answer to the server's own request may come at any point.
            check_updates(w, ups[0], A)
        return fin
    out.append(Scenario("across connections", across, bound=2, dbound=3))
    return out

#-------------------------------------------------------------------------------

class Calls:
    """What the user's calls must come to."""
    def __init__(self, w, agents):
        self.w, self.agents = w, agents
    def conn_of(self, id): return [a for a in self.agents if id in a.procs]

def expected_processes(w, agents, sig="processes are not those of the agents"):
    have = {i: p.conn_id for i, p in w.server.processes.items()}
    want = {i: a.conn_id for a in agents for i in a.procs}
    w.check(have == want, sig, "%r instead of %r" % (have, want))

@prop
def q06(tier):
    out = []
    deep = tier == "thorough"
    ARG = {"argv": ["/bin/true"]}

    def start_one(end, stall, dup, spec_ok, what):
        def fn(w):
            # One start and what may come in between.
            serve(w, reconnect_timeout=40)
            A = Agent(w, "A")
            Registry(w, 40, [A])
            st = {}
            def agent():
                A.connect()
                yield admitted(A)
                if dup:
                    A.start("x"); yield idle
                    st["old"] = Updates(w, w.server.processes["x"])
                    yield idle
                st["ready"] = True
                if stall: A.conn.stall(); yield; yield; A.conn.unstall()
                if end == "before": yield; lose(A.conn, stall or "reset"); yield; A.connect(); yield admitted(A)
                yield from A.serving(3)
            def user():
                yield until(lambda: st.get("ready"), 50, "readiness")
                spec = ARG if spec_ok else {"args": "?"}
                st["u"] = u = w.call(getattr(w.server, what)("x", spec, conn_timeout=5), "%s(x)" % what)
                yield until(lambda: u.done or (what == "request_start" and False), 100, "return of " + what)
                yield sleep(1)
                while A.has_request(): A.answer(); yield idle
                req = [r for r in A.requests if r[1]["type"] == "ProcStartRequest"]
                if dup:
                    w.check(u.exc is not None, "a process ID in use was accepted")
                    o = st["old"]
                    w.check(o.over is None, "a start with an ID in use ended the updates of the process that has it", repr(o.over))
                    w.check(w.server.processes["x"] is o.proc, "a start with an ID in use replaced the process that has it")
                    A.end("x"); yield idle
                    w.check(o.got[-1:] == [("result", A.procs["x"])], "a start with an ID in use cut off the process that has it", repr(o.got[-1:]))
                    return
                if u.exc is None:
                    p = u.res if what == "request_start" else u.res[0]
                    if what == "start":
                        w.check(spec_ok, "a failed start succeeded")
                        w.check(norm(u.res[1]) == told(A, "x")[0][0], "not the initial result", repr(norm(u.res[1])))
                    up = Updates(w, p)
                    yield idle
                    if not spec_ok:
                        w.check(up.over == "AgentMessageError", "no error for a failed start", repr(up.over))
                        expected_processes(w, [A])
                        # The ID may be used again.
                        u2 = w.call(w.server.start("x", ARG, conn_timeout=5), "start(x) again")
                        yield until(lambda: A.has_request() or u2.done, 10, "the second request")
                        if A.has_request(): A.answer()
                        yield until(lambda: u2.done, 10, "return of start")
                        w.check(u2.exc is None and u2.res[1].state == "running", "an ID cannot be used again after a failed start", repr(u2.exc))
                        return
                    w.check(w.server.processes["x"] is p, "a started process is not among the processes")
                    A.end("x"); yield idle
                    A.delete("x"); yield idle
                    l, over = told(A, "x")
                    w.check(([norm(u.res[1])] if what == "start" else []) + up.got == l and up.over == over, "wrong updates of a started process", "%r %r\nsent %r" % (up.got, up.over, l))
                else:
                    n = type(u.exc).__name__
                    lost = A.conns[0].dead
                    if n == "AgentMessageError": w.check(not spec_ok, "an error without reason", repr(u.exc))
                    elif n in ("WebSocketNotOpen", "NoOpenConnectionInGroup", "ProcessUnknownError"): w.check(lost, "a start failed without reason", repr(u.exc))
                    else: w.fail("unexpected failure", repr(u.exc))
                    if n == "ProcessUnknownError": w.check("x" not in A.procs, "unknown though the agent has it")
                yield sleep(1)
                while A.has_request(): A.answer(); yield idle
                yield idle
                expected_processes(w, [A])
            w.actor("A", agent()); w.actor("user", user())
        return fn
    for what in ("start", "request_start"):
        for stall in (None, "stall"):
            for dup in (False, True):
                for ok in (True, False):
                    if dup and not ok: continue
                    out.append(Scenario("start#%s,%s,%s,%s" % (what, stall, dup, ok), start_one("", stall, dup, ok, what), bound=2, dbound=4))
        for how in ("reset", "cancel"):
            for n in (1, 3): out.append(Scenario("failed starts#%s,%s,%d" % (what, how, n), failed_start(what, how, n), bound=1, dbound=2))
        for how in ("reset", "close", "eof", "error"):
            out.append(Scenario("start and lost connection#%s,%s" % (what, how), start_one("before", how, False, True, what) if False else lost_start(what, how), bound=3, dbound=5))

    def pair(ops, running):
        def fn(w):
            # Requests about one process, at once; the answers in between.
            serve(w, reconnect_timeout=40)
            A, B = Agent(w, "A"), Agent(w, "B", "other", ip="10.0.0.2")
            st = {}
            def agent():
                B.connect(); yield admitted(B); B.start("y"); yield idle
                st["y"] = Updates(w, w.server.processes["y"])
                A.connect()
                yield admitted(A)
                A.start("x"); A.start("z")
                if not running: A.end("x")
                yield idle
                st["p"] = w.server.processes["x"]
                st["z"] = Updates(w, w.server.processes["z"])
                yield from A.serving(6)
            def user(k, op):
                yield until(lambda: "p" in st and "z" in st, 50, "the process")
                p = st["p"]
                if op == "delete": c = p.delete()
                elif op == "request_delete": c = p.request_delete()
                elif op == "result": c = p.request_result()
                elif op == "fd": c = p.request_fd_data("stdout")
                elif op == "signal": c = p.send_signal(15)
                elif op == "updates": st["x"] = Updates(w, p); return
                st[k] = u = w.call(c, op)
            def end():
                yield until(lambda: all(k in st for k in range(len(ops)) if ops[k] != "updates"), 50, "all calls")
                yield sleep(3)
                while A.has_request(): A.answer(); yield idle
                yield sleep(3)
                w.check(A.conn.registered and not A.conn.dead and A.conn.close_rcvd is None, "a request ended the connection", repr(ops))
                deleted = any(m["type"] == "ProcDelete" for m in A.conn.sent)
                for k, op in enumerate(ops):
                    if op == "updates": continue
                    u = st[k]
                    if op == "delete":
                        err = [m for m in A.conn.sent if m["type"] == "RequestError"]
                        if deleted and not err and "updates" not in ops and ops.count("delete") == 1: w.check(u.done and u.exc is None, "delete() fails or does not return though the process is deleted", repr(u.exc))
                        elif deleted: w.check(u.done, "delete() does not return though the process is deleted")
                        if deleted and "updates" in ops and not err: w.check(u.exc is None or type(u.exc).__name__ == "ProcessUnknownError", "delete() fails though the process is deleted", repr(u.exc))
                    else: w.check(u.done and u.exc is None, "a request fails", repr(u.exc))
                if "delete" not in ops and "x" in st and not (running and any("delete" in o for o in ops)):
                    err = [m for m in A.conn.sent if m["type"] == "RequestError"]
                    if not err: check_updates(w, st["x"], A)
                if "x" in st and deleted: w.check(st["x"].over is not None, "the updates of a deleted process do not end")
                expected_processes(w, [A, B])
                A.end("z"); B.end("y"); yield idle
                check_updates(w, st["z"], A); check_updates(w, st["y"], B)
            w.actor("agent", agent())
            for k, op in enumerate(ops): w.actor("user %d" % k, user(k, op))
            w.actor("end", end())
        return fn
    OPS = ("delete", "request_delete", "result", "fd", "signal", "updates")
    for i, a in enumerate(OPS):
        for b in OPS[i:]:
            if a == b == "updates": continue
            for running in (False, True):
                out.append(Scenario("two requests#%s,%s,%s" % (a, b, running), pair((a, b), running), bound=2 if "delete" in (a, b) and not running else 1, dbound=3))
    for ops in (("delete", "updates", "result"), ("request_delete", "result", "updates"), ("signal", "delete", "updates"), ("delete", "delete", "updates")):
        out.append(Scenario("three requests#%s" % (ops,), pair(ops, False), bound=1, dbound=2))

    def errors(w):
        # A request that fails is reported, and all else goes on.
        serve(w)
        A = Agent(w, "A")
        op = ("signal", "delete", "fd")[w.choose(3, "request")]
        def go():
            A.connect()
            yield admitted(A)
            A.start("x")
            if op == "signal": A.end("x")
            yield idle
            p = w.server.processes["x"]
            u = Updates(w, p)
            yield idle
            c = w.call({"signal": lambda: p.send_signal(15), "delete": p.request_delete, "fd": lambda: p.request_fd_data("nope")}[op](), op)
            yield until(A.has_request, 10, "the request")
            if op == "fd":
                m = A.conn.inbox.pop(0)
                A.conn.tell(dict(type="RequestError", msg=m, err="no such fd"))
            else: A.answer()
            yield idle
            w.check(u.over == "AgentMessageError", "a failed request is not reported", repr(u.over))
            told_err = [m["err"] for m in A.conn.sent if m["type"] == "RequestError"][-1]
            w.check(u.exc.err == told_err and told_err in str(u.exc), "an error is not the agent's", repr(u.exc))
            w.check(A.conn.close_rcvd is None and "x" in w.server.processes, "a failed request did harm")
            # The process goes on, and so do its updates.
            if op != "signal": A.end("x")
            else: A.notify(dict(type="ProcResult", proc_id="x", res=A.res("x")))
            u2 = Updates(w, w.server.processes["x"])
            yield idle
            w.check(u2.got == [("result", A.procs["x"])] and u2.over is None, "no more updates after a failed request", "%r %r" % (u2.got, u2.over))
            A.delete("x")
            yield idle
            w.check(u2.over == "end", "no end of the updates after a failed request", repr(u2.over))
        w.actor("A", go())
    out.append(Scenario("failed requests", errors, bound=1, dbound=3))

    def offline(w):
        # Requests while the connection is down fail, or are left out; nothing is sent.
        serve(w, reconnect_timeout=100)
        A = Agent(w, "A")
        op = ("signal", "request_delete", "delete", "result", "fd", "start")[w.choose(6, "request")]
        def go():
            A.connect()
            yield admitted(A)
            A.start("x")
            yield idle
            p = w.server.processes["x"]
            A.conn.lose()
            yield idle
            c = w.call({"signal": lambda: p.send_signal(15), "request_delete": p.request_delete, "delete": p.delete, "result": p.request_result, "fd": lambda: p.request_fd_data("stdout"), "start": lambda: w.server.request_start("n", ARG)}[op](), op)
            yield idle
            yield sleep(0.1)
            w.check(c.done, "a request without a connection hangs")
            if op in ("result", "fd"): w.check(c.exc is None, "an optional request fails", repr(c.exc))
            else: w.check(type(c.exc).__name__ in ("WebSocketNotOpen", "NotConnectedError", "NoOpenConnectionInGroup"), "a request without a connection does not fail", repr(c.exc))
            A.connect()
            yield admitted(A)
            u = Updates(w, p)
            yield from A.serving(1)
            yield idle
            w.check(u.over is None and u.got[-1:] == [("result", A.procs["x"])], "a process is not served after reconnection")
            expected_processes(w, [A])
        w.actor("A", go())
    out.append(Scenario("requests without a connection", offline, bound=2, dbound=3))

    def blocked(w):
        # The agent does not read; then the connection ends in some way.
        serve(w, reconnect_timeout=100)
        A = Agent(w, "A")
        how = ("unstall", "reset", "close", "eof")[w.choose(4, "end")]
        op = ("signal", "request_delete", "result", "fd", "start")[w.choose(5, "request")]
        def go():
            A.connect()
            yield admitted(A)
            A.start("x")
            yield idle
            p = w.server.processes["x"]
            A.conn.stall()
            big = {"argv": ["/bin/echo", "x" * 200000]}
            f = w.call(w.server.request_start("big", big), "request_start(big)")
            yield idle
            c = w.call({"signal": lambda: p.send_signal(15), "request_delete": p.request_delete, "result": p.request_result, "fd": lambda: p.request_fd_data("stdout"), "start": lambda: w.server.request_start("n", ARG)}[op](), op)
            yield idle
            if how == "unstall": A.conn.unstall()
            else: lose(A.conn, how)
            yield sleep(30)
            w.check(f.done and c.done, "a request on a lost connection hangs")
            for u in (f, c):
                if how == "unstall": w.check(u.exc is None, "a request fails", repr(u.exc))
                else: w.check(u.exc is None or type(u.exc).__name__ in ("WebSocketNotOpen", "NotConnectedError", "NoOpenConnectionInGroup"), "a request on a lost connection fails in an unexpected way", repr(u.exc))
            if how != "unstall":
                if not A.conn.dead: A.conn.lose(); yield idle
                A.connect()
                yield admitted(A)
            yield idle
            while A.has_request(): A.answer(); yield idle
            yield idle
            expected_processes(w, [A])
        w.actor("A", go())
    out.append(Scenario("an agent that does not read", blocked, bound=2, dbound=3))
    return out

def failed_start(what, how, n):
    def fn(w):
        # Starts that cannot be sent, and the same IDs again, elsewhere.
        serve(w, reconnect_timeout=40)
        A, B = Agent(w, "A"), Agent(w, "B", ip="10.0.0.2")
        Registry(w, 40, [A, B])
        ids = ["x", "y", "z"][:n]
        spec = {"argv": ["/bin/echo", "x" * 100000]}      # more than the transport holds
        def go():
            A.connect()
            yield admitted(A)
            A.start("o"); yield idle
            o = Updates(w, w.server.processes["o"])
            A.conn.stall()
            us = {}
            for i in ids:
                us[i] = w.call(getattr(w.server, what)(i, spec), "%s(%s)" % (what, i))
                yield
            yield idle
            w.check(not any(u.done for u in us.values()), "a start returns though it cannot have been sent")
            if how == "cancel":
                for i in ids:
                    us[i].task.cancel(); yield
            else: lose(A.conn, how)
            yield sleep(15)
            for i in ids:
                w.check(us[i].done, "a start does not return", i)
                w.check(us[i].exc is not None, "a start that could not be sent succeeds", i)
                if how != "cancel": w.check(type(us[i].exc).__name__ in ("WebSocketNotOpen", "NotConnectedError"), "unexpected failure", repr(us[i].exc))
                w.check(i not in w.server.processes, "a start failed, but its process is there", i)
            w.check(o.over is None and w.server.processes["o"] is o.proc, "a failed start disturbs another process")
            if how == "cancel": A.conn.lose(); yield idle
            # The same IDs, on another agent.
            B.connect()
            yield admitted(B)
            again = {}
            for i in ids:
                again[i] = w.call(w.server.start(i, {"argv": ["/bin/true"]}), "start(%s)" % i)
                yield until(lambda: B.has_request() or again[i].done, 10, "a request")
                B.answer()
                yield idle
                w.check(again[i].done and again[i].exc is None, "an ID cannot be used again after a failed start", "%s %r" % (i, again[i].exc))
                w.check(again[i].res[0].conn_id == "B", "a process of another connection")
            A.connect()
            yield admitted(A)
            yield idle
            while A.has_request(): A.answer(); yield idle
            expected_processes(w, [A, B])
            B_ids = list(B.procs)
            for i in B_ids: B.end(i, 4)
            A.end("o"); yield idle
            for i in B_ids:
                u = Updates(w, again[i].res[0]); yield idle
                w.check(u.got[-1:] == [("result", B.procs[i])], "a process started again is not served", repr(u.got))
            check_updates(w, o, A)
        w.actor("user", go())
    return fn

def lost_start(what, how):
    def fn(w):
        # The connection is lost somewhere around a start; the agent may or may not have got it.
        serve(w, reconnect_timeout=40)
        A = Agent(w, "A")
        got_it = w.choose(3, "agent")        # 0: reads it and answers, 1: reads it, the answer is lost, 2: never gets it
        st = {}
        def agent():
            A.connect()
            yield admitted(A)
            st["ready"] = True
            if got_it in (0, 1): yield until(lambda: A.has_request() or A.conn.dead, 20, "the request")
            if got_it == 0: A.answer(); yield
            if got_it == 1 and A.conn.inbox:
                m = A.conn.inbox.pop(0)
                for i in m["specs"]: A.procs[i] = result(pid=77)
            A.conn.inbox.clear()
            lose(A.conn, how)
            yield
            yield sleep(2)
            A.connect()
            yield admitted(A)
            st["again"] = True
            yield from A.serving(2)
        def user():
            yield until(lambda: st.get("ready"), 50, "readiness")
            st["u"] = u = w.call(getattr(w.server, what)("x", {"argv": ["/bin/true"]}), "%s(x)" % what)
            yield until(lambda: st.get("again"), 50, "reconnection")
            yield sleep(2)
            while A.has_request(): A.answer(); yield idle
            yield until(lambda: u.done, 10, "return of " + what)
            if u.exc is not None:
                n = type(u.exc).__name__
                w.check(n in ("WebSocketNotOpen", "NoOpenConnectionInGroup") or (n == "ProcessUnknownError" and "x" not in A.procs), "unexpected failure", repr(u.exc))
                if n == "NoOpenConnectionInGroup": w.check("x" not in A.procs, "started but failed")
            elif what == "start": w.check(norm(u.res[1])[1]["pid"] == A.procs["x"]["pid"], "not the initial result")
            else:
                up = Updates(w, u.res)
                yield idle
                if "x" in A.procs: w.check(up.over is None and up.got[-1:] == [("result", A.procs["x"])], "a process is not served after reconnection", "%r %r" % (up.over, up.got))
                else: w.check(up.over == "ProcessUnknownError", "a process that was never started is not reported", repr(up.over))
            expected_processes(w, [A])
        w.actor("A", agent()); w.actor("user", user())
    return fn

#-------------------------------------------------------------------------------

@prop
def q07(tier):
    out = []
    deep = tier == "thorough"
    # For each process, what happens while the connection is down.
    FATES = ("runs", "ends", "deleted", "ended before", "new", "new, ends", "reused")
    def reconcile(fates, how, consume, then):
        def fn(w):
            serve(w, reconnect_timeout=100)
            A, B = Agent(w, "A"), Agent(w, "B", ip="10.0.0.2")
            Registry(w, 100, [A, B])
            ids = ["p%d" % i for i in range(len(fates))]
            ups, old = {}, {}
            def go():
                B.connect(); yield admitted(B); B.start("q"); yield idle
                ups["q"] = Updates(w, w.server.processes["q"])
                A.connect()
                yield admitted(A)
                for i, f in zip(ids, fates):
                    if not f.startswith("new"): A.start(i)
                    if f in ("deleted", "ended before", "reused"): A.end(i)
                yield idle
                for i, f in zip(ids, fates):
                    if not f.startswith("new"):
                        old[i] = w.server.processes[i]
                        if consume: ups[i] = Updates(w, old[i])
                yield idle
                sent = len(A.conn.sent)
                lose(A.conn, how)
                yield sleep(1)
                for i, f in zip(ids, fates):
                    if f in ("deleted", "reused"): A.delete(i)
                    if f in ("new", "new, ends", "reused"): A.start(i)
                    if f in ("ends", "new, ends"): A.end(i)
                yield sleep(1)
                A.connect()
                yield admitted(A)
                if then == "delete":
                    # Deleted just after the registration.
                    for i in ids:
                        if i in A.procs and A.procs[i]["state"] != "running": A.delete(i); break
                if then == "end":
                    for i in ids:
                        if i in A.procs and A.procs[i]["state"] == "running": A.end(i); break
                if then == "lost": lose(A.conn, how); yield sleep(1); A.connect(); yield admitted(A)
                yield from answers()
                yield sleep(5)
                w.check(A.conn.registered and not A.conn.dead and A.conn.close_rcvd is None, "the connection ended on reconciliation")
                expected_processes(w, [A, B])
                for i, p in old.items():
                    if i not in ups: ups[i] = Updates(w, p)
                yield idle
                for i, f in zip(ids, fates):
                    if i in A.procs:
                        p = w.server.processes[i]
                        if i in old:
                            u = ups[i]
                            w.check(p is old[i], "a process that is still there was replaced")
                            w.check(u.over is None and u.got[-1:] == [("result", A.procs[i])], "a process is not up to date after reconnection", "%s %r %r" % (i, u.over, u.got[-1:]))
                        else:
                            w.check(p.conn_id == "A", "a process on another connection")
                            u = Updates(w, p)
                            c = w.call(p.request_result(), "request_result")
                            yield until(A.has_request, 5, "the request")
                            A.answer()
                            yield idle
                            w.check(u.over is None and u.got[-1:] == [("result", A.procs[i])], "a new process is not served")
                    elif i in old:
                        u = ups[i]
                        w.check(u.over in ("ProcessUnknownError", "end"), "the updates of a process that is gone do not end", "%s %r" % (i, u.over))
                B.end("q"); yield idle
                check_updates(w, ups["q"], B)
            def answers():
                while True:
                    yield idle
                    if not A.has_request(): return
                    A.answer()
            w.actor("A", go())
        return fn
    import itertools
    for k in (1, 2, 3):
        for fates in itertools.combinations_with_replacement(FATES, k):
            if k == 3 and not deep and len(set(fates)) < 3: continue
            for how in ("reset",) if k > 1 else ("reset", "close", "eof", "error"):
                for consume in (True, False) if k < 3 else (True,):
                    for then in ("", "delete", "end", "lost"):
                        if k == 3 and then in ("lost",) and not deep: continue
                        out.append(Scenario("reconciliation#%s,%s,%s,%s" % (fates, how, consume, then), reconcile(fates, how, consume, then), bound=1 if k < 3 else 0, dbound=2 if k < 3 else 1))

    def replaced(w):
        # Reconnection while the previous connection seems open; what it still has comes first or late.
        serve(w, reconnect_timeout=100)
        A = Agent(w, "A")
        late = w.choose(2, "late notice")
        ups = []
        def go():
            A.connect()
            yield admitted(A)
            A.start("p")
            A.start("r")
            yield idle
            ups.append(Updates(w, w.server.processes["p"])); ups.append(Updates(w, w.server.processes["r"]))
            yield
            old = A.conn
            old.silent = True
            A.end("r")
            if late: A.delete("r")
            yield
            A.connect()
            yield admitted(A)
            while True:
                yield idle
                if not A.has_request(): break
                A.answer()
            yield sleep(30)
            A.end("p")
            yield idle
            w.check(ups[0].got[-1:] == [("result", A.procs["p"])] and ups[0].over is None, "a process is not served after reconnection")
            if late: w.check(ups[1].over in ("end", "ProcessUnknownError"), "the updates of a deleted process do not end", repr(ups[1].over))
            else: w.check(ups[1].got[-1:] == [("result", A.procs["r"])], "a process is not up to date after reconnection")
            expected_processes(w, [A])
        w.actor("A", go())
    out.append(Scenario("replaced connection", replaced, bound=3, dbound=4))

    def restarted(w):
        # A new server: it learns of all the processes there are.
        serve(w)
        A = Agent(w, "A")
        k = w.choose(8, "processes")
        none = w.choose(2, "list")
        def go():
            for i in range(3):
                if k >> i & 1: A.start("p%d" % i)
            if none: A.connect(proc_ids=None)
            else: A.connect()
            yield admitted(A)
            if none: A.notify(dict(type="ProcidList", proc_ids=sorted(A.procs)))
            yield idle
            expected_processes(w, [A])
            for i in list(A.procs):
                u = w.call(w.server.reconnect("A", i, conn_timeout=1), "reconnect")
                yield until(lambda: u.done, 5, "return of reconnect()")
                up = Updates(w, u.res)
                c = w.call(u.res.request_result(), "request_result")
                yield until(A.has_request, 5, "the request")
                A.answer()
                yield idle
                A.end(i); yield idle
                check_updates(w, up, A)
        w.actor("A", go())
    out.append(Scenario("a new server", restarted, bound=1, dbound=2))
    return out

#-------------------------------------------------------------------------------

def mutations():
    """Messages, each mutated in each field; and other things an agent may send."""
    base = [register("A", proc_ids=["p"]), dict(type="ProcResult", proc_id="p", res=result()), dict(type="ProcFdData", proc_id="p", fd="stdout", start=0, stop=1, encoding=None, data=b"x"),
        dict(type="ProcDelete", proc_id="d"), dict(type="ProcUnknown", proc_id="d"), dict(type="ProcidList", proc_ids=["p", "d"]), dict(type="ShutDown", shutdown_state="idling"),
        dict(type="RequestError", msg=dict(type="ProcResultRequest", proc_id="d"), err="x"), dict(type="RequestError", msg=dict(type="ProcStartRequest", specs={"d": {}}), err="x")]
    VAL = (None, 0, -1, 2 ** 63, 1.5, True, "", "zzz", b"\xff", [], [None], {}, {"a": 1}, [[]])
    for m in base:
        yield m["type"], m
        for f in list(m):
            x = dict(m); del x[f]
            yield "%s without %s" % (m["type"], f), x
            for v in VAL: yield "%s with %s=%r" % (m["type"], f, v), m | {f: v}
            if isinstance(m[f], dict):
                for g in list(m[f]):
                    y = dict(m[f]); del y[g]
                    yield "%s without %s.%s" % (m["type"], f, g), m | {f: y}
                    for v in (None, 0, [], {}): yield "%s with %s.%s=%r" % (m["type"], f, g, v), m | {f: y | {g: v}}
        yield m["type"] + " with more", m | {"more": 1}

FRAMES = (("text", 1, b"hello"), ("empty text", 1, b""), ("text not UTF-8", 1, b"\xff"), ("empty", 2, b""), ("garbage", 2, b"\xc1"), ("number", 2, b"\x07"), ("list", 2, b"\x90"), ("truncated", 2, b"\x81\xa4type"), ("trailing", 2, b"\x80\x80"),
    ("deep", 2, b"\x91" * 5000), ("huge claim", 2, b"\xdf\xff\xff\xff\xff"), ("nil keys", 2, b"\x81\xc0\xc0"), ("list keys", 2, b"\x81\x90\xc0"), ("ping", 9, b"x"), ("pong", 10, b"x"), ("opcode 3", 3, b""), ("opcode 11", 11, b""), ("long ping", 9, b"x" * 126), ("continuation", 0, b"x"), ("bad close", 8, b"\0"), ("close code", 8, b"\0\1"), ("type list", 2, b"\x81\xa4type\x90"), ("ext", 2, b"\xd4\x01\x02"), ("timestamp", 2, b"\xd6\xff\0\0\0\0"))

# Messages that are in order, if not expected.
SANE = [("result of an unknown process", dict(type="ProcResult", proc_id="new", res=result())), ("fd data of an unknown process", dict(type="ProcFdData", proc_id="new", fd="stdout", start=0, stop=1, encoding=None, data=b"x")),
    ("deletion of an unknown process", dict(type="ProcDelete", proc_id="nope")), ("unknown unknown process", dict(type="ProcUnknown", proc_id="nope")), ("empty list", dict(type="ProcidList", proc_ids=[])),
    ("error about an unknown process", dict(type="RequestError", msg=dict(type="ProcResultRequest", proc_id="nope2"), err="x")), ("error about a list request", dict(type="RequestError", msg=dict(type="ProcidListRequest"), err="x")),
    ("error about Registered", dict(type="RequestError", msg=dict(type="Registered"), err="unexpected")), ("shutdown to active", dict(type="ShutDown", shutdown_state="active"))]

@prop
def q08(tier):
    out = []
    deep = tier == "thorough"
    MUT = list(mutations())
    def one(kind, i, with_call):
        def fn(w):
            serve(w, reconnect_timeout=100)
            A, B = Agent(w, "A"), Agent(w, "B", group="gb", ip="10.0.0.2")
            ups = {}
            st = {}
            def go():
                B.connect(); yield admitted(B); B.start("q"); yield idle
                ups["q"] = Updates(w, w.server.processes["q"])
                A.connect(); yield admitted(A); A.start("p"); A.start("d"); yield idle
                ups["p"] = Updates(w, w.server.processes["p"])
                yield idle
                # Requests that no agent has answered yet.
                us = w.call(w.server.request_start("s", {"argv": ["/bin/true"]}, group_id="gb"), "request_start(s)")
                ut = w.call(w.server.request_start("t", {"argv": ["/bin/true"]}), "request_start(t)")
                yield idle
                n = len(w.changes)
                if kind == "frame":
                    name, op, data = FRAMES[i]
                    w.log(name)
                    A.conn.frame(op, data)
                elif kind == "message":
                    name, m = MUT[i]
                    w.log(name + ": " + repr(m))
                    A.conn.send(m)
                else:
                    name, m = SANE[i]
                    w.log(name)
                    A.conn.send(m)
                if with_call: yield
                B.end("q")
                yield idle
                yield sleep(25)
                w.check(B.conn.close_rcvd is None and not B.conn.dead and w.server.connections["B"].open, "a message disturbed another connection", name)
                check_updates(w, ups["q"], B)
                broken = A.conn.dead or A.conn.close_rcvd is not None
                if kind == "sane": w.check(not broken, "a message that is in order ended the connection", name)
                if kind == "frame" and FRAMES[i][0] in ("ping", "pong"): w.check(not broken, "a message that is in order ended the connection", name)
                w.check(set(w.server.connections) == {"A", "B"}, "a message changed the connections", "%s %r" % (name, set(w.server.connections)))
                w.check(w.server.connections.groups == {"default": {"A"}, "gb": {"B"}}, "a message changed the groups", repr(w.server.connections.groups))
                w.check(w.server.processes.get("s") is us.res, "a message made the server forget a process just requested of another agent", name)
                if not broken: w.check(w.server.processes.get("t") is ut.res, "a message made the server forget a process just requested", name)
                B.answer(); yield idle
                ups["s"] = Updates(w, us.res); B.end("s"); yield idle
                check_updates(w, ups["s"], B)
                if broken:
                    A.connect(); yield admitted(A)
                    while True:
                        yield idle
                        if not A.has_request(): break
                        A.answer()
                else:
                    A.answer(); yield idle
                    ups["t"] = Updates(w, ut.res); A.end("t"); yield idle
                    check_updates(w, ups["t"], A)
                # All goes on.
                if ups["p"].over is None:
                    A.end("p", 7); yield idle
                    w.check(ups["p"].got[-1:] == [("result", A.procs["p"])], "a process is not served after a message", "%s %r" % (name, ups["p"].got[-1:]))
                    A.delete("p"); yield idle
                    w.check(ups["p"].over == "end" and "p" not in w.server.processes, "a deletion is not taken after a message", name)
                A.state = "active"
                A.conn.tell(dict(type="ShutDown", shutdown_state="active"))
                yield idle
                u = w.call(w.server.start("n", {"argv": ["/bin/true"]}), "start")
                for a in (A, B):
                    yield idle
                    if a.has_request(): a.answer()
                yield idle
                w.check(u.done and u.exc is None, "nothing can be started after a message", "%s %r" % (name, u.exc))
            w.actor("A", go())
        return fn
    for i in range(len(FRAMES)): out.append(Scenario("frame#%s" % FRAMES[i][0], one("frame", i, True), bound=1, dbound=2))
    for i in range(len(MUT)): out.append(Scenario("message#%s" % MUT[i][0], one("message", i, False), bound=0 if not deep else 1))
    for i in range(len(SANE)): out.append(Scenario("message in order#%s" % SANE[i][0], one("sane", i, True), bound=1, dbound=3))

    def direct(w):
        # The decoder knows what is not a message.
        from procstar import proto
        if w.choose(2, "what") == 0:
            name, m = MUT[w.choose(len(MUT), "message")]
            data = msgpack.dumps(m)
        else:
            name, op, data = FRAMES[w.choose(len(FRAMES), "frame")]
            if op == 1: data = "text"
        try:
            t, x = proto.deserialize_message(data)
            w.check(type(x).__name__ == t, "wrong type of message")
        except proto.ProtocolError: pass
        except Exception as e: w.fail("an invalid message is not recognized as such", "%s: %r" % (name, e))
        w.actor("none", iter(()))
    out.append(Scenario("decoding", direct, bound=0))
    return out
