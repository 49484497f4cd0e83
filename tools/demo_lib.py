"""Runs procstar for a demonstration.  All effects stay in a scratch directory."""
import base64, http.client, json, os, shutil, signal, socket, subprocess, sys, tempfile, time

EXE = os.path.join(os.getcwd(), "target/debug/procstar")
TMP = tempfile.mkdtemp(prefix="demo-")
_running = []

def port():
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]

class Procstar:
    def __init__(self, *args, serve=True, stdin=None, env=None, **kw):
        self.port = port()
        argv = [EXE] + (["--serve", "--serve-port", str(self.port)] if serve else []) + list(args)
        self.proc = subprocess.Popen(argv, cwd=TMP, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
            env=None if env is None else dict(os.environ, **env), start_new_session=True, **kw)
        _running.append(self)
        if stdin is not None:
            self.proc.stdin.write(json.dumps(stdin).encode())
            self.proc.stdin.close()
        if serve:
            until(self.up, "procstar does not come up")
    def up(self):
        try:
            return self.ask("GET", "/procs")[0] == 200
        except OSError:
            return False
    def ask(self, method, path, body=None):
        c = http.client.HTTPConnection("127.0.0.1", self.port, timeout=20)
        c.request(method, path, None if body is None else json.dumps(body), {} if body is None else {"Content-Type": "application/json"})
        r = c.getresponse()
        d = r.read()
        c.close()
        try:
            return r.status, json.loads(d)
        except ValueError:
            return r.status, d
    def start(self, **specs):
        s, d = self.ask("POST", "/procs", {"specs": specs})
        assert s == 200, (s, d)
    def res(self, i):
        s, d = self.ask("GET", "/procs/" + i)
        return d["data"]["procs"][i] if s == 200 else None
    def wait(self, i, state="terminated", secs=10):
        until(lambda: self.res(i)["state"] == state, f"{i} is not reported as {state}", secs)
        return self.res(i)

def until(f, what, secs=10):
    end = time.time() + secs
    while time.time() < end:
        if f():
            return
        time.sleep(0.02)
    raise AssertionError(what)

def sh(cmd, **fds):
    names = {"stdin": "stdin", "stdout": "stdout", "stderr": "stderr"}
    return {"exe": "/bin/sh", "argv": ["sh", "-c", cmd], "fds": [[names.get(k, k.lstrip("f")), v] for k, v in fds.items()]}

def mem(enc=None, attached=True):
    return {"capture": {"mode": "memory", "encoding": enc, "attached": attached}}

def tmpfile(enc=None, attached=True):
    return {"capture": {"mode": "tempfile", "encoding": enc, "attached": attached}}

def data(fd):
    return fd["text"].encode() if "text" in fd else base64.b64decode(fd["data"])

def run(main):
    rc = 1
    try:
        main()
        rc = 0
        print("OK")
    except BaseException as e:
        print("FAILED:", type(e).__name__, e)
    finally:
        for p in _running:
            # Procstar's own children are in sessions of their own.
            try:
                kids = open(f"/proc/{p.proc.pid}/task/{p.proc.pid}/children").read().split()
            except OSError:
                kids = []
            for k in kids:
                try:
                    os.kill(int(k), signal.SIGKILL)
                except OSError:
                    pass
            p.proc.kill()
            p.proc.wait()
        shutil.rmtree(TMP, ignore_errors=True)
    sys.exit(rc)
