"""Native replay server: runs harnesses concretely against the real, unmodified code.
Each job runs in a forked child, so no state crosses jobs."""
import importlib
import os
import pickle
import select
import signal
import struct
import sys
import traceback
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read_exact(fd, n):
    out = b""
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            return None
        out += b
    return out


def send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<I", len(b)) + b
    while b:
        k = os.write(fd, b)
        b = b[k:]


def recv(fd):
    h = read_exact(fd, 4)
    if h is None:
        return None
    b = read_exact(fd, struct.unpack("<I", h)[0])
    return None if b is None else pickle.loads(b)


def plain(x):
    """observed values reduced to comparable plain data"""
    if isinstance(x, str):
        return str(x)
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, (int, float)):
        return x
    if isinstance(x, bytes):
        return x
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return {"set": sorted((plain(y) for y in x), key=repr)}
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    return "<%s>" % type(x).__name__


class JsTargetError(Exception):
    """an exception escaped from the JavaScript under analysis"""
    js_target = True


class JsDriver:
    """a node process running JavaScript scenarios on the real code"""

    def __init__(self, repo, harness):
        import subprocess
        self.args = ["node", os.path.join(HERE, "symex", "js", "driver.js"), repo, harness]
        self.p = subprocess.Popen(self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.inp, self.out = self.p.stdin.fileno(), self.p.stdout.fileno()

    def call(self, scenario, fn, inputs):
        import json
        b = (json.dumps({"scenario": scenario, "fn": fn, "inputs": inputs}) + "\n").encode()
        while b:
            b = b[os.write(self.inp, b):]
        out = b""
        while not out.endswith(b"\n"):
            x = os.read(self.out, 1 << 20)
            if not x:
                raise RuntimeError("node driver died")
            out += x
        r = json.loads(out)
        if "fail" in r:
            raise RuntimeError("node driver: " + r["fail"])
        if "thrown" in r:
            raise JsTargetError(r["thrown"])
        return r["ok"]

    def stop(self):
        try:
            self.p.kill()
            self.p.wait()
        except OSError:
            pass


JS = None


def in_target(tb, roots):
    """does the innermost frame of the traceback lie in the code under analysis?"""
    last = None
    depth = 0
    hit = False
    for f, _ in traceback.walk_tb(tb):
        fn = f.f_code.co_filename
        last = fn
        if any(fn.startswith(r) for r in roots):
            hit = True
    return hit


def run_job(job):
    from symex.ctx import NativeCtx, Violation, Skip, Assumed
    mod = importlib.import_module(job["module"])
    fn = getattr(mod, job["fn"])
    ctx = NativeCtx(job["inputs"])
    roots = job["roots"]
    res = {"status": "ok", "msg": "", "known": None}
    try:
        fn(ctx, **job["params"])
    except Violation as e:
        res["status"] = "violation"
        res["msg"] = ctx.violations[-1][0]
        res["known"] = ctx.violations[-1][1]
    except Skip as e:
        res["status"] = "skip"
        res["msg"] = str(e)
    except Assumed:
        res["status"] = "assumed"
    except BaseException as e:
        res["status"] = "exc" if getattr(e, "js_target", False) or in_target(e.__traceback__, roots) else "harness-exc"
        res["msg"] = "%s: %s" % (type(e).__name__, str(e)[:300])
        res["tb"] = traceback.format_exc()[-3000:]
    res["observed"] = [plain(o) for o in ctx.observed]
    return res


def start_js(js):
    global JS
    import symex.native
    JS = symex.native.JS = JsDriver(*js) if js else None


def serve():
    sys.dont_write_bytecode = True
    inp, out = os.dup(0), os.dup(1)
    nul = os.open(os.devnull, os.O_RDWR)
    os.dup2(nul, 0)
    os.dup2(nul, 1)
    if not os.environ.get("SYMEX_DEBUG"):
        os.dup2(nul, 2)
    sys.path.insert(0, HERE)
    cfg = recv(inp)
    for p in reversed(cfg["paths"]):
        sys.path.insert(0, p)
    for m in cfg["preload"]:
        importlib.import_module(m)
    start_js(cfg.get("js"))
    while True:
        job = recv(inp)
        if job is None:
            return
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                sys.setrecursionlimit(3000)
                res = run_job(job)
                send(w, res)
            except BaseException as e:
                try:
                    send(w, {"status": "harness-exc", "msg": "native: %r" % (e,), "observed": [], "known": None})
                except BaseException:
                    pass
            finally:
                os._exit(0)
        os.close(w)
        res = None
        deadline = time.monotonic() + job.get("timeout", 30)
        rd, _, _ = select.select([r], [], [], max(0, deadline - time.monotonic()))
        if rd:
            res = recv(r)
        else:
            res = {"status": "hang", "msg": "no termination within %ss" % job.get("timeout", 30), "observed": [], "known": None}
            if JS:
                JS.stop()
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        if res is not None and res["status"] == "hang" or JS and JS.p.poll() is not None:
            start_js(cfg.get("js"))
        if res is None:
            res = {"status": "harness-exc", "msg": "native child died", "observed": [], "known": None}
        send(out, res)


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--replay":
        # native.py --replay FILE : run one recorded counterexample against the real code
        import json
        sys.dont_write_bytecode = True
        with open(sys.argv[2]) as f:
            job = json.load(f)
        sys.path.insert(0, HERE)
        for p in reversed(job["paths"]):
            sys.path.insert(0, p)
        start_js(job.get("js"))
        res = run_job(job)
        if JS:
            JS.stop()
        print(json.dumps(res, indent=1, default=repr))
        sys.exit(1 if res["status"] in ("violation", "exc") else 0)
    serve()
