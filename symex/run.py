"""Explores all harnesses of one property in parallel, replays counterexamples natively,
writes evidence and prints the verdict."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import signal
import struct
import pickle
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import z3  # noqa: E402
from symex import core, values, instrument, ctx as ctxmod, snapshot, hooks  # noqa: E402
from symex.core import S  # noqa: E402
from symex.native import plain, in_target, send, recv  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOTS = [os.path.join(REPO, "gyp"), os.path.join(REPO, "lib")]
NATIVE_PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


class PathTimeout(core.EngineStop):
    pass


def _alarm(sig, frm):
    raise PathTimeout()


class Native:
    def __init__(self, cfg):
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        self.p = subprocess.Popen([NATIVE_PY, os.path.join(HERE, "symex", "native.py")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd="/")
        send(self.p.stdin.fileno(), cfg)

    def run(self, job):
        send(self.p.stdin.fileno(), job)
        r = recv(self.p.stdout.fileno())
        if r is None:
            return {"status": "harness-exc", "msg": "native server died", "observed": [], "known": None}
        return r


class Worker:
    def __init__(self, module, harnesses, tier, snap, dev):
        self.module, self.harnesses, self.tier = module, harnesses, tier
        self.snap = snap
        self.native = None
        self.dev = dev
        self.nval = {}
        self.prof_left = {}
        self.funcs = set()

    def get_native(self):
        if self.native is None:
            self.native = Native({"paths": PATHS, "preload": PRELOAD + [self.module.__name__],
                                  "js": [REPO, os.path.join(HERE, "harness")] if getattr(self.module, "JS", False) else None})
        return self.native

    def job(self, h, inputs):
        return {"module": self.module.__name__, "fn": h.fn, "params": self.params(h), "inputs": inputs,
                "roots": ROOTS, "timeout": 30}

    def params(self, h):
        return h.quick if self.tier == "quick" else h.thorough

    def _prof(self, frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(REPO) and not co.co_name.startswith("<"):
                self.funcs.add((os.path.relpath(co.co_filename, REPO), co.co_qualname))

    def one(self, hi, prefix, res):
        h = self.harnesses[hi]
        fn = getattr(self.module, h.fn)
        self.snap.restore()
        S.begin(prefix)
        S.undo = []
        c = ctxmod.SymCtx(S, values, z3)
        status, tb = "ok", None
        prof = self.prof_left.get(hi, 2) > 0
        if prof:
            self.prof_left[hi] = self.prof_left.get(hi, 2) - 1
            sys.setprofile(self._prof)
        signal.setitimer(signal.ITIMER_REAL, h.path_timeout)
        ob0 = S.stats["obligations"]
        try:
            try:
                fn(c, **self.params(h))
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                sys.setprofile(None)
        except core.Infeasible:
            status = "infeasible"
        except core.PathDone:
            status = "stopped"
        except core.SkipPath as e:
            status = "skip"
            res["skips"].append(str(e))
        except PathTimeout:
            status = "timeout"
        except core.EngineStop as e:
            status = "engine"
            tb = traceback.format_exc()[-1500:]
        except z3.Z3Exception as e:
            status = "engine"
            tb = traceback.format_exc()[-1500:]
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            status = "exc"
            tb = "".join(traceback.format_exception(e))[-3500:]
            excname = type(e).__name__
        S.active = False
        for tgt, attr, old in reversed(S.undo):
            if isinstance(tgt, dict):
                tgt[attr] = old
            elif old is ctxmod._MISSING:
                try:
                    delattr(tgt, attr)
                except AttributeError:
                    pass
            else:
                setattr(tgt, attr, old)
        st = res["stats"]
        st["paths"] += 1
        if status == "infeasible" and S.violations:
            status = "stopped"          # every value of the path violates
        if status == "infeasible":
            st["infeasible"] += 1
            return S.alts
        cands = [(m, i, k) for m, i, k in S.violations]
        needs_model = status in ("ok", "stopped", "exc", "timeout", "engine")
        inputs = None
        obs = None
        if needs_model and status != "stopped":
            m = S.model
            if m is None:
                r = S.query()
                if r != "sat":
                    if S.violations:
                        status = "stopped"
                    elif r == "unsat":
                        st["infeasible"] += 1
                        return S.alts
                    else:
                        st["inconclusive"] += 1
                        return S.alts
                else:
                    m = S.last_model
            if m is not None:
                inputs = {k: values.eval_model(v, m) for k, v in S.inputs.items()}
            if status == "ok":
                st["witnessed"] += 1
                if S.stats["obligations"] > ob0:
                    st["reached"] += 1
                obs = [plain(values.eval_model(o, m)) for o in S.observed]
        if S.truncated:
            st["truncated"] += 1
        if status in ("exc", "timeout") and inputs is not None:
            cands.append(("unexpected %s" % (excname if status == "exc" else "non-termination"), inputs, None))
        # replay candidates on the real code
        for msg, inp, kid in cands:
            r = self.get_native().run(self.job(h, inp))
            st["replays"] += 1
            if r["status"] in ("violation", "exc", "hang"):
                rec = {"harness": h.fn, "msg": r["msg"] or msg, "inputs": inp, "known": r.get("known"),
                       "status": r["status"], "tb": r.get("tb")}
                if rec["known"]:
                    res["known"].append(rec)
                else:
                    res["violations"].append(rec)
            elif r["status"] in ("harness-exc",) and status == "exc":
                # the harness could not bind to the code (e.g. changed signature)
                res["skips"].append("harness: " + r["msg"])
                st["unbound"] += 1
            elif status in ("exc", "timeout") and not S.violations:
                st["inconclusive"] += 1
                res["engine_errors"].append({"harness": h.fn, "inputs": repr(inp)[:300], "tb": tb, "native": r["status"] + " " + r["msg"]})
            else:
                res["unreproduced"].append({"harness": h.fn, "msg": msg, "inputs": inp, "native": r["status"] + " " + r["msg"]})
        if status == "engine":
            st["inconclusive"] += 1
            res["engine_errors"].append({"harness": h.fn, "inputs": repr(inputs)[:300], "tb": tb})
        if status == "ok" and not cands:
            n = self.nval.get(hi, 0)
            self.nval[hi] = n + 1
            if n % h.validate == 0:
                r = self.get_native().run(self.job(h, inputs))
                st["validated"] += 1
                if r["status"] in ("violation", "exc", "hang"):
                    # concrete run of the real code breaks the property on this path's model
                    rec = {"harness": h.fn, "msg": r["msg"], "inputs": inputs, "known": r.get("known"),
                           "status": r["status"], "tb": r.get("tb")}
                    (res["known"] if rec["known"] else res["violations"]).append(rec)
                elif r["status"] != "ok" or r["observed"] != obs:
                    st["mismatch"] += 1
                    res["mismatches"].append({"harness": h.fn, "inputs": inputs, "sym": repr(obs)[:600],
                                              "native": (r["status"] + r["msg"] + repr(r["observed"]))[:600]})
                if len(res["samples"]) < 3:
                    res["samples"].append({"harness": h.fn, "inputs": inputs, "observed": repr(obs)[:300]})
        return S.alts

    def explore(self, hi, prefixes, slice_s):
        S.reset_stats()
        self.funcs = set()
        res = {"stats": dict(paths=0, infeasible=0, witnessed=0, reached=0, replays=0, validated=0, mismatch=0,
                             truncated=0, inconclusive=0, unbound=0),
               "violations": [], "known": [], "skips": [], "engine_errors": [], "unreproduced": [],
               "mismatches": [], "samples": []}
        stack = list(prefixes)
        t0 = time.monotonic()
        while stack:
            p = stack.pop()
            stack.extend(self.one(hi, p, res))
            if time.monotonic() - t0 > slice_s:
                break
        for k in ("queries", "solver_s", "unknown", "branches", "decisions", "obligations", "concretised"):
            res["stats"][k] = S.stats[k]
        for k in ("skips", "engine_errors", "mismatches", "known", "violations"):
            res[k] = res[k][:20]
        self.funcs.update(S.js_funcs)
        res["funcs"] = sorted(self.funcs)
        return res, stack


def worker_main(conn, module, harnesses, tier, snap, dev):
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(6000)
    S.solver = None
    w = Worker(module, harnesses, tier, snap, dev)
    while True:
        try:
            job = conn.recv()
        except EOFError:
            break
        if job is None:
            break
        hi, prefixes, slice_s = job
        try:
            out = w.explore(hi, prefixes, slice_s)
        except BaseException:
            out = ("error", traceback.format_exc())
        conn.send((hi, out))
    os._exit(0)


PATHS = [os.path.join(REPO, "gyp", "pylib"), os.path.join(HERE, "harness")]
PRELOAD = []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("module")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--dev", action="store_true")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SYMEX_JOBS", "8")))
    ap.add_argument("--budget", type=float)
    args = ap.parse_args()
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    t0 = time.monotonic()
    budget = args.budget or (420 if tier == "quick" else 6000)
    instrument.install([(("gyp", "packaging"), os.path.join(REPO, "gyp", "pylib")),
                        ((args.module, "hlib"), os.path.join(HERE, "harness"))])
    module = importlib.import_module(args.module)
    prop = module.PROPERTY
    pre = list(getattr(module, "PRELOAD", []))
    PRELOAD.extend(pre)
    for m in pre:
        importlib.import_module(m)
    if getattr(module, "JS", False):
        from symex.js import load
        load.prepare(REPO, os.path.join(HERE, "harness"))
    harnesses = module.HARNESSES
    if args.only:
        harnesses = [h for h in harnesses if args.only in h.fn]
    snap = snapshot.Snapshot([m for n, m in list(sys.modules.items())
                              if m is not None and n.split(".")[0] in ("gyp", "packaging", args.module, "hlib")] +
                             [instrument.STD[n] for n in instrument.STD])
    ctxs = mp.get_context("fork")
    njobs = args.jobs
    conns, procs = [], []
    for _ in range(njobs):
        a, b = ctxs.Pipe()
        p = ctxs.Process(target=worker_main, args=(b, module, harnesses, tier, snap, args.dev), daemon=True)
        p.start()
        b.close()
        conns.append(a)
        procs.append(p)
    frontier = {i: [[]] for i in range(len(harnesses))}
    agg = [None] * len(harnesses)
    hstart = {}
    busy = {}
    errors = []
    viol, known, unrep, mism, eng, skips, samples, funcs = [], [], [], [], [], [], [], set()
    deadline = t0 + budget
    stop = False
    slice_s = 0.25
    last_report = time.monotonic()
    from multiprocessing.connection import wait
    while True:
        idle = [c for c in conns if c not in busy]
        for c in idle:
            if stop or time.monotonic() > deadline:
                break
            # harness with pending work and fewest busy workers
            cand = [(sum(1 for v in busy.values() if v == i), -len(frontier[i]), i)
                    for i in frontier if frontier[i]]
            if not cand:
                break
            i = min(cand)[2]
            f = frontier[i]
            n = max(1, min(len(f), len(f) // njobs + 1))
            # shallow prefixes first (larger subtrees)
            batch, frontier[i] = f[:n], f[n:]
            hstart.setdefault(i, time.monotonic())
            sl = slice_s if time.monotonic() - t0 < 5 else 1.0
            c.send((i, batch, sl))
            busy[c] = i
        if not busy:
            break
        for c in wait(list(busy), timeout=5):
            hi = busy.pop(c)
            try:
                _, out = c.recv()
            except EOFError:
                errors.append("worker died in %s" % harnesses[hi].fn)
                conns.remove(c)
                if not conns:
                    stop = True
                continue
            if out[0] == "error":
                errors.append(out[1])
                stop = True
                continue
            res, left = out
            frontier[hi].extend(left)
            if agg[hi] is None:
                agg[hi] = dict(res["stats"])
            else:
                for k, v in res["stats"].items():
                    agg[hi][k] = agg[hi].get(k, 0) + v
            agg[hi]["wall_s"] = time.monotonic() - hstart[hi]
            viol.extend(res["violations"])
            known.extend(res["known"])
            unrep.extend(res["unreproduced"])
            mism.extend(res["mismatches"])
            eng.extend(res["engine_errors"])
            skips.extend((harnesses[hi].fn, s) for s in res["skips"])
            if len(samples) < 12:
                samples.extend(res["samples"][:1])
            funcs.update(map(tuple, res["funcs"]))
            if viol and not args.dev:
                stop = True
            if args.dev and (len(viol) + len(unrep) + len(eng) + len(mism)) > 60:
                stop = True
        if args.dev and time.monotonic() - last_report > 10:
            last_report = time.monotonic()
            print("  ...", {harnesses[i].fn: (a["paths"] if a else 0, len(frontier[i])) for i, a in enumerate(agg) if frontier[i]},
                  flush=True)
    for c in conns:
        try:
            c.send(None)
        except OSError:
            pass
    for p in procs:
        p.join(0.2)
        if p.is_alive():
            p.kill()
    wall = time.monotonic() - t0
    pending = {harnesses[i].fn: len(f) for i, f in frontier.items() if f}

    tot = {}
    for a in agg:
        for k, v in (a or {}).items():
            tot[k] = tot.get(k, 0) + v
    # ---------------- report
    rc = 0
    out_lines = []
    warnings = []
    seen = set()
    for k in known:
        if k["known"] not in seen:
            seen.add(k["known"])
            out_lines.append("KNOWN-FINDING: property=%s %s: %s inputs=%r" % (prop, k["known"], k["msg"], k["inputs"]))
    known_ids = set()
    kf = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(kf):
        with open(kf) as f:
            for line in f:
                w = line.split()
                if w[:1] == ["finding:"] and w[1] == "property=" + prop:
                    known_ids.add(w[2].split("=", 1)[1])
    for k in known:
        if k["known"] not in known_ids:
            viol.append(k)
    if viol:
        rdir = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        v = viol[0]
        h = [x for x in harnesses if x.fn == v["harness"]][0]
        rp = os.path.join(rdir, "%s.json" % prop)
        with open(rp, "w") as f:
            json.dump({"module": args.module, "fn": h.fn, "params": h.quick if tier == "quick" else h.thorough,
                       "inputs": v["inputs"], "roots": ROOTS, "paths": PATHS,
                       "js": [REPO, os.path.join(HERE, "harness")] if getattr(module, "JS", False) else None, "msg": v["msg"], "tb": v.get("tb"),
                       "replay": "%s symex/native.py --replay %s" % (NATIVE_PY, rp)}, f, indent=1, default=repr)
        for x in viol[:5]:
            out_lines.append("counterexample [%s] %s inputs=%r" % (x["harness"], x["msg"], x["inputs"]))
        out_lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
        rc = 1
    else:
        for i, h in enumerate(harnesses):
            a = agg[i] or {}
            if not a.get("reached") and not pending.get(h.fn):
                warnings.append("vacuous harness %s (no path reached an assertion)" % h.fn)
        if unrep:
            warnings.append("inconclusive: a solver counterexample did not reproduce on the real code: %r" % unrep[:3])
        if not errors and not tot.get("reached") and not known:
            errors.append("nothing was decided")
        if errors:
            rc = 2
    for e in errors[:5]:
        out_lines.append("ERROR " + e)
    for e in warnings[:8]:
        out_lines.append("WARNING " + e)
    n_inc = tot.get("inconclusive", 0) + len(mism)
    exhaustive = not pending and not tot.get("truncated") and not n_inc and not tot.get("unknown") and not skips and not warnings
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0), "transitions": tot.get("branches", 0),
            "traces_validated_against_impl": tot.get("validated", 0) + tot.get("replays", 0),
            "samples": samples[:8] or [{"harness": h.fn} for h in harnesses],
            "exhaustive": exhaustive,
            "solver_queries": tot.get("queries", 0), "solver_time_s": round(tot.get("solver_s", 0), 3),
            "solver_unknown": tot.get("unknown", 0), "fork_decisions": tot.get("decisions", 0),
            "obligations": tot.get("obligations", 0), "paths_reaching_an_assertion": tot.get("reached", 0),
            "paths_with_model_witness": tot.get("witnessed", 0),
            "paths_truncated": tot.get("truncated", 0), "paths_inconclusive": tot.get("inconclusive", 0),
            "encoding_mismatches": tot.get("mismatch", 0),
            "unexplored_prefixes_at_budget": pending,
            "warnings": warnings,
            "harness_not_bound": sorted(set("%s: %s" % s for s in skips))[:20],
            "functions_encoded": sorted("%s:%s" % f for f in funcs),
            "harnesses": [{"name": h.fn, "bounds": h.bounds, "params": h.quick if tier == "quick" else h.thorough,
                           **{k: (round(v, 3) if isinstance(v, float) else v) for k, v in (agg[i] or {}).items()}}
                          for i, h in enumerate(harnesses)],
            "explanation": "states = symbolic paths explored; transitions = symbolic branch conditions met. Each path's "
                           "condition and each negated assertion is decided by z3; path models are re-run on the real code.",
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 3),
        "violations": len(viol),
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    for line in out_lines:
        print(line)
    for i, h in enumerate(harnesses):
        a = agg[i] or {}
        print("%s %s: paths=%d reached=%d validated=%d obligations=%d queries=%d solver=%.1fs wall=%.1fs%s%s%s%s" % (
            prop, h.fn, a.get("paths", 0), a.get("reached", 0), a.get("validated", 0), a.get("obligations", 0),
            a.get("queries", 0), a.get("solver_s", 0), a.get("wall_s", 0),
            " PENDING=%d" % pending[h.fn] if h.fn in pending else "",
            " truncated=%d" % a["truncated"] if a.get("truncated") else "",
            " inconclusive=%d" % a["inconclusive"] if a.get("inconclusive") else "",
            " mismatch=%d" % a["mismatch"] if a.get("mismatch") else ""))
    if args.dev:
        seen, uniq = set(), []
        for e in eng:
            kk = (e["tb"] or "")[-160:]
            if kk not in seen:
                seen.add(kk)
                uniq.append(e)
        for e in uniq[:5]:
            print("ENGINE", e["harness"], e["inputs"], e.get("native"), "\n", e["tb"])
        for e in mism[:6]:
            print("MISMATCH", e)
        for e in unrep[:6]:
            print("UNREPRODUCED", e)
        for s in sorted(set(skips))[:10]:
            print("SKIP", s)
        for v in viol[:3]:
            print("VIOL", v["harness"], v["msg"], v["inputs"], v.get("tb"))
    print("%s property=%s tier=%s wall=%.1fs%s" % ("PASS" if rc == 0 else "FAIL" if rc == 1 else "ERROR", prop, tier, wall,
                                                  "" if exhaustive else " (not exhaustive within the bounds)"))
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
