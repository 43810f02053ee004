"""Loads the repository's JavaScript and runs scenarios (harness/js/*.js) on it symbolically."""
import json
import os
import subprocess
from . import interp as I, builtins as B
from .interp import (RT, JSObj, JSArr, JSFunc, NativeFn, JSPromise, JSThrow, UNDEF, MISSING, Env, N, build, get, put, call,
                     truthy, to_string, to_conc, is_str, is_bool, is_num, callable_, throw, Unsupported)
from ..core import S

HERE = os.path.dirname(os.path.abspath(__file__))
NPM = "/usr/lib/node_modules/npm/node_modules"
PKGS = ["semver", "nopt", "abbrev", "env-paths"]
FILES = {}          # path -> entry
BUILT = {}          # path -> Program node
CFG = {}


class TargetError(Exception):
    """the code under analysis let an exception escape"""
    js_target = True


def js_files(d):
    out = []
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ("node_modules", "bin", "test")]
        out += [os.path.join(r, f) for f in fs if f.endswith(".js")]
    return out


def prepare(repo, harness, pkgs=PKGS):
    CFG.update(repo=repo, harness=harness)
    files = [os.path.join(repo, "lib", f) for f in sorted(os.listdir(os.path.join(repo, "lib"))) if f.endswith(".js")]
    files += [os.path.join(repo, "bin", "node-gyp.js"), os.path.join(repo, "package.json")]
    files += [os.path.join(harness, "js", f) for f in sorted(os.listdir(os.path.join(harness, "js"))) if f.endswith(".js")]
    for p in pkgs:
        files += js_files(os.path.join(NPM, p))
        files.append(os.path.join(NPM, p, "package.json"))
    out = subprocess.run([I.NODE, os.path.join(HERE, "parse.js")] + files, stdout=subprocess.PIPE, check=True).stdout
    FILES.update(json.loads(out))
    for f, e in FILES.items():
        if "ast" in e:
            r = os.path.relpath(f, repo)
            n = build(e["ast"], r)
            if not r.startswith(".."):
                name_funcs(n, [])
            BUILT[f] = n
            e["ast"] = None


def name_funcs(n, path):
    def go(x, path):
        if isinstance(x, list):
            for y in x:
                go(y, path)
            return
        if not isinstance(x, N):
            return
        t = x.type
        p = path
        if t in ("FunctionDeclaration", "FunctionExpression", "ArrowFunctionExpression"):
            nm = x.id.name if x.id is not None else getattr(x, "hint", "")
            if nm:
                p = path + [nm]
                x.qual = ".".join(p)
        elif t in ("ClassDeclaration", "ClassExpression") and x.id is not None:
            p = path + [x.id.name]
        elif t in ("MethodDefinition", "PropertyDefinition") and not x.computed and isinstance(x.value, N):
            x.value.hint = I.key_name(x.key)
        elif t == "VariableDeclarator" and x.id.type == "Identifier" and isinstance(x.init, N):
            x.init.hint = x.id.name
        elif t == "Property" and not x.computed and isinstance(x.value, N):
            x.value.hint = I.key_name(x.key)
        for k, v in x.__dict__.items():
            if isinstance(v, (N, list)) and k != "fndecls":
                go(v, p)
    go(n, path)


def from_py(v):
    if isinstance(v, dict):
        o = JSObj()
        for k, x in v.items():
            o.define(k, from_py(x))
        return o
    if type(v) in (list, tuple):
        return JSArr([from_py(x) for x in v])
    return v


def to_py(v, depth=0):
    if v is UNDEF:
        return None
    if depth > 40:
        return "<deep>"
    if type(v) is JSArr:
        return [to_py(x, depth + 1) for x in v.a]
    if isinstance(v, JSObj):
        if v.cls == "Error":
            c = get(v, "code")
            return {"$error": to_py(get(v, "name")), "message": to_py(get(v, "message")), "code": to_py(c)}
        if callable_(v):
            return "<function>"
        if v.cls == "RegExp":
            return "/%s/%s" % (v.source, v.flags)
        if v.cls == "Promise":
            return "<promise>"
        return {k: to_py(get(v, k), depth + 1) for k in v.keys()}
    return v


class World:
    """the repository's modules over a given process object and stubs"""

    def __init__(self, opts):
        self.stubs = get(opts, "stubs")
        self.process = get(opts, "process")
        self.win = truthy(I.strict_eq(get(self.process, "platform"), "win32"))
        self.cache = {}
        self.builtin = {}
        if isinstance(self.process, JSObj) and self.process.own("nextTick") is MISSING:
            self.process.define_hidden("nextTick", NativeFn(lambda t, a: (RT.micro.append(lambda: call(a[0], UNDEF, list(a[1:]))), UNDEF)[1]))

    def require_repo(self, rel):
        return self.load(os.path.join(CFG["repo"], rel))

    def resolve(self, base, name):
        p = os.path.normpath(os.path.join(base, name))
        for c in (p, p + ".js", p + ".json", os.path.join(p, "index.js")):
            if c in FILES:
                return c
        pj = FILES.get(os.path.join(p, "package.json"))
        if pj:
            return self.resolve(p, pj["json"].get("main", "index.js"))
        return None

    def require(self, frm, name):
        name = to_conc(name)
        if name.startswith("node:"):
            name = name[5:]
        if name.startswith("."):
            rel = os.path.relpath(os.path.normpath(os.path.join(os.path.dirname(frm), name)), CFG["repo"])
            if frm.startswith(CFG["repo"]) and isinstance(self.stubs, JSObj):
                st = self.stubs.own(rel[:-3] if rel.endswith(".js") else rel)
                if st is not MISSING:
                    return st
            f = self.resolve(os.path.dirname(frm), name)
            if f is None:
                raise JSThrow(I.make_error("Error", "Cannot find module '%s'" % name))
            return self.load(f)
        if isinstance(self.stubs, JSObj):
            st = self.stubs.own(name)
            if st is not MISSING:
                return st
        m = self.builtin.get(name)
        if m is not None:
            return m
        if name == "path":
            m = B.path_module(self.win)
        elif name == "url":
            m = B.url_module()
        elif name == "util":
            m = B.util_module()
        elif name == "events" or name == "stream":
            m = world_helper(name)
        elif name.split("/")[0] in PKGS:
            f = self.resolve(NPM, name)
            return self.load(f)
        elif name == "process":
            return self.process
        if m is None:
            RT.unsupported.append("module " + name)
            raise JSThrow(I.make_error("Error", "module not modelled: " + name))
        self.builtin[name] = m
        return m

    def load(self, f):
        m = self.cache.get(f)
        if m is None and f in PKG_CACHE:
            return get(PKG_CACHE[f], "exports")
        if m is not None:
            return get(m, "exports")
        e = FILES[f]
        m = JSObj()
        m.define("exports", JSObj())
        self.cache[f] = m
        if "json" in e:
            m.define("exports", from_py(e["json"]))
            return get(m, "exports")
        if "error" in e:
            throw("SyntaxError", e["error"])
        r = os.path.relpath(f, CFG["repo"])
        inrepo = not r.startswith("..")
        fn = "/ng/" + r if inrepo else f
        env = Env(RT.globals)
        v = env.vars
        v["module"], v["exports"] = m, get(m, "exports")
        v["require"] = NativeFn(lambda t, a: self.require(f, a[0]), "require")
        rr = v["require"]
        rr.define("main", m)
        v["__filename"], v["__dirname"] = fn, os.path.dirname(fn)
        if self.win:
            v["__filename"], v["__dirname"] = fn.replace("/", "\\"), os.path.dirname(fn).replace("/", "\\")
        v["process"] = self.process
        v["this"] = v["exports"]
        run_program(BUILT[f], env)
        return get(m, "exports")


PKG_CACHE = {}


def run_program(n, env):
    for x in n.varnames:
        env.vars[x] = UNDEF
    I.hoist_block(n, env)
    for s in n.body:
        r = s.fn(s, env)
        if r is not None:
            break


EVENTS = """
class EventEmitter {
  constructor () { this._h = [] }
  on (n, f) { this._h.push([n, f]); return this }
  once (n, f) { const self = this; function g (...a) { self.removeListener(n, g); f.apply(self, a) } this._h.push([n, g]); return this }
  addListener (n, f) { return this.on(n, f) }
  off (n, f) { return this.removeListener(n, f) }
  removeListener (n, f) { this._h = this._h.filter((x) => !(x[0] === n && x[1] === f)); return this }
  removeAllListeners (n) { this._h = this._h.filter((x) => x[0] !== n); return this }
  listenerCount (n) { return this._h.filter((x) => x[0] === n).length }
  emit (n, ...a) {
    const hs = this._h.filter((x) => x[0] === n)
    if (n === 'error' && hs.length === 0) throw a[0]
    for (const h of hs) h[1].apply(this, a)
    return hs.length > 0
  }
}
EventEmitter.EventEmitter = EventEmitter
EventEmitter.once = (e, n) => new Promise((resolve) => e.once(n, (...a) => resolve(a)))
module.exports = EventEmitter
"""
_HELP = {}


def world_helper(name):
    if name == "stream":
        RT.unsupported.append("module stream")
        throw("Error", "stream not stubbed")
    if "events" not in _HELP:
        out = subprocess.run([I.NODE, "-e", "const a=require('/opt/veriftools/node/node_modules/acorn');let s='';process.stdin.on('data',d=>s+=d).on('end',()=>process.stdout.write(JSON.stringify(a.parse(s,{ecmaVersion:'latest'}),(k,v)=>k==='start'||k==='end'?undefined:v)))"],
                             input=EVENTS.encode(), stdout=subprocess.PIPE, check=True).stdout
        _HELP["events"] = build(json.loads(out), "events")
    env = Env(RT.globals)
    m = JSObj()
    m.define("exports", JSObj())
    env.vars["module"] = m
    run_program(_HELP["events"], env)
    return get(m, "exports")


def stub(name, o):
    quiet = ("then", "default", "__esModule", "toJSON", "constructor", "@@iterator", "toString", "valueOf", "message", "code", "prototype", "usage")

    def missing(k):
        if not is_str(k) or to_conc(k) in quiet or to_conc(k).startswith("@@"):
            return MISSING
        nm = "%s.%s" % (name, to_conc(k))

        def f(t, a):
            RT.unsupported.append(nm)
            raise JSThrow(I.make_error("Error", "not modelled: " + nm))
        return NativeFn(f, nm, new=lambda a: f(None, a))
    o.missing = missing
    return o


def run(scenario, fn, inputs):
    """run exports.FN(h, inputs) of harness/js/SCENARIO; the settled result as plain data"""
    RT.cwd = "/usr/share"
    RT.unsupported = []
    B.setup()
    h = JSObj()
    h.define("world", NativeFn(lambda t, a: (lambda w: NativeFn(lambda t2, b: w.require_repo(to_conc(b[0])), "ng"))(World(a[0])), "world"))
    h.define("stub", NativeFn(lambda t, a: stub(to_conc(a[0]), a[1]), "stub"))
    h.define("unsupported", NativeFn(lambda t, a: (RT.unsupported.append(to_conc(to_string(a[0]))), UNDEF)[1], "unsupported"))
    po = JSObj()
    po.define("platform", "linux")
    wopts = JSObj()
    wopts.define("process", po)
    w = World(wopts)
    h.define("path", B.path_module(False))
    m = None
    f = os.path.join(CFG["harness"], "js", scenario)
    try:
        exports = w.load(f)
        p = I.promise_resolve(call(get(exports, fn), UNDEF, [h, from_py(inputs)]))
        p.handled = True
        B.run_loop()
        if RT.unsupported:
            return {"$unsupported": list(RT.unsupported)}
        if p.state == "pending":
            return {"$never": True}
        if p.state == "rejected":
            raise JSThrow(p.value)
        r = to_py(p.value)
        if isinstance(r, dict) and RT.unhandled:
            r["$unhandled"] = RT.unhandled
        return r
    except JSThrow as e:
        if RT.unsupported:
            return {"$unsupported": list(RT.unsupported)}
        v = to_py(e.value)
        raise TargetError("%s: %s" % (v.get("$error"), v.get("message")) if isinstance(v, dict) else repr(v)) from None
