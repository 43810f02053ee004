'use strict'
// Native side: runs scenarios on the real code under node.  Requests and answers are JSON lines.
const path = require('path')
const fs = require('fs')
const vm = require('vm')
const Module = require('module')
const NPM = '/usr/lib/node_modules/npm/node_modules'
const [repo, harness] = process.argv.slice(2)
process.chdir('/usr/share')
const realImmediate = setImmediate
const npmRequire = Module.createRequire(NPM + '/x.js')
let unhandled = 0
process.on('unhandledRejection', () => { unhandled++ })
process.on('uncaughtException', (e) => { if (current) current.escaped = e })
let current = null
const scripts = {}

function compile (f, params) {
  const k = f + params
  if (!scripts[k]) {
    const src = fs.readFileSync(f, 'utf8').replace(/^#!.*/, '')
    scripts[k] = vm.runInThisContext('(function (' + params + ') {' + src + '\n})', { filename: f })
  }
  return scripts[k]
}

class Timers {
  constructor () { this.q = []; this.seq = 0; this.now = 0 }
  setTimeout = (f, d, ...a) => { this.q.push({ t: this.now + Math.max(typeof d === 'number' ? d : 0, 1), n: ++this.seq, f: () => f(...a) }); return this.seq }
  setImmediate = (f, ...a) => { this.q.push({ t: this.now, n: ++this.seq, f: () => f(...a) }); return this.seq }
  clear = (id) => { this.q = this.q.filter((x) => x.n !== id) }
  step () {
    if (!this.q.length) return false
    this.q.sort((a, b) => a.t - b.t || a.n - b.n)
    const x = this.q.shift()
    this.now = x.t
    x.f()
    return true
  }
}

const PARAMS = 'exports, require, module, __filename, __dirname, process, setTimeout, setImmediate, clearTimeout, clearImmediate'

function makeWorld (opts, timers, run) {
  const cache = {}
  const win = opts.process.platform === 'win32'
  if (!Object.hasOwn(opts.process, 'nextTick')) Object.defineProperty(opts.process, 'nextTick', { value: process.nextTick })
  process.cwd = () => win ? 'C:\\usr\\share' : '/usr/share'
  const stubs = opts.stubs || {}
  const has = (o, k) => Object.prototype.hasOwnProperty.call(o, k)
  function load (f) {
    if (cache[f]) return cache[f].exports
    const m = cache[f] = { exports: {} }
    if (f.endsWith('.json')) { m.exports = JSON.parse(fs.readFileSync(f, 'utf8')); return m.exports }
    let fn = '/ng/' + path.relative(repo, f)
    let dir = path.dirname(fn)
    if (win) { fn = fn.replace(/\//g, '\\'); dir = dir.replace(/\//g, '\\') }
    const req = (name) => requireFrom(f, name)
    req.main = m
    compile(f, PARAMS).call(m.exports, m.exports, req, m, fn, dir, opts.process,
      timers.setTimeout, timers.setImmediate, timers.clear, timers.clear)
    return m.exports
  }
  function requireFrom (f, name) {
    if (name.startsWith('node:')) name = name.slice(5)
    if (name.startsWith('.')) {
      const rel = path.relative(repo, path.resolve(path.dirname(f), name)).replace(/\.js$/, '')
      if (has(stubs, rel)) return stubs[rel]
      let p = path.resolve(path.dirname(f), name)
      for (const c of [p, p + '.js', p + '.json', path.join(p, 'index.js')]) {
        if (fs.existsSync(c) && fs.statSync(c).isFile()) { p = c; return load(p) }
      }
      if (fs.existsSync(path.join(p, 'package.json'))) return load(path.resolve(p, JSON.parse(fs.readFileSync(path.join(p, 'package.json'))).main))
      throw new Error("Cannot find module '" + name + "'")
    }
    if (has(stubs, name)) return stubs[name]
    if (name === 'path') return win ? path.win32 : path.posix
    if (name === 'process') return opts.process
    if (['url', 'util', 'events'].includes(name)) return require(name)
    if (['semver', 'nopt', 'abbrev', 'env-paths'].includes(name.split('/')[0])) return npmRequire(name)
    run.unsupported.push('module ' + name)
    throw new Error('module not modelled: ' + name)
  }
  return (rel) => load(path.join(repo, rel))
}

const QUIET = ['then', 'default', '__esModule', 'toJSON', 'constructor', 'toString', 'valueOf', 'message', 'code', 'prototype', 'usage']

function plain (v, d = 0) {
  if (v === undefined || v === null) return null
  if (d > 40) return '<deep>'
  if (v instanceof Error || (typeof v === 'object' && Object.prototype.toString.call(v) === '[object Error]')) return { $error: v.name, message: v.message, code: v.code === undefined ? null : v.code }
  if (typeof v === 'function') return '<function>'
  if (v instanceof RegExp) return String(v)
  if (v instanceof Promise) return '<promise>'
  if (Array.isArray(v)) return v.map((x) => plain(x, d + 1))
  if (typeof v === 'object') { const o = {}; for (const k of Object.keys(v)) o[k] = plain(v[k], d + 1); return o }
  if (typeof v === 'number' && !isFinite(v)) return { $num: String(v) }
  return v
}

async function job (req) {
  const run = current = { unsupported: [], escaped: null }
  const timers = new Timers()
  unhandled = 0
  const h = {
    world: (opts) => makeWorld(opts, timers, run),
    path: path.posix,
    unsupported: (s) => { run.unsupported.push(String(s)) },
    stub: (name, o) => new Proxy(o, {
      get (t, k, r) {
        if (k in t || typeof k === 'symbol' || QUIET.includes(k)) return Reflect.get(t, k, r)
        return function () { run.unsupported.push(name + '.' + k); throw new Error('not modelled: ' + name + '.' + k) }
      }
    })
  }
  let state = 'pending'
  let value
  try {
    const f = path.join(harness, 'js', req.scenario)
    const m = { exports: {} }
    const sreq = (n) => {
      const p = path.join(harness, 'js', n.replace(/^\.\//, '').replace(/(\.js)?$/, '.js'))
      const mm = { exports: {} }
      compile(p, PARAMS)(mm.exports, sreq, mm, p, path.dirname(p), { platform: 'linux' }, timers.setTimeout, timers.setImmediate, timers.clear, timers.clear)
      return mm.exports
    }
    compile(f, PARAMS)(m.exports, sreq, m, f, path.dirname(f), { platform: 'linux' },
      timers.setTimeout, timers.setImmediate, timers.clear, timers.clear)
    Promise.resolve(m.exports[req.fn](h, req.inputs)).then((v) => { state = 'done'; value = v }, (e) => { state = 'failed'; value = e })
  } catch (e) { state = 'failed'; value = e }
  for (;;) {
    await new Promise((resolve) => realImmediate(resolve))
    try { if (!timers.step()) break } catch (e) { state = 'failed'; value = e; break }
  }
  if (run.escaped) { state = 'failed'; value = run.escaped }
  if (run.unsupported.length) return { ok: { $unsupported: run.unsupported } }
  if (state === 'pending') return { ok: { $never: true } }
  if (state === 'failed') {
    const p = plain(value)
    return { thrown: p && p.$error ? p.$error + ': ' + p.message : JSON.stringify(p) }
  }
  const r = plain(value)
  if (r && typeof r === 'object' && !Array.isArray(r) && unhandled) r.$unhandled = unhandled
  return { ok: r }
}

let buf = ''
let chain = Promise.resolve()
process.stdin.on('data', (d) => {
  buf += d
  let i
  while ((i = buf.indexOf('\n')) >= 0) {
    const line = buf.slice(0, i)
    buf = buf.slice(i + 1)
    chain = chain.then(async () => {
      let r
      try { r = await job(JSON.parse(line)) } catch (e) { r = { fail: String(e && e.stack) } }
      fs.writeSync(1, JSON.stringify(r) + '\n')
    })
  }
})
process.stdin.on('end', () => process.exit(0))
