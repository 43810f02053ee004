'use strict'
// Models of the world the installer works in: a file system, the network, tar archives and streams.
// Everything that happens is recorded; the operation number input.fail.at fails with input.fail.code.

exports.error = function (code, msg) {
  const e = new Error(msg || code)
  e.code = code
  return e
}

exports.makeFs = function (h, input, win) {
  const sep = win ? '\\' : '/'
  const files = new Map()     // path -> text, or null for a directory
  const log = []
  const st = { n: 0, files, log, sep, tmp: 0, onwrite: null }
  const parent = (p) => p.slice(0, p.lastIndexOf(sep))
  const enoent = () => exports.error('ENOENT', 'no such file or directory')
  st.step = async function (op, p, mut) {
    const k = st.n++
    await null
    if (input.fail && k === input.fail.at) {
      log.push(['fail', op, p])
      throw exports.error(input.fail.code, 'injected')
    }
    if (mut || op === 'stat') {
      for (const d of input.denied || []) {
        if (p === d || p.startsWith(d + sep)) { log.push(['fail', op, p]); throw exports.error('EACCES', 'denied') }
      }
    }
    if (mut) log.push([op, p])
  }
  st.under = (d) => [...files.keys()].filter((f) => f.startsWith(d + sep))
  st.mkdirs = function (p) {
    let first
    const todo = []
    for (let q = p; q.includes(sep) && !files.has(q); q = parent(q)) todo.push(q)
    while (todo.length) {
      const q = todo.pop()
      if (!q || q.endsWith(':')) continue
      if (!first) first = q
      files.set(q, null)
    }
    return first
  }
  st.put = function (p, text) {
    if (!files.has(parent(p))) throw enoent()
    if (st.onwrite) st.onwrite(p, text)
    files.set(p, text)
  }
  for (const [p, text] of input.files || []) {
    if (text === null) st.mkdirs(p)
    else { st.mkdirs(parent(p)); files.set(p, text) }
  }
  st.api = h.stub('fs.promises', {
    async stat (p) {
      await st.step('stat', p)
      if (!files.has(p)) throw enoent()
      return { isDirectory: () => files.get(p) === null, isFile: () => files.get(p) !== null }
    },
    async access (p) {
      await st.step('access', p)
      if (!files.has(p)) throw enoent()
    },
    async mkdir (p, o) {
      await st.step('mkdir', p, true)
      if (!o || !o.recursive) h.unsupported('mkdir without recursive')
      return st.mkdirs(p)
    },
    async mkdtemp (p) {
      const d = p + 'T' + (++st.tmp)
      await st.step('mkdtemp', d, true)
      st.mkdirs(d)
      return d
    },
    async readFile (p, enc) {
      await st.step('readFile', p)
      if (!files.has(p)) throw enoent()
      if (files.get(p) === null) throw exports.error('EISDIR')
      return files.get(p)
    },
    async writeFile (p, text) {
      await st.step('writeFile', p, true)
      st.put(p, text)
    },
    async rename (a, b) {
      await st.step('rename', b, true)
      for (const f of [a, ...st.under(a)]) {
        if (!files.has(f)) throw enoent()
        st.put(b + f.slice(a.length), files.get(f))
        files.delete(f)
      }
    },
    async unlink (p) {
      await st.step('unlink', p, true)
      if (!files.has(p)) throw enoent()
      files.delete(p)
    },
    async copyFile (a, b) {
      await st.step('copyFile', b, true)
      if (!files.has(a)) throw enoent()
      st.put(b, files.get(a))
    },
    async readdir (p, o) {
      await st.step('readdir', p)
      if (!files.has(p)) throw enoent()
      const names = st.under(p).map((f) => f.slice(p.length + 1)).filter((f) => !f.includes(sep)).sort()
      if (!o || !o.withFileTypes) return names
      return names.map((name) => ({ name, isDirectory: () => files.get(p + sep + name) === null, isFile: () => files.get(p + sep + name) !== null }))
    },
    async rm (p, o) {
      await st.step('rm', p, true)
      if (!files.has(p)) {
        if (o && o.force) return
        throw enoent()
      }
      if (files.get(p) === null && !(o && o.recursive)) throw exports.error('EISDIR')
      for (const f of [p, ...st.under(p)]) files.delete(f)
    }
  })
  return st
}

// streams: a body is a list of chunks; an element {error: code} breaks it off
exports.makeStreams = function (h, st) {
  class Transform {
    constructor () { this.sent = [] }
  }
  const pipeline = async function (body, ...stages) {
    const sink = stages.pop()
    const through = async (i, chunk) => {
      if (i === stages.length) return sink.take(chunk)
      const out = []
      await new Promise((resolve, reject) => {
        stages[i].push = (c) => { if (c !== null) out.push(c) }
        stages[i]._transform(chunk, 'buffer', (e, c) => {
          if (e) return reject(e)
          if (c !== undefined && c !== null) out.push(c)
          resolve()
        })
      })
      for (const c of out) await through(i + 1, c)
    }
    for (const chunk of body) {
      await st.step('chunk', '')
      if (chunk !== null && typeof chunk === 'object') throw exports.error(chunk.error)
      await through(0, chunk)
    }
    for (const s of stages) {
      await new Promise((resolve, reject) => s._flush ? s._flush((e) => e ? reject(e) : resolve()) : resolve())
    }
    return sink.end()
  }
  return { Transform, promises: { pipeline } }
}

// archive: a list of [entry path, text]; an element {warn: code} is a damaged part.  The stream must carry input.tarText in full.
exports.makeTar = function (h, st, archive, text) {
  const unpack = async function (o) {
    for (const x of archive) {
      if (!Array.isArray(x)) {
        if (o.onwarn) o.onwarn(x.warn, 'damaged', {})
        continue
      }
      const [name, body] = x
      if (!o.filter || o.filter(name, {})) {
        if (o.strip !== 1) h.unsupported('tar strip')
        const rel = name.split('/').slice(1)
        if (!rel.length) continue
        const p = o.cwd + st.sep + rel.join(st.sep)
        await st.step('extract', p, true)
        st.mkdirs(p.slice(0, p.lastIndexOf(st.sep)))
        st.put(p, body)
      }
    }
  }
  const extract = function (o) {
    if (o.file) {
      return st.step('open', o.file).then(() => unpack(o))
    }
    const got = []
    return {
      take (c) { got.push(c) },
      async end () { await unpack(o) }
    }
  }
  return h.stub('tar', { extract, x: extract })
}

exports.makeLog = function (h) {
  const f = () => {}
  return h.stub('log', { verbose: f, silly: f, info: f, warn: f, error: f, http: f, stdout: f, resume: f, logger: { level: 'info' } })
}
