'use strict'
const { makeLog, error } = require('./env')

function world (h, input, stubs) {
  const env = {}
  for (const [k, v] of input.env || []) env[k] = v
  const fsmod = h.stub('fs', stubs.fs || {})
  return h.world({
    process: { platform: input.platform, env, arch: 'x64', version: 'v18.1.0', execPath: '/n', cwd: () => '/usr/share' },
    stubs: {
      'lib/log': makeLog(h),
      'graceful-fs': fsmod,
      fs: fsmod,
      child_process: h.stub('child_process', stubs.cp || {}),
      'make-fetch-happen': stubs.fetch || (async () => { h.unsupported('fetch') })
    }
  })
}

// where node's own files are
exports.root = async function (h, input) {
  const find = world(h, input, {})('lib/find-node-directory.js')
  return { root: find(input.script, { platform: input.platform, execPath: input.exec }) }
}

// clean and list over a directory
exports.command = async function (h, input) {
  const ops = []
  const api = h.stub('fs.promises', {
    rm: async (p, o) => {
      ops.push(['rm', p, !!(o && o.recursive), !!(o && o.force)])
      if (input.fail) throw error(input.fail)
    },
    readdir: async (p) => {
      ops.push(['readdir', p])
      if (input.fail) throw error(input.fail)
      return input.names.slice()
    }
  })
  const ng = world(h, input, { fs: { promises: api } })
  const out = { ops, result: null, failed: false }
  try {
    const r = await ng('lib/' + input.command + '.js')({ opts: {}, devDir: input.dir, todo: [] }, input.argv)
    out.result = r === undefined ? null : r
  } catch (e) { out.failed = true }
  return out
}

// one request
exports.get = async function (h, input) {
  const got = []
  const answer = { status: 200, url: input.url }
  const api = h.stub('fs.promises', {
    readFile: async (p, enc) => {
      const x = input.files.find((f) => f[0] === p)
      if (!x) throw error('ENOENT')
      return x[1]
    }
  })
  const fetch = async (url, o) => { got.push([url, o]); return answer }
  const ng = world(h, input, { fs: { promises: api }, fetch })
  const opts = {}
  for (const [k, v] of input.opts) opts[k] = v
  const out = { got: [], failed: false, same: false }
  const nul = (v) => v === undefined ? null : v
  try { out.same = (await ng('lib/download.js').download({ opts, version: '1' }, input.url)) === answer } catch (e) { out.failed = true }
  for (const [url, o] of got) {
    const list = typeof o.ca === 'string' ? [o.ca] : nul(o.ca)
    out.got.push({ url, proxy: nul(o.proxy), noproxy: nul(o.noProxy), ca: list, strict: o.strictSSL !== false && o.rejectUnauthorized !== false })
  }
  return out
}

// registry values: input.values: [key, name, type, data]; keys and names are compared without case
exports.registry = async function (h, input) {
  const asked = []
  const execFile = function (exec, args, opts, cb) {
    if (!cb) h.unsupported('execFile without options')
    asked.push([exec, args])
    let e = null
    let out = ''
    let err = ''
    const q = args.length >= 4 && args[0] === 'query' && args[2] === '/v'
    if (!q) h.unsupported('reg.exe arguments')
    const x = input.values.find((y) => y[0].toLowerCase() === args[1].toLowerCase() && y[1].toLowerCase() === args[3].toLowerCase())
    if (x && x[4] === 'warn') { err = 'ERROR: Access is denied.\r\n' } else if (x && x[4] === 'denied') {
      e = error(1, 'Command failed')
      err = 'ERROR: Access is denied.\r\n'
    } else if (x) {
      out = '\r\n' + x[0] + '\r\n    ' + x[1] + '    ' + x[2] + '    ' + x[3] + '\r\n\r\n'
    } else {
      e = error(1, 'Command failed')
      err = 'ERROR: The system was unable to find the specified registry key or value.\r\n'
    }
    Promise.resolve().then(() => cb(e, out, err))
    return { stdin: { end () {} } }
  }
  const util = world(h, input, { cp: { execFile } })('lib/util.js')
  const out = { value: null, failed: false, asked }
  try {
    const r = input.one ? await util.regGetValue(input.keys[0], input.name, input.extra) : await util.regSearchKeys(input.keys, input.name, input.extra)
    out.value = r === undefined ? null : r
  } catch (e) { out.failed = true }
  return out
}

// the first readable of some files
exports.readable = async function (h, input) {
  const open = []
  let closed = 0
  const fs = {
    openSync: (p, m) => {
      const x = input.files.find((f) => f[0] === p)
      if (!x || m !== 'r') throw error('ENOENT')
      if (x[1] !== 'ok') throw error(x[1])
      open.push(p)
      return 2 + open.length
    },
    closeSync: (fd) => { closed++ },
    accessSync: (p) => {
      const x = input.files.find((f) => f[0] === p)
      if (!x) throw error('ENOENT')
      if (x[1] !== 'ok') throw error(x[1])
    },
    constants: { R_OK: 4 }
  }
  const r = world(h, input, { fs })('lib/util.js').findAccessibleSync('test', input.dir, input.candidates)
  return { found: r === undefined ? null : r, leaked: open.length - closed }
}
