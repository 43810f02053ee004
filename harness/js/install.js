'use strict'
const { makeFs, makeStreams, makeTar, makeLog, error } = require('./env')

// Runs `install` (with the real `remove`) in a modelled world
exports.install = async function (h, input) {
  const win = input.platform === 'win32'
  const sep = win ? '\\' : '/'
  const st = makeFs(h, input, win)
  const streams = makeStreams(h, st)
  const fetches = []
  const fetch = async function (url, o) {
    fetches.push(url)
    await st.step('fetch', url)
    const r = input.net.find((x) => x.url === url)
    if (!r) throw error('ENOTFOUND', 'no such host')
    if (r.late) await new Promise((resolve) => setTimeout(resolve, r.late))
    if (r.error) throw error(r.error, 'network')
    st.log.push(['fetched', url])
    return { status: r.status, url, body: r.body, text: async () => { await st.step('text', url); return r.body.join('') } }
  }
  const crypto = {
    createHash (name) {
      let all = ''
      return {
        update (c) { all += c; return this },
        digest (f) { if (f !== 'hex') h.unsupported('digest ' + f); return name + '=' + all }
      }
    }
  }
  const os = h.stub('os', { tmpdir: () => win ? 'C:\\tmp' : '/tmp', userInfo: () => { if (input.nouser) throw new Error('no user'); return { username: 'u' } }, platform: () => input.platform, EOL: win ? '\r\n' : '\n' })
  const markers = []
  st.onwrite = (p, text) => {
    if (p.endsWith(sep + 'installVersion')) {
      markers.push({ path: p, text, have: [...st.files].filter((x) => x[1] !== null).map((x) => [x[0], x[1]]), fetched: st.log.filter((x) => x[0] === 'fetched').map((x) => x[1]) })
    }
  }
  const createWriteStream = (p) => {
    const got = []
    return {
      take (c) { got.push(c) },
      async end () { await st.step('createWriteStream', p, true); st.put(p, got.join('')) }
    }
  }
  const proc = {
    platform: input.platform,
    env: {},
    arch: input.arch,
    version: 'v' + input.version,
    release: { name: 'node' },
    cwd: () => input.cwd || (win ? 'C:\\usr\\share' : '/usr/share'),
    execPath: '/n'
  }
  const backOff = async (f) => {
    try { return await f() } catch (e) { return await f() }
  }
  const fsmod = h.stub('fs', { promises: st.api, createWriteStream })
  const ng = h.world({
    process: proc,
    stubs: {
      'lib/log': makeLog(h),
      'graceful-fs': fsmod,
      fs: fsmod,
      os,
      stream: h.stub('stream', streams),
      'stream/promises': streams.promises,
      crypto,
      tar: makeTar(h, st, input.archive),
      'make-fetch-happen': fetch,
      'exponential-backoff': { backOff }
    }
  })
  const install = ng('lib/install.js')
  const remove = ng('lib/remove.js')
  const opts = {}
  for (const [k, v] of input.opts) opts[k] = v
  const gyp = {
    opts,
    devDir: input.devDir,
    version: '11.0.0',
    package: { installVersion: input.needed },
    todo: [],
    commands: { install: (argv) => install(gyp, argv), remove: (argv) => remove(gyp, argv) }
  }
  const out = { ok: false, error: null }
  try {
    await install(gyp, input.argv)
    out.ok = true
  } catch (e) {
    out.error = [e.message, e.code === undefined ? null : e.code]
  }
  out.files = [...st.files].map((x) => [x[0], x[1]])
  out.log = st.log
  out.markers = markers
  out.fetches = fetches
  out.devDir = gyp.devDir
  out.todo = gyp.todo
  return out
}
