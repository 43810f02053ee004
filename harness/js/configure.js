'use strict'
const { makeFs, makeLog, error } = require('./env')

// Runs `configure` over a modelled file system; Python, Visual Studio, the header download and gyp are models
exports.configure = async function (h, input) {
  const win = input.platform === 'win32'
  const st = makeFs(h, input, win)
  const env = {}
  for (const [k, v] of input.env) env[k] = v
  const proc = {
    platform: input.platform,
    env,
    cwd: () => win ? 'C:\\usr\\share' : '/usr/share',
    version: 'v18.1.0',
    arch: 'x64',
    release: { name: 'node' },
    execPath: input.execPath,
    jsEngine: input.engine === null ? undefined : input.engine,
    config: { target_defaults: {}, variables: input.prefix === null ? {} : { use_prefix_to_find_headers: true, node_prefix: input.prefix } }
  }
  const readable = (p) => st.files.has(p) && st.files.get(p) !== null
  const fs = {
    promises: st.api,
    readFileSync (p) { if (!readable(p)) throw error('ENOENT'); return st.files.get(p) },
    openSync (p, m) { if (m !== 'r') h.unsupported('open ' + m); if (!readable(p)) throw error('ENOENT'); return p },
    closeSync () {}
  }
  const vs = []
  const spawns = []
  const installs = []
  const ng = h.world({
    process: proc,
    stubs: {
      'lib/log': makeLog(h),
      'graceful-fs': h.stub('fs', fs),
      os: h.stub('os', { homedir: () => win ? 'C:\\me' : '/home/me' }),
      stream: { Stream: class {} },
      child_process: h.stub('child_process', {}),
      'lib/find-python': { findPython: async (p) => { if (input.nopython) throw new Error('no python'); return p || '/usr/bin/py' } },
      'lib/find-visualstudio': {
        findVisualStudio: async (v, c) => {
          vs.push([v.version, c === undefined ? null : c])
          if (input.novs) throw new Error('no vs')
          return { version: '17.3.1', versionMajor: 17, versionMinor: 3, versionYear: input.year, path: 'C:\\VS', msBuild: 'C:\\VS\\m.exe', toolset: 'v143', sdk: '10.0.1' }
        }
      }
    }
  })
  const configure = ng('lib/configure.js')
  const gypDefs = ng('lib/node-gyp.js')().configDefs
  const opts = {}
  for (const [k, v] of input.opts) opts[k] = v
  const gyp = {
    opts,
    devDir: win ? 'D:\\dev' : '/dev/ng',
    configDefs: gypDefs,
    commands: { install: async (argv) => { installs.push([argv, gyp.opts.ensure]); if (input.noinstall) throw new Error('no install') } },
    spawn (command, argv) {
      spawns.push({ command, argv: argv.slice(), env: Object.keys(env).map((k) => [k, String(env[k])]) })
      return { on (n, f) { if (n === 'exit') setTimeout(() => f(input.exit, null), 1); return this } }
    }
  }
  const out = { ok: false, error: null }
  try {
    await configure(gyp, input.argv)
    out.ok = true
  } catch (e) { out.error = [e.message, e.code === undefined ? null : e.code] }
  out.spawns = spawns
  out.installs = installs
  out.vs = vs
  out.files = [...st.files].map((x) => [x[0], x[1]])
  out.log = st.log
  return out
}
