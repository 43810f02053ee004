'use strict'
const { makeFs, makeLog, error } = require('./env')

// Runs `build` over a modelled file system, tool search and tool
exports.build = async function (h, input) {
  const win = input.platform === 'win32'
  const st = makeFs(h, input, win)
  const links = []
  st.api.symlink = async (to, p) => {
    await st.step('symlink', p, true)
    if (st.files.has(p)) throw error('EEXIST')
    st.put(p, 'link:' + to)
    links.push([to, p])
  }
  const env = {}
  for (const [k, v] of input.env) env[k] = v
  const proc = { platform: input.platform, env, cwd: () => win ? 'C:\\usr\\share' : '/usr/share', version: 'v18.1.0', arch: 'x64' }
  const log = makeLog(h)
  log.logger.isVisible = (l) => { if (l !== 'verbose') h.unsupported('isVisible'); return input.verbose }
  const spawns = []
  const whiches = []
  const ng = h.world({
    process: proc,
    stubs: {
      'lib/log': log,
      'graceful-fs': h.stub('fs', { promises: st.api, existsSync: (p) => { if (p !== 'build/Makefile') h.unsupported('existsSync'); return input.makefile } }),
      tinyglobby: {
        glob: async (pat, o) => {
          await null
          if (!o || o.expandDirectories !== false) h.unsupported('glob options')
          if (pat === 'build/*.sln') return input.slns.slice()
          if (pat === 'build/*.mk') return input.mk ? ['build/x.mk'] : []
          h.unsupported('glob ' + pat)
        }
      },
      which: async (c) => {
        await null
        whiches.push(c)
        if (input.notool) throw error('ENOENT', 'not found')
        return '/bin/' + c
      },
      os: h.stub('os', { cpus: () => [1, 2, 3, 4, 5, 6, 7] })
    }
  })
  const build = ng('lib/build.js')
  const opts = {}
  for (const [k, v] of input.opts) opts[k] = v
  const gyp = {
    opts,
    spawn (command, argv) {
      spawns.push({ command, argv: argv.map((x) => String(x)), path: proc.env.PATH, link: links.length ? links[links.length - 1] : null })
      return {
        on (n, f) {
          if (n === 'exit') setTimeout(() => f(input.exit[0], input.exit[1]), 1)
          return this
        }
      }
    }
  }
  const out = { ok: false, error: null }
  try {
    out.ok = await Promise.race([build(gyp, input.argv).then(() => true), new Promise((resolve) => setTimeout(() => resolve(null), 100))])
  } catch (e) { out.error = [e.message, e.code === undefined ? null : e.code] }
  out.spawns = spawns
  out.whiches = whiches
  out.files = [...st.files].map((x) => [x[0], x[1]])
  out.log = st.log
  return out
}
