'use strict'
const { makeLog, error } = require('./env')

// Runs remove or install with a version word and records what would be done to which path.
exports.run = async function (h, input) {
  const win = input.platform === 'win32'
  const ops = []
  const rec = (op, res) => async (p) => { ops.push([op, p]); if (res === 'fail') throw error('ENOSPC'); return res }
  const api = h.stub('fs.promises', {
    stat: async (p) => { if (!input.exists) throw error('ENOENT'); return { isDirectory: () => true } },
    lstat: async (p) => { if (!input.exists) throw error('ENOENT'); return { isDirectory: () => true } },
    access: async () => {},
    readdir: async () => [],
    readFile: async (p) => { throw error('ENOENT') },
    mkdir: rec('mkdir', input.broken ? 'fail' : undefined),
    rm: rec('rm'),
    rmdir: rec('rm'),
    unlink: rec('rm'),
    rename: async (a, b) => { ops.push(['rm', a]); ops.push(['write', b]) },
    writeFile: rec('write'),
    mkdtemp: async (p) => p + 'T1'
  })
  const fsmod = h.stub('fs', { promises: api, createWriteStream: (p) => { ops.push(['write', p]); return {} } })
  const tar = { extract: async (o) => { ops.push(['write', o.cwd]); if (o.filter) o.filter('a/b.h') } }
  const proc = { platform: input.platform, env: {}, arch: 'x64', version: 'v18.1.0', release: input.release, cwd: () => win ? 'C:\\usr\\share' : '/usr/share', execPath: '/n' }
  const ng = h.world({
    process: proc,
    stubs: {
      'lib/log': makeLog(h),
      'graceful-fs': fsmod,
      fs: fsmod,
      os: h.stub('os', { tmpdir: () => '/tmp' }),
      stream: { Transform: class {}, promises: {} },
      crypto: {},
      tar,
      'make-fetch-happen': async () => { throw error('ENOTFOUND') },
      'exponential-backoff': { backOff: (f) => f() }
    }
  })
  const install = ng('lib/install.js')
  const remove = ng('lib/remove.js')
  const opts = {}
  for (const [k, v] of input.opts) opts[k] = v
  const gyp = { opts, devDir: input.devDir, version: '1', package: { installVersion: 11 }, todo: [], commands: { install: (a) => install(gyp, a), remove: (a) => remove(gyp, a) } }
  let error_ = null
  let result = null
  try { result = await gyp.commands[input.command](input.argv) } catch (e) { error_ = e.message }
  return { ops, failed: error_ !== null, result: result === undefined ? null : result }
}
