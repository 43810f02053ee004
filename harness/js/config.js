'use strict'
const { makeFs, makeLog } = require('./env')

function world (h, input) {
  const win = input.platform === 'win32'
  const st = makeFs(h, input, win)
  const proc = {
    platform: input.platform,
    env: {},
    arch: input.arch,
    cwd: () => win ? 'C:\\usr\\share' : '/usr/share',
    version: 'v18.1.0',
    config: input.config
  }
  const ng = h.world({
    process: proc,
    stubs: {
      'lib/log': makeLog(h),
      'graceful-fs': h.stub('fs', { promises: st.api }),
      stream: { Stream: class {} },
      os: h.stub('os', {}),
      child_process: h.stub('child_process', {})
    }
  })
  return { ng, st }
}

// createConfigGypi; the file written is read as `build` reads it
exports.create = async function (h, input) {
  const { ng, st } = world(h, input)
  const before = JSON.stringify(input.config)
  const opts = { argv: { remain: [] } }
  for (const [k, v] of input.opts) opts[k] = v
  const gyp = { opts, configDefs: ng('lib/node-gyp.js')().configDefs }
  const p = await ng('lib/create-config-gypi.js').createConfigGypi({ gyp, buildDir: input.buildDir, nodeDir: input.nodeDir, vsInfo: input.vsInfo, python: input.python })
  const text = st.files.get(p)
  const lines = text.split('\n')
  const first = lines.shift()
  return { path: p, comment: first.startsWith('#'), config: JSON.parse(lines.join('\n')), untouched: JSON.stringify(input.config) === before }
}

exports.parse = async function (h, input) {
  const { ng } = world(h, { platform: 'linux', config: {}, arch: 'x64' })
  return { config: ng('lib/create-config-gypi.js').parseConfigGypi(input.text) }
}
