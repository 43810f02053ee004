'use strict'
const { makeLog } = require('./env')

// Gyp.parseArgv over an argument vector and an environment
exports.parse = async function (h, input) {
  const env = {}
  for (const [k, v] of input.env) env[k] = v
  const proc = { platform: 'linux', env, cwd: () => '/usr/share', argv: input.argv, version: 'v18.1.0', versions: { node: '18.1.0' } }
  const log = makeLog(h)
  const ng = h.world({
    process: proc,
    stubs: {
      'lib/log': log,
      stream: { Stream: class {} },
      os: { homedir: () => '/h' },
      child_process: h.stub('child_process', {})
    }
  })
  const gyp = ng('lib/node-gyp.js')()
  gyp.parseArgv(input.argv)
  const opts = Object.keys(gyp.opts).filter((k) => k !== 'argv').map((k) => [k, gyp.opts[k]])
  return { opts, todo: gyp.todo.map((x) => [x.name, x.args]), argv: gyp.argv, level: log.logger.level }
}
