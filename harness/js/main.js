'use strict'
const { makeLog, error } = require('./env')

// Runs bin/node-gyp.js to its end; input.commands: [name, outcome] for each time a command runs
exports.main = async function (h, input) {
  const trace = []
  const handlers = []
  const st = { exit: null, exiting: false }
  const STOP = { stop: true }
  const fire = (n, x) => { for (const [m, f] of handlers) if (m === n) f(x) }
  const env = {}
  for (const [k, v] of input.env) env[k] = v
  const proc = {
    platform: 'linux',
    arch: 'x64',
    env,
    argv: input.argv,
    version: 'v18.1.0',
    versions: { node: '18.1.0' },
    cwd: () => '/usr/share',
    chdir (d) { trace.push(['chdir', d]) },
    on (n, f) { handlers.push([n, f]) },
    exit (c) {
      st.exit = c
      if (!st.exiting) {
        st.exiting = true
        fire('exit', c)
      }
      throw STOP
    }
  }
  const log = makeLog(h)
  log.stdout = (...a) => { trace.push(['out', ...a]) }
  log.info = (...a) => { if (a.length === 1 && a[0] === 'ok') trace.push(['ok']) }
  let running = 0
  const stubs = {
    'lib/log': log,
    stream: { Stream: class {} },
    os: { homedir: () => input.home, type: () => 'L', release: () => '1', tmpdir: () => '/tmp' },
    child_process: h.stub('child_process', {}),
    'env-paths': (name, o) => ({ cache: input.home + '/.cache/' + name + (o.suffix === undefined ? '-nodejs' : o.suffix) }),
    fs: {
      statSync (p) {
        if (input.dir === 'missing') throw error('ENOENT', 'no')
        if (input.dir === 'denied') throw error('EACCES', 'no')
        return { isDirectory: () => input.dir === 'yes' }
      }
    }
  }
  const outcomes = input.outcomes.slice()
  for (const name of ['build', 'clean', 'configure', 'install', 'list', 'remove']) {
    stubs['lib/' + name] = Object.assign(function (gyp, args) {
      const o = outcomes.length ? outcomes.shift() : 'done'
      trace.push(['start', name, args, running, gyp.devDir])
      if (o === 'throw') throw new Error('sync')
      running++
      return new Promise((resolve, reject) => {
        setTimeout(() => {
          if (st.exiting) return
          if (o === 'never') return
          if (o === 'crash') {
            try { fire('uncaughtException', new Error('crash')) } catch (e) { if (e !== STOP) throw e }
            return
          }
          running--
          trace.push(['end', name])
          if (o === 'fail') reject(new Error('failed'))
          else if (o === 'values') resolve(['v1', 'v2'])
          else if (o === 'one') resolve(['v1'])
          else if (o === 'empty') resolve([])
          else resolve()
        }, 5)
      })
    }, { usage: 'u' })
  }
  const ng = h.world({ process: proc, stubs })
  let thrown = null
  try {
    ng('bin/node-gyp.js')
    await new Promise((resolve) => setTimeout(resolve, 5000))
  } catch (e) { if (e !== STOP) thrown = e }
  if (!st.exiting) {
    try {
      if (thrown) {
        fire('uncaughtException', thrown)
        st.exit = 1
      }
      else {
        st.exiting = true
        st.exit = 0
        fire('exit', 0)
      }
    } catch (e) { if (e !== STOP) throw e }
  }
  return { trace, exit: st.exit, thrown: thrown && thrown.message }
}
