'use strict'
const { makeLog, error } = require('./env')

// Runs PythonFinder over programs that answer as told: input.commands: word -> answer, input.versions: path -> answer;
// an answer is {out: text, err: exit status or code or null}
exports.find = async function (h, input) {
  const win = input.platform === 'win32'
  const calls = []
  const look = (list, k) => { const x = list.find((y) => y[0] === k); return x ? x[1] : { out: '', err: 'ENOENT' } }
  const execFile = function (exec, args, opts, cb) {
    if (typeof args === 'function' || typeof opts === 'function') h.unsupported('execFile without options')
    if (exec === '') throw error('ERR_INVALID_ARG_VALUE', 'empty file name')
    let word = exec
    let words = args
    if (opts && opts.shell) {
      // cmd.exe joins the words with blanks and splits again outside of double quotes
      const quoted = (w) => w.length > 1 && w.startsWith('"') && w.endsWith('"') && !w.slice(1, -1).includes('"')
      if (![exec, ...args].every((w) => quoted(w) || !/[ ;,()&|<>^"]/.test(w))) { word = '\u0000broken' } else {
        const strip = (w) => quoted(w) ? w.slice(1, -1) : w
        word = strip(exec)
        words = args.map(strip)
      }
    }
    const code = args.join(' ')
    const kind = code.includes('version_info') ? 'version' : code.includes('sys.executable') ? 'path' : 'other'
    calls.push([kind, word, words.slice(0, words.indexOf('-c'))])
    if (kind === 'other') h.unsupported('other python code')
    let r
    if (kind === 'path') {
      const launcher = word === 'py.exe' || word === 'py'
      r = launcher && words[0] !== '-3' ? { out: '', err: 'ENOENT' } : look(input.commands, word)
    } else r = look(input.versions, word)
    let e = null
    if (r.err !== null) e = error(r.err, 'Command failed')
    Promise.resolve().then(() => cb(e, r.out, ''))
    return { stdin: { end () {} } }
  }
  const env = {}
  for (const [k, v] of input.env) env[k] = v
  const proc = { platform: input.platform, env, cwd: () => '/usr/share', version: 'v18.1.0' }
  const log = makeLog(h)
  log.withPrefix = () => log
  const ng = h.world({
    process: proc,
    stubs: {
      'lib/log': log,
      'graceful-fs': h.stub('fs', {}),
      os: h.stub('os', { userInfo: () => { if (input.nouser) throw new Error('no user'); return { username: 'me' } } }),
      child_process: h.stub('child_process', { execFile })
    }
  })
  const Finder = ng('lib/find-python.js')
  const out = { path: null, error: null }
  try { out.path = await Finder.findPython(input.config) } catch (e) { out.error = e.message }
  out.calls = calls
  return out
}
