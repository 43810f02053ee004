'use strict'
const { makeLog, error } = require('./env')

// a PowerShell command line: splits off single-quoted strings; null if a quote is left open
function strings (cmd) {
  const out = []
  let i = 0
  while (i < cmd.length) {
    if (cmd[i] !== "'") { i++; continue }
    let s = ''
    i++
    for (;;) {
      if (i >= cmd.length) return null
      if (cmd[i] === "'") {
        if (cmd[i + 1] !== "'") break
        s += "'"
        i += 2
        continue
      }
      s += cmd[i++]
    }
    i++
    out.push(s)
  }
  return out
}

// VisualStudioFinder over installations, a registry and the environment
exports.find = async function (h, input) {
  const env = {}
  for (const [k, v] of input.env) env[k] = v
  const proc = { platform: 'win32', env, arch: input.arch, cwd: () => 'C:\\usr\\share', version: 'v18.1.0' }
  const log = makeLog(h)
  log.withPrefix = () => log
  const powershell = (cmd) => {
    const str = strings(cmd)
    if (str === null) return [error(1, 'missing terminator'), '']
    if (cmd.includes('Get-Module')) return input.setup === 'no' ? [error(1, 'no module'), ''] : [null, '2.2.16\r\n']
    if (cmd.includes('Get-VSSetupInstance')) {
      if (input.setup === 'fails') return [error(1, 'failed'), '']
      let list = input.installs.map((x) => {
        const v = x.version.split('.')
        return { InstallationPath: x.path, InstallationVersion: { Major: v[0], Minor: v[1], Build: 1, Revision: 2 }, Packages: x.packages.map((p) => ({ Id: p })) }
      })
      if (cmd.includes('where')) list = list.filter((x) => x.InstallationPath.toLowerCase() === str[0].toLowerCase())
      if (!list.length) return [null, '']
      return [null, JSON.stringify(list.length === 1 ? list[0] : list)]
    }
    if (cmd.includes('PrintJson')) {
      if (input.script === 'fails') return [error(1, 'failed'), '']
      if (input.script === 'junk') return [null, 'hello']
      return [null, JSON.stringify(input.installs.map((x) => ({ path: x.path, version: x.version, packages: x.packages })))]
    }
    h.unsupported('powershell ' + cmd)
  }
  const execFile = (exec, args, opts, cb) => {
    let r
    if (exec.endsWith('reg.exe')) {
      if (args[0] !== 'query' || args[2] !== '/v') h.unsupported('reg ' + args.join(' '))
      const x = input.registry.find((y) => y[0] === args[1] && y[1] === args[3] && (y[3] === null || y[3] === args[4]))
      r = x ? [null, '\r\n' + args[1] + '\r\n    ' + args[3] + '    REG_SZ    ' + x[2] + '\r\n\r\n'] : [error(1, 'not found'), '']
    } else {
      r = powershell(args[args.indexOf('-Command') + 1])
    }
    Promise.resolve().then(() => cb(r[0], r[1], ''))
    return { stdin: { end () {} } }
  }
  const ng = h.world({
    process: proc,
    stubs: {
      'lib/log': log,
      'graceful-fs': h.stub('fs', {}),
      fs: { existsSync: (p) => input.exist.includes(p) },
      child_process: h.stub('child_process', { execFile })
    }
  })
  const Finder = ng('lib/find-visualstudio.js')
  const out = { info: null, error: null }
  try { out.info = await Finder.findVisualStudio(input.node, input.config === null ? undefined : input.config) } catch (e) { out.error = e.message }
  return out
}
