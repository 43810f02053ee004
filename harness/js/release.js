'use strict'
// processRelease on the given request
exports.release = function (h, input) {
  const env = {}
  if (input.mirror !== null) env.NODEJS_ORG_MIRROR = input.mirror
  const proc = { platform: input.platform, env, version: input.version, release: input.release, arch: 'x64', execPath: '/n', cwd: () => '/usr/share' }
  const ng = h.world({ process: proc, stubs: { 'lib/log': h.stub('log', { verbose () {} }) } })
  const opts = {}
  for (const [k, v] of input.opts) opts[k] = v
  const r = ng('lib/process-release.js')(input.argv, { opts }, input.version, input.release)
  return { ...r, semver: r.semver ? r.semver.version : null }
}
