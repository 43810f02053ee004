// node parse.js FILE... : prints a JSON object file -> ESTree (or error text)
const acorn = require('/opt/veriftools/node/node_modules/acorn')
const fs = require('fs')
const out = {}
for (const f of process.argv.slice(2)) {
  try {
    const src = fs.readFileSync(f, 'utf8').replace(/^#!.*/, '')
    if (f.endsWith('.json')) { out[f] = { json: JSON.parse(src) }; continue }
    const comments = []
    out[f] = { ast: acorn.parse(src, { ecmaVersion: 'latest', allowReturnOutsideFunction: true, sourceType: 'script', onComment: comments }), src }
  } catch (e) { out[f] = { error: String(e) } }
}
process.stdout.write(JSON.stringify(out, (k, v) => k === 'start' || k === 'end' || v instanceof RegExp || typeof v === 'bigint' ? undefined : v))
