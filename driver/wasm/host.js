// host.js WASM_EXEC.js MODULE.wasm: runs the keyaddr WebAssembly module and calls its functions as told on stdin.
// One line in:  {fresh, level, calls: [{f, args: [..], nested}]}   One line out: {out: [{cb: [[error, value]..], thrown}], told: calls of the error handler, ended}
const fs = require('fs')
require(process.argv[2])
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[3]))
globalThis.console.log = globalThis.console.warn = globalThis.console.error = (...a) => process.stderr.write(a.join(' ').slice(0, 2000) + '\n')
let told = 0, msg = '', ended = false
globalThis.KeyaddrErrorHandler = m => { told++; msg = String(m).slice(0, 200) }
async function start () {
  const go = new globalThis.Go()
  delete globalThis.KeyaddrNS
  delete globalThis.KeyaddrLogLevel
  ended = false
  const inst = await WebAssembly.instantiate(mod, go.importObject)
  go.run(inst).then(() => { ended = true }, () => { ended = true })
}
const show = v => v === null ? ['null'] : v === undefined ? ['undefined'] : typeof v === 'object' && !(v instanceof Error) ? ['object', JSON.stringify(v)] : [v instanceof Error ? 'error' : typeof v, String(v)]
function arg (a, rec, then) {
  const answer = (e, v) => { rec.cb.push([show(e), show(v)]); then() }
  switch (a.k) {
    case 's': return a.v
    case 'n': return Number(a.v)
    case 'undefined': return undefined
    case 'null': return null
    case 'b': return true
    case 'o': return { a: 1, toString () { return 'x' } }
    case 'a': return ['en', 'x']
    case 'big': return 5n
    case 'sym': return Symbol('x')
    case 'list': return [a.v]
    case 'listn': return [Number(a.v)]
    case 'box': return Object(a.v)
    case 'boxn': return Object(Number(a.v))
    case 'say': return { toString: () => a.v, valueOf: () => a.v, toJSON: () => a.v }
    case 'sayn': return { toString: () => a.v, valueOf: () => Number(a.v), toJSON: () => Number(a.v) }
    case 'cb': return answer
    case 'cbt': return (e, v) => { answer(e, v); throw new Error('thrown by the callback') }
  }
  throw new Error('host: ' + JSON.stringify(a))
}
// The calls are made one after another; the one after a nested call is made inside its callback.
let started = 0
function run (calls, out) {
  while (started < calls.length) {
    const c = calls[started], rec = { cb: [], thrown: '' }, mine = ++started
    out.push(rec)
    const then = () => { if (c.nested && started === mine) run(calls, out) }
    const args = c.args.map(a => arg(a, rec, then))
    try { globalThis.KeyaddrNS[c.f](...args) } catch (e) { rec.thrown = String(e).slice(0, 300) }
    if (c.nested && started === mine) return
  }
}
const tick = () => new Promise(resolve => setImmediate(resolve))
async function main () {
  const rl = require('readline').createInterface({ input: process.stdin })
  for await (const line of rl) {
    const m = JSON.parse(line)
    if (m.fresh) await start()
    if (m.level !== undefined) globalThis.KeyaddrLogLevel = m.level
    const out = []
    started = told = 0
    run(m.calls, out)
    const open = () => out.filter(r => r.cb.length === 0 && r.thrown === '').length > told
    for (let k = 0; k < 3; k++) await tick()
    // answers may take their time
    for (let k = 0; k < 100 && !ended && open(); k++) await new Promise(resolve => setTimeout(resolve, 20))
    while (started < m.calls.length) { run(m.calls, out); await tick() }
    process.stdout.write(JSON.stringify({ out, told, msg, ended }) + '\n')
  }
}
main().catch(e => { process.stderr.write('host: ' + e.stack + '\n'); process.exit(9) })
