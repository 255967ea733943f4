// Runs functions of the repository's JavaScript modules. The harness sends a function and its
// arguments on a line, answers every fetch that follows on a line, and gets the result on a line.
'use strict'
const fs = require('fs')
for (const k of ['log', 'info', 'warn', 'error', 'debug', 'trace']) console[k] = () => {}
let rest = Buffer.alloc(0)
function line() {
    const parts = [rest]
    for (;;) {
        const last = parts[parts.length - 1]
        const i = last.indexOf(10)
        if (i >= 0) {
            parts[parts.length - 1] = last.subarray(0, i)
            rest = last.subarray(i + 1)
            return JSON.parse(Buffer.concat(parts).toString('utf8'))
        }
        const b = Buffer.alloc(1 << 16)
        const n = fs.readSync(0, b, 0, b.length, null)
        if (n === 0) process.exit(0)
        parts.push(b.subarray(0, n))
    }
}
function put(o) {
    let b = Buffer.from(JSON.stringify(o) + '\n')
    while (b.length) b = b.subarray(fs.writeSync(1, b))
}
globalThis.fetch = async (input, init) => {
    const r = new Request(input, init)
    const headers = Object.fromEntries(r.headers.entries())
    const url = typeof input === 'string' ? input : input instanceof Request ? input.url : String(input)
    const body = r.body === null ? null : await r.text()
    put({ url, method: r.method, headers, body })
    const a = line()
    for (let i = 0; i < a.wait; i++) await new Promise(setImmediate)
    if (a.fail) throw new TypeError('fetch failed')
    return new Response(a.body, { status: a.status, headers: { 'content-type': 'application/json' } })
}
async function main() {
    for (;;) {
        const q = line()
        let a
        try {
            a = { ok: (await require(q.module)[q.name](...q.args)) ?? null }
        } catch (e) {
            a = { err: typeof e === 'string' ? e : { message: String(e) } }
        }
        put({ done: a })
    }
}
main()
