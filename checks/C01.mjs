// Leak scanner. All secrets of the workload (record contents, attachment bytes and names,
// labels, notes, tokens, passphrases) carry one tag; every argument of every storage call,
// every presence message, dump and bundle is searched for the tag in clear and in reversible
// encodings, for every raw key the process ever held and for unkeyed fingerprints of
// attachment contents. The shape of what is stored is checked against the documented metadata.
import { createHash } from 'node:crypto'
import { gunzipSync, inflateSync, brotliDecompressSync } from 'node:zlib'
import { Kitchen, TAG } from '../lib/kitchen.mjs'
import { show } from '../lib/child.mjs'

export const meta = {
  property: 'C01', level: 'exploration',
  rule: 'distinct by (set of operations used, faults, configuration); a case counts only if at least 20 storage writes were scanned',
  assumptions: ['encodings searched: plain (any case), base64 and base64url at any offset, hex, percent-encoding, reversed, UTF-16, gzip/deflate/brotli, nested up to four levels', 'record ids, collection names, dictionary keys, period names, display names and names of published attachment slots are visible by design and carry no tag in the workload'],
  minimums: { storage_calls_scanned: 300000, strings_scanned: 4000000, raw_keys_searched: 25000, presence_messages: 500, artefacts_scanned: 2500, faulted_cases: 600, attachment_fingerprints: 2500 },
}
const lc = TAG.toLowerCase(); const rev = [...lc].reverse().join('')
const b64cores = [0, 1, 2].map(o => { const s = Buffer.from('\0'.repeat(o) + TAG + '\0\0').toString('base64'); return s.slice(o === 0 ? 0 : o === 1 ? 2 : 3, Math.floor((o + TAG.length) * 4 / 3)) })
const hexTag = Buffer.from(TAG).toString('hex')
const u16 = Buffer.from(TAG, 'utf16le')
const B64 = /^[A-Za-z0-9+/_-]+={0,2}$/; const HEX = /^(?:[0-9a-fA-F]{2})+$/
class Scan {
  constructor(c) { this.c = c; this.keys = []; this.nk = 0; this.prints = new Map(); this.bytes = [] }
  str(s, where, depth = 0) {
    const c = this.c; c.count('strings_scanned')
    if (s.length < 8) return
    const l = s.toLowerCase()
    if (l.includes(lc) || l.includes(rev)) c.fail(`${where} contains a secret${depth ? ' after decoding' : ' in clear'}: ${show(s.slice(Math.max(0, l.indexOf(lc) - 20), l.indexOf(lc) + 60))}`)
    for (const b of b64cores) if (s.includes(b)) c.fail(`${where} contains a secret in base64`)
    if (l.includes(hexTag)) c.fail(`${where} contains a secret in hex`)
    if (s.includes('%')) { try { const d = decodeURIComponent(s); if (d !== s && d.toLowerCase().includes(lc)) c.fail(`${where} contains a secret percent-encoded`) } catch { /* not an encoding */ } }
    for (const [p, what] of this.prints) if (l.includes(p)) c.fail(`${where} contains an unkeyed fingerprint of ${what}`)
    if (depth > 4) return
    if (s[0] === '{' || s[0] === '[' || s[0] === '"') { let j; try { j = JSON.parse(s) } catch { j = undefined } if (j !== undefined) return this.val(j, where, depth + 1) }
    for (const part of s.length < 4000 && /[:.|,;]/.test(s) ? s.split(/[:.|,;]/) : [s]) {
      if (HEX.test(part) && part.length >= 16) this.buf(Buffer.from(part, 'hex'), where, depth + 1)
      if (B64.test(part) && part.length >= 12) this.buf(Buffer.from(part, 'base64'), where, depth + 1)
    }
  }
  buf(b, where, depth = 0) {
    const c = this.c
    const t = b.toString('latin1'); const l = t.toLowerCase()
    if (l.includes(lc) || l.includes(rev)) c.fail(`${where} contains a secret (in decoded bytes)`)
    if (b.includes(u16)) c.fail(`${where} contains a secret in UTF-16`)
    for (const x of b64cores) if (t.includes(x)) c.fail(`${where} contains a secret in base64 (in decoded bytes)`)
    if (b.length >= 32) { for (const x of this.prints.values()) { /* hex prints are searched in strings */ } if (b.length <= 8192) for (const k of this.keys) { if (b.includes(k)) c.fail(`${where} contains a raw key`) } }
    if (b.length === 32 && this.prints.has(b.toString('hex'))) c.fail(`${where} contains an unkeyed fingerprint of ${this.prints.get(b.toString('hex'))}`)
    if (depth > 4) return
    for (const [f, test] of [[gunzipSync, b[0] === 0x1f && b[1] === 0x8b], [inflateSync, (b[0] & 15) === 8 && ((b[0] << 8) | b[1]) % 31 === 0], [brotliDecompressSync, depth === 0 && false]]) if (test) { let d = null; try { d = f(b) } catch { d = null } if (d) this.buf(d, where + ' (decompressed)', depth + 1) }
    // text inside bytes (e.g. a base64-encoded JSON)
    if (b.length > 8 && b.length < 65536 && !/[^\x09\x0a\x0d\x20-\x7e]/.test(t)) this.str(t, where, depth + 1)
  }
  val(x, where, depth = 0) {
    if (typeof x === 'string') return this.str(x, where, depth)
    if (x instanceof Uint8Array || Buffer.isBuffer(x)) return this.buf(Buffer.from(x), where, depth)
    if (x instanceof ArrayBuffer) return this.buf(Buffer.from(new Uint8Array(x)), where, depth)
    if (Array.isArray(x)) { for (const y of x) this.val(y, where, depth); return }
    if (x instanceof Map) { for (const [k, v] of x) { this.val(k, where, depth); this.val(v, where, depth) } return }
    if (x && typeof x === 'object') { if (typeof CryptoKey !== 'undefined' && x instanceof CryptoKey) this.c.fail(`${where} was handed a key object`); for (const k of Object.keys(x)) { this.str(k, `${where} (field name)`, depth); this.val(x[k], `${where}.${k.length < 24 ? k : '…'}`, depth) } }
  }
}
const ENV = new Set(['_noydb', '_v', '_ts', '_iv', '_data', '_by', '_tier', '_elevatedBy', '_det'])
const CLEAR = new Set(['_keyring', '_sync', '_meta']) // documented as not encrypted
const b64ok = s => typeof s === 'string' && /^[A-Za-z0-9+/]*={0,2}$/.test(s)
function shape(c, coll, id, e, where) {
  for (const k of Object.keys(e)) c.ok(ENV.has(k), `${where}: stored item has an undocumented field "${k}"`)
  c.ok(Number.isInteger(e._v) && typeof e._ts === 'string' && e._ts.length <= 40 && (e._by === undefined || /^(alice|bob|u\w+)$/.test(e._by)), () => `${where}: stored item has unexpected metadata ${show({ ...e, _data: '…' })}`)
  if (e._iv === '') { if (coll.startsWith('_presence_')) { const p = JSON.parse(e._data); c.ok(Object.keys(p).every(x => ['userId', 'lastSeen', 'iv', 'data'].includes(x)) && Buffer.from(p.iv, 'base64').length === 12 && b64ok(p.data), () => `${where}: presence stored as ${show(p)}`); return } c.ok(CLEAR.has(coll), `${where}: stored without encryption`); return }
  c.ok(b64ok(e._iv) && Buffer.from(e._iv, 'base64').length === 12 && b64ok(e._data) && Buffer.from(e._data, 'base64').length >= 16, () => `${where}: payload is not a sealed payload (${show(e._data)})`)
  if (e._det !== undefined) for (const f in e._det) c.ok(['email', 'n'].includes(f) && /^[A-Za-z0-9+/]+={0,2}:[A-Za-z0-9+/]+={0,2}$/.test(e._det[f]), () => `${where}: search field ${f} stored as ${show(e._det[f])}`)
}
// an item is scanned when it is handed over; keys and fingerprints that only become known later are
// searched once more over everything retained at the end of the case
function watch(c, k, sc) {
  sc.retained = []
  const on = side => ev => {
    const where = `${side} ${ev.op} ${ev.coll ?? ''}/${ev.id ?? ''}`; c.count('storage_calls_scanned')
    if (ev.op === 'put') { sc.val([ev.args[1], ev.args[2]], where + ' (name)'); sc.val(ev.args[3], where); shape(c, ev.args[1], ev.args[2], ev.args[3], where); sc.writes = (sc.writes ?? 0) + 1; sc.retained.push([where, JSON.stringify(ev.args[3])]) }
    else if (ev.op === 'saveAll') { sc.val(ev.args, where); for (const co in ev.args[1]) for (const id in ev.args[1][co]) shape(c, co, id, ev.args[1][co][id], where) }
    else sc.val(ev.args, where)
  }
  k.store._st.onArgs = on('store'); k.remote._st.onArgs = on('sync target')
}
function final(c, k, sc) {
  // keys known by now, and attachment fingerprints, over everything that was stored and is still there
  const keys = []; for (const [, x] of c.mon.rawKeys) if (x.raw.length >= 16 && x.alg !== 'PBKDF2') keys.push(x.raw)
  sc.keys = keys; c.count('raw_keys_searched', keys.length)
  for (const t of k.blobBodies ?? []) { sc.prints.set(createHash('sha256').update(t).digest('hex'), 'an attachment'); sc.prints.set(createHash('sha1').update(t).digest('hex'), 'an attachment'); sc.prints.set(createHash('md5').update(t).digest('hex'), 'an attachment'); c.count('attachment_fingerprints') }
  for (const p of k.passphrases) sc.prints.set(createHash('sha256').update(p).digest('hex'), 'a passphrase')
  for (const [side, ref] of [['store', k.ref], ['sync target', k.remoteRef]]) for (const [v, vm] of ref.data) for (const [co, m] of vm) for (const [id, e] of m) { sc.val([co, id], `${side} ${co} (name)`); sc.val(e, `${side} ${co}/${id}`) }
  // overwritten items: key search on the JSON text is enough (base64/hex forms)
  const forms = keys.flatMap(b => [b.toString('base64').slice(0, 40), b.toString('hex')])
  for (const [where, s] of sc.retained) { for (const f of forms) if (s.includes(f)) c.fail(`${where} contains a raw key`) ; if (s.length < 3000) for (const [p, what] of sc.prints) if (s.includes(p)) c.fail(`${where} contains an unkeyed fingerprint of ${what}`) }
  for (const [what, data] of k.out) { c.count('artefacts_scanned'); sc.val(data, what) }
}
async function program(c) {
  const r = c.rng; const faults = r.chance(0.4) ? r.pick([0.01, 0.03, 0.1, 0.3]) : 0; const sc = new Scan(c)
  const k = new Kitchen(c, { faults, sync: r.chance(0.4), pubsub: r.chance(0.5), onPublish: (ch, p) => { c.count('presence_messages'); sc.val([ch, p], 'presence message') } }); k.quiet = true; k.blobBodies = []
  const by = k.bytes.bind(k); k.bytes = () => { const b = by(); k.blobBodies.push(b); return b }
  watch(c, k, sc); await k.open(); if (faults) c.count('faulted_cases'); k.arm()
  const names = k.opNames(); const solo = new Set(['reopen', 'secret', 'rotate', 'revoke', 'badpass']); const picked = []
  // violations raised inside storage calls may be swallowed by the library's own error handling
  let seen = null; const f0 = c.fail, ok0 = c.ok; c.fail = (m, o) => { seen ??= [m, o]; f0.call(c, m, o) }; c.ok = (x, m, o) => { if (!x) { seen ??= [typeof m === 'function' ? m() : m, o]; ok0.call(c, false, m, o) } }
  for (let i = r.int(10, 26); i > 0; i--) {
    if (r.chance(0.3)) { const b = [...Array(r.int(2, 4))].map(() => r.pick(names)).filter(x => !solo.has(x)); picked.push(b.join('+')); await Promise.all(b.map(x => k.run([x]))) }
    else { const x = r.pick(names); picked.push(x); await k.run([x]) }
    if (seen) break
  }
  c.fail = f0; c.ok = ok0
  if (seen) c.fail(...seen)
  k.store._st.fault = null; k.remote._st.fault = null; k.store._st.onArgs = null; k.remote._st.onArgs = null
  final(c, k, sc)
  if ((sc.writes ?? 0) >= 20) c.sig([[...new Set(picked)].sort(), faults, k.sync]); c.sample({ ops: picked.slice(0, 12), faults, writes: sc.writes, artefacts: k.out.map(x => x[0]) })
  for (const x of picked) c.seen('operations', x.includes('+') ? 'overlap' : x)
}
export const scenarios = [{ name: 'program', quick: 3000, thorough: 15000, run: program, allowStray: true }]
