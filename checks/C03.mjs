// Tampering check. A world using every storage feature is written, every reader is run once
// on the untouched storage (baseline), then stored bytes are altered one item at a time and
// every reader is run again on a fresh instance: it may fail, or answer exactly as before,
// and the direct reader of the altered item must fail. Restoring the bytes restores all reads.
import { Kitchen } from '../lib/kitchen.mjs'
import { createNoydb } from '@noy-db/hub'
import { getCredential } from '@noy-db/hub/team'
import { strategies } from '../lib/world.mjs'
import { show, deepEq } from '../lib/child.mjs'

export const meta = {
  property: 'C03', level: 'exploration',
  rule: 'distinct by (stored collection, item, kind of alteration, affected field); an alteration that leaves the decoded bytes unchanged is not counted',
  assumptions: ['alterations are to the encrypted payload and nonce of stored items, attachment chunks and wrapped keys; unencrypted envelope metadata (version, timestamp) is outside the claim', 'an unreadable index entry is skipped by design until it is reconciled: an indexed query may then miss that record, but never shows unwritten data', 'exchanging two whole items encrypted under one key is only claimed for attachment chunks'],
  minimums: { alterations: 8000, direct_reads_refused: 6000, reader_runs: 150000, restored: 300, chunk_moves: 300 },
}
const IDS = ['a', 'b', 'c', 'd']
export const plain = x => x instanceof Map ? [...x] : x instanceof Uint8Array ? Buffer.from(x).toString('base64') : Array.isArray(x) ? x.map(plain) : x && typeof x === 'object' ? Object.fromEntries(Object.entries(x).map(([k, v]) => [k, plain(v)])) : x
const all = async it => { const o = []; for await (const x of it) o.push(x); return o }

export async function openFresh(k) {
  const db = await createNoydb({ store: k.store, user: 'alice', secret: k.pass, ...strategies('all') })
  const v = await db.openVault('acme'); const w = Object.create(Kitchen.prototype); w.bind(v)
  return { db, v, w }
}
export function readers(k, marks) {
  const R = {}
  for (const [name, mode] of [['docs', 'eager'], ['lazy', 'lazy'], ['det', 'eager'], ['refs', 'eager'], ['crdt', 'eager'], ['rga', 'eager'], ['text', 'eager']]) {
    for (const id of IDS) R[`get ${name}/${id}`] = ({ w }) => w[name].get(id)
    if (mode === 'eager') { R[`list ${name}`] = ({ w }) => w[name].list(); R[`query ${name}`] = ({ w }) => w[name].count().then(() => w[name].query().where('n', '>=', 1).toArray()) }
    else R[`lazyQuery ${name}`] = ({ w }) => w[name].lazyQuery().where('n', '>=', 0).toArray().catch(e => { if (/index/i.test(e.name + e.message) && !/Tamper|Decrypt/i.test(e.name)) return 'refused'; throw e })
    R[`page ${name}`] = ({ w }) => w[name].listPage({ limit: 1000 }); R[`scan ${name}`] = ({ w }) => all(w[name].scan({ pageSize: 2 })); R[`many ${name}`] = ({ w }) => w[name].getMany(IDS)
  }
  for (const id of IDS) { R[`raw crdt/${id}`] = ({ w }) => w.crdt.getRaw(id); R[`rawText text/${id}`] = ({ w }) => w.text.get(id, { locale: 'raw' }); R[`th text/${id}`] = ({ w }) => w.text.get(id, { locale: 'th', fallback: 'en' }) }
  for (const name of ['docs', 'lazy', 'crdt']) for (const id of IDS) { R[`history ${name}/${id}`] = ({ w }) => w[name].history(id); R[`version1 ${name}/${id}`] = ({ w }) => w[name].getVersion(id, 1); for (const [i, t] of marks.entries()) R[`at${i} ${name}/${id}`] = ({ v }) => v.at(new Date(t)).collection(name).get(id) }
  R['kind docs'] = async ({ w }) => { await w.docs.count(); return w.docs.query().where('kind', '==', k.someKind).toArray() }
  R['kind lazy'] = ({ w }) => w.lazy.lazyQuery().where('kind', '==', k.someKind2).toArray()
  R['det'] = async ({ w }) => [await w.det.findByDet('email', k.someMail), await w.det.queryByDet('email', k.someMail)]
  R['ledger entries'] = ({ v }) => v.ledger().entries()
  R['ledger head'] = ({ v }) => v.ledger().head()
  R['ledger verify'] = async ({ v }) => { const r = await v.ledger().verify(); if (!r.ok) throw new Error('verification failed'); return r }
  R['reconstruct'] = async ({ v, w }) => { const cur = await w.docs.get('a'); return v.ledger().reconstruct('docs', 'a', cur, 1) }
  for (const id of IDS) { R[`slots ${id}`] = ({ w }) => w.docs.blob(id).list(); R[`blobs ${id}`] = async ({ w }) => { const o = {}; const b = w.docs.blob(id); for (const s of await b.list()) { const x = await b.get(s.name); o[s.name] = x && Buffer.from(x).toString('base64') } return o }; R[`response ${id}`] = async ({ w }) => { const x = await w.docs.blob(id).response('plain.pdf'); return x && Buffer.from(await x.arrayBuffer()).toString('base64') }; R[`versions ${id}`] = async ({ w }) => { const b = w.docs.blob(id); const o = []; for (const x of await b.listVersions('plain.pdf')) { const y = await b.getVersion('plain.pdf', x.label); o.push([x, y && Buffer.from(y).toString('base64')]) } return o } }
  R['dict list'] = ({ v }) => v.dictionary('status').list(); R['dict get open'] = ({ v }) => v.dictionary('status').get('open'); R['dict get done'] = ({ v }) => v.dictionary('status').get('done'); R['dict label'] = ({ v }) => v.dictionary('status').resolveLabel('open', 'en')
  R['consent'] = ({ v }) => v.consentAudit(); R['periods'] = ({ v }) => v.listPeriods(); R['period'] = ({ v }) => v.getPeriod('p1')
  R['tier t1'] = ({ w }) => w.tier.getAtTier('t1'); R['tier t2'] = ({ w }) => w.tier.getAtTier('t2'); R['tier list'] = ({ w }) => w.tier.listAtTier()
  R['export docs'] = async ({ v }) => (await all(v.exportStream())).filter(x => x.collection !== 'tier')
  R['frame docs'] = ({ v }) => v.frame().collection('docs').get('a')
  R['credential'] = () => getCredential(k.store, 'creds', k.kr, 'drive')
  return R
}
// which readers must fail when an item of this stored collection is altered
function direct(coll, id) {
  switch (coll) {
    case 'docs': case 'lazy': case 'det': case 'refs': case 'crdt': case 'rga': case 'text': if (!IDS.includes(id)) return null; return [`get ${coll}/${id}`, `many ${coll}`, `scan ${coll}`, `page ${coll}`]
    case 'tier': return ['t1', 't2'].includes(id) ? [`tier ${id}`] : null
    case '_ledger': return ['ledger entries', 'ledger verify']
    case '_ledger_deltas': return null
    case '_dict_status': return ['dict list']
    case '_consent_audit': return ['consent']
    case '_periods': return ['periods']
    case '_sync_credentials': return ['credential']
    default: return null
  }
}
function alter(r, env, other) {
  const kind = r.pick(['flip', 'flip', 'flip', 'truncate', 'extend', 'iv', 'iv', 'ivlen', 'otherkey', 'empty', 'plain', 'swapiv', 'garbage'])
  const b = Buffer.from(env._data, 'base64'); const iv = Buffer.from(env._iv, 'base64'); const e = { ...env }
  if (kind === 'flip') { const pos = r.pick([0, 1, b.length - 1, b.length - 16, b.length - 17, r.int(0, b.length - 1)]); b[Math.max(0, pos)] ^= 1 << r.int(0, 7); e._data = b.toString('base64') }
  else if (kind === 'truncate') e._data = b.subarray(0, r.pick([0, 1, 15, 16, b.length - 1, b.length >> 1])).toString('base64')
  else if (kind === 'extend') e._data = Buffer.concat([b, Buffer.from(r.bytes(r.int(1, 20)))]).toString('base64')
  else if (kind === 'iv') { iv[r.int(0, iv.length - 1)] ^= 1 << r.int(0, 7); e._iv = iv.toString('base64') }
  else if (kind === 'ivlen') e._iv = r.pick([iv.subarray(0, 11), Buffer.concat([iv, Buffer.from([0])])]).toString('base64')
  else if (kind === 'otherkey') { if (!other) return null; e._data = other._data; e._iv = other._iv }
  else if (kind === 'empty') e._data = ''
  else if (kind === 'plain') { e._iv = r.pick(['', env._iv]); e._data = JSON.stringify({ forged: true, n: 1, kind: 'forged' }) }
  else if (kind === 'swapiv') { if (!other) return null; e._iv = other._iv }
  else e._data = r.pick(['%%%not base64%%%', Buffer.from(r.bytes(b.length)).toString('base64')])
  if (e._data === env._data && e._iv === env._iv) return null
  return { e, kind }
}
// items sealed with one key: a collection, its past versions and its attachment listings
const group = x => x.coll === '_history' ? x.id.split(':')[0] : x.coll.replace(/^_blob_(slots|versions)_/, '').replace('_ledger_deltas', '_ledger')
export async function build(c) {
  const k = new Kitchen(c); await k.open()
  const marks = []; const mark = () => { marks.push(c.clock.now + 1); c.clock.set(c.clock.now + 5000) }
  for (const id of IDS) { const x = k.record(); await k.docs.put(id, x); k.someKind = x.kind; const y = k.record(); await k.lazy.put(id, y); k.someKind2 = y.kind; const z = k.record(); await k.det.put(id, z); k.someMail = z.email }
  await k.run(['dict', 'dict', 'text', 'text', 'crdt', 'rga', 'consent', 'period', 'tier', 'cred', 'blob', 'publish', 'elevate']); mark()
  await k.run(c.rng.shuffle(['put', 'put', 'put', 'putMany', 'del', 'tx', 'crdt', 'rga', 'blob', 'blob', 'publish', 'dict', 'period', 'consent', 'blob', 'grant', 'put'])); mark()
  await k.run(['put', 'put', 'delegate'])
  return { k, marks }
}
export async function runAll(k, R, names) {
  const out = {}; let w
  try { w = await openFresh(k) } catch (e) { for (const n of names) out[n] = { err: e }; return out }
  for (const n of names) { try { out[n] = { val: plain(await R[n](w)) } } catch (e) { out[n] = { err: e } } }
  w.db.close()
  return out
}
function judge(c, base, out, what, must, idx = false) {
  for (const n in out) {
    c.count('reader_runs')
    const o = out[n]
    if (o.err) { if (o.err instanceof TypeError || o.err instanceof RangeError || o.err instanceof ReferenceError) c.fail(`${what}: "${n}" failed with ${o.err.name}: ${o.err.message}`, { detail: o.err.stack }); continue }
    if (idx && / lazy$/.test(n) && Array.isArray(o.val) && o.val.every(x => base[n].val.some(y => deepEq(x, y)))) continue
    c.ok(deepEq(o.val, base[n].val), () => `${what}: "${n}" returned ${show(o.val)} instead of ${show(base[n].val)} or an error`)
  }
  for (const n of must ?? []) { c.count('direct_reads_refused'); c.ok(out[n].err, () => `${what}: reading it directly ("${n}") did not fail but returned ${show(out[n].val)}`) }
}

async function items(c) {
  const r = c.rng; const { k, marks } = await build(c); const R = readers(k, marks); const names = Object.keys(R)
  const base = await runAll(k, R, names)
  for (const n of names) c.ok(!base[n].err, () => `untouched storage: "${n}" failed: ${base[n].err?.message}`, { detail: base[n].err?.stack })
  const flat = []; for (const [v, vm] of k.ref.data) for (const [coll, m] of vm) for (const [id, e] of m) if (e._iv) flat.push({ v, coll, id, e })
  const kinds = [...new Set(flat.map(x => x.coll))]
  for (let j = 0; j < 30; j++) {
    const coll = j < kinds.length ? kinds[j] : r.pick(kinds); const t = r.pick(flat.filter(x => x.coll === coll))
    const others = flat.filter(x => group(x) !== group(t)); const a = alter(r, t.e, others.length ? r.pick(others).e : null); if (!a) continue
    const what = `${a.kind} alteration of ${t.coll}/${t.id}`
    k.ref.coll(t.v, t.coll).set(t.id, a.e)
    const must = direct(t.coll, t.id)
    // run the direct readers and a sample of the others
    const sub = [...new Set([...(must ?? []), ...r.sample(names, 25)])]
    const out = await runAll(k, R, sub)
    judge(c, base, out, what, must, t.id.startsWith('_idx/'))
    c.count('alterations'); c.seen('collections', t.coll); c.sig([t.coll, t.id, a.kind, a.e._data === t.e._data ? 'iv' : 'data'])
    if (j === 0) c.sample({ altered: `${t.coll}/${t.id}`, kind: a.kind, readers: sub.length, failed: sub.filter(n => out[n].err).length })
    k.ref.coll(t.v, t.coll).set(t.id, t.e)
  }
  const again = await runAll(k, R, names)
  for (const n of names) c.ok(!again[n].err && deepEq(again[n].val, base[n].val), () => `after restoring the bytes "${n}" ${again[n].err ? 'fails: ' + again[n].err.message : 'differs'}`)
  c.count('restored')
}

// attachment chunks: moved, swapped, dropped, duplicated, taken from another attachment
async function chunks(c) {
  const r = c.rng; const k = new Kitchen(c); await k.open()
  const put = {}
  for (const id of ['a', 'b']) { await k.docs.put(id, { n: 1 }); for (const s of ['x', 'y']) { const n = r.pick([1, 5, 64, 65, 200, 640]); const body = r.bytes(n); if (r.chance(0.3)) body.fill(7); await k.docs.blob(id).put(s, body, { chunkSize: 64, compress: r.chance(0.5), mimeType: 'application/x' }); put[`${id}/${s}`] = Buffer.from(body) } }
  const vm = k.ref.data.get('acme'); const colls = [...vm.keys()].filter(x => x.startsWith('_blob')); const cc = colls.find(x => /chunk/.test(x)); c.ok(cc, 'no chunk collection found in storage'); const m = vm.get(cc); const ids = [...m.keys()]
  const readAll = async () => { const out = {}; let w; try { w = await openFresh(k) } catch (e) { return null } for (const key in put) { const [id, s] = key.split('/'); try { const x = await w.w.docs.blob(id).get(s); out[key] = x === null ? 'null' : Buffer.from(x) } catch (e) { out[key] = e } } w.db.close(); return out }
  for (let j = 0; j < 12; j++) {
    const snap = k.ref.snapshot(); const kind = r.pick(['swap', 'copy', 'drop', 'flip', 'index']); let what = kind; const a = r.pick(ids); const b = r.pick(ids); let touched = true
    if (kind === 'swap' || kind === 'copy') { if (a === b) continue; const ea = m.get(a); const eb = m.get(b); k.ref.put('acme', cc, a, eb); if (kind === 'swap') k.ref.put('acme', cc, b, ea); what += ` of chunks ${a} and ${b}` }
    else if (kind === 'drop') { k.ref.delete('acme', cc, a); what += ` of chunk ${a}` }
    else if (kind === 'flip') { const al = alter(r, m.get(a), null); if (!al) { touched = false } else { k.ref.put('acme', cc, a, al.e); what = `${al.kind} of chunk ${a}` } }
    else { const ic = r.pick(colls.filter(x => x !== cc)); const im = [...vm.get(ic).entries()]; const [x, e] = r.pick(im); if (!e._iv) { touched = false } else { const o = r.chance(0.5) && im.length > 1 ? r.pick(im.filter(y => y[0] !== x))[1] : null; const al = o ? { e: { ...e, _iv: o._iv, _data: o._data }, kind: 'exchange' } : alter(r, e, null); if (al && al.kind !== 'exchange') { k.ref.put('acme', ic, x, al.e); what = `${al.kind} of ${ic}/${x}` } else touched = false } }
    if (touched) {
      const out = await readAll(); c.count('chunk_moves'); c.sig([what, ids.length])
      if (out) for (const key in put) { c.count('reader_runs'); const o = out[key]; if (o instanceof Error) { c.ok(!(o instanceof TypeError || o instanceof RangeError), `${what}: reading ${key} failed with ${o.name}: ${o.message}`); continue } c.ok(o !== 'null' && put[key].equals(o), () => `${what}: reading attachment ${key} returned ${o === 'null' ? 'null' : o.length + ' bytes'} instead of its ${put[key].length} bytes or an error`) }
      if (out && kind !== 'index' && (kind !== 'copy' || !deepEq(m.get(a), m.get(b)))) c.ok(Object.values(out).some(x => x instanceof Error), `${what}: no attachment read noticed`)
    }
    k.ref.restore(snap); vm.clear(); for (const [x, y] of k.ref.data.get('acme')) vm.set(x, y); k.ref.data.set('acme', vm)
    const m2 = vm.get(cc); for (const [x, y] of m2) m.set(x, y)
  }
  const out = await readAll(); for (const key in put) c.ok(Buffer.isBuffer(out[key]) && put[key].equals(out[key]), `after restoring, attachment ${key} is not readable`)
}

// wrapped keys and salt of the keyring
async function keyring(c) {
  const r = c.rng; const k = new Kitchen(c); await k.open()
  for (const id of ['a', 'b']) { await k.docs.put(id, k.record()); await k.lazy.put(id, k.record()) }
  const base = {}; const read = async () => { const o = {}; let w; try { w = await openFresh(k) } catch (e) { return e } for (const n of ['docs', 'lazy']) for (const id of ['a', 'b']) { try { o[n + id] = await w.w[n].get(id) } catch (e) { o[n + id] = e } } return o }
  Object.assign(base, await read())
  const env = k.ref.get('acme', '_keyring', 'alice')
  for (let j = 0; j < 10; j++) {
    const f = JSON.parse(env._data); const names = Object.keys(f.deks); const kind = r.pick(['dek', 'dek', 'salt', 'swap', 'trunc']); const n = r.pick(names)
    if (kind === 'dek') { const b = Buffer.from(f.deks[n], 'base64'); b[r.int(0, b.length - 1)] ^= 1 << r.int(0, 7); f.deks[n] = b.toString('base64') }
    else if (kind === 'salt') { const b = Buffer.from(f.salt, 'base64'); b[r.int(0, b.length - 1)] ^= 1 << r.int(0, 7); f.salt = b.toString('base64') }
    else if (kind === 'trunc') f.deks[n] = Buffer.from(f.deks[n], 'base64').subarray(0, r.pick([0, 8, 24, 32])).toString('base64')
    else { const o = r.pick(names.filter(x => x !== n)); [f.deks[n], f.deks[o]] = [f.deks[o], f.deks[n]] }
    k.ref.put('acme', '_keyring', 'alice', { ...env, _data: JSON.stringify(f) })
    const o = await read(); c.count('alterations'); c.sig([kind, n, j])
    if (!(o instanceof Error)) { for (const x in o) { c.count('reader_runs'); c.ok(o[x] instanceof Error || deepEq(o[x], base[x]), `keyring ${kind} of "${n}": ${x} returned ${show(o[x])}`) } c.ok(kind === 'swap' || false, `keyring ${kind} of "${n}": the vault still opened`) }
    else c.ok(!(o instanceof TypeError), `keyring ${kind}: ${o.message}`)
    k.ref.put('acme', '_keyring', 'alice', env)
  }
  c.ok(deepEq(await read(), base), 'after restoring the keyring reads differ')
}
export const scenarios = [
  { name: 'items', quick: 350, thorough: 4000, run: items },
  { name: 'chunks', quick: 400, thorough: 3000, run: chunks },
  { name: 'keyring', quick: 300, thorough: 2000, run: keyring },
]
