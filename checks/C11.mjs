// One store contract: the same call sequence runs on every supplied backend (on stand-ins that keep
// each service's rules) and on an executable map; every result and the whole content must agree.
import { BACKENDS } from '../lib/backends.mjs'
import { newRef } from '../lib/world.mjs'
import { Sched } from '../lib/sched.mjs'
import { show, deepEq } from '../lib/child.mjs'

export const meta = {
  property: 'C11', level: 'exploration',
  rule: 'distinct by (backend, operation mix, kinds of names in play, page limit, outcome kinds); sequences that stored nothing are not counted',
  assumptions: [
    'the services behind remote backends are stand-ins that keep the rules the backends depend on: page limits, key order, conditional writes, column types and collations, missing-parent refusals',
    'empty names, control characters and names equal to built-in object members are not generated; dot-only names are not generated for the web transport, where URLs cannot carry them',
    'two different names whose 32-bit obfuscated forms coincide are a known finding, checked separately',
  ],
  minimums: { calls: 20000, pages: 2000, bulk_saves: 800, bulk_loads: 1500, stale_puts_refused: 800, races: 1200, overlaps: 1000, reseals: 800, batches: 1200, batches_refused: 400 },
}
const VAULTS = ['acme', 'a', 'a:b', 'a/b', 'A', 'a b', 'a%2Fb', 'a#b', 'ünï', '.', '..', '../x', 'acme.json', 'a%', 'a\\b', 'c']
const COLLS = ['inv', 'b', 'b:c', 'b/c', 'c', 'INV', 'a b', 'b#c', 'b%3Ac', 'บริษัท', '.', '..', '../inv', 'inv.json', 'x_y', 'b%', 'b_']
const INTERNAL = ['_keyring', '_ledger', '_sync', '_dict_x']
const IDS = ['r1', 'R1', 'r2', 'a/b', 'a:b', 'a#b', '../r1', '../../inv/r1', 'c:r1', 'c/r1', 'c#r1', '.', '..', 'r1.json', 'r1.json.tmp', 'x y', 'é', 'ж', '%2F', '100%', 'r1 ', 'a_b', 'ab', '10', '9', "o'hare", '%', 'L'.repeat(100), '1:2:3', '<&">', '?q=1', 'a+b', 'a\\b', '😀']
const kind = n => n.replace(/[a-zA-Zก-๙0-9À-ÿ]+/g, 'w').slice(0, 6)
let serial = 0
function env(r, v) {
  const e = { _noydb: 1, _v: v ?? r.int(1, 9), _ts: new Date(1.7e12 + r.int(0, 1e9)).toISOString(), _iv: r.chance(0.15) ? '' : Buffer.from(r.bytes(12)).toString('base64'), _data: '' }
  e._data = e._iv === '' ? JSON.stringify({ keyring: ++serial, n: r.pick(['é', '"', '日', '\\', ' ']) }) : Buffer.from(r.bytes(r.pick([3, 16, 40, 200, 5000]))).toString('base64') + '#' + (++serial)
  if (r.chance(0.4)) e._by = r.pick(['alice', 'bob@x', 'ünï'])
  if (r.chance(0.3)) e._tier = r.int(0, 3)
  if (r.chance(0.15)) e._elevatedBy = 'carol'
  if (r.chance(0.2)) e._det = { email: 'abc' + serial, 'x.y': 'q' }
  return e
}
const noEmpty = o => Object.fromEntries(Object.entries(o).filter(([, x]) => Object.keys(x).length))
const pageAll = async (c, B, store, v, col, limit) => {
  const out = []; let cur; let pages = 0
  do { const p = await store.listPage(v, col, cur ?? undefined, limit); c.count('pages'); c.ok(p.items.length <= Math.max(limit, 1), () => `${B}: page of ${p.items.length} for limit ${limit}`); out.push(...p.items); cur = p.nextCursor; c.ok(++pages < 500, `${B}: paging does not end`) } while (cur)
  return out
}
async function compareAll(c, B, store, ref, vaults, colls) {
  for (const v of vaults) {
    for (const col of colls) {
      const want = ref.list(v, col).sort(); const got = (await store.list(v, col)).slice().sort()
      c.eq(got, want, `${B}: list(${v}, ${col})`)
      for (const id of want) c.eq(await store.get(v, col, id), ref.get(v, col, id), `${B}: get(${v}, ${col}, ${id})`)
    }
    c.eq(noEmpty(await store.loadAll(v)), noEmpty(ref.loadAll(v)), `${B}: loadAll(${v})`); c.count('bulk_loads')
  }
}
const isConflict = e => e?.name === 'ConflictError'
function names(r, b) {
  const dot = n => b.dotless && /^\.+$/.test(n)
  const vaults = r.sample(VAULTS.filter(n => !dot(n)), r.int(2, 3)); const colls = [...r.sample(COLLS.filter(n => !dot(n)), r.int(2, 4)), ...r.sample(INTERNAL, r.int(1, 2))]
  return { vaults, colls }
}
async function sequence(c) {
  const r = c.rng; const keys = Object.keys(BACKENDS); const B = keys[c.i % keys.length]; const b = BACKENDS[B]
  const store = b.make(c); const ref = newRef()
  const { vaults, colls } = names(r, b); const ids = r.sample(IDS, r.int(4, 14)); const limit = r.int(1, 6)
  const n = r.int(15, 45); const mix = new Set()
  for (let k = 0; k < n; k++) {
    let v = r.pick(vaults); let col = r.pick(colls); let id = r.pick(ids)
    const op = r.weighted([[10, 'put'], [4, 'cas'], [3, 'reseal'], [3, 'stale'], [4, 'get'], [4, 'delete'], [4, 'list'], [3, 'page'], [2, 'loadAll'], [2, 'saveAll'], [1, 'resave']])
    mix.add(op); c.count('calls')
    if (/stale|cas|get|delete|reseal/.test(op) && r.chance(0.7)) { const all = vaults.flatMap(x => colls.flatMap(y => ref.list(x, y).map(z => [x, y, z]))); if (all.length) [v, col, id] = r.pick(all) }
    if (op === 'put') { const e = env(r); await store.put(v, col, id, structuredClone(e)); ref.put(v, col, id, e) }
    else if (op === 'cas') { const cur = ref.get(v, col, id); const e = env(r, (cur?._v ?? 0) + 1); await store.put(v, col, id, structuredClone(e), cur?._v ?? 0); ref.put(v, col, id, e) }
    else if (op === 'reseal') { // new content under an unchanged version and time stamp, as key rotation and a rollback write it
      const cur = ref.get(v, col, id); if (!cur) continue
      const e = { ...env(r, cur._v), _ts: cur._ts }; await store.put(v, col, id, structuredClone(e), ...(b.cas && r.chance(0.3) ? [cur._v] : [])); ref.put(v, col, id, e); c.count('reseals')
      c.eq(await store.get(v, col, id), e, `${B}: a write that keeps version and time stamp is not stored`)
    }
    else if (op === 'stale') {
      const cur = ref.get(v, col, id); if (!b.cas || !cur) continue
      let err; const e = env(r, cur._v + 1)
      try { await store.put(v, col, id, e, r.pick([cur._v - 1, cur._v + 1, cur._v + 10, 0].filter(x => x !== cur._v))) } catch (x) { err = x }
      c.ok(isConflict(err), () => `${B}: put with a stale expected version ${err ? `failed with ${err.name}: ${err.message}` : 'was accepted'}`)
      if (typeof err.version === 'number') c.eq(err.version, cur._v, `${B}: conflict reports the wrong current version`)
      c.eq(await store.get(v, col, id), cur, `${B}: refused put changed the record`); c.count('stale_puts_refused')
    }
    else if (op === 'get') c.eq(await store.get(v, col, id), ref.get(v, col, id), `${B}: get(${v}, ${col}, ${id})`)
    else if (op === 'delete') { await store.delete(v, col, id); ref.delete(v, col, id) }
    else if (op === 'list') c.eq((await store.list(v, col)).slice().sort(), ref.list(v, col).sort(), `${B}: list(${v}, ${col})`)
    else if (op === 'page') {
      if (!store.listPage) continue
      const got = await pageAll(c, B, store, v, col, limit)
      c.eq(got.map(x => x.id).sort(), ref.list(v, col).sort(), `${B}: pages of ${v}/${col} with limit ${limit}`)
      for (const x of got) c.eq(x.envelope, ref.get(v, col, x.id), `${B}: page item ${x.id}`)
    }
    else if (op === 'loadAll') { c.eq(noEmpty(await store.loadAll(v)), noEmpty(ref.loadAll(v)), `${B}: loadAll(${v})`); c.count('bulk_loads') }
    else if (op === 'saveAll') {
      const data = {}
      for (const x of r.sample(colls.filter(x => !x.startsWith('_')), r.int(0, 3))) { data[x] = {}; for (const y of r.sample(ids, r.int(0, 4))) data[x][y] = env(r) }
      await store.saveAll(v, structuredClone(data)); ref.saveAll(v, data); c.count('bulk_saves')
    }
    else if (op === 'resave') { await store.saveAll(v, await store.loadAll(v)); c.count('bulk_saves') }
    if (store.listVaults && r.chance(0.1)) {
      const got = await store.listVaults(); const want = vaults.filter(x => colls.some(y => ref.list(x, y).length))
      c.ok(new Set(got).size === got.length, () => `${B}: listVaults repeats ${show(got)}`)
      for (const x of want) c.ok(got.includes(x), () => `${B}: listVaults ${show(got)} misses ${x}`)
      for (const x of got) c.ok(vaults.includes(x), () => `${B}: listVaults names ${show(x)}, which nobody wrote`)
    }
  }
  await compareAll(c, B, store, ref, vaults, colls)
  if (vaults.some(v => colls.some(x => ref.list(v, x).length))) c.sig([B, [...mix].sort(), [...vaults, ...colls, ...ids].map(kind).sort().slice(0, 8), limit])
  c.seen('backends', B); c.max('stored', vaults.reduce((a, v) => a + colls.reduce((q, x) => q + ref.list(v, x).length, 0), 0))
  c.sample({ backend: B, vaults, colls, ids, operations: n })
}
async function many(c) { // collections larger than any page
  const r = c.rng; const keys = Object.keys(BACKENDS); const B = keys[c.i % keys.length]; const b = BACKENDS[B]
  const store = b.make(c); const ref = newRef(); const n = r.pick([99, 100, 101, 130, 250])
  const data = { inv: {}, 'b c': {} }; const ids = Array.from({ length: n }, (_, k) => `${r.pick(['r', 'R', 'x/', 'é'])}${k}`)
  for (const id of ids) data.inv[id] = env(r)
  data['b c'].one = env(r)
  await store.saveAll('acme', structuredClone(data)); ref.saveAll('acme', data)
  await store.put('acme', '_keyring', 'alice', env(r, 3)); 
  for (let k = 0; k < 6; k++) { const id = r.pick(ids); await store.delete('acme', 'inv', id); ref.delete('acme', 'inv', id) }
  await compareAll(c, B, store, ref, ['acme', 'other'], ['inv', 'b c'])
  if (store.listPage) for (const limit of [undefined, 1, 7, 100, n, n + 1, 1000].filter(() => r.chance(0.6))) {
    const got = []; let cur; do { const p = await store.listPage('acme', 'inv', cur ?? undefined, limit); c.count('pages'); got.push(...p.items.map(x => x.id)); cur = p.nextCursor } while (cur && got.length < 2 * n)
    c.eq(got.sort(), ref.list('acme', 'inv').sort(), `${B}: pages with limit ${limit}`)
  }
  c.sig([B, n]); c.count('calls', n)
}
async function settle(c, b, sched, ps) { return b.gated ? sched.run(ps) : Promise.allSettled(ps) }
async function race(c) { // same expected version from several writers at once
  const r = c.rng; const keys = Object.keys(BACKENDS).filter(k => BACKENDS[k].atomic); const B = keys[c.i % keys.length]; const b = BACKENDS[B]
  const sched = new Sched(r.fork()); sched.enabled = false; c.sched = sched
  const store = b.make(c); const fresh = r.chance(0.35); const base = fresh ? 0 : r.int(1, 5)
  await store.put('acme', 'other', 'x', env(r))
  const first = fresh ? null : env(r, base)
  if (first) await store.put('acme', 'inv', 'r', structuredClone(first))
  const n = r.int(2, 4); const envs = Array.from({ length: n }, () => env(r, base + 1))
  sched.enabled = true
  const rs = await settle(c, b, sched, envs.map(async e => { for (let k = r.int(0, 3); k > 0; k--) await null; await store.put('acme', 'inv', 'r', structuredClone(e), base) }))
  sched.drainOff()
  const won = envs.filter((_, k) => rs[k].status === 'fulfilled')
  for (const x of rs) if (x.status === 'rejected') c.ok(isConflict(x.reason), () => `${B}: losing writer got ${x.reason?.name}: ${x.reason?.message}`)
  const now = await store.get('acme', 'inv', 'r')
  c.ok(won.length <= 1, () => `${B}: ${won.length} of ${n} writers with expected version ${base} were told their write succeeded; stored is ${show(now)}`, { detail: { trace: sched.trace } })
  c.eq(now, won[0] ?? first, `${B}: stored record is not the acknowledged one`)
  c.count('races'); if (won.length === 1) c.count('races_won'); c.sig([B, n, fresh, sched.trace.length, rs.map(x => x.status[0]).join('')])
  c.seen('race_backends', B)
}
async function overlap(c) { // overlapping calls: nothing lost, nothing torn
  const r = c.rng; const keys = Object.keys(BACKENDS); const B = keys[c.i % keys.length]; const b = BACKENDS[B]
  const sched = new Sched(r.fork()); sched.enabled = false; c.sched = sched
  const store = b.make(c); const ids = ['p', 'q', 's', 't'].slice(0, r.int(1, 4)); const written = new Map(ids.map(i => [i, [null]])); const acked = new Map()
  for (const id of ids) if (r.chance(0.5)) { const e = env(r); await store.put('acme', 'inv', id, structuredClone(e)); written.set(id, [e]); acked.set(id, e) }
  const ops = []; const n = r.int(3, 7); const bad = []
  const per = new Map()
  sched.enabled = true
  for (let k = 0; k < n; k++) {
    const id = r.pick(ids)
    if (r.chance(0.6)) {
      const e = env(r); written.get(id).push(e); per.set(id, (per.get(id) ?? 0) + 1)
      ops.push(store.put('acme', 'inv', id, structuredClone(e)).then(() => acked.set(id, e)))
    } else if (r.chance(0.6)) ops.push(store.get('acme', 'inv', id).then(g => { if (!written.get(id).some(x => deepEq(x, g)) && !(g === null)) bad.push(`get(${id}) returned ${show(g)}, which nobody wrote`) }))
    else ops.push(store.list('acme', 'inv').then(l => { if (new Set(l).size !== l.length || l.some(x => !ids.includes(x))) bad.push(`list returned ${show(l)}`) }))
  }
  const rs = await settle(c, b, sched, ops); sched.drainOff()
  c.ok(!bad.length, () => `${B}: ${bad[0]}`, { detail: { trace: sched.trace } })
  for (const x of rs) c.ok(x.status === 'fulfilled', () => `${B}: overlapping call failed with ${x.reason?.name}: ${x.reason?.message}`, { detail: { trace: sched.trace } })
  for (const id of ids) {
    const g = await store.get('acme', 'inv', id)
    if (per.get(id)) c.ok(g !== null && written.get(id).slice(1).some(x => deepEq(x, g)), () => `${B}: after overlapping puts of ${id} the record is ${show(g)}`)
    else c.eq(g, acked.get(id) ?? null, `${B}: untouched record ${id}`)
  }
  c.eq((await store.list('acme', 'inv')).slice().sort(), ids.filter(i => acked.has(i)).sort(), `${B}: list after overlapping puts`)
  c.count('overlaps'); c.sig([B, n, ids.length, [...per.values()].sort(), sched.trace.length])
}
async function batches(c) { // several records in one call: all of it or none of it, every expected version honoured
  const r = c.rng; const B = BATCHED[c.i % BATCHED.length]; const b = BACKENDS[B]
  const store = b.make(c); const ref = newRef(); const { vaults, colls } = names(r, b); const ids = r.sample(IDS, r.int(3, 8)); let mix = ''
  if (!store.tx) { c.count('no_batches'); return }
  for (const v of vaults) for (const col of colls) for (const id of ids) if (r.chance(0.3)) { const e = env(r); await store.put(v, col, id, structuredClone(e)); ref.put(v, col, id, e) }
  for (let k = r.int(3, 7); k > 0; k--) {
    const ops = []; const seen = new Set(); let bad = 0; const badAt = r.chance(0.5) ? r.int(0, 5) : -1
    for (let j = r.int(1, 6); j > 0; j--) {
      const v = r.pick(vaults), col = r.pick(colls), id = r.pick(ids), key = JSON.stringify([v, col, id]); const cur = ref.get(v, col, id); const again = seen.has(key); seen.add(key)
      const op = r.chance(0.65) ? { type: 'put', vault: v, collection: col, id, envelope: env(r) } : { type: 'delete', vault: v, collection: col, id }
      if (!again && cur && ops.length >= badAt && badAt >= 0 && !bad) { op.expectedVersion = r.pick([cur._v + 1, cur._v - 1, cur._v + 9]); bad = 1 }
      else if (!again && r.chance(0.5) && (cur || op.type === 'put')) op.expectedVersion = cur?._v ?? 0
      ops.push(op)
    }
    if (bad && c.noBatchApi) continue // one by one, documented as not atomic
    let err
    try { await store.tx(structuredClone(ops)) } catch (e) { err = e }
    c.count('batches'); mix += bad ? 'x' : ops.map(o => o.type[0]).join('')[0]
    if (bad) {
      c.ok(isConflict(err), () => `${B}: a batch with a stale expected version ${err ? `failed with ${err.name}: ${err.message}` : 'was accepted'}: ${show(ops)}`); c.count('batches_refused')
    } else {
      c.ok(!err, () => `${B}: batch ${show(ops)} failed with ${err?.name}: ${err?.message}`)
      for (const o of ops) if (o.type === 'put') ref.put(o.vault, o.collection, o.id, o.envelope); else ref.delete(o.vault, o.collection, o.id)
    }
    if (bad || r.chance(0.4)) await compareAll(c, `${B} after a ${bad ? 'refused' : 'completed'} batch`, store, ref, vaults, colls)
  }
  await compareAll(c, B, store, ref, vaults, colls); c.sig([B, mix, vaults.length, colls.length, ids.length]); c.seen('batch_backends', B)
}
async function obfuscated(c) { // two names with the same obfuscated form
  const B = ['idb-obf', 'local-obf'][c.i % 2]; const store = BACKENDS[B].make(c); const a = env(c.rng, 1); const b = env(c.rng, 1)
  await store.put('acme', 'inv', 'costarring', structuredClone(a)); await store.put('acme', 'inv', 'liquid', structuredClone(b))
  c.ok(deepEq(await store.get('acme', 'inv', 'costarring'), a), `${B}: storing "liquid" replaced "costarring"`, { key: `obfuscated-name-collision-${B}` })
}
const BATCHED = ['memory', 'sqlite', 'd1', 'turso', 'postgres', 'supabase', 'mysql']
const B = Object.keys(BACKENDS).length
export const scenarios = [
  { name: 'sequence', quick: B * 100, run: sequence },
  { name: 'many', quick: B * 4, run: many },
  { name: 'race', quick: 12 * 150, run: race },
  { name: 'overlap', quick: B * 80, run: overlap },
  { name: 'batches', quick: BATCHED.length * 90, run: batches },
  { name: 'obfuscated', quick: 2, run: obfuscated },
]
