// Failed writes: every storage call of an operation is made to fail in turn (before it is
// applied); afterwards what the instance shows must be what the backend holds, and a retry must work.
import { open, newRef, instrument } from '../lib/world.mjs'
import { StoreFault } from '../lib/store.mjs'
import { z } from 'zod'
import { ref as fkRef } from '@noy-db/hub'
import { show, deepEq } from '../lib/child.mjs'

export const meta = {
  property: 'C06', level: 'fault_enumeration',
  rule: 'one distinct case per (mode, operation, prior state, index of the failing storage call, kind of that call) in the enumerated runs, and per (kind of refusal, mode, operation) in the refused runs',
  assumptions: ['a failing backend call is one that was not applied; calls applied but reported as failed are outside the statement'],
  minimums: { faults_injected: 1000, rejected_ops: 500, retries_ok: 600, refused_ops: 100 },
}
const MODES = ['eager', 'eager-idx', 'lazy', 'lazy-idx', 'plain', 'crdt']
const copts = m => m === 'eager-idx' ? { indexes: ['n'] } : m === 'lazy' ? { prefetch: false, cache: { maxRecords: 2 } } : m === 'lazy-idx' ? { prefetch: false, cache: { maxRecords: 2 }, indexes: ['n'] } : m === 'crdt' ? { crdt: 'lww-map' } : {}
const lazy = m => m.startsWith('lazy')

async function build(store, mode, warm) {
  const { db, v } = await open(store, { features: mode === 'plain' ? ['index'] : ['history', 'index', 'tx', 'crdt'], history: mode === 'plain' ? { enabled: false } : { enabled: true, maxVersions: 2 } })
  const coll = v.collection('docs', copts(mode))
  if (warm) { await coll.get('a'); await coll.count() }
  return { db, v, coll }
}
const recs = u => ({ u, n: u % 3, name: 'r' + u })

// what the backend holds, read by an independent instance
async function truth(ref, mode) {
  const s = instrument(ref, { keepLog: false })
  const { coll } = await build(s, mode === 'crdt' ? 'crdt' : 'eager', false)
  const m = {}
  for (const i of ['a', 'b', 'c', 'd']) { const x = await coll.get(i); if (x) m[i] = x }
  return m
}
async function visible(c, coll, mode) {
  const m = {}
  for (const i of ['a', 'b', 'c', 'd']) { const x = await coll.get(i); if (x) m[i] = x }
  const n = await coll.count(); c.eq(n, Object.keys(m).length, `count() disagrees with get() in ${mode}`)
  const out = []; for await (const x of coll.scan({ pageSize: 10 })) out.push(x.u)
  c.eq(out.sort(), Object.values(m).map(x => x.u).sort(), `scan() disagrees with get() in ${mode}`)
  if (!lazy(mode)) {
    c.eq((await coll.list()).map(x => x.u).sort(), Object.values(m).map(x => x.u).sort(), `list() disagrees with get() in ${mode}`)
    for (let k = 0; k < 3; k++) c.eq(coll.query().where('n', '==', k).toArray().map(x => x.u).sort(), Object.values(m).filter(x => x.n === k).map(x => x.u).sort(), `query disagrees with get() in ${mode}`)
  }
  return m
}
const OPS = {
  create: { run: (coll) => coll.put('a', recs(100)), pre: [['b', 1]], touched: { a: [null, 100] } },
  update: { run: (coll) => coll.put('a', recs(100)), pre: [['a', 1], ['b', 2]], touched: { a: [1, 100] } },
  update3: { run: (coll) => coll.put('a', recs(100)), pre: [['a', 1], ['a', 3], ['a', 4], ['b', 2]], touched: { a: [4, 100] } },
  delete: { run: (coll) => coll.delete('a'), pre: [['a', 1], ['b', 2]], touched: { a: [1, null] } },
  putMany: { run: async (coll) => { const r = await coll.putMany([['a', recs(100)], ['c', recs(101)]]); if (!r.ok) throw r.failures[0].error }, pre: [['a', 1], ['b', 2]], touched: { a: [1, 100], c: [null, 101] } },
  delMany: { run: async (coll) => { const r = await coll.deleteMany(['a', 'c']); if (!r.ok) throw r.failures[0].error }, pre: [['a', 1], ['b', 2], ['c', 3]], touched: { a: [1, null], c: [3, null] } },
  first: { run: (coll) => coll.put('a', recs(100)), pre: [], touched: { a: [null, 100] } },
  revert: { run: (coll) => coll.revert('a', 1), pre: [['a', 1], ['a', 5], ['b', 2]], touched: { a: [5, 1] }, modes: ['eager', 'lazy', 'eager-idx'] },
}

async function one(c, mode, opName, warm, k) {
  const op = OPS[opName]
  const ref = newRef(); const store = instrument(ref)
  const pre = await build(store, mode, false)
  for (const [i, u] of op.pre) await pre.coll.put(i, recs(u))
  const w = await build(store, mode, warm)
  const before = await truth(ref, mode)
  let n = 0; let hit = null
  store._st.fault = ev => { n++; if (n === k) { hit = `${ev.op}:${ev.coll}`; return 'before' } }
  let err = null
  try { await op.run(w.coll) } catch (e) { err = e }
  store._st.fault = null
  if (k === 0) { if (err) throw err; return n }
  if (!hit) return n
  c.count('faults_injected'); c.seen('failed_calls', hit); c.sig([mode, opName, warm, k, hit])
  const label = `${opName} in ${mode}${warm ? ' (warm)' : ' (cold)'} with storage call #${k} (${hit}) failing`
  if (err) {
    c.count('rejected_ops')
    c.ok(err instanceof StoreFault || err.injected || err.cause?.injected || /injected fault/.test(String(err.message)), `${label}: surfaced as an unrelated error ${err.name}: ${err.message}`)
  } else c.count('absorbed_faults')
  const seen = await visible(c, w.coll, mode)
  const tr = await truth(ref, mode)
  c.eq(seen, tr, `${label}: reads through the instance differ from what the backend holds`)
  for (const i of ['a', 'b', 'c', 'd']) {
    const t = op.touched[i]
    if (!t) c.eq(seen[i], before[i], `${label}: untouched record ${i} changed`)
    else { const got = seen[i]?.u ?? null; const okv = err ? t : [t[1]]; c.ok(okv.includes(got), `${label}: record ${i} is ${show(seen[i])}, allowed ${show(okv)}`); if (seen[i]) c.eq(seen[i], recs(got), `${label}: record ${i} is a mixture`) }
  }
  if (err && !(opName === 'revert')) {
    await op.run(w.coll)
    c.count('retries_ok')
    const after = await visible(c, w.coll, mode)
    for (const i in op.touched) c.eq(after[i]?.u ?? null, op.touched[i][1], `${label}: after a successful retry record ${i}`)
    c.eq(after, await truth(ref, mode), `${label}: after retry the backend differs`)
  }
  // the instance keeps working
  await w.coll.put('d', recs(200)); c.eq((await truth(ref, mode)).d, recs(200), `${label}: later write not stored`)
  return n
}
async function enumerate(c) {
  const r = c.rng
  const combos = []
  for (const mode of MODES) for (const o in OPS) for (const warm of [true, false]) { if (OPS[o].modes && !OPS[o].modes.includes(mode)) continue; combos.push([mode, o, warm]) }
  const [mode, o, warm] = combos[c.i % combos.length]
  const n = await one(c, mode, o, warm, 0)
  c.max('storage_calls_per_op', n)
  for (let k = 1; k <= n; k++) await one(c, mode, o, warm, k)
  c.sample({ mode, op: o, warm, storage_calls: n })
}
// random programs with a random fault per operation
async function randomFaults(c) {
  const r = c.rng; const mode = r.pick(MODES)
  const ref = newRef(); const store = instrument(ref, { keepLog: false })
  const w = await build(store, mode, r.chance(0.5))
  await w.coll.put('b', recs(1)); let u = 10
  const prog = []
  for (let s = 0; s < r.int(3, 10); s++) {
    const id = r.pick(['a', 'b', 'c']); const val = recs(++u); const kind = r.pick(['put', 'put', 'del'])
    const before = (await truth(ref, mode))[id]
    let n = 0; const k = r.int(1, 14); let hit = null
    store._st.fault = ev => { n++; if (n === k) { hit = ev.op; return 'before' } }
    let err = null
    try { await (kind === 'put' ? w.coll.put(id, val) : w.coll.delete(id)) } catch (e) { err = e }
    store._st.fault = null
    prog.push(`${kind}:${id}:${hit ? k : '-'}${err ? '!' : ''}`)
    if (hit) { c.count('faults_injected'); if (err) c.count('rejected_ops') }
    c.ok(!err || hit, `write failed without a fault: ${err?.stack}`)
    const tr = await truth(ref, mode); const seen = await visible(c, w.coll, mode)
    c.eq(seen, tr, `after ${prog.join(' ')} (${mode}) reads differ from the backend`)
    const want = kind === 'put' ? val : undefined
    c.ok(deepEq(seen[id], want) || (err && deepEq(seen[id], before)), `after ${prog.join(' ')} (${mode}) record ${id} = ${show(seen[id])}`)
  }
  c.sig([mode, prog])
}
// refusals: schema, permission, reference, period, conflict
async function refused(c) {
  const r = c.rng
  const ref = newRef(); const store = instrument(ref, { keepLog: false })
  const { db, v } = await open(store)
  const schema = z.object({ id: z.string(), n: z.number(), target: z.string().optional(), date: z.string().optional() })
  const lz = r.chance(0.3)
  v.collection('targets', {})
  const o = { schema, refs: { target: fkRef('targets', 'strict') } }
  const docs = v.collection('docs', lz ? { ...o, refs: undefined, prefetch: false, cache: { maxRecords: 5 } } : o)
  const targets = v.collection('targets')
  await targets.put('t1', { id: 't1' }); await docs.put('a', { id: 'a', n: 1, target: 't1', date: '2026-01-01' }); await docs.put('b', { id: 'b', n: 2, date: '2026-02-01' })
  await db.grant('acme', { userId: 'bob', displayName: 'Bob', role: 'viewer', passphrase: 'bob-correct-horse-battery' })
  const kinds = ['schema', 'perm', 'conflict', ...(lz ? [] : ['ref', 'refdel', 'period'])]
  const kind = r.pick(kinds)
  let run
  if (kind === 'schema') run = r.pick([() => docs.put('a', { id: 'a', n: 'x' }), () => docs.put('z', { nope: true }), () => docs.putMany([['a', { id: 'a', n: 'bad' }], ['q', { id: 1 }]]).then(x => { if (!x.ok) throw x.failures[0].error }), () => docs.putMany([['a', { id: 'a', n: 'bad' }]], { atomic: true }), () => db.transaction(tx => { tx.vault('acme').collection('docs').put('a', { id: 'a', n: 'x' }) })])
  if (kind === 'ref') run = r.pick([() => docs.put('a', { id: 'a', n: 5, target: 'missing' }), () => docs.put('z', { id: 'z', n: 5, target: 'nope' }), () => docs.putMany([['z', { id: 'z', n: 5, target: 'nope' }]], { atomic: true })])
  if (kind === 'refdel') run = r.pick([() => targets.delete('t1'), () => targets.deleteMany(['t1']).then(x => { if (!x.ok) throw x.failures[0].error }), () => db.transaction(tx => { tx.vault('acme').collection('targets').delete('t1') })])
  if (kind === 'conflict') run = r.pick([() => docs.putMany([['b', { id: 'b', n: 9 }, { expectedVersion: 7 }]], { atomic: true }), () => docs.putMany([['b', { id: 'b', n: 9 }], ['a', { id: 'a', n: 9 }, { expectedVersion: 0 }]], { atomic: true }), () => db.transaction(tx => { const t = tx.vault('acme').collection('docs'); t.put('b', { id: 'b', n: 9 }); t.put('a', { id: 'a', n: 3 }, { expectedVersion: 5 }) })])
  if (kind === 'perm') { const b = await open(store, { user: 'bob', secret: 'bob-correct-horse-battery' }); const bd = b.v.collection('docs'); run = r.pick([() => bd.put('a', { id: 'a', n: 9 }), () => bd.delete('a'), () => bd.put('new', { id: 'new', n: 9 }), () => bd.putMany([['a', { id: 'a', n: 9 }]], { atomic: true }), () => bd.deleteMany(['a', 'b']).then(x => { if (!x.ok) throw x.failures[0].error }), () => bd.revert('a', 1)]) }
  if (kind === 'period') { await v.closePeriod({ name: 'FY1', endDate: '2026-01-31', dateField: 'date' }); run = r.pick([() => docs.put('a', { id: 'a', n: 9, date: '2026-01-01' }), () => docs.delete('a'), () => docs.put('zz', { id: 'zz', n: 1, date: '2026-01-15' }), () => docs.put('a', { id: 'a', n: 9, date: '2026-03-01' }), () => db.transaction(tx => { tx.vault('acme').collection('docs').put('a', { id: 'a', n: 9, date: '2026-01-02' }) })]) }
  const before = ref.snapshot().acme; const shown = [await docs.get('a'), await docs.get('b'), await docs.get('z'), await docs.get('zz'), await docs.count()]
  let writes = 0
  store._st.onCall = ev => { if (['put', 'delete', 'saveAll'].includes(ev.op) && ['docs', 'targets'].includes(ev.coll)) writes++ }
  let err = null
  try { await run() } catch (e) { err = e }
  store._st.onCall = null
  c.ok(err, `a write that must be refused (${kind}) was accepted`)
  c.count('refused_ops'); c.seen('refusals', `${kind}/${err.name}`)
  const after = ref.snapshot().acme
  c.eq(after.docs, before.docs, `refused write (${kind}, ${err.name}) changed stored records`); c.eq(after.targets, before.targets, `refused write (${kind}) changed stored records`)
  c.eq(writes, 0, `refused write (${kind}, ${err.name}) issued storage mutations of user records`)
  c.eq([await docs.get('a'), await docs.get('b'), await docs.get('z'), await docs.get('zz'), await docs.count()], shown, `refused write (${kind}) changed what readers see`)
  c.sig([kind, lz, String(run), err.name])
}
export const scenarios = [
  { name: 'enumerate', quick: 88, thorough: 88, run: enumerate },
  { name: 'random', quick: 15000, thorough: 20000, run: randomFaults },
  { name: 'refused', quick: 6000, thorough: 6000, run: refused },
]
