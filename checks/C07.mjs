// Queries against a naive evaluator: the same data is kept in collections with every index
// declaration and cache mode; every query form must give the naive answer on each of them.
import { open, newRef, instrument } from '../lib/world.mjs'
import { buildQueryFromTableState, tableStateFromQuery, resetTableState } from '@noy-db/in-tanstack-table'
import { Sched } from '../lib/sched.mjs'
import { show } from '../lib/child.mjs'

export const meta = {
  property: 'C07', level: 'exploration',
  rule: 'distinct by (query shape: operators, value types, order/limit use; collection mode; non-empty result or not); queries on empty collections are not counted',
  assumptions: ['sort order among equal keys, and which of several equally ranked rows a limit keeps, is unspecified', 'ordering is checked on fields whose present values are all of one type', 'adding an index to a lazy collection that already holds data requires the documented rebuild or reconcile'],
  minimums: { table_states: 6000, queries: 4000, nonempty_results: 1500, lazy_index_queries: 400, overlap_queries: 300 },
}
const IDX = ['s', 'm', 'k', 'a.b']
const MODES = {
  'eager': {}, 'eager-idx': { indexes: ['s', 'm', 'k', 'a.b'] }, 'eager-idx1': { indexes: ['m'] }, 'eager-comp': { indexes: [{ fields: ['s', 'k'] }, 'a.b'] },
  'lazy-idx': { prefetch: false, cache: { maxRecords: 4 }, indexes: ['s', 'm', 'k', 'a.b'] },
  'lazy-comp': { prefetch: false, cache: { maxRecords: 50 }, indexes: ['k', { fields: ['s', 'm'] }, { fields: ['m', 'k'] }, 's', 'm', 'a.b'] },
  'noindex': { indexes: ['s', 'm'] },
}
const S = ['x', 'y', 'X', 'xy', '', 'é', '10', '9']
const M = [0, 1, '1', '0', true, 'true', null, undefined, 'null', 1.5, [1], { q: 1 }, '', -3, 10]
const K = [3, 1, 2, 2, -1, 10, 100, null, undefined]
const pick = (r, a) => { const x = r.pick(a); return x !== null && typeof x === 'object' ? structuredClone(x) : x } // never share objects: equality of objects is by identity
function rec(r, u) {
  const o = { u }
  const put = (k, v) => { if (v !== undefined) o[k] = v }
  put('s', pick(r, S)); put('m', pick(r, M)); put('k', pick(r, K))
  const ab = r.pick([undefined, null, 1, 'p', 'q', 2])
  if (r.chance(0.7)) { o.a = {}; if (ab !== undefined) o.a.b = ab } else if (r.chance(0.3)) o.a = null
  if (r.chance(0.5)) o.t = Array.from({ length: r.int(0, 3) }, () => pick(r, ['x', 'y', 1, null]))
  if (r.chance(0.3)) o.d = r.pick(['2026-01-01', '2026-01-02', '2025-12-31T23:00:00.000Z'])
  return o
}
const read = (o, f) => { let c = o; for (const p of f.split('.')) { if (c === null || c === undefined) return undefined; c = c[p] } return c }
const cmpable = (a, b) => (typeof a === 'number' && typeof b === 'number') || (typeof a === 'string' && typeof b === 'string')
function holds(o, c) {
  if (c.or) return c.or.some(x => holds(o, x))
  if (c.and) return c.and.every(x => holds(o, x))
  if (c.fn) return c.fn(o)
  const a = read(o, c.f); const v = c.v
  switch (c.op) {
    case '==': return a === v
    case '!=': return a !== v
    case '<': return cmpable(a, v) && a < v
    case '<=': return cmpable(a, v) && a <= v
    case '>': return cmpable(a, v) && a > v
    case '>=': return cmpable(a, v) && a >= v
    case 'in': return Array.isArray(v) && v.includes(a)
    case 'contains': return typeof a === 'string' ? typeof v === 'string' && a.includes(v) : Array.isArray(a) && a.includes(v)
    case 'startsWith': return typeof a === 'string' && typeof v === 'string' && a.startsWith(v)
    case 'between': return Array.isArray(v) && v.length === 2 && cmpable(a, v[0]) && cmpable(a, v[1]) && a >= v[0] && a <= v[1]
  }
}
function clause(r, depth, lazyOnly) {
  if (!lazyOnly && depth > 0 && r.chance(0.25)) return { [r.pick(['or', 'and'])]: Array.from({ length: r.int(1, 3) }, () => clause(r, depth - 1)) }
  if (!lazyOnly && r.chance(0.08)) { const n = r.int(0, 5); return { fn: o => (o.u % 3) === n % 3 } }
  const f = lazyOnly ? r.pick(IDX) : r.pick(['s', 'm', 'k', 'a.b', 't', 'd', 'none', 'u'])
  const dom = { s: S, m: M, k: K, 'a.b': [null, undefined, 1, 'p', 'q', 2, 3], t: ['x', 1, null], d: ['2026-01-01', '2026-01-02', '2025-12-31T23:00:00.000Z', '2026'], none: [undefined, null, 1], u: [1, 2, 3, 4, 5] }[f]
  const op = r.weighted([[6, '=='], [2, '!='], [2, '<'], [1, '<='], [2, '>'], [2, '>='], [3, 'in'], [2, 'contains'], [1, 'startsWith'], [2, 'between']])
  let v
  if (op === 'in') v = Array.from({ length: r.int(0, 3) }, () => pick(r, dom))
  else if (op === 'between') v = [pick(r, dom), pick(r, dom)]
  else v = r.chance(0.9) ? pick(r, dom) : pick(r, M)
  return { f, op, v }
}
const apply = (q, c) => c.or ? q.or(s => c.or.reduce(apply, s)) : c.and ? q.and(s => c.and.reduce(apply, s)) : c.fn ? q.filter(c.fn) : q.where(c.f, c.op, c.v)
const shape = c => c.or ? `or(${c.or.map(shape)})` : c.and ? `and(${c.and.map(shape)})` : c.fn ? 'fn' : `${c.f}${c.op}${Array.isArray(c.v) ? '[' + c.v.map(x => x === null ? 'null' : typeof x) + ']' : c.v === null ? 'null' : typeof c.v}`
function genQuery(r, lazyOnly) {
  const cs = Array.from({ length: r.int(0, 3) }, () => clause(r, 2, lazyOnly))
  const order = r.chance(0.5) ? r.sample(['s', 'k', 'u'].slice(0, lazyOnly ? 2 : 3), r.int(1, 2)).map(f => [f, r.pick(['asc', 'desc'])]) : []
  const q = { cs, order }
  if (r.chance(0.35)) q.limit = r.int(0, 5)
  if (r.chance(0.25)) q.offset = r.int(0, 4)
  return q
}
const cmp = (a, b) => { const an = a === null || a === undefined; const bn = b === null || b === undefined; if (an || bn) return an && bn ? 0 : an ? 1 : -1; return a < b ? -1 : a > b ? 1 : 0 }
const cmpBy = order => (x, y) => { for (const [f, d] of order) { const v = cmp(read(x, f), read(y, f)); if (v) return d === 'asc' ? v : -v } return 0 }
// is `got` an acceptable answer?
function judge(c, got, all, q, label) {
  const match = all.filter(o => q.cs.every(x => holds(o, x)))
  const sorted = q.order.length ? match.slice().sort(cmpBy(q.order)) : match
  const off = q.offset ?? 0; const want = sorted.slice(off, q.limit === undefined ? undefined : off + q.limit)
  const d = () => `${label}\n  query ${show(q)}\n  data ${show(all.map(o => o), 3000)}\n  got ${show(got, 1500)}\n  want ${show(want, 1500)}`
  if (got.length !== want.length) c.fail(`wrong number of results (${got.length} instead of ${want.length}): ${d()}`)
  const us = new Set(); const m = new Map(match.map(o => [o.u, o]))
  for (const o of got) { if (us.has(o.u)) c.fail(`duplicate result: ${d()}`); us.add(o.u); if (!m.has(o.u)) c.fail(`result that does not match: ${show(o)}: ${d()}`); c.eq(o, m.get(o.u), `result differs from the record: ${label}`) }
  if (q.order.length) { const f = cmpBy(q.order); for (let i = 0; i < want.length; i++) if (f(got[i], want[i]) !== 0) c.fail(`wrong order at ${i}: ${d()}`) }
  return match.length
}
async function runQueries(c, r, w, model, n, label) {
  const all = [...model.values()]
  for (let k = 0; k < n; k++) {
    const mode = r.pick(Object.keys(w)); const coll = w[mode]
    if (mode.startsWith('lazy')) {
      if (r.chance(0.6)) {
        const q = genQuery(r, true)
        let b = q.cs.reduce(apply, coll.lazyQuery()); for (const [f, d] of q.order) b = b.orderBy(f, d)
        if (q.limit !== undefined) b = b.limit(q.limit); if (q.offset !== undefined) b = b.offset(q.offset)
        let got
        try { got = await b.toArray() } catch (e) { if (e.name !== 'IndexRequiredError') throw e; c.ok(!q.order.length && !q.cs.some(x => ['==', 'in', '<', '<=', '>', '>=', 'between'].includes(x.op)), `indexed query refused although an index can drive it: ${show(q)}`); c.count('lazy_refused'); continue }
        const nm = judge(c, got, all, q, `${label} lazy index query in ${mode}`)
        c.count('queries'); c.count('lazy_index_queries'); if (nm) c.count('nonempty_results'); if (all.length) c.sig([mode, q.cs.map(shape), q.order, q.limit !== undefined, q.offset !== undefined, nm > 0])
        if (!q.limit && !q.offset && q.limit === undefined) c.eq(await b.count(), nm, `${label} lazy count in ${mode}`)
      } else {
        const q = { cs: Array.from({ length: r.int(0, 2) }, () => { const x = clause(r, 0); return x }), order: [] }
        let b = coll.scan({ pageSize: r.int(1, 6) }); for (const x of q.cs) b = apply(b, x)
        const got = []; for await (const x of b) got.push(x)
        const nm = judge(c, got, all, q, `${label} scan in ${mode}`); c.count('queries'); c.count('scans'); if (nm) c.count('nonempty_results'); if (all.length) c.sig(['scan', q.cs.map(shape), nm > 0])
      }
    } else {
      const q = genQuery(r, false); await coll.count()
      let b = q.cs.reduce(apply, coll.query()); for (const [f, d] of q.order) b = b.orderBy(f, d)
      if (q.limit !== undefined) b = b.limit(q.limit); if (q.offset !== undefined) b = b.offset(q.offset)
      const nm = judge(c, b.toArray(), all, q, `${label} query in ${mode}`)
      c.eq(b.count(), nm, `${label} query().count() in ${mode} for ${show(q)}`)
      if (q.offset === undefined && q.limit === undefined) { const fst = b.first(); judge(c, fst ? [fst] : [], all, { ...q, limit: 1 }, `${label} first() in ${mode}`) }
      c.count('queries'); if (nm) c.count('nonempty_results'); if (all.length) c.sig([mode, q.cs.map(shape), q.order, q.limit !== undefined, q.offset !== undefined, nm > 0])
      c.seen('modes', mode)
      if (k === 0) c.sample({ mode, query: show(q), matches: nm })
    }
  }
}
async function openAll(store, modes, o2 = {}) {
  const { v } = await open(store, { features: ['index', 'aggregate', ...(o2.history ? ['history'] : [])], ...(o2.history ? {} : { history: { enabled: false } }) })
  const { v: vn } = modes.includes('noindex') ? await open(store, { features: ['aggregate'], vault: 'plain' }) : {}
  const w = {}
  for (const m of modes) w[m] = (m === 'noindex' ? vn : v).collection('c_' + m.replace(/[^a-z]/g, '') + m.length, { ...MODES[m], ...(m.startsWith('lazy') && o2.rec ? { reconcileOnOpen: 'auto' } : {}) })
  return w
}
async function programs(c) {
  const r = c.rng; const ref = newRef(); const store = instrument(ref, { keepLog: false, extras: r.chance(0.4) ? ['listPage'] : [] })
  const modes = r.sample(Object.keys(MODES), 3); if (!modes.some(m => m.startsWith('lazy'))) modes.push('lazy-idx')
  const hist = r.chance(0.3)
  let w = await openAll(store, modes, { history: hist })
  const model = new Map(); let u = 0
  const ids = Array.from({ length: r.int(2, 14) }, (_, i) => r.chance(0.2) ? 'i/' + i : 'i' + i)
  for (let s = 0; s < r.int(3, 16); s++) {
    const op = r.weighted([[10, 'put'], [4, 'del'], [1, 'reopen'], [1, 'rebuild'], [1, 'reconcile'], [2, 'many']])
    const id = r.pick(ids)
    if (op === 'put') { const x = rec(r, ++u); for (const m in w) await w[m].put(id, structuredClone(x)); model.set(id, x) }
    else if (op === 'many') { const es = r.sample(ids, Math.min(ids.length, 4)).map(i => [i, rec(r, ++u)]); for (const m in w) await w[m].putMany(es.map(([i, x]) => [i, structuredClone(x)])); for (const [i, x] of es) model.set(i, x) }
    else if (op === 'del') { for (const m in w) await w[m].delete(id); model.delete(id) }
    else if (op === 'reopen') { w = await openAll(store, modes, { history: hist, rec: r.chance(0.3) }); c.count('reopens') }
    else for (const m in w) if (m.startsWith('lazy') && model.size) {
      if (op === 'rebuild') await w[m].rebuildIndexes()
      else { const res = await w[m].reconcileIndex(r.pick(m === 'lazy-comp' ? ['k', 's|m', 'm|k'] : ['k', 's', 'm', 'a.b'])); c.eq([res.missing, res.stale], [[], []], `reconcile reports drift in an index that was never disturbed (${m})`); c.count('reconciles') }
    }
    if (r.chance(0.6)) await runQueries(c, r, w, model, 2, `after step ${s} (${op})`)
  }
  await runQueries(c, r, w, model, 6, 'at end')
}
// index entries lost or left behind in storage: rebuild / reconcile must restore correct answers
async function drift(c) {
  const r = c.rng; const ref = newRef(); const store = instrument(ref, { keepLog: false })
  const modes = [r.pick(['lazy-idx', 'lazy-comp'])]
  let w = await openAll(store, modes); const model = new Map(); let u = 0
  const m = modes[0]; const coll = w[m].name ?? [...ref.data.get('acme').keys()].find(x => x.startsWith('c_'))
  for (let s = 0; s < 10; s++) { const x = rec(r, ++u); await w[m].put('i' + s, structuredClone(x)); model.set('i' + s, x) }
  const cname = [...ref.data.get('acme').keys()].find(x => x.startsWith('c_'))
  const side = ref.list('acme', cname).filter(i => i.startsWith('_idx/'))
  c.ok(side.length > 0, 'no persisted index entries were written')
  for (const i of r.sample(side, r.int(1, Math.min(12, side.length)))) ref.delete('acme', cname, i)
  if (r.chance(0.5)) { const gone = 'i' + r.int(0, 9); ref.delete('acme', cname, gone); model.delete(gone) }
  const how = r.pick(['rebuild', 'auto'])
  w = await openAll(store, modes, { rec: how === 'auto' })
  if (how === 'rebuild') await w[m].rebuildIndexes()
  await runQueries(c, r, w, model, 10, `after ${how}`)
  c.count('repairs')
}
async function overlap(c) {
  const r = c.rng; const ref = newRef(); const sched = new Sched(r.fork('s')); sched.enabled = false
  const store = instrument(ref, { sched, keepLog: false })
  const m = r.pick(['lazy-idx', 'lazy-comp', 'eager-idx', 'eager-idx1'])
  let w = await openAll(store, [m], { history: r.chance(0.3) }); const init = new Map(); let u = 0
  for (let i = 0; i < r.int(0, 4); i++) { const x = rec(r, ++u); await w[m].put('i' + i, structuredClone(x)); init.set('i' + i, x) }
  if (r.chance(0.7)) w = await openAll(store, [m])
  sched.enabled = true
  const owner = k => 'i' + k // one writer per record: final value is known
  const fin = new Map(init)
  const lz = m.startsWith('lazy')
  const writer = async (r2, k) => { for (let j = 0; j < r2.int(1, 2); j++) { if (r2.chance(0.75)) { const x = rec(r2, 100 * k + 100 + j); await w[m].put(owner(k), structuredClone(x)); fin.set(owner(k), x) } else { await w[m].delete(owner(k)); fin.delete(owner(k)) } } }
  const reader = async r2 => { for (let j = 0; j < 2; j++) { const f = r2.pick(['s', 'm', 'k']); const v = r2.pick({ s: S, m: [0, 1, '1', true], k: [1, 2, 3] }[f]); if (!lz) await w[m].count(); const got = lz ? await w[m].lazyQuery().where(f, '==', v).toArray() : w[m].query().where(f, '==', v).toArray(); for (const o of got) c.ok(o[f] === v, `result does not match its filter during overlap: ${show(o)} ${f}==${show(v)}`); c.ok(new Set(got.map(o => o.u)).size === got.length, 'duplicates during overlap') ; c.count('overlap_queries') } }
  const tasks = []; for (let k = 0; k < r.int(1, 3); k++) tasks.push(writer(r.fork('w' + k), k)); tasks.push(reader(r.fork('r'))); if (r.chance(0.5)) tasks.push(reader(r.fork('r2')))
  if (lz && r.chance(0.15)) tasks.push(w[m].rebuildIndexes())
  const rs = await sched.run(tasks)
  for (const x of rs) if (x.status === 'rejected') throw x.reason
  sched.drainOff()
  await runQueries(c, r, w, fin, 6, 'after overlapping writes settled')
  const w2 = await openAll(store, [m]); await runQueries(c, r, w2, fin, 3, 'second instance after overlapping writes')
  c.sig([m, sched.trace.join()])
}
// ── table states: the rows a table shows, and the state read back from the query ──
async function table(c) {
  const r = c.rng; const { v, db } = await open(instrument(newRef(), { keepLog: false }), { features: ['index'] }); const co = v.collection('t', r.chance(0.5) ? { indexes: ['s'] } : {})
  for (let k = 0; k < r.int(0, 14); k++) await co.put('r' + k, { id: 'r' + k, n: r.int(0, 3), m: r.int(-2, 2), s: r.pick(['', 'x', 'y', 'z']), b: r.chance(0.5), z: r.pick([null, 0, 1]) })
  const all = co.query().toArray()
  for (let k = 0; k < 5; k++) {
    const columnFilters = Array.from({ length: r.int(0, 3) }, () => { const id = r.pick(['n', 'm', 's', 'b', 'z']); const one = () => id === 's' ? r.pick(['x', 'y', 'z', '', 'q']) : id === 'b' ? r.chance(0.5) : r.int(-2, 3); return { id, value: r.weighted([[4, one()], [2, [one(), one()]], [1, []], [1, undefined], [1, null], [1, '']]) } })
    const sorting = r.sample(['n', 'm', 'b'], r.int(0, 2)).map(id => ({ id, desc: r.chance(0.5) })).filter(x => x.id !== 'b'); const pagination = r.chance(0.7) ? { pageIndex: r.int(0, 4), pageSize: r.pick([1, 2, 3, 5, 25]) } : undefined
    const state = r.chance(0.1) ? resetTableState() : { ...(r.chance(0.8) ? { columnFilters } : {}), ...(r.chance(0.8) ? { sorting } : {}), ...(pagination ? { pagination } : {}) }
    const used = (state.columnFilters ?? []).filter(f => f.value !== undefined && f.value !== null && f.value !== '')
    let want = all.filter(x => used.every(f => Array.isArray(f.value) ? f.value.includes(x[f.id]) : x[f.id] === f.value))
    const so = state.sorting ?? []; if (so.length) want = want.map((x, i) => [x, i]).sort(([a, i], [b, j]) => { for (const o of so) { const d = a[o.id] - b[o.id]; if (d) return o.desc ? -d : d } return i - j }).map(([x]) => x)
    const pg = state.pagination; if (pg) want = want.slice(pg.pageIndex * pg.pageSize, (pg.pageIndex + 1) * pg.pageSize)
    const q = buildQueryFromTableState(co.query(), state); const ids = l => l.map(x => x.id); const got = q.toArray()
    if (so.length) c.eq(ids(got), ids(want), `the rows of a table differ: ${show(state)}`)
    else if (!pg) c.eq(ids(got).sort(), ids(want).sort(), `the rows of a table differ: ${show(state)}`)
    else { c.eq(got.length, want.length, `a page of a table has another number of rows: ${show(state)}`); for (const x of got) c.ok(used.every(f => Array.isArray(f.value) ? f.value.includes(x[f.id]) : x[f.id] === f.value), 'a page shows a row its filters leave out') }
    const back = tableStateFromQuery(q); c.eq(back, { ...(used.length ? { columnFilters: used } : {}), ...(so.length ? { sorting: so } : {}), ...(pg ? { pagination: pg } : {}) }, `the table state read back from a query differs from ${show(state)}`)
    c.eq(ids(buildQueryFromTableState(co.query(), back).toArray()), ids(got), 'the state read back shows other rows')
    c.count('table_states'); c.sig(`table:${used.length}:${so.length}:${!!pg}:${got.length}`)
  }
  db.close()
}
export const scenarios = [
  { name: 'programs', quick: 9000, thorough: 30000, run: programs },
  { name: 'table', quick: 1500, thorough: 8000, run: table },
  { name: 'drift', quick: 1500, thorough: 5000, run: drift },
  { name: 'overlap', quick: 8000, thorough: 20000, run: overlap },
]
