// Reads reflect acknowledged writes: model comparison over sequential programs, and
// linearizability of overlapping operations under controlled schedules.
import { open, newRef, instrument } from '../lib/world.mjs'
import { Sched } from '../lib/sched.mjs'
import { linearizable } from '../lib/lin.mjs'
import { json, str } from '../lib/gen.mjs'
import { deepEq, show } from '../lib/child.mjs'

export const meta = {
  property: 'C05', level: 'exploration',
  rule: 'a case counts as distinct by (mode, program of operations) for sequential cases and by (mode, released interleaving of storage calls) for overlapping cases; cases without any write are not counted',
  assumptions: ['the storage backend honours the contract (reference in-memory map)', 'the crypto layer is replaced by an equivalent synchronous implementation so schedules are decided by the seed'],
  minimums: { reads: 5000, linearizable_histories: 200, overlapping_pairs: 500, reopens: 100 },
}

const MODES = ['eager', 'eager-idx', 'lazy', 'lazy-big', 'lazy-idx', 'plain-eager', 'plain-lazy', 'crdt', 'lazy-bytes', 'lazy-both', 'noenc-eager', 'noenc-lazy']
export function collOpts(mode) {
  switch (mode) {
    case 'eager-idx': return { indexes: ['n', 'name'] }
    case 'lazy-bytes': return { prefetch: false, cache: { maxBytes: 150 } }
    case 'lazy-both': return { prefetch: false, cache: { maxBytes: '1KB', maxRecords: 3 } }
    case 'noenc-lazy': case 'lazy': case 'plain-lazy': return { prefetch: false, cache: { maxRecords: 2 } }
    case 'lazy-big': return { prefetch: false, cache: { maxRecords: 1000 } }
    case 'lazy-idx': return { prefetch: false, cache: { maxRecords: 3 }, indexes: ['n', { fields: ['name', 'n'] }] }
    case 'crdt': return { crdt: 'lww-map' }
    default: return {}
  }
}
const isLazy = m => m.includes('lazy')
const rec = (r, u, mode) => { const o = { id: undefined, u, n: r.int(0, 3), name: r.pick(['x', 'y', 'z']) }; delete o.id; if (mode === 'crdt') return o; if (r.chance(0.15)) o.big = 'y'.repeat(r.int(50, 2000)); if (r.chance(0.5)) o.extra = json(r, 2); if (r.chance(0.2)) o['x' + str(r)] = json(r, 1); return o }

async function readAll(c, r, coll, mode, model, label, store) {
  // every read path that the mode supports
  const ids = [...model.keys()]
  const asSorted = l => l.map(x => JSON.stringify(x)).sort()
  const want = asSorted(ids.map(i => model.get(i).rec))
  const paths = isLazy(mode) ? ['get', 'getMany', 'count', 'scan', 'page'] : ['get', 'getMany', 'count', 'scan', 'page', 'list', 'query', 'qcount']
  for (const p of r.sample(paths, r.int(1, paths.length))) {
    c.count('reads'); c.seen('read_paths', `${mode}/${p}`)
    if (p === 'get') { for (const i of ['a', 'b', 'c', 'd', 'nope']) c.eq(await coll.get(i), model.get(i)?.rec ?? null, `${label}: get(${i}) in mode ${mode}`) }
    else if (p === 'getMany') { const q = ['a', 'b', 'c', 'd']; const m = await coll.getMany(q); for (const i of q) c.eq(m instanceof Map ? (m.get(i) ?? null) : m[i] ?? null, model.get(i)?.rec ?? null, `${label}: getMany(${i}) in mode ${mode}`) }
    else if (p === 'count') c.eq(await coll.count(), model.size, `${label}: count() in mode ${mode}`)
    else if (p === 'scan') { const out = []; for await (const x of coll.scan({ pageSize: r.int(1, 5) })) out.push(x); c.eq(asSorted(out), want, `${label}: scan() in mode ${mode}`) }
    else if (p === 'page') { const out = []; let cur; let guard = 0; do { const pg = await coll.listPage({ ...(cur ? { cursor: cur } : {}), limit: r.int(1, 4) }); out.push(...pg.items); cur = pg.nextCursor; if (++guard > 60) c.fail(`${label}: paging never ends`) } while (cur); c.eq(asSorted(out), want, `${label}: paging in mode ${mode}`) }
    else if (p === 'list') c.eq(asSorted(await coll.list()), want, `${label}: list() in mode ${mode}`)
    else if (p === 'query') { await coll.count(); c.eq(asSorted(coll.query().toArray()), want, `${label}: query() in mode ${mode}`); const n = r.int(0, 3); c.eq(asSorted(coll.query().where('n', '==', n).toArray()), asSorted(ids.map(i => model.get(i).rec).filter(x => x.n === n)), `${label}: query(n==${n}) in mode ${mode}`) }
    else if (p === 'qcount') { await coll.count(); c.eq(coll.query().count(), model.size, `${label}: query().count() in mode ${mode}`) }
  }
}

async function openMode(store, mode, name = 'docs') {
  const { db, v } = await open(store, { features: mode.startsWith('plain') ? ['index', 'aggregate'] : ['history', 'index', 'aggregate', 'tx', 'crdt'], ...(mode.startsWith('noenc') ? { encrypt: false } : {}) })
  return { db, v, coll: v.collection(name, collOpts(mode)) }
}
const ALL_IDS = ['a', 'b', 'c', 'd', 'e', 'a:b', 'บ', 'x y', 'A']

async function sequential(c) {
  const r = c.rng
  const mode = r.pick(MODES)
  const ref = newRef(); const store = instrument(ref, { extras: r.chance(0.5) ? ['listPage', 'listVaults'] : [], keepLog: false })
  let { db, coll } = await openMode(store, mode)
  const other = (await db.openVault('acme')).collection('other')
  const twin = (await db.openVault('acme2')).collection('docs')
  const twinModel = new Map()
  const model = new Map(); const vers = new Map(); const ever = new Set(); let u = 0
  const prog = []
  const n = r.int(4, 22)
  for (let k = 0; k < n; k++) {
    const op = r.weighted([[8, 'put'], [4, 'del'], [2, 'putMany'], [1, 'delMany'], [1, 'atomic'], [1, 'reopen'], [1, 'other'], [1, 'twin'], [1, 'tx']])
    const id = r.pick(ALL_IDS.slice(0, r.chance(0.8) ? 4 : ALL_IDS.length))
    const setM = (i, x) => { model.set(i, { rec: JSON.parse(JSON.stringify(x)) }); const first = () => { if (!ever.has(i)) return 1; const v = ref.get('acme', 'docs', i)?._v; c.ok(Number.isInteger(v) && v >= 1, `stored version ${v} of a record created again`); return v }; vers.set(i, vers.has(i) ? vers.get(i) + 1 : first()); ever.add(i) }
    if (op === 'put') { const x = rec(r, ++u, mode); await coll.put(id, x); setM(id, x) }
    else if (op === 'del') { await coll.delete(id); model.delete(id); vers.delete(id) }
    else if (op === 'putMany' || op === 'atomic') {
      if (op === 'atomic' && mode.startsWith('plain')) continue
      const ids = r.sample(ALL_IDS, r.int(1, 3)); const items = ids.map(i => [i, rec(r, ++u, mode)])
      const res = await coll.putMany(items, op === 'atomic' ? { atomic: true } : undefined)
      c.ok(res.ok === true && res.success.length === items.length, `bulk put reported ${show(res)}`)
      for (const [i, x] of items) setM(i, x)
    } else if (op === 'delMany') { const ids = r.sample(ALL_IDS, 2); await coll.deleteMany(ids); for (const i of ids) { model.delete(i); vers.delete(i) } }
    else if (op === 'other') { await other.put(id, { u: ++u }) ; c.eq(await other.get(id), { u }, 'other collection') }
    else if (op === 'twin') { if (r.chance(0.7)) { await twin.put(id, { tw: ++u }); twinModel.set(id, { tw: u }) } else { await twin.delete(id); twinModel.delete(id) } }
    else if (op === 'tx') {
      if (mode.startsWith('plain')) continue
      const ids = r.sample(ALL_IDS, 2); const x = rec(r, ++u, mode)
      await db.transaction(async tx => { const t = tx.vault('acme').collection('docs'); t.put(ids[0], x); t.delete(ids[1]) })
      setM(ids[0], x); model.delete(ids[1]); vers.delete(ids[1])
    } else if (op === 'reopen') { if (r.chance(0.5)) db.close(); ({ db, coll } = await openMode(store, r.chance(0.5) ? mode : mode)); c.count('reopens') }
    prog.push(op + id)
    if (r.chance(0.6)) await readAll(c, r, coll, mode, model, `after ${prog.length} ops (${prog.slice(-4).join(' ')})`)
    for (const [i, ver] of vers) c.eq(ref.get('acme', 'docs', i)?._v, ver, `stored version of ${i} after ${prog.join(' ')}`)
  }
  await readAll(c, r, coll, mode, model, 'at end')
  for (const i of ALL_IDS) c.eq(await twin.get(i), twinModel.get(i) ?? null, `same-named collection of another vault: get(${i})`)
  c.count('reopens')
  const m2 = mode === 'crdt' ? 'crdt' : mode === 'noenc-lazy' ? 'noenc-eager' : mode === 'noenc-eager' ? 'noenc-lazy' : isLazy(mode) ? 'eager' : 'lazy-big'
  const f2 = await openMode(store, m2); await readAll(c, r, f2.coll, m2, model, `second instance (${m2} after ${mode})`)
  c.sig([mode, prog]); c.sample({ mode, program: prog, final: [...model.keys()] })
}

async function overlapping(c) {
  const r = c.rng
  const mode = r.pick(MODES)
  const ref = newRef(); const sched = new Sched(r.fork('s')); sched.enabled = false
  const store = instrument(ref, { sched, extras: r.chance(0.5) ? ['listPage'] : [], keepLog: false })
  let { db, coll } = await openMode(store, mode)
  const ids = ['a', 'b', 'c'].slice(0, r.int(1, 3))
  let u = 0
  const init = new Map()
  for (const i of ids) if (r.chance(0.6)) { const x = rec(r, ++u, mode); await coll.put(i, x); init.set(i, x.u) }
  if (r.chance(0.6)) ({ db, coll } = await openMode(store, mode)) // cold handle
  else if (r.chance(0.3)) await coll.count()
  const v = await db.openVault('acme'); void v
  let t = 0
  const hist = []
  const clients = r.int(2, 4)
  sched.enabled = true
  const client = async (r2, k) => {
    const m = r2.int(1, 3)
    for (let j = 0; j < m; j++) {
      const id = r2.pick(ids)
      const op = r2.weighted([[5, 'put'], [3, 'del'], [5, 'get'], [2, 'list'], [1, 'page'], [1, 'count'], [1, 'putMany']])
      const e = { k, op, id, inv: ++t, res: Infinity }
      hist.push(e)
      if (op === 'put') { e.u = ++u; await coll.put(id, { ...rec(r2, e.u, mode) }) }
      else if (op === 'putMany') { const two = r2.sample(ids, Math.min(2, ids.length)); e.us = two.map(i => [i, ++u]); await coll.putMany(e.us.map(([i, x]) => [i, rec(r2, x, mode)])) }
      else if (op === 'del') await coll.delete(id)
      else if (op === 'get') { const x = await coll.get(id); e.got = x?.u ?? null }
      else if (op === 'list') { if (isLazy(mode)) { const out = []; for await (const x of coll.scan({ pageSize: 50 })) out.push(x.u); e.all = out } else e.all = (await coll.list()).map(x => x.u) }
      else if (op === 'page') { const p = await coll.listPage({ limit: 10 }); e.all = p.items.map(x => x.u) }
      else if (op === 'count') { const n = await coll.count(); c.ok(n >= 0 && n <= ids.length, `count() returned ${n} with only ${ids.length} ids ever used`) }
      e.res = ++t
    }
  }
  const rs = await sched.run(Array.from({ length: clients }, (_, k) => client(r.fork('k' + k), k)))
  for (const x of rs) if (x.status === 'rejected') throw x.reason
  sched.drainOff()
  c.sig(mode + sched.trace.join())
  let pairs = 0
  for (let i = 0; i < hist.length; i++) for (let j = i + 1; j < hist.length; j++) if (hist[i].inv < hist[j].res && hist[j].inv < hist[i].res) pairs++
  c.count('overlapping_pairs', pairs)
  // final reads through the same handle
  const fin = {}
  for (const i of ids) { const inv = ++t; const x = await coll.get(i); fin[i] = x?.u ?? null; hist.push({ op: 'get', id: i, inv, res: ++t, got: fin[i] }) }
  const all = isLazy(mode) ? await (async () => { const o = []; for await (const x of coll.scan()) o.push(x.u); return o })() : (await coll.list()).map(x => x.u)
  c.eq(all.slice().sort(), Object.values(fin).filter(x => x !== null).sort(), `list/scan disagree with get after overlapping operations settled (${mode})`)
  if (!isLazy(mode)) for (let n = 0; n < 4; n++) { const q = coll.query().where('n', '==', n).toArray(); for (const x of q) c.ok(x.n === n && fin[ids.find(i => fin[i] === x.u)] === x.u, `indexed query returned a stale record ${show(x)}`); }
  if (mode === 'eager-idx') { let tot = 0; for (let n = 0; n < 4; n++) tot += coll.query().where('n', '==', n).toArray().length; c.eq(tot, all.length, 'indexed query misses or duplicates records after overlapping operations') }
  c.eq(await coll.count(), all.length, 'count() after overlapping operations settled')
  // a second instance sees the same
  const f = await openMode(store, mode === 'crdt' ? 'crdt' : mode.startsWith('noenc') ? 'noenc-eager' : 'eager')
  for (const i of ids) { const x = await f.coll.get(i); c.eq(x?.u ?? null, fin[i], `second instance disagrees on ${i} (${mode}); history ${show(hist, 1500)}`) }
  // per-record linearizability
  for (const i of ids) {
    const ops = []
    for (const e of hist) {
      if (e.op === 'put' && e.id === i) ops.push({ inv: e.inv, res: e.res, apply: () => [e.u, true] })
      else if (e.op === 'putMany') { const x = e.us.find(y => y[0] === i); if (x) ops.push({ inv: e.inv, res: e.res, apply: () => [x[1], true] }) }
      else if (e.op === 'del' && e.id === i) ops.push({ inv: e.inv, res: e.res, apply: () => [null, true] })
      else if (e.op === 'get' && e.id === i) ops.push({ inv: e.inv, res: e.res, apply: s => [s, s === e.got] })
    }
    const ok = linearizable(ops, init.get(i) ?? null)
    c.ok(ok !== false, `operations on ${i} are not linearizable (${mode}): init ${init.get(i)} history ${show(hist.filter(e => e.id === i || e.op === 'putMany'), 1500)}`)
    c.count(ok ? 'linearizable_histories' : 'undecided_histories')
    // list membership: every listed value was written by someone and is not overwritten before the list began
    for (const e of hist) if (e.all) {
      for (const val of e.all) {
        const w = hist.find(h => h.u === val || h.us?.some(y => y[1] === val))
        const known = w || [...init.values()].includes(val)
        c.ok(known, `list returned a value never written: ${val}`)
        if (w) c.ok(w.inv < e.res, 'list returned a value from the future')
      }
      c.ok(new Set(e.all).size === e.all.length, `list returned duplicates ${show(e.all)}`)
    }
  }
  // lists: a value definitely overwritten/deleted (acknowledged) before the list started must not appear; one definitely present must
  for (const e of hist) if (e.all) for (const i of ids) {
    const writes = hist.filter(h => (h.op === 'put' || h.op === 'del') && h.id === i || h.op === 'putMany' && h.us.some(y => y[0] === i)).map(h => ({ inv: h.inv, res: h.res, u: h.op === 'del' ? null : h.op === 'put' ? h.u : h.us.find(y => y[0] === i)[1] }))
    const cand = new Set()
    const initW = { inv: 0, res: 0, u: init.get(i) ?? null }
    for (const w of [initW, ...writes]) { if (w.inv > e.res) continue; if (![initW, ...writes].some(z => z !== w && z.inv > w.res && z.res < e.inv)) cand.add(w.u) }
    const mine = e.all.filter(val => [initW, ...writes].some(w => w.u === val))
    c.ok(mine.length <= 1, `two values of one record in one listing: ${show(mine)}`)
    const got = mine[0] ?? null
    c.ok(cand.has(got), `listing (${e.op}, ${mode}) shows ${got} for ${i} but only ${show([...cand])} are possible; history ${show(hist, 1500)}`)
  }
}

// Collections larger than the default page size, read through every path.
async function bulk(c) {
  const r = c.rng
  const mode = r.pick(['eager', 'eager-idx', 'lazy', 'lazy-idx', 'noenc-eager', 'lazy-both'])
  const ref = newRef(); const store = instrument(ref, { extras: r.chance(0.5) ? ['listPage'] : [], keepLog: false })
  let { db, coll } = await openMode(store, mode)
  const n = r.int(90, 260); const model = new Map()
  const ids = Array.from({ length: n }, (_, i) => r.pick(['r', 'R', 'x/', 'z']) + i)
  for (let i = 0; i < n;) { const k = r.int(1, 40); const items = ids.slice(i, i + k).map((id, j) => [id, { u: i + j, n: (i + j) % 4, name: 'x' + ((i + j) % 7) }]); await coll.putMany(items); for (const [id, x] of items) model.set(id, x); i += k }
  for (const id of r.sample(ids, r.int(0, 30))) { await coll.delete(id); model.delete(id) }
  for (const id of r.sample([...model.keys()], 20)) { const x = { u: 1000 + model.get(id).u, n: 9, name: 'upd' }; await coll.put(id, x); model.set(id, x) }
  if (r.chance(0.5)) ({ db, coll } = await openMode(store, mode))
  const want = [...model.values()].map(x => x.u).sort((a, b) => a - b)
  const got = async f => (await f()).map(x => x.u).sort((a, b) => a - b)
  const scan = async o => { const out = []; for await (const x of o === undefined ? coll.scan() : coll.scan({ pageSize: o })) out.push(x); return out }
  c.count('bulk_records', model.size); c.count('reads', 5)
  c.eq(await got(() => scan()), want, `scan of ${n} records (${mode})`)
  c.eq(await got(() => scan(r.int(1, 120))), want, `scan with page size (${mode})`)
  c.eq(await coll.count(), want.length, `count of ${n} records (${mode})`)
  const out = []; let cur; let g = 0; do { const p = await coll.listPage({ ...(cur ? { cursor: cur } : {}), ...(r.chance(0.5) ? { limit: r.int(20, 130) } : {}) }); out.push(...p.items); cur = p.nextCursor; if (++g > 100) c.fail('paging never ends') } while (cur)
  c.eq(await got(() => out), want, `paging of ${n} records (${mode})`)
  if (!isLazy(mode)) { c.eq(await got(() => coll.list()), want, `list of ${n} records (${mode})`); c.eq(await got(() => coll.query().toArray()), want, `query of ${n} records (${mode})`) }
  const some = r.sample(ids, 30); const m = await coll.getMany(some)
  for (const id of some) { c.eq(m.get(id) ?? null, model.get(id) ?? null, `getMany(${id})`); c.eq(await coll.get(id), model.get(id) ?? null, `get(${id}) of ${n} records (${mode})`) }
  c.sig(['bulk', mode, n, model.size]); db.close()
}

export const scenarios = [
  { name: 'bulk', quick: 200, thorough: 1000, run: bulk },
  { name: 'sequential', quick: 6000, thorough: 20000, run: sequential },
  { name: 'overlapping', quick: 20000, thorough: 60000, run: overlapping },
]
