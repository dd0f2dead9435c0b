// All-or-nothing transactions: every storage call of a commit is failed in turn, every
// kind of refusal is placed at every position, and overlapping version-checked
// transactions are run under controlled schedules with a conservation oracle.
import { open, newRef, instrument } from '../lib/world.mjs'
import { Sched } from '../lib/sched.mjs'
import { z } from 'zod'
import { ref as fkRef } from '@noy-db/hub'
import { show } from '../lib/child.mjs'

export const meta = {
  property: 'C10', level: 'fault_enumeration',
  rule: 'distinct by (collection modes, operation list, index and kind of the failing storage call or refusal) for enumerated cases, by released interleaving for overlapping ones',
  assumptions: ['exactly one storage call fails and the backend works afterwards (crash of the process during commit is documented as not covered)', 'deletions cascading from a staged operation into records that were not staged are outside the statement'],
  minimums: { commits_failed_by_fault: 400, refused_commits: 60, commits_ok: 60, overlapping_commits: 100, version_conflicts: 40 },
}
const MODES = ['eager', 'eager-idx', 'lazy', 'lazy-idx', 'crdt']
const schema = z.object({ u: z.number(), n: z.number(), name: z.string(), to: z.string().optional() })
const copts = m => ({ eager: {}, 'eager-idx': { indexes: ['n', { fields: ['name', 'n'] }] }, lazy: { prefetch: false, cache: { maxRecords: 2 } }, 'lazy-idx': { prefetch: false, cache: { maxRecords: 10 }, indexes: ['n', { fields: ['name', 'n'] }] }, crdt: { crdt: 'lww-map' } }[m])
const lazy = m => m.startsWith('lazy')
const IDS = ['a', 'b', 'c', 'd', 'e']
const rec = u => ({ u, n: u % 3, name: 'xyz'[u % 3] })

async function world(store, modes, { features, refs } = {}) {
  const w = { colls: {}, vaults: {} }
  const { db, v } = await open(store, { vault: 'v1', features: features ?? ['history', 'index', 'tx', 'crdt', 'periods'] })
  w.db = db; w.vaults.v1 = v; w.vaults.v2 = await db.openVault('v2')
  for (const [vn, cn, m] of modes) w.colls[`${vn}/${cn}`] = { c: w.vaults[vn].collection(cn, { ...copts(m), schema, ...(refs && cn === 'child' ? { refs: { to: fkRef('docs', 'strict') } } : {}) }), m }
  return w
}
async function readers(c, w) {
  const out = {}
  for (const k in w.colls) {
    const { c: coll, m } = w.colls[k]; const o = {}
    for (const i of IDS) { const x = await coll.get(i); if (x) o[i] = x }
    c.eq(await coll.count(), Object.keys(o).length, `count() disagrees with get() (${k}, ${m})`)
    const sc = []; for await (const x of coll.scan({ pageSize: 3 })) sc.push(x.u)
    c.eq(sc.sort(), Object.values(o).map(x => x.u).sort(), `scan() disagrees with get() (${k}, ${m})`)
    for (let n = 0; n < 3; n++) {
      const want = Object.values(o).filter(x => x.n === n).map(x => x.u).sort()
      if (!lazy(m)) c.eq(coll.query().where('n', '==', n).toArray().map(x => x.u).sort(), want, `query disagrees with get() (${k}, ${m})`)
      else if (m === 'lazy-idx') c.eq((await coll.lazyQuery().where('n', '==', n).toArray()).map(x => x.u).sort(), want, `indexed lazy query disagrees with get() (${k}, ${m})`)
    }
    out[k] = o
  }
  return out
}
const records = (ref, w) => { const out = {}; for (const k in w.colls) { const [v, cn] = k.split('/'); out[k] = {}; for (const i of IDS) { const e = ref.get(v, cn, i); if (e) out[k][i] = { v: e._v, d: e._data, iv: e._iv } } } return out }

function plan(r, modes) {
  const pre = []; const ops = []; let u = 0
  for (const [v, cn] of modes) for (const i of IDS) if (r.chance(0.45)) { pre.push([v, cn, i, ++u]); if (r.chance(0.3)) pre.push([v, cn, i, ++u]) }
  u = 50
  const n = r.int(2, 5)
  for (let k = 0; k < n; k++) { const [v, cn] = r.pick(modes); ops.push({ v, cn, id: r.pick(IDS.slice(0, 3)), t: r.chance(0.7) ? 'put' : 'del', u: ++u }) }
  return { pre, ops }
}
async function setup(c, modes, pl, warm) {
  const ref = newRef(); const store = instrument(ref, { keepLog: false })
  const w0 = await world(store, modes)
  for (const [v, cn, i, u] of pl.pre) await w0.colls[`${v}/${cn}`].c.put(i, rec(u))
  const w = warm ? w0 : await world(store, modes)
  if (!warm) for (const k in w.colls) await w.colls[k].c.count()
  return { ref, store, w }
}
const commit = (w, pl, kind) => kind === 'tx'
  ? w.db.transaction(tx => { for (const o of pl.ops) { const t = tx.vault(o.v).collection(o.cn); if (o.t === 'put') t.put(o.id, rec(o.u), o.ev !== undefined ? { expectedVersion: o.ev } : undefined); else t.delete(o.id, o.ev !== undefined ? { expectedVersion: o.ev } : undefined) } })
  : w.colls[`${pl.ops[0].v}/${pl.ops[0].cn}`].c.putMany(pl.ops.map(o => [o.id, rec(o.u), o.ev !== undefined ? { expectedVersion: o.ev } : undefined]), { atomic: true })
function expected(before, pl) {
  const m = JSON.parse(JSON.stringify(before))
  for (const o of pl.ops) { const k = `${o.v}/${o.cn}`; if (o.t === 'put') m[k][o.id] = rec(o.u); else delete m[k][o.id] }
  return m
}
async function faults(c) {
  const r = c.rng
  const kind = r.chance(0.6) ? 'tx' : 'putMany'
  const m1 = r.pick(MODES)
  const modes = kind === 'tx' ? r.sample([['v1', 'docs', m1], ['v1', 'items', r.pick(MODES)], ['v2', 'docs', r.pick(MODES)]], r.int(1, 3)) : [['v1', 'docs', m1]]
  const pl = plan(r, modes); if (kind === 'putMany') for (const o of pl.ops) o.t = 'put'
  const warm = r.chance(0.5)
  const run = async k => {
    const { ref, store, w } = await setup(c, modes, pl, warm)
    const before = await readers(c, w); const rawBefore = records(ref, w)
    let n = 0; let hit = null
    store._st.fault = ev => { n++; if (n === k) { hit = `${ev.op}:${ev.coll.replace(/^_idx.*/, '_idx')}`; return 'before' } }
    let err = null
    try { await commit(w, pl, kind) } catch (e) { err = e }
    store._st.fault = null
    const label = `${kind} ${show(modes)} ${show(pl.ops.map(o => `${o.t} ${o.v}/${o.cn}/${o.id}=${o.u}`))} with storage call #${k} (${hit}) failing`
    const after = await readers(c, w)
    if (err) {
      if (k === 0) throw err
      c.ok(/injected/.test(String(err.message)), `${label}: unrelated error ${err.stack}`)
      c.eq(records(ref, w), rawBefore, `${label}: rejected but storage differs from before`)
      c.eq(after, before, `${label}: rejected but readers see something else than before`)
      c.count('commits_failed_by_fault'); c.sig([kind, modes, pl.ops.map(o => [o.t, o.id, o.cn, o.v]), k, hit]); c.seen('failed_calls', hit)
      // instance remains usable: the same commit now succeeds
      await commit(w, pl, kind)
      const exp2 = expected(before, pl); c.eq(await readers(c, w), exp2, `${label}: retry after rollback`)
    } else {
      c.count('commits_ok')
      c.eq(after, expected(before, pl), `${label}: resolved but not every operation is visible`)
      const w2 = await world(store, modes)
      // a lost index entry is announced and repaired by a rebuild (documented); records themselves must be complete
      if (hit) for (const q in w2.colls) if (w2.colls[q].m === 'lazy-idx') await w2.colls[q].c.rebuildIndexes()
      c.eq(await readers(c, w2), after, `${label}: a second instance sees something else`)
    }
    return n
  }
  const n = await run(0)
  c.max('storage_calls_per_commit', n)
  for (let k = 1; k <= n; k++) await run(k)
  c.sample({ kind, modes, ops: pl.ops.length, calls: n })
}
async function refusals(c) {
  const r = c.rng
  const kind = r.chance(0.6) ? 'tx' : 'putMany'
  const modes = kind === 'tx' ? r.sample([['v1', 'docs', r.pick(MODES)], ['v1', 'items', r.pick(MODES)], ['v2', 'docs', r.pick(MODES)]], r.int(1, 3)) : [['v1', 'docs', r.pick(MODES)]]
  const pl = plan(r, modes); if (kind === 'putMany') for (const o of pl.ops) o.t = 'put'
  const { ref, w } = await setup(c, modes, pl, r.chance(0.5))
  const before = await readers(c, w); const rawBefore = records(ref, w)
  const why = r.pick(kind === 'tx' ? ['body', 'version', 'schema', 'ok-version'] : ['version', 'schema', 'ok-version'])
  const pos = r.int(0, pl.ops.length - 1); const o = pl.ops[pos]
  const cur = ref.get(o.v, o.cn, o.id)?._v ?? 0
  let fn
  if (why === 'body') fn = () => w.db.transaction(async tx => {
    for (let k = 0; k < pl.ops.length; k++) {
      const q = pl.ops[k]; const t = tx.vault(q.v).collection(q.cn)
      if (q.t === 'put') t.put(q.id, rec(q.u)); else t.delete(q.id)
      c.eq(await t.get(q.id), q.t === 'put' ? rec(q.u) : null, 'staged change is not visible inside the transaction')
      c.eq((await w.colls[`${q.v}/${q.cn}`].c.get(q.id)) ?? undefined, before[`${q.v}/${q.cn}`][q.id], 'staged change is visible outside before commit')
      c.count('isolation_reads')
    }
    throw new Error('body failed')
  })
  else if (why === 'version') { o.ev = r.pick([cur + 1, cur + 5, cur === 0 ? 3 : 0, cur - 1 < 0 ? 9 : cur - 1]); fn = () => commit(w, pl, kind) }
  else if (why === 'ok-version') { for (const q of pl.ops) if (r.chance(0.7) || q === o) q.ev = ref.get(q.v, q.cn, q.id)?._v ?? 0; fn = () => commit(w, pl, kind) }
  else { const bad = { ...rec(o.u), n: 'not a number' }; fn = () => kind === 'tx' ? w.db.transaction(tx => { for (const q of pl.ops) { const t = tx.vault(q.v).collection(q.cn); t.put(q.id, q === o ? bad : rec(q.u)) } }) : w.colls['v1/docs'].c.putMany(pl.ops.map(q => [q.id, q === o ? bad : rec(q.u)]), { atomic: true }) }
  let err = null
  try { await fn() } catch (e) { err = e }
  const after = await readers(c, w)
  c.sig([kind, modes, why, pos, pl.ops.map(x => x.t)])
  if (why === 'ok-version') { c.ok(!err, `commit with matching version pre-conditions refused: ${err?.stack}`); c.eq(after, expected(before, pl), 'resolved commit not fully visible'); c.count('commits_ok'); return }
  c.ok(err, `${kind} with ${why} at operation ${pos} did not reject`)
  c.ok(why !== 'version' || err.name === 'ConflictError', `version mismatch surfaced as ${err.name}`)
  c.eq(records(ref, w), rawBefore, `${kind} refused (${why} at ${pos} of ${show(pl.ops)}) but storage differs`)
  c.eq(after, before, `${kind} refused (${why} at ${pos} of ${show(pl.ops)}) but readers see a difference`)
  c.count('refused_commits'); c.seen('refusals', `${kind}/${why}/${err.name}`)
}
// Overlapping transactions with version pre-conditions: no lost update.
async function overlap(c) {
  const r = c.rng; const m = r.pick(['eager', 'eager-idx', 'lazy', 'lazy-idx'])
  const ref = newRef(); const sched = new Sched(r.fork('s')); sched.enabled = false
  const store = instrument(ref, { sched, keepLog: false })
  const { db, v } = await open(store, { vault: 'v1', features: ['history', 'index', 'tx'] })
  const o = { ...copts(m) }; const A = v.collection('acc', o); const B = v.collection('log', o)
  const accts = ['a', 'b', 'c'].slice(0, r.int(2, 3))
  for (const i of accts) await A.put(i, { bal: 100, ver: 1, n: 0, name: i })
  let okc = 0; let confl = 0; const applied = []
  sched.enabled = true
  const viaMany = r.chance(0.3)
  const client = async (r2, k) => {
    for (let j = 0; j < r2.int(1, 2); j++) {
      const [x, y] = r2.sample(accts, 2)
      const rx = await A.get(x); const ry = await A.get(y); const vx = rx.ver; const vy = ry.ver // each record carries its own version number
      const d = r2.int(1, 9)
      try {
        if (viaMany) await A.putMany([[x, { ...rx, ver: vx + 1, bal: rx.bal - d }, { expectedVersion: vx }], [y, { ...ry, ver: vy + 1, bal: ry.bal + d }, { expectedVersion: vy }]], { atomic: true })
        else await db.transaction(async tx => { const t = tx.vault('v1').collection('acc'); t.put(x, { ...rx, ver: vx + 1, bal: rx.bal - d }, { expectedVersion: vx }); t.put(y, { ...ry, ver: vy + 1, bal: ry.bal + d }, { expectedVersion: vy }); tx.vault('v1').collection('log').put(`t${k}-${j}`, { x, y, d, n: 1, name: 'l' }) })
        okc++; applied.push({ x, y, d })
      } catch (e) { if (e.name !== 'ConflictError') throw e; confl++ }
    }
  }
  const rs = await sched.run(Array.from({ length: r.int(2, 4) }, (_, k) => client(r.fork('c' + k), k)))
  for (const x of rs) if (x.status === 'rejected') throw x.reason
  sched.drainOff()
  c.count('overlapping_commits', okc + confl); c.count('version_conflicts', confl)
  const bal = {}; for (const i of accts) bal[i] = 100
  for (const t of applied) { bal[t.x] -= t.d; bal[t.y] += t.d }
  for (const i of accts) { c.eq((await A.get(i)).bal, bal[i], `balance of ${i} after ${okc} acknowledged transfers (${m}, ${viaMany ? 'atomic batch' : 'transaction'}); transfers ${show(applied)}`) }
  if (!viaMany) c.eq(await B.count(), okc, 'log entries differ from acknowledged transactions')
  c.sig([m, viaMany, sched.trace.join()])
}
export const scenarios = [
  { name: 'faults', quick: 900, thorough: 4000, run: faults },
  { name: 'refusals', quick: 3000, thorough: 15000, run: refusals },
  { name: 'overlap', quick: 3000, thorough: 15000, run: overlap },
]
