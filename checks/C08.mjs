// Aggregates, groupings and joins against recomputation from an independent copy of the records.
import { open, newRef, instrument } from '../lib/world.mjs'
import { ref as refTo } from '@noy-db/hub'
import { count, sum, avg, min, max } from '@noy-db/hub/aggregate'
import { deepEq, show } from '../lib/child.mjs'

export const meta = {
  property: 'C08', level: 'exploration',
  rule: 'distinct by (kind of terminal, clause shape, reference mode, strategy, value-type mix, non-empty or empty match); terminals over empty collections are not counted',
  assumptions: ['non-number field values count as 0 in sums, averages and extrema, as documented', 'aggregation and grouping cover the full match set, before limit and offset, as documented', 'the joined collection is opened and loaded before the join runs, as documented', 'sums use integers or binary fractions so that order of addition does not matter'],
  minimums: { aggregates: 3000, live_comparisons: 3000, joins: 1500, dangling: 100, limits: 20, groups: 1000, reducer_steps: 1000 },
}
const NUM = [0, 1, -1, 5, 5, 7.5, -2.25, 1000, 100000, '5', null, undefined, true, [3], { a: 1 }, 'x']
const GRP = ['a', 'b', 'A', '', null, undefined, 1, '1', 0, true, 'true']
const cl = x => x !== null && typeof x === 'object' ? structuredClone(x) : x
const put = (o, k, v) => { if (v !== undefined) o[k] = cl(v) }
function rec(r, u, targets) {
  const o = { u }; put(o, 'n', r.pick(NUM)); put(o, 'g', r.pick(GRP))
  if (r.chance(0.7)) { o.d = {}; put(o.d, 'n', r.pick(NUM)); put(o.d, 'g', r.pick(GRP)) } else if (r.chance(0.3)) o.d = null
  for (const f of ['rs', 'rw', 'rc']) { const x = r.pick([...targets, ...targets, null, undefined]); put(o, f, x) }
  return o
}
const read = (o, f) => { let c = o; for (const p of f.split('.')) { if (c === null || c === undefined) return undefined; c = c[p] } return c }
const numOf = (o, f) => { const v = read(o, f); return typeof v === 'number' && Number.isFinite(v) ? v : 0 }
const SPEC = f => ({ n: count(), s: sum(f), a: avg(f), lo: min(f), hi: max(f) })
const calc = (rows, f) => { const xs = rows.map(o => numOf(o, f)); const s = xs.reduce((a, b) => a + b, 0); return { n: rows.length, s, a: rows.length ? s / rows.length : null, lo: rows.length ? Math.min(...xs) : null, hi: rows.length ? Math.max(...xs) : null } }
const fix0 = o => { for (const k in o) if (Object.is(o[k], -0)) o[k] = 0; return o }
function grp(rows, g, f) { const m = new Map(); for (const o of rows) { const k = read(o, g); if (!m.has(k)) m.set(k, []); m.get(k).push(o) } return [...m].map(([k, rs]) => ({ [g]: k, ...calc(rs, f) })) }
const tag = x => x === undefined ? 'undefined' : typeof x + ':' + JSON.stringify(x)
const byKey = g => (a, b) => tag(a[g]) < tag(b[g]) ? -1 : 1
const WH = [null, ['n', '>', 0], ['n', '<=', 5], ['g', '==', 'a'], ['g', 'in', ['a', 'b', 1]], ['d.n', '>=', 0], ['u', '!=', 2], ['g', '==', 'zzz'], ['n', '==', 5]]
const cmpable = (a, b) => typeof a === typeof b && (typeof a === 'number' || typeof a === 'string')
const holds = (o, w) => { if (!w) return true; const a = read(o, w[0]); const v = w[2]; switch (w[1]) { case '==': return a === v; case '!=': return a !== v; case '>': return cmpable(a, v) && a > v; case '<=': return cmpable(a, v) && a <= v; case '>=': return cmpable(a, v) && a >= v; case 'in': return v.includes(a) } }
const wh = (q, w) => w ? q.where(...w) : q

function same(c, got, want, label) { if (!deepEq(got, want)) c.fail(`${label}: got ${show(got, 1200)} expected ${show(want, 1200)}`) }
async function checkAgg(c, r, coll, rows, label, lazy) {
  const f = r.pick(['n', 'd.n', 'missing']); const w = r.pick(WH); const m = rows.filter(o => holds(o, w)); const want = fix0(calc(m, f))
  if (!lazy) {
    let q = wh(coll.query(), w); if (r.chance(0.2)) q = q.orderBy('u', 'desc'); if (r.chance(0.2)) q = q.limit(1)
    same(c, fix0(q.aggregate(SPEC(f)).run()), want, `${label}: aggregate over ${f} where ${show(w)}`)
    const g = r.pick(['g', 'd.g', 'nope'])
    const gr = wh(coll.query(), w).groupBy(g).aggregate(SPEC(f))
    same(c, gr.run().map(fix0).sort(byKey(g)), grp(m, g, f).map(fix0).sort(byKey(g)), `${label}: groupBy ${g} over ${f} where ${show(w)}`)
    if (r.chance(0.3)) same(c, (await gr.runAsync()).map(fix0).sort(byKey(g)), grp(m, g, f).map(fix0).sort(byKey(g)), `${label}: async groupBy`)
    c.count('groups'); if (rows.length) c.sig(['g', g, f, w, m.length > 0])
  }
  same(c, fix0(await wh(coll.scan({ pageSize: r.int(1, 5) }), w).aggregate(SPEC(f))), want, `${label}: streaming aggregate over ${f} where ${show(w)}`)
  c.count('aggregates'); if (rows.length) c.sig(['a', f, w, lazy, m.length > 0, new Set(m.map(o => typeof read(o, f))).size])
}
const REFS = { rs: ['tStrict', 'strict'], rw: ['tWarn', 'warn'], rc: ['tCasc', 'cascade'] }
function joined(rows, legs, tgt) {
  // expected rows, or 'dangling'
  return rows.map(o => { let x = { ...o }; for (const { f, as } of legs) { const id = read(x, f); const rid = typeof id === 'number' ? String(id) : typeof id === 'string' ? id : null; const hit = rid === null ? undefined : tgt[f].get(rid); if (hit === undefined && rid !== null && REFS[f][1] === 'strict') return 'dangling'; x = { ...x, [as]: hit === undefined ? null : hit } } return x })
}
async function joins(c, r, coll, rows, tgt, label, lazy) {
  const legs = r.sample(['rs', 'rw', 'rc'], r.int(1, 3)).map((f, i) => ({ f, as: r.pick(['x', 'y', 'z', 'rel']) + i })); const w = r.pick(WH)
  const m = rows.filter(o => holds(o, w)); const exp = joined(m, legs, tgt); const bad = exp.includes('dangling')
  const strat = r.pick([undefined, 'hash', 'nested'])
  const norm = l => l.slice().sort((a, b) => a.u - b.u)
  if (bad) c.count('dangling')
  if (!lazy) {
    const q = legs.reduce((q, l) => q.join(l.f, { as: l.as, ...(strat ? { strategy: strat } : {}) }), wh(coll.query(), w))
    let got; let err
    try { got = q.toArray() } catch (e) { err = e }
    if (bad) c.ok(err?.name === 'DanglingReferenceError', `${label}: join over a dangling strict reference ${err ? 'threw ' + err.name : 'returned ' + show(got)}`)
    else { if (err) throw err; same(c, norm(got), norm(exp), `${label}: join ${show(legs)} (${strat ?? 'auto'})`) }
    c.count('joins'); if (m.length) c.sig(['j', legs.map(l => l.f), strat, bad, w])
  }
  let got2 = []; let err2
  try { for await (const x of legs.reduce((q, l) => q.join(l.f, { as: l.as }), wh(coll.scan({ pageSize: r.int(1, 6) }), w))) got2.push(x) } catch (e) { err2 = e }
  if (bad) c.ok(err2?.name === 'DanglingReferenceError', `${label}: streaming join over a dangling strict reference ${err2 ? 'threw ' + err2.name : 'ended normally'}`)
  else { if (err2) throw err2; same(c, norm(got2), norm(exp), `${label}: streaming join ${show(legs)}`) }
  c.count('joins')
}
async function openW(store, mode) {
  const { db, v } = await open(store, { features: ['index', 'aggregate', 'tx'] })
  const t = {}; for (const f in REFS) t[f] = v.collection(REFS[f][0], r2opts(f, mode))
  const opts = mode === 'eager' ? {} : mode === 'eager-idx' ? { indexes: ['g', 'n', 'rs'] } : { prefetch: false, cache: { maxRecords: 3 }, indexes: ['g'] }
  const coll = v.collection('main', { ...opts, refs: { rs: refTo('tStrict', 'strict'), rw: refTo('tWarn', 'warn'), rc: refTo('tCasc', 'cascade') } })
  for (const f in t) await t[f].count()
  if (!mode.startsWith('lazy')) await coll.count()
  return { db, v, coll, t }
}
const r2opts = (f, mode) => mode === 'eager-idx' && f === 'rw' ? { indexes: ['name'] } : {}
const IDS = ['t1', 't2', 't3', 't4', '7']

async function programs(c) {
  const r = c.rng; const ref = newRef(); const store = instrument(ref, { keepLog: false, extras: r.chance(0.5) ? ['listPage'] : [] })
  const mode = r.pick(['eager', 'eager', 'eager-idx', 'lazy']); const lazy = mode === 'lazy'
  let W = await openW(store, mode); const model = new Map(); const tgt = { rs: new Map(), rw: new Map(), rc: new Map() }; let u = 0
  const lives = []
  const mkLive = () => {
    if (lazy) return
    const f = r.pick(['n', 'd.n']); const w = r.pick(WH); const kind = r.pick(['agg', 'grp', 'q', 'join']); let calls = 0
    let L
    if (kind === 'agg') { const l = wh(W.coll.query(), w).aggregate(SPEC(f)).live(); L = { l, cmp: () => [fix0({ ...l.value }), fix0(calc([...model.values()].filter(o => holds(o, w)), f))] } }
    else if (kind === 'grp') { const g = r.pick(['g', 'd.g']); const l = wh(W.coll.query(), w).groupBy(g).aggregate(SPEC(f)).live(); L = { l, cmp: () => [l.value.map(x => fix0({ ...x })).sort(byKey(g)), grp([...model.values()].filter(o => holds(o, w)), g, f).map(fix0).sort(byKey(g))] } }
    else if (kind === 'q') { const l = wh(W.coll.query(), w).orderBy('u').live(); L = { l, cmp: () => [[...l.value], [...model.values()].filter(o => holds(o, w)).sort((a, b) => a.u - b.u)] } }
    else { const legs = r.sample(['rs', 'rw', 'rc'], r.int(1, 2)).map((f2, i) => ({ f: f2, as: 'j' + i })); const l = legs.reduce((q, x) => q.join(x.f, { as: x.as }), wh(W.coll.query(), w)).orderBy('u').live(); L = { l, cmp: () => { const e = joined([...model.values()].filter(o => holds(o, w)).sort((a, b) => a.u - b.u), legs, tgt); return e.includes('dangling') ? [l.error?.name, 'DanglingReferenceError'] : [[...l.value], e] } } }
    L.kind = kind; L.unsub = L.l.subscribe(() => { calls++ }); L.calls = () => calls; lives.push(L)
  }
  const steps = r.int(4, 18)
  for (let s = 0; s < steps; s++) {
    const op = r.weighted([[9, 'put'], [3, 'del'], [5, 'tput'], [2, 'tdel'], [1, 'reopen'], [3, 'live'], [1, 'stop'], [1, 'many']])
    const id = 'i' + r.int(0, 9)
    if (op === 'put' || op === 'many') {
      for (let k = op === 'many' ? 3 : 1; k > 0; k--) {
        const i = op === 'many' ? 'i' + r.int(0, 9) : id
        const x = rec(r, ++u, IDS); if (x.rs !== undefined && x.rs !== null && !tgt.rs.has(x.rs)) { if (tgt.rs.size) x.rs = r.pick([...tgt.rs.keys()]); else delete x.rs }
        if (x.rw === '7' && r.chance(0.5)) x.rw = 7
        await W.coll.put(i, structuredClone(x)); model.set(i, x)
      }
    } else if (op === 'del') { await W.coll.delete(id); model.delete(id) }
    else if (op === 'tput') { const f = r.pick(['rs', 'rw', 'rc']); const tid = r.pick(IDS); const x = { id: tid, name: 'N' + (++u) }; await W.t[f].put(tid, { ...x }); tgt[f].set(tid, x) }
    else if (op === 'tdel') {
      const f = r.pick(['rw', 'rs']); const tid = r.pick(IDS)
      if (f === 'rs') { // storage-level loss makes a strict reference dangle
        const used = [...model.values()].map(o => o.rs).filter(x => typeof x === 'string'); const gone = used.length && r.chance(0.8) ? r.pick(used) : tid
        ref.delete('acme', 'tStrict', gone); tgt.rs.delete(gone); for (const L of lives) { L.unsub(); L.l.stop() } lives.length = 0; W = await openW(store, mode)
      } else { await W.t[f].delete(tid); tgt[f].delete(tid) }
    } else if (op === 'reopen') { for (const L of lives) { L.unsub(); L.l.stop() } lives.length = 0; W = await openW(store, mode) }
    else if (op === 'live') { if (lives.length < 4) mkLive() }
    else if (op === 'stop' && lives.length) { const L = lives.splice(r.int(0, lives.length - 1), 1)[0]; L.l.stop(); const n = L.calls(); await W.coll.put(id, { u: ++u }); model.set(id, { u }); c.eq(L.calls(), n, `a stopped live ${L.kind} called back`) }
    for (const L of lives) { const [a, b] = L.cmp(); same(c, a, b, `live ${L.kind} after step ${s} (${op})`); c.count('live_comparisons') }
    const rows = [...model.values()]
    if (r.chance(0.7)) await checkAgg(c, r, W.coll, rows, `step ${s} (${op}) in ${mode}`, lazy)
    if (r.chance(0.5)) await joins(c, r, W.coll, rows, tgt, `step ${s} (${op}) in ${mode}`, lazy)
    c.sample({ mode, steps, records: model.size })
  }
  for (const L of lives) L.l.stop()
}
// every reducer, folded and un-folded in random order, equals recomputation
async function reducers(c) {
  const r = c.rng; const f = r.pick(['n', 'd.n']); const spec = SPEC(f)
  const st = {}; for (const k in spec) st[k] = spec[k].init()
  const rows = []
  for (let s = 0; s < 40; s++) {
    if (rows.length && r.chance(0.4)) { const [o] = rows.splice(r.int(0, rows.length - 1), 1); for (const k in spec) if (spec[k].remove) st[k] = spec[k].remove(st[k], o) }
    else { const o = rec(r, s, IDS); rows.push(o); for (const k in spec) st[k] = spec[k].step(st[k], o) }
    const got = {}; for (const k in spec) got[k] = spec[k].finalize(st[k])
    same(c, fix0(got), fix0(calc(rows, f)), `incrementally maintained reducers after ${s} steps`); c.count('reducer_steps')
  }
  c.sig(['red', f, rows.length])
}
// limits are errors, never silently dropped rows
async function limits(c) {
  const r = c.rng; const ref = newRef(); const store = instrument(ref, { keepLog: false })
  const W = await openW(store, 'eager'); const nt = r.int(0, 6); const nm = r.int(0, 8); const cap = r.int(1, 7)
  const tg = new Map()
  for (let i = 0; i < nt; i++) { const x = { id: 'k' + i, name: 'n' + i }; await W.t.rw.put('k' + i, x); tg.set('k' + i, x) }
  const rows = []; for (let i = 0; i < nm; i++) { const x = { u: i, rw: 'k' + r.int(0, 7) }; await W.coll.put('m' + i, x); rows.push(x) }
  for (const strat of [undefined, 'hash', 'nested']) {
    let got; let err
    try { got = W.coll.query().join('rw', { as: 'j', maxRows: cap, ...(strat ? { strategy: strat } : {}) }).orderBy('u').toArray() } catch (e) { err = e }
    if (nm > cap || nt > cap) c.ok(err?.name === 'JoinTooLargeError', `join of ${nm}x${nt} rows with a ceiling of ${cap} ${err ? 'threw ' + err.name : 'returned ' + got.length + ' rows'}`)
    else { if (err) throw err; same(c, got, rows.map(o => ({ ...o, j: tg.get(o.rw) ?? null })), 'join under its ceiling') }
  }
  c.count('limits'); c.sig(['lim', nt > cap, nm > cap, nt, nm, cap])
}
// default ceilings with real sizes
async function bigLimits(c) {
  const which = c.i % 4; const ref = newRef(); const ConflictN = which
  const n = [100_000, 100_001, 50_000, 50_001][which]
  const env = x => ({ _noydb: 1, _v: 1, _ts: '2026-01-01T00:00:00.000Z', _iv: '', _data: JSON.stringify(x) })
  const m = ref.coll('acme', 'main', true); for (let i = 0; i < n; i++) m.set('r' + i, env({ u: i, rw: 'k' + i % 3 }))
  const tw = ref.coll('acme', 'tWarn', true); for (let i = 0; i < 3; i++) tw.set('k' + i, env({ id: 'k' + i }))
  const { v } = await open(instrument(ref, { keepLog: false }), { features: ['aggregate', 'index'], encrypt: false })
  const t = v.collection('tWarn'); await t.count(); const coll = v.collection('main', { refs: { rw: refTo('tWarn', 'warn') } }); await coll.list()
  if (which < 2) {
    let got; let err; try { got = coll.query().groupBy('u').aggregate({ n: count() }).run() } catch (e) { err = e }
    if (n > 100_000) c.ok(err?.name === 'GroupCardinalityError', `grouping into ${n} groups ${err ? 'threw ' + err.name : 'returned ' + got.length}`)
    else { if (err) throw err; c.eq(got.length, n, 'groups at the ceiling') }
  } else {
    let got; let err; try { got = coll.query().join('rw', { as: 'j' }).toArray() } catch (e) { err = e }
    if (n > 50_000) c.ok(err?.name === 'JoinTooLargeError', `joining ${n} rows ${err ? 'threw ' + err.name : 'returned ' + got.length}`)
    else { if (err) throw err; c.eq(got.length, n, 'rows at the join ceiling'); c.ok(got.every(x => x.j && x.j.id === x.rw), 'a joined row lost its reference') }
  }
  c.count('limits'); c.sig(['big', which])
}
export const scenarios = [
  { name: 'programs', quick: 40000, thorough: 100000, run: programs },
  { name: 'reducers', quick: 2000, thorough: 5000, run: reducers },
  { name: 'limits', quick: 1000, thorough: 2000, run: limits },
  { name: 'bigLimits', quick: 4, thorough: 4, run: bigLimits, timeoutMs: 120_000 },
]
