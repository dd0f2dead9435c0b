// C19 - concurrent collaborative edits converge: replicas edit and merge in generated orders (directly, through
// sync and through the document binding); monitors check merge laws, edit conservation and convergence
import * as Y from 'yjs'
import { buildLwwMapState, buildRgaState, mergeCrdtStates, resolveCrdtSnapshot } from '@noy-db/hub/crdt'
import { createNoydb } from '@noy-db/hub'
import { yjsCollection, yText, yMap, yArray } from '@noy-db/in-yjs'
import { open, newRef, instrument, strategies, PASS } from '../lib/world.mjs'
import { Sched } from '../lib/sched.mjs'

export const meta = {
  property: 'C19', level: 'exploration',
  rule: 'a case counts as non-trivial when at least two replicas edited without knowing of each other and then merged; distinct by the sequence of edits and merges',
  assumptions: ['storing a whole shared document replaces the stored one (documented); only merged updates are claimed to accumulate', 'a field-merged put is an edit of exactly the fields it contains, other fields are preserved (documented)'],
  minimums: { merges: 30000, law_checks: 15000, concurrent_fields: 3000, concurrent_removes: 1000, readds: 1500, duplicates: 1500, sync_rounds: 3000, sync_values: 3000, doc_updates: 3000, puts: 30000 },
}
const J = x => JSON.stringify(x), copy = x => JSON.parse(JSON.stringify(x))
const sortKeys = x => x && typeof x === 'object' && !Array.isArray(x) ? Object.fromEntries(Object.keys(x).sort().map(k => [k, sortKeys(x[k])])) : Array.isArray(x) ? x.map(sortKeys) : x
const snap = s => resolveCrdtSnapshot(s)
const FIELDS = ['a', 'b', 'c', 'constructor', 'toString', 'valueOf', 'é', '']
const norm = s => s._crdt === 'lww-map' ? J(sortKeys(s)) : J([s.items.map(i => [i.nid, i.v]), [...s.tombstones].sort()])
const soft = s => s._crdt === 'lww-map' ? J(sortKeys(s)) : J([s.items.map(i => J([i.nid, i.v])).sort(), [...s.tombstones].sort(), snap(s).map(J).sort()])
const iso = t => new Date(t).toISOString()
const multi = a => { const m = new Map(); for (const x of a) m.set(J(x), (m.get(J(x)) ?? 0) + 1); return m }

function merge(c, a, b) {
  const before = J([a, b]), ab = copy(mergeCrdtStates(a, b)), ba = copy(mergeCrdtStates(b, a)); c.count('merges', 2); c.count('law_checks')
  c.eq(J([a, b]), before, 'merging changed its inputs')
  c.eq(norm(ab), norm(ba), 'the result of a merge depends on which side runs it')
  c.eq(norm(copy(mergeCrdtStates(ab, a))), norm(ab), 'merging a contained state again changed the result'); c.eq(norm(copy(mergeCrdtStates(b, ab))), norm(ab), 'merging into the result changed it'); c.eq(norm(copy(mergeCrdtStates(a, a))), norm(a), 'merging a state with itself changed it')
  return ab
}
let nidSeq = 0
const nid = r => r.pick(['Z', 'A', 'M', '']) + r.u32().toString(36) + '.' + nidSeq++

// ---------- field-merged maps, direct
async function fields(c) {
  const r = c.rng, n = r.int(2, 4), skew = Array.from({ length: n }, () => r.pick([0, 0, 0, 5000, -5000, 86400e3])); let t = Date.UTC(2026, 1, 1), k = 0, sig = ''
  const reps = Array.from({ length: n }, () => ({ s: undefined, known: new Set() })), edits = []; let conc = 0
  const val = () => r.chance(0.15) ? r.pick([null, false, 0, '', [], {}]) : r.chance(0.1) ? { k: k++, z: [k] } : k++
  for (let step = 0; step < 14; step++) {
    const i = r.int(0, n - 1), R = reps[i]; if (r.chance(0.6)) t += r.pick([0, 1, 1000])
    if (r.chance(0.6)) {
      const rec = {}; for (const f of r.sample(FIELDS, r.int(1, 3))) rec[f] = val()
      const old = R.s ? snap(R.s) : {}, was = J(R.s); R.s = copy(buildLwwMapState(rec, R.s, iso(t + skew[i]))); c.count('puts'); if (was) c.ok(true, '')
      c.eq(sortKeys(snap(R.s)), sortKeys({ ...old, ...rec }), 'value after a put')
      for (const f in rec) { const e = { id: edits.length, f, v: J(rec[f]), past: new Set(R.known) }; edits.push(e); R.known.add(e.id) } sig += 'p'
    } else {
      const j = r.int(0, n - 1); if (i === j || !R.s || !reps[j].s) continue
      R.s = merge(c, R.s, reps[j].s); for (const x of reps[j].known) R.known.add(x); sig += 'm'; check(R)
    }
  }
  function check(R) {
    const cur = snap(R.s)
    for (const f of new Set(edits.filter(e => R.known.has(e.id)).map(e => e.f))) {
      const mine = edits.filter(e => e.f === f && R.known.has(e.id)), top = mine.filter(e => !mine.some(o => o.past.has(e.id)))
      c.ok(Object.hasOwn(cur, f), () => `field ${J(f)} was edited and lost in a merge`); if (top.length > 1) { conc++; c.count('concurrent_fields') }
      c.ok(top.some(e => e.v === J(cur[f])), () => `field ${J(f)} shows ${J(cur[f])}; the edits nobody replaced are ${top.map(e => e.v)}`)
    }
    c.eq(Object.keys(cur).every(f => edits.some(e => e.f === f)), true, 'a field nobody wrote')
  }
  const live = reps.filter(x => x.s); if (live.length < 2) return
  if (live.length >= 3) { const [a, b, d] = live.map(x => x.s); c.eq(norm(copy(mergeCrdtStates(copy(mergeCrdtStates(a, b)), d))), norm(copy(mergeCrdtStates(a, copy(mergeCrdtStates(b, d))))), 'grouping of merges matters') }
  const all = new Set(live.flatMap(x => [...x.known])); const finals = [0, 1, 2].map(() => r.shuffle(live.map(x => x.s)).reduce((x, y) => copy(r.chance(0.5) ? mergeCrdtStates(x, y) : mergeCrdtStates(y, x))))
  for (const f of finals) c.eq(norm(f), norm(finals[0]), 'replicas that merged everything in different orders differ')
  check({ s: finals[0], known: all }); if (conc) c.sig('f' + n + sig)
}

// ---------- lists, direct: unique elements, so visible = inserted minus removed
async function lists(c) {
  const r = c.rng, n = r.int(2, 4); let k = 0, sig = '', conc = 0
  const reps = Array.from({ length: n }, () => ({ s: undefined, live: new Set(), dead: new Set(), mine: 0 }))
  const reorders = r.chance(0.3)
  for (let step = 0; step < 14; step++) {
    const R = r.pick(reps)
    if (r.chance(0.6)) {
      const arr = R.s ? [...snap(R.s)] : []
      for (let q = r.int(1, 3); q > 0; q--) {
        if (arr.length && r.chance(0.35)) { const [x] = arr.splice(r.int(0, arr.length - 1), 1); R.live.delete(J(x)); R.dead.add(J(x)); c.count('concurrent_removes', 1) }
        else { const v = r.chance(0.3) ? { id: k++ } : 'v' + k++; arr.splice(r.int(0, arr.length), 0, v); R.live.add(J(v)) }
      }
      if (reorders && arr.length > 1 && r.chance(0.3)) r.shuffle(arr)
      const was = J(R.s); const s = copy(buildRgaState(copy(arr), R.s, () => nid(r))); c.eq(J(R.s), was, 'a put changed the previous state'); R.s = s; c.count('puts')
      c.eq(snap(R.s), arr, 'list after a put'); ids(R.s); sig += 'p'
    } else {
      const o = r.pick(reps); if (o === R || !R.s || !o.s) continue
      const base = [snap(R.s).map(J), snap(o.s).map(J)], common = base[0].filter(x => base[1].includes(x)), sameOrder = J(common) === J(base[1].filter(x => base[0].includes(x)))
      if (base[0].some(x => !base[1].includes(x)) && base[1].some(x => !base[0].includes(x))) conc++
      R.s = merge(c, R.s, o.s); for (const x of o.live) R.live.add(x); for (const x of o.dead) R.dead.add(x); for (const x of R.dead) R.live.delete(x)
      const got = snap(R.s).map(J); c.eq([...got].sort(), [...R.live].sort(), 'elements after a merge'); ids(R.s)
      if (sameOrder) c.eq(got.filter(x => common.includes(x)), common.filter(x => R.live.has(x)), 'a merge changed the order of elements both sides agree on'); sig += 'm'
    }
  }
  function ids(s) { c.eq(new Set(s.items.map(i => i.nid)).size, s.items.length, 'one identity for two elements') }
  const live = reps.filter(x => x.s); if (live.length < 2) return
  if (live.length >= 3) { const [a, b, d] = live.map(x => x.s); c.eq(soft(copy(mergeCrdtStates(copy(mergeCrdtStates(a, b)), d))), soft(copy(mergeCrdtStates(a, copy(mergeCrdtStates(b, d))))), 'grouping of merges changes the elements') }
  // exchange states at random until nothing changes: everybody must show the same list
  for (let round = 0, quiet = 0; ; round++) {
    c.ok(round < 200, 'replicas keep changing each other without end')
    const b4 = J(live.map(x => norm(x.s))); for (const [i, j] of r.shuffle(live.flatMap((_, i) => live.map((_, j) => [i, j]))).filter(([i, j]) => i !== j)) live[i].s = copy(mergeCrdtStates(live[i].s, live[j].s)); c.count('merges', live.length)
    if (b4 === J(live.map(x => norm(x.s)))) { if (++quiet > 1) break }
  }
  for (const x of live) c.eq(snap(x.s), snap(live[0].s), 'replicas that exchanged everything show different lists')
  const dead = new Set(live.flatMap(x => [...x.dead])), want = [...new Set(live.flatMap(x => [...x.live]))].filter(x => !dead.has(x)).sort(); c.eq(snap(live[0].s).map(J).sort(), want, 'elements after everything was exchanged')
  if (conc) c.sig('l' + n + sig)
}
// removing and adding again, and equal elements
async function again(c) {
  const r = c.rng, vals = ['x', 'y', 'z'], rnd = m => Array.from({ length: r.int(0, m) }, () => r.pick(vals))
  let s; for (let i = r.int(1, 4); i > 0; i--) { const prev = s ? snap(s) : []; const arr = r.chance(0.3) ? [] : rnd(5); s = copy(buildRgaState(arr, s, () => nid(r))); c.count('puts'); c.eq(snap(s), arr, `list after a put over ${J(prev)}`); if (arr.length) c.count('readds'); if (new Set(arr).size < arr.length) c.count('duplicates') }
  const base = snap(s), A = rnd(5), B = r.chance(0.3) ? [...base] : rnd(5)
  const sa = copy(buildRgaState(A, s, () => nid(r))), sb = copy(buildRgaState(B, s, () => nid(r))); c.eq(snap(sa), A, 'list after a put'); c.eq(snap(sb), B, 'list after a put')
  const got = multi(snap(merge(c, sa, sb))), mb = multi(base), ma = multi(A), mB = multi(B)
  for (const v of vals.map(J)) {
    const n0 = mb.get(v) ?? 0, a = ma.get(v) ?? 0, b = mB.get(v) ?? 0, adds = Math.max(0, a - n0) + Math.max(0, b - n0), ka = Math.min(a, n0), kb = Math.min(b, n0), lo = Math.max(0, ka + kb - n0) + adds, hi = Math.min(ka, kb) + adds, g = got.get(v) ?? 0
    c.ok(g >= lo && g <= hi, () => `element ${v}: ${n0} at first, ${a} on one side, ${b} on the other, ${g} after the merge (expected ${lo === hi ? lo : `${lo}-${hi}`})`)
  }
  c.count('concurrent_removes'); c.sig('r' + J([base, A, B]))
}

// ---------- through encrypted storage and sync
let seedSnap
async function seedStore() {
  if (seedSnap) return seedSnap
  const ref = newRef(); const { db, v } = await open(instrument(ref, { keepLog: false }), { features: ['sync', 'crdt'] })
  for (const n of ['maps', 'lists']) { const k = v.collection(n); await k.put('zz', { t: 1 }); await k.delete('zz') }
  db.close(); const s = ref.snapshot(); for (const n of Object.keys(s.acme)) if (n !== '_keyring' && n !== '_meta') delete s.acme[n]
  return (seedSnap = s)
}
async function synced(c) {
  const r = c.rng, n = r.int(2, 3), remote = newRef(), reps = [], t0 = c.clock.now, skew = Array.from({ length: n }, () => r.pick([0, 0, 3000, -3000, 86400e3])); let el = t0, k = 0, sig = '' + n, conc = 0
  remote.restore({ acme: {} }); const seed = await seedStore()
  for (let i = 0; i < n; i++) {
    const ref = newRef(); ref.restore(seed); const R = { i, ref, known: new Set(), live: new Set(), dead: new Set() }
    R.up = async () => { R.db?.close(); R.db = await createNoydb({ store: instrument(ref, { keepLog: false }), user: 'alice', secret: PASS, sync: instrument(remote, { keepLog: false }), syncPolicy: { push: { mode: 'manual' }, pull: { mode: 'manual' } }, ...strategies(['sync', 'crdt']) }); R.v = await R.db.openVault('acme'); R.maps = R.v.collection('maps', { crdt: 'lww-map', ...(i % 2 ? { prefetch: false, cache: { maxRecords: 3 } } : {}) }); R.lists = R.v.collection('lists', { crdt: 'rga' }); if (!(i % 2)) await R.maps.count(); await R.lists.count() }
    reps.push(R)
  }
  const hubK = { known: new Set(), live: new Set(), dead: new Set() }, edits = []
  const at = R => { el += r.pick([0, 0, 1, 700]); c.clock.set(el + skew[R.i]) }
  for (const R of reps) { at(R); await R.up() }
  const check = async R => {
    const m = await R.maps.get('m'), l = await R.lists.get('l')
    const mine = edits.filter(e => R.known.has(e.id)), fs = new Set(mine.map(e => e.f))
    for (const f of fs) { const es = mine.filter(e => e.f === f), top = es.filter(e => !es.some(o => o.past.has(e.id))); if (top.length > 1) { conc++; c.count('concurrent_fields') } c.ok(m && Object.hasOwn(m, f) && top.some(e => e.v === J(m[f])), () => `replica ${R.i}: field ${f} shows ${J(m?.[f])}; the edits nobody replaced are ${top.map(e => e.v)}`); c.count('sync_values') }
    if (l || R.live.size) c.eq((l ?? []).map(J).sort(), [...R.live].sort(), `replica ${R.i}: elements of the list`)
  }
  const sync = async R => {
    at(R); const out = await R.db.sync('acme'); c.eq([...(out.push?.errors ?? []), ...(out.pull?.errors ?? [])].map(String), [], 'sync errors'); c.count('sync_rounds')
    for (const x of R.known) hubK.known.add(x); for (const x of R.live) hubK.live.add(x); for (const x of R.dead) hubK.dead.add(x)
    R.known = new Set(hubK.known); R.dead = new Set(hubK.dead); R.live = new Set([...hubK.live].filter(x => !hubK.dead.has(x))); sig += 's' + R.i
  }
  for (let step = 0; step < 12; step++) {
    const R = r.pick(reps), op = r.weighted([[5, 'map'], [5, 'list'], [5, 'sync'], [0.6, 'restart']])
    if (op === 'map') { at(R); const rec = {}; for (const f of r.sample(['a', 'b', 'constructor'], r.int(1, 2))) rec[f] = k++; await R.maps.put('m', rec); c.count('puts'); const past = new Set(R.known); for (const f in rec) { const e = { id: edits.length, f, v: J(rec[f]), past }; edits.push(e); R.known.add(e.id) } sig += 'm' + R.i }
    else if (op === 'list') { at(R); const arr = [...((await R.lists.get('l')) ?? [])]; for (let q = r.int(1, 2); q > 0; q--) { if (arr.length && r.chance(0.35)) { const [x] = arr.splice(r.int(0, arr.length - 1), 1); R.live.delete(J(x)); R.dead.add(J(x)); c.count('concurrent_removes') } else { const v = 'e' + k++; arr.splice(r.int(0, arr.length), 0, v); R.live.add(J(v)) } } await R.lists.put('l', arr); c.count('puts'); c.eq(await R.lists.get('l'), arr, 'list after a put'); sig += 'l' + R.i }
    else if (op === 'restart') { at(R); await R.up(); sig += 'u' }
    else await sync(R)
    if (r.chance(0.5)) await check(R)
  }
  for (let round = 0; round < 3; round++) for (const R of reps) await sync(R)
  for (const R of reps) { await check(R); c.eq(await R.maps.get('m').then(sortKeys), sortKeys(await reps[0].maps.get('m')), 'replicas show different fields after sync'); c.eq(await R.lists.get('l'), await reps[0].lists.get('l'), 'replicas show different lists after sync') }
  for (const R of reps) R.db.close()
  if (conc) c.sig('s' + sig)
}

// ---------- shared documents
async function docs(c) {
  const r = c.rng, ref = newRef(), sched = new Sched(r); sched.enabled = false
  const store = instrument(ref, { sched, keepLog: false }), { db, v } = await open(store, { features: ['crdt'] })
  const mk = () => yjsCollection(v, 'notes', { yFields: { body: yText(), meta: yMap(), list: yArray() } }), ws = [mk(), mk()]
  const seen = d => J([d.getText('body').toString(), sortKeys(d.getMap('meta').toJSON()), d.getArray('list').toJSON()])
  const model = new Map(); let sig = '', n = 0, over = 0
  const edit = d => { for (let q = r.int(1, 3); q > 0; q--) { const x = r.int(0, 3); if (x === 0) { const t = d.getText('body'); t.insert(r.int(0, t.length), r.pick(['é', 'ab', '日本', '\u{1F600}', 'x']) + n++) } else if (x === 1) d.getMap('meta').set(r.pick(['k', 'l']), n++); else if (x === 2) { const a = d.getArray('list'); a.insert(r.int(0, a.length), [n++]) } else { const t = d.getText('body'); if (t.length > 1) t.delete(0, 1) } } }
  for (let step = 0; step < 8; step++) {
    const id = r.pick(['n1', 'n2']), w = r.pick(ws), op = r.weighted([[6, 'updates'], [2, 'put'], [1, 'delete'], [2, 'read']])
    if (op === 'updates') {
      const k = r.int(1, 4), base = model.get(id), jobs = []
      const ups = Array.from({ length: k }, () => { const d = new Y.Doc(); d.clientID = r.u32(); if (base) Y.applyUpdate(d, base); const sv = Y.encodeStateVector(d); edit(d); return r.chance(0.5) ? Y.encodeStateAsUpdate(d) : Y.encodeStateAsUpdate(d, sv) })
      sched.enabled = true; for (const u of ups) jobs.push(r.pick(ws).applyUpdate(id, u)); await sched.run(jobs); sched.enabled = false
      for (const j of jobs) await j; c.count('doc_updates', k); if (k > 1) over++
      const d = new Y.Doc(); if (base) Y.applyUpdate(d, base); for (const u of r.shuffle(ups)) Y.applyUpdate(d, u); model.set(id, Y.encodeStateAsUpdate(d)); sig += 'u' + k
    } else if (op === 'put') { const d = await w.getYDoc(id); d.clientID = r.u32(); edit(d); await w.putYDoc(id, d); model.set(id, Y.encodeStateAsUpdate(d)); sig += 'p' }
    else if (op === 'delete') { await w.delete(id); model.delete(id); sig += 'd' }
    const d = new Y.Doc(); if (model.has(id)) Y.applyUpdate(d, model.get(id))
    c.eq(seen(await r.pick(ws).getYDoc(id)), seen(d), 'document after its updates were applied'); c.eq(await w.has(id), model.has(id), 'document exists')
  }
  db.close(); const re = await open(instrument(ref, { keepLog: false }), { features: ['crdt'] }), w2 = yjsCollection(re.v, 'notes', { yFields: { body: yText(), meta: yMap(), list: yArray() } })
  for (const [id, u] of model) { const d = new Y.Doc(); Y.applyUpdate(d, u); c.eq(seen(await w2.getYDoc(id)), seen(d), 'document after reopening') }
  re.db.close(); if (over) c.sig('y' + sig)
}
export const scenarios = [
  { name: 'fields', quick: 5000, thorough: 40000, run: fields },
  { name: 'lists', quick: 5000, thorough: 40000, run: lists },
  { name: 'again', quick: 6000, thorough: 40000, run: again },
  { name: 'synced', quick: 900, thorough: 6000, run: synced, clock: { auto: 0 } },
  { name: 'docs', quick: 700, thorough: 4000, run: docs },
]
