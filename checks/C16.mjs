// History and point-in-time views against a recorded timeline of every state the workload
// produced; storage is compared byte for byte around every read-only view.
import { open, newRef, instrument } from '../lib/world.mjs'
import { json } from '../lib/gen.mjs'
import { show, deepEq } from '../lib/child.mjs'

export const meta = {
  property: 'C16', level: 'exploration',
  rule: 'distinct by (mode, retention setting, operation list); cases whose timeline has fewer than two states are not counted',
  assumptions: ['the clock never runs backwards', 'records are compared as JSON (what storage keeps)', 'versions removed by an explicit prune, clear or retention limit may answer null, never a wrong value', 'collection names contain no colon', 'a record created again after a delete counts its versions from 1 again (documented), so the versions of such a record are only required to be states it had under that number'],
  minimums: { instants_read: 20000, versions_read: 10000, reverts: 300, prunes: 300, frames: 300, diffs: 1000 },
}
const MODES = { eager: {}, lazy: { prefetch: false, cache: { maxRecords: 2 } }, idx: { indexes: ['u'] }, 'lazy-idx': { prefetch: false, cache: { maxRecords: 3 }, indexes: ['u'] }, crdt: { crdt: 'lww-map' } }
const IDS = ['a', 'b', 'a:b', 'a:0000000001', 'x y']
const norm = x => JSON.parse(JSON.stringify(x))
function stamp(r, t) {
  const d = new Date(t); const iso = d.toISOString()
  switch (r.int(0, 4)) {
    case 0: return d
    case 1: { const off = r.pick([7, -5, 5.5]); const l = new Date(t + off * 3600e3).toISOString().slice(0, -1); const a = Math.abs(off) * 60; return l + (off < 0 ? '-' : '+') + String(Math.floor(a / 60)).padStart(2, '0') + ':' + String(a % 60).padStart(2, '0') }
    case 2: return t % 1000 === 0 ? iso.replace('.000', '') : iso
    default: return iso
  }
}
// an independent application of a reported difference list (keys are chosen without dots)
function applyDiff(old, entries) {
  let root = old === null ? null : norm(old)
  const tail = []
  for (const e of entries) {
    if (e.path === '(root)') { root = e.type === 'removed' ? null : norm(e.to); continue }
    const segs = []; for (const part of e.path.split('.')) { const m = part.match(/^([^[]*)((?:\[\d+\])*)$/); if (m[1] !== '') segs.push(m[1]); for (const x of m[2].matchAll(/\[(\d+)\]/g)) segs.push(Number(x[1])) }
    let o = root; for (const s of segs.slice(0, -1)) o = o[s]
    const k = segs.at(-1)
    if (e.type === 'removed' && e.to === undefined) { if (Array.isArray(o)) tail.push([o, k]); else delete o[k] } else o[k] = norm(e.to)
  }
  for (const [o, k] of tail) if (o.length > k) o.length = k
  return root
}
// a field set to null may be reported as removed
const strip = x => Array.isArray(x) ? x.map(strip) : x && typeof x === 'object' ? Object.fromEntries(Object.entries(x).filter(e => e[1] !== null).map(([k, v]) => [k, strip(v)])) : x
const K = ['name', 'list', 'sub', 'toString', 'n', 'constructor']
function rec(r, u, mode) { const o = { u }; if (mode === 'crdt') { o.n = r.int(0, 3); o.name = r.pick(['x', 'y']); return o } const n = r.int(0, 4); for (let i = 0; i < n; i++) o[r.pick(K)] = r.pick([null, 1, 2, 's', [], {}, [1, 2], [1], { p: 1 }, { p: [1, { q: 2 }] }, { q: null }, { toString: 1 }]); return o }

async function programs(c) {
  const r = c.rng
  const mode = r.pick(Object.keys(MODES)); const encrypt = !r.chance(0.15)
  const maxVersions = r.chance(0.25) ? r.int(1, 3) : undefined
  const ref = newRef(); const store = instrument(ref, { keepLog: false })
  const o = { features: ['history', 'index', 'tx', 'crdt', 'shadow'], ...(encrypt ? {} : { encrypt: false }), ...(maxVersions ? { history: { enabled: true, maxVersions } } : {}) }
  let db, v, coll, twin
  const reopen = async () => { ({ db, v } = await open(store, o)); coll = v.collection('docs', MODES[mode]); twin = v.collection('doc', {}) }
  await reopen()
  // timeline: per id every state ever written, with the version storage gave it
  const states = {}; const cur = {}; const gone = new Set(); const again = new Set() // again: ids created anew after a delete; gone: states no longer kept
  const marks = []; let u = 0; const prog = []
  const setM = (id, x, v = ref.get('acme', 'docs', id)?._v) => { if (cur[id]) c.eq(v, cur[id].v + 1, `version of ${id} after an update`); else if (states[id]) again.add(id); cur[id] = { v, rec: norm(x) }; (states[id] ??= []).push(cur[id]) }
  const mark = () => { c.clock.set(c.clock.now + r.int(3, 400)); const state = {}; for (const id in cur) state[id] = cur[id]; marks.push({ t: c.clock.now, state }); c.clock.set(c.clock.now + r.pick([2, 5, 999, 86400e3])) }
  // what history must hold for an id: versions already superseded (or deleted), minus what was pruned
  const past = id => (states[id] ?? []).filter(x => x !== cur[id] && !gone.has(x)).reverse()
  const retained = id => { if (maxVersions) for (const x of past(id).slice(maxVersions)) gone.add(x) }
  const hist = async (id, label) => {
    const h = await coll.history(id); const want = past(id)
    c.count('versions_read', h.length)
    if (again.has(id)) { for (const x of h) c.ok(states[id].some(y => y.v === x.version && deepEq(y.rec, norm(x.record))), () => `${label}: history of ${id} shows version ${x.version} as ${show(x.record)}, which it never was`); return h }
    const got = h.map(x => ({ v: x.version, rec: norm(x.record) }))
    c.eq(got, want.slice(0, maxVersions).map(x => ({ v: x.v, rec: x.rec })), `${label}: history of ${id} (mode ${mode}${maxVersions ? ', at most ' + maxVersions : ''})`)
    for (let i = 1; i < h.length; i++) c.ok(h[i - 1].version > h[i].version && h[i - 1].timestamp >= h[i].timestamp, `${label}: history of ${id} is not newest first`)
    return h
  }
  mark()
  const keepDead = r.chance(0.7) // most programs never create a deleted record again
  const n = r.int(5, 22)
  for (let s = 0; s < n; s++) {
    const id = r.pick(IDS.slice(0, r.chance(0.7) ? 3 : IDS.length))
    const op = r.weighted([[10, 'put'], [3, 'del'], [2, 'many'], [2, 'tx'], [2, 'revert'], [1, 'prune'], [1, 'pruneAll'], [0.6, 'clear'], [0.3, 'clearAll'], [1, 'reopen'], [1, 'twin'], [1, 'pruneDate']])
    const dead = i => keepDead && !cur[i] && states[i] !== undefined
    if ((op === 'put' || op === 'revert') && dead(id)) continue
    if (again.has(id) && !['put', 'del', 'tx', 'many'].includes(op)) continue
    if (op === 'put') { const x = rec(r, ++u, mode); await coll.put(id, x); setM(id, x); retained(id) }
    else if (op === 'del') {
      if (!cur[id]) continue
      await coll.delete(id); delete cur[id]; retained(id)
    } else if (op === 'many') { const items = r.sample(IDS, 2).filter(i => !dead(i)).map(i => [i, rec(r, ++u, mode)]); await coll.putMany(items, r.chance(0.5) ? { atomic: true } : undefined); for (const [i, x] of items) { setM(i, x); retained(i) } }
    else if (op === 'tx') { const [a, b] = r.sample(IDS, 2); if (dead(a)) continue; const x = rec(r, ++u, mode); const del = cur[b] && r.chance(0.4); await db.transaction(async tx => { const t = tx.vault('acme').collection('docs'); t.put(a, x); if (del) t.delete(b) }); setM(a, x); retained(a); if (del) { delete cur[b]; retained(b) } }
    else if (op === 'revert') {
      const p = past(id); if (!p.length) { let threw = false; if (!cur[id] && !states[id]) { try { await coll.revert(id, 7) } catch { threw = true } c.ok(threw, 'reverting to a version that does not exist succeeded') } continue }
      const t = r.pick(p); const got = await coll.getVersion(id, t.v); c.eq(got && norm(got), t.rec, `getVersion(${id}, ${t.v})`)
      await coll.revert(id, t.v); c.count('reverts')
      c.eq(norm(await coll.get(id)), t.rec, `content after reverting ${id} to version ${t.v}`)
      setM(id, t.rec); retained(id)
    } else if (op === 'prune' || op === 'pruneAll') {
      const keep = r.int(0, 3); const ids = op === 'prune' ? [id] : Object.keys(states)
      let expect = 0; for (const i of ids) { const p = past(i); const d = p.slice(keep); expect += d.length }
      const exact = !maxVersions && !ids.some(i => again.has(i))
      const before = await Promise.all(IDS.map(i => coll.history(i)))
      const got = await coll.pruneRecordHistory(op === 'prune' ? id : undefined, { keepVersions: keep }); c.count('prunes')
      if (exact) c.eq(got, expect, `number of versions pruned (${op} ${op === 'prune' ? id : ''}, keep ${keep})`)
      for (const [k, i] of IDS.entries()) { const after = await coll.history(i); c.eq(after.map(x => x.version), before[k].map(x => x.version).slice(0, ids.includes(i) ? keep : undefined), `versions of ${i} after ${op} of ${op === 'prune' ? id : 'all'} keeping ${keep}`) }
      for (const i of ids) for (const x of past(i).slice(keep)) gone.add(x)
    } else if (op === 'pruneDate') {
      const h = await coll.history(id); if (!h.length) continue
      const d = r.pick(h).timestamp; const others = await Promise.all(IDS.filter(i => i !== id).map(i => coll.history(i)))
      const got = await coll.pruneRecordHistory(id, { beforeDate: d }); c.count('prunes')
      const left = await coll.history(id); c.eq(left.map(x => x.version), h.filter(x => x.timestamp >= d).map(x => x.version), `versions of ${id} after pruning before ${d}`); c.eq(got, h.length - left.length, 'number of versions pruned by date')
      c.eq(await Promise.all(IDS.filter(i => i !== id).map(i => coll.history(i))), others, `pruning ${id} by date changed another record's history`)
      for (const x of past(id)) if (h.some(y => y.version === x.v && y.timestamp < d)) gone.add(x)
    } else if (op === 'clear' || op === 'clearAll') {
      const others = await Promise.all(IDS.filter(i => i !== id).map(i => coll.history(i))); const tw = await twin.history('a')
      await coll.clearHistory(op === 'clear' ? id : undefined); c.count('prunes')
      for (const i of op === 'clear' ? [id] : Object.keys(states)) for (const x of past(i)) gone.add(x)
      c.eq((await coll.history(id)).length, 0, 'history after clearing')
      if (op === 'clear') c.eq(await Promise.all(IDS.filter(i => i !== id).map(i => coll.history(i))), others, `clearing ${id} changed another record's history`)
      c.eq(await twin.history('a'), tw, 'clearing changed the history of another collection')
    } else if (op === 'reopen') await reopen()
    else if (op === 'twin') await twin.put('a', { tw: ++u })
    prog.push(op + id); mark()
    if (r.chance(0.3)) await hist(r.pick(IDS), `after ${prog.slice(-3).join(' ')}`)
    if (r.chance(0.3)) await look(r.int(1, 3))
    if (r.chance(0.1)) await frame()
  }
  async function look(k) {
    const snap = JSON.stringify(ref.snapshot())
    for (let j = 0; j < k; j++) {
      const m = r.pick(marks); const ts = stamp(r, m.t); const view = v.at(ts).collection('docs')
      const label = `view at ${ts instanceof Date ? ts.toISOString() : ts} taken ${marks.length - 1 - marks.indexOf(m)} operations later (mode ${mode})`
      const ids = []
      for (const id of IDS) {
        c.count('instants_read'); const w = m.state[id] ?? null; const got = await view.get(id)
        const lost = w && w !== cur[id] && (gone.has(w) || again.has(id))
        if (lost && got === null) { c.count('instants_pruned'); continue }
        c.eq(got && norm(got), w && w.rec, `${label}: get(${id})`); if (w) ids.push(id)
      }
      const listed = await view.list()
      c.ok(new Set(listed).size === listed.length, `${label}: list() has duplicates`)
      for (const id of listed) c.ok(m.state[id], () => `${label}: list() shows ${id} which did not exist then`)
      for (const id of ids) c.ok(listed.includes(id), () => `${label}: list() misses ${id}`)
      for (const [name, f] of [['put', () => view.put('a', { u: 1 })], ['delete', () => view.delete('a')]]) { let threw = false; try { await f() } catch { threw = true } c.ok(threw, `${name} on a point-in-time view succeeded`) }
    }
    c.ok(JSON.stringify(ref.snapshot()) === snap, 'a point-in-time view changed storage')
  }
  async function frame() {
    const snap = JSON.stringify(ref.snapshot()); const f = v.frame().collection('docs'); c.count('frames')
    for (const id of IDS) c.eq(await f.get(id), await coll.get(id), 'frame get()')
    if (!mode.startsWith('lazy')) { c.eq(await f.list(), await coll.list(), 'frame list()') }
    c.eq(await f.history('a'), await coll.history('a'), 'frame history()')
    for (const id of IDS) { const n = r.int(1, 4); c.eq(await f.getVersion(id, n), await coll.getVersion(id, n), 'frame getVersion()') }
    c.eq(await v.frame().collections(), await v.collections(), 'frame collections()')
    if (!mode.startsWith('lazy')) c.eq(f.query().toArray(), coll.query().toArray(), 'frame query()')
    for (const [name, g] of [['put', () => f.put('a', { u: -1 })], ['delete', () => f.delete('a')], ['update', () => f.update('a', { u: -1 })], ['revert', () => f.revert('a', 1)], ['putMany', () => f.putMany([['a', { u: -1 }]])], ['deleteMany', () => f.deleteMany(['a'])]]) { let threw = false; try { await g() } catch { threw = true } c.ok(threw, `${name} through a frame succeeded`) }
    c.ok(JSON.stringify(ref.snapshot()) === snap, 'a frame changed storage')
  }
  if (r.chance(0.5)) await reopen()
  await look(6); await frame()
  for (const id of IDS) {
    const h = await hist(id, 'at the end')
    if (!h.length || again.has(id)) continue
    const a = r.pick(h).timestamp; const b = r.pick(h).timestamp; const lim = r.int(1, 3)
    c.eq(await coll.history(id, { from: a }), h.filter(x => x.timestamp >= a), 'history from'); c.eq(await coll.history(id, { to: b }), h.filter(x => x.timestamp <= b), 'history to'); c.eq(await coll.history(id, { limit: lim }), h.slice(0, lim), 'history limit'); c.eq(await coll.history(id, { from: a, to: b, limit: lim }), h.filter(x => x.timestamp >= a && x.timestamp <= b).slice(0, lim), 'history range')
    for (const x of h) { c.count('versions_read'); c.eq(await coll.getVersion(id, x.version), x.record, 'getVersion against history') }
    if (!mode.startsWith('lazy')) {
      const l = v => states[id].find(x => x.v === v).rec; const avail = [...h.map(x => x.version), ...(cur[id] ? [cur[id].v] : [])]
      for (let k = 0; k < 3; k++) {
        const p = r.pick([0, ...avail]); const q = r.pick([0, undefined, ...avail]); if (q === undefined && !cur[id]) continue
        const A = p === 0 ? null : l(p); const B = q === 0 ? null : q === undefined ? cur[id].rec : l(q)
        const d = await coll.diff(id, p, q); c.count('diffs')
        c.ok((d.length === 0) === deepEq(A, B), () => `diff(${id}, ${p}, ${q}) reports ${show(d)} between ${show(A)} and ${show(B)}`)
        c.eq(strip(applyDiff(A, norm(d))), strip(B), `applying diff(${id}, ${p}, ${q}) = ${show(d)} to ${show(A)}`)
      }
    }
  }
  if (marks.length > 2) { c.sig([mode, encrypt, maxVersions ?? 0, prog]); c.sample({ mode, maxVersions, program: prog, states: marks.length }) }
}

export const scenarios = [{ name: 'programs', quick: 3000, thorough: 25000, run: programs }]
