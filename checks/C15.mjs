// Audit ledger: every acknowledged mutation has exactly one chained entry, tampering is
// detected, and recorded changes rebuild past versions. The entries the ledger reports
// are compared with an event log kept by the workload.
import { open, newRef, instrument } from '../lib/world.mjs'
import { Sched } from '../lib/sched.mjs'
import { json, str } from '../lib/gen.mjs'
import { show, deepEq } from '../lib/child.mjs'
import { ref as fkRef } from '@noy-db/hub'

export const meta = {
  property: 'C15', level: 'exploration',
  rule: 'distinct by (mode, operation list) for programs, by released interleaving for overlapping cases, by (mode, chain length, tampering kind, position) for tampering',
  assumptions: ['deleting a record that does not exist may or may not leave an entry', 'records are compared as JSON (what storage keeps)', 'an attacker does not know any key; removal of the newest entries is judged against a remembered head'],
  minimums: { mutations: 4000, entries_compared: 20000, reconstructions: 4000, overlapping_mutations: 3000, tamperings: 1000, store_failures: 2000, failed_mutations: 2000 },
}
const norm = x => x === undefined ? x : JSON.parse(JSON.stringify(x))
const KEYS = ['a', 'b', 'constructor', 'toString', '__proto__', 'a/b', '~', '~1', '', '0', 'hasOwnProperty', 'nested', 'list']
function rec(r, u) {
  const o = { u }
  const n = r.int(0, 5)
  for (let i = 0; i < n; i++) {
    const k = r.chance(0.7) ? r.pick(KEYS) : 'k' + str(r)
    const v = r.chance(0.1) ? undefined : r.chance(0.1) ? new Date(Date.UTC(2020, 0, r.int(1, 3))) : r.chance(0.3) ? { [r.pick(KEYS)]: json(r, 2), [r.pick(KEYS)]: r.int(0, 2) } : r.chance(0.1) ? r.pick([[], {}, [[]], [{}], [1, { a: 1 }]]) : json(r, 3)
    Object.defineProperty(o, k, { value: v, enumerable: true, writable: true, configurable: true })
  }
  return o
}
const COLLS = { eager: {}, lazy: { prefetch: false, cache: { maxRecords: 2 } }, idx: { indexes: ['u'] }, 'lazy-idx': { prefetch: false, cache: { maxRecords: 2 }, indexes: ['u'] }, kids: { refs: { to: fkRef('eager', 'cascade') } } }
const IDS = ['a', 'b', 'a:b', '__proto__', 'd']
const FEAT = ['history', 'index', 'tx', 'crdt', 'periods']
const pick = e => ({ op: e.op, collection: e.collection, id: e.id, version: e.version, actor: e.actor })

function model() {
  const log = []; const recs = new Map() // `${coll}\u0000${id}` -> versions [{v, rec}] of the current life
  const key = (cn, id) => cn + '\u0000' + id
  return {
    log, recs,
    put(cn, id, x, actor) { const k = key(cn, id); const l = recs.get(k) ?? []; const v = (l.at(-1)?.v ?? 0) + 1; l.push({ v, rec: norm(x) }); recs.set(k, l); log.push({ op: 'put', collection: cn, id, version: v, actor }) },
    del(cn, id, actor) { const k = key(cn, id); const l = recs.get(k); log.push({ op: 'delete', collection: cn, id, version: l?.at(-1).v ?? 0, actor, optional: !l }); recs.delete(k) },
    has(cn, id) { return recs.has(key(cn, id)) }, cur(cn, id) { return recs.get(key(cn, id))?.at(-1) },
  }
}
// the ledger must be the log, where optional events may be missing
function compare(c, entries, log, label) {
  let i = 0
  for (const e of entries) {
    c.count('entries_compared')
    while (i < log.length && log[i].optional && !deepEq(pick(e), pick(log[i]))) i++
    c.ok(i < log.length, () => `${label}: unexpected ledger entry ${show(pick(e))}`)
    c.eq(pick(e), pick(log[i]), `${label}: ledger entry ${e.index} does not match acknowledged operation ${i}`)
    i++
  }
  while (i < log.length && log[i].optional) i++
  c.ok(i === log.length, () => `${label}: acknowledged operation without ledger entry: ${show(pick(log[i]))}`)
  entries.forEach((e, k) => c.eq(e.index, k, `${label}: index of entry ${k}`))
}
async function okChain(c, v, label) {
  const L = v.ledger(); const es = await L.entries(); const r = await L.verify()
  c.ok(r.ok === true, () => `${label}: verification fails on an untouched ledger: ${show(r)}`)
  c.eq(r.length, es.length, `${label}: verified length`)
  const h = await L.head()
  if (es.length) { c.eq(h.length, es.length, `${label}: head length`); c.eq(h.entry, es.at(-1), `${label}: head entry`); c.eq(h.hash, r.head, `${label}: head hash`) } else c.eq(h, null, `${label}: head of an empty ledger`)
  const b = await v.verifyBackupIntegrity()
  c.ok(b.ok === true, () => `${label}: integrity check fails on untouched data: ${show(b)}`)
  return { es, head: r.head, length: r.length }
}

async function programs(c) {
  const r = c.rng
  const encrypt = !r.chance(0.15)
  const ref = newRef(); const store = instrument(ref, { keepLog: false })
  const two = encrypt && r.chance(0.4)
  const o = { features: FEAT, ...(encrypt ? {} : { encrypt: false }) }
  let dbs = {}
  const openAs = async user => { const { db, v } = await open(store, { ...o, user, secret: 'pw-of-' + user + '-long-enough' }); dbs[user] = { db, v, colls: Object.fromEntries(Object.keys(COLLS).map(k => [k, v.collection(k, COLLS[k])])) }; return dbs[user] }
  const alice = await openAs('alice'); let cur = alice; let me = 'alice'
  if (two) {
    // every collection key must exist before it can be shared
    for (const k in COLLS) await alice.colls[k].put('seed', { u: 0 })
    await alice.db.grant('acme', { userId: 'bob', displayName: 'Bob', role: 'admin', passphrase: 'pw-of-bob-long-enough' })
  }
  const m = model()
  if (two) for (const k in COLLS) m.put(k, 'seed', { u: 0 }, 'alice')
  let u = 0; const prog = []
  const n = r.int(4, 18)
  for (let s = 0; s < n; s++) {
    const cn = r.pick(Object.keys(COLLS)); const id = r.pick(IDS.slice(0, r.chance(0.7) ? 2 : IDS.length)); const coll = cur.colls[cn]
    const mk = k => { const x = rec(r, ++u); if (k === 'kids' && r.chance(0.7)) { const t = r.pick(IDS); if (m.has('eager', t)) x.to = t; else delete x.to } else delete x.to; return x }
    const op = r.weighted([[9, 'put'], [3, 'del'], [2, 'many'], [1, 'atomic'], [2, 'tx'], [1, 'revert'], [2, 'reopen'], [1, 'switch'], [1, 'delMany'], [1, 'refused']])
    const cascade = (k, i) => { if (k !== 'eager') return []; return [...m.recs].filter(([kk, l]) => kk.startsWith('kids\u0000') && l.at(-1).rec.to === i).map(([kk]) => kk.split('\u0000')[1]) }
    if (op === 'put') { const x = mk(cn); await coll.put(id, x); m.put(cn, id, x, me) }
    else if (op === 'del') {
      const kids = cascade(cn, id); await coll.delete(id)
      if (kids.length === 0) m.del(cn, id, me)
      else { // the cascade may log children in any order, before or after the parent
        const es = await cur.v.ledger().entries(); const got = es.slice(-kids.length - 1).map(e => e.collection + '\u0000' + e.id)
        c.eq(got.slice().sort(), [...kids.map(k => 'kids\u0000' + k), 'eager\u0000' + id].sort(), 'entries written by a cascading delete')
        for (const g of got) { const [k, i] = g.split('\u0000'); m.del(k, i, me) }
        c.count('cascades')
      }
    } else if (op === 'many' || op === 'atomic') {
      const items = r.sample(IDS, r.int(1, 3)).map(i => [i, mk(cn)]); const res = await coll.putMany(items, op === 'atomic' ? { atomic: true } : undefined)
      c.ok(res.ok === true, () => `bulk put failed: ${show(res)}`); for (const [i, x] of items) m.put(cn, i, x, me)
    } else if (op === 'delMany') { if (cn === 'eager') continue; const ids = r.sample(IDS, 2); const res = await coll.deleteMany(ids); c.ok(res.ok === true, () => `bulk delete failed: ${show(res)}`); for (const i of ids) m.del(cn, i, me) }
    else if (op === 'tx') {
      const cn2 = r.pick(['lazy', 'idx', 'lazy-idx']); const cn1 = r.pick(['idx', 'lazy']); const ids = r.sample(IDS, 3); const x = mk(cn1); const y = mk(cn2); const del = r.chance(0.5)
      await cur.db.transaction(async tx => { const t = tx.vault('acme'); t.collection(cn1).put(ids[0], x); if (del) t.collection(cn1).delete(ids[1]); t.collection(cn2).put(ids[2], y) })
      m.put(cn1, ids[0], x, me); if (del) m.del(cn1, ids[1], me); m.put(cn2, ids[2], y, me)
    } else if (op === 'revert') { const l = m.recs.get(cn + '\u0000' + id); if (!l || l.length < 2 || cn === 'kids') continue; const t = r.pick(l.slice(0, -1)); const h = await coll.getVersion(id, t.v); if (!h) continue; await coll.revert(id, t.v); m.put(cn, id, h, me) }
    else if (op === 'refused') { let threw = false; try { await cur.colls.kids.put('zz', { to: 'no-such-' + u, u }) } catch { threw = true } if (!threw) m.put('kids', 'zz', { to: 'no-such-' + u, u }, me) }
    else if (op === 'reopen') { if (r.chance(0.5)) cur.db.close(); cur = await openAs(me) }
    else if (op === 'switch') { if (!two) continue; me = me === 'alice' ? 'bob' : 'alice'; cur = await openAs(me) }
    prog.push(op + cn + id); c.count('mutations')
    if (r.chance(0.3)) compare(c, await cur.v.ledger().entries(), m.log, `after ${prog.slice(-3).join(' ')}`)
  }
  const { es } = await okChain(c, cur.v, `mode ${encrypt ? 'encrypted' : 'plain'} after ${prog.slice(-4).join(' ')}`)
  compare(c, es, m.log, 'at the end')
  // ranges
  if (es.length) { const a = r.int(0, es.length); const b = r.int(a, es.length); c.eq(await cur.v.ledger().entries({ from: a, to: b }), es.slice(a, b), 'entries({from,to})') }
  // another instance agrees
  const f = await openAs(r.chance(0.5) || !two ? 'alice' : 'bob')
  c.eq((await okChain(c, f.v, 'second instance')).es, es, 'a second instance sees a different ledger')
  // every version of every live record can be rebuilt from the recorded changes
  for (const [k, l] of m.recs) {
    const [cn, id] = k.split('\u0000'); const src = r.chance(0.5) ? f : cur
    const now = await src.colls[cn].get(id)
    for (const { v, rec: want } of l) { c.count('reconstructions'); const got = await src.v.ledger().reconstruct(cn, id, now, v); c.eq(norm(got), want, `rebuilding version ${v} of ${cn}/${id} (of ${l.length})`) }
    c.eq(await src.v.ledger().reconstruct(cn, id, now, l.at(-1).v + 1), null, 'rebuilding a version that never existed')
  }
  c.sig([encrypt, two, prog]); c.sample({ program: prog, entries: es.length })
}

// Overlapping mutations in one process, over a store with or without version checks, and
// over two processes on a store with version checks.
async function overlap(c) {
  const r = c.rng
  const ref = newRef(); const sched = new Sched(r.fork('s')); sched.enabled = false
  const instances = r.chance(0.3) ? 2 : 1
  const cas = instances === 2 || r.chance(0.5)
  if (!cas) { const put = ref.put.bind(ref); ref.put = (v, cn, id, env) => put(v, cn, id, env) }
  const store = instrument(ref, { sched, keepLog: false, capabilities: { casAtomic: cas, auth: { kind: 'none' } } })
  const inst = []
  for (let k = 0; k < instances; k++) { const { db, v } = await open(store, { features: FEAT }); inst.push({ db, v }); if (k === 0) for (const cn of ['eager', 'lazy', 'idx']) await v.collection(cn, COLLS[cn]).put('seed', { u: 0 }) }
  // with two instances each works on its own collections
  const mine = k => instances === 2 ? (k % 2 ? ['lazy'] : ['eager', 'idx']) : ['eager', 'lazy', 'idx']
  const base = (await inst[0].v.ledger().entries()).length
  if (r.chance(0.5)) for (const x of inst) await x.v.ledger().head()
  const acked = []; let t = 0; let u = 0
  sched.enabled = true
  const client = async (r2, k) => {
    const w = inst[k % instances]; const n = r2.int(1, 3)
    for (let j = 0; j < n; j++) {
      const cn = r2.pick(mine(k)); const coll = w.v.collection(cn, COLLS[cn]); const id = r2.pick(['a', 'b', 'c']); const op = r2.weighted([[6, 'put'], [2, 'del'], [1, 'many'], [1, 'tx']])
      const inv = ++t
      if (op === 'put') { const e = { cn, id, op: 'put', u: ++u, inv }; await coll.put(id, rec(r2, e.u)); e.res = ++t; acked.push(e) }
      else if (op === 'del') { const e = { cn, id, op: 'delete', inv }; await coll.delete(id); e.res = ++t; acked.push(e) }
      else if (op === 'many') { const ids = ['a', 'b']; const a = ++u; await coll.putMany(ids.map(i => [i, rec(r2, a)])); const res = ++t; for (const i of ids) acked.push({ cn, id: i, op: 'put', u: a, inv, res }) }
      else { const a = ++u; await w.db.transaction(async tx => { tx.vault('acme').collection(cn).put(id, rec(r2, a)) }); acked.push({ cn, id, op: 'put', u: a, inv, res: ++t }) }
    }
  }
  const rs = await sched.run(Array.from({ length: r.int(2, 4) }, (_, k) => client(r.fork('c' + k), k)), { clock: c.clock })
  for (const x of rs) if (x.status === 'rejected') c.fail(`an operation failed only because others overlapped it (${instances} instance(s), ${cas ? 'version-checking' : 'plain'} store): ${x.reason?.name}: ${x.reason?.message}`, { detail: x.reason?.stack })
  sched.drainOff(); sched.enabled = false
  c.count('overlapping_mutations', acked.length)
  const f = await open(store, { features: FEAT })
  const { es } = await okChain(c, f.v, `after ${acked.length} overlapping mutations (${instances} instance(s), ${cas ? 'version-checking' : 'plain'} store)`)
  const got = es.slice(base)
  // exactly one entry per acknowledged mutation; deletes of absent records are optional
  for (const cn of ['eager', 'lazy', 'idx']) for (const id of ['a', 'b', 'c']) {
    const mineE = got.filter(e => e.collection === cn && e.id === id); const ops = acked.filter(e => e.cn === cn && e.id === id)
    const puts = mineE.filter(e => e.op === 'put').length
    c.eq(puts, ops.filter(e => e.op === 'put').length, `put entries of ${cn}/${id}`)
    const dels = mineE.filter(e => e.op === 'delete' && e.version > 0).length; const asked = ops.filter(e => e.op === 'delete').length
    c.ok(mineE.filter(e => e.op === 'delete').length <= asked && dels <= asked, `${cn}/${id} has more delete entries than deletes`)
    // versions follow the order of the entries
    let ver = 0
    for (const e of mineE) { if (e.op === 'put') { ver++; c.eq(e.version, ver, `version of entry ${e.index} (${cn}/${id}) does not follow its predecessor`) } else { c.eq(e.version, ver, `deleted version in entry ${e.index} (${cn}/${id})`); ver = 0 } }
    c.eq(ref.get('acme', cn, id)?._v ?? 0, ver, `stored version of ${cn}/${id} against the ledger`)
    // real-time order between puts of one record: rebuild values and check
    const now = await f.v.collection(cn, COLLS[cn]).get(id)
    if (now) { const life = []; for (let k = ver; k >= 1; k--) { const x = await f.v.ledger().reconstruct(cn, id, now, k); c.ok(x, `version ${k} of ${cn}/${id} cannot be rebuilt`); life.unshift(x.u); c.count('reconstructions') }
      const at = life.map(x => ops.find(o => o.u === x)); c.ok(at.every(Boolean), () => `rebuilt values ${show(life)} of ${cn}/${id} were never written`)
      for (let a = 0; a < at.length; a++) for (let b = a + 1; b < at.length; b++) c.ok(!(at[b].res < at[a].inv), () => `entries of ${cn}/${id} contradict acknowledgement order: ${show(life)}`) }
  }
  // and across records
  const firstOf = {}
  for (const e of got) (firstOf[e.collection + '/' + e.id] ??= []).push(e.index)
  for (const a of acked) for (const b of acked) if (a.res < b.inv && a.op === 'put' && b.op === 'put') { const A = firstOf[a.cn + '/' + a.id]; const B = firstOf[b.cn + '/' + b.id]; c.ok(Math.min(...A) < Math.max(...B), 'entries contradict acknowledgement order across records') }
  c.sig(sched.trace.join())
}

async function tamper(c) {
  const r = c.rng
  const encrypt = !r.chance(0.2)
  const ref = newRef(); const store = instrument(ref, { keepLog: false })
  const o = { features: FEAT, ...(encrypt ? {} : { encrypt: false }) }
  const { v } = await open(store, o); const coll = v.collection('docs'); const other = v.collection('other')
  const n = r.int(3, 9); const versions = {}
  for (let k = 0; k < n; k++) { const id = r.pick(['a', 'b']); const x = { u: k, s: 'v' + k }; await coll.put(id, x); (versions[id] ??= []).push(x); if (r.chance(0.2)) await other.put('o', { u: k }) }
  const before = await okChain(c, v, 'before tampering')
  const snap = ref.snapshot(); const keys = Object.keys(snap.acme._ledger).sort(); const N = keys.length
  const env = k => structuredClone(snap.acme._ledger[k])
  const put = (cn, id, e) => ref.put('acme', cn, id, e)
  const kinds = ['flip', 'iv', 'remove', 'truncate', 'swap', 'copy', 'insert', 'dup-end', 'record', 'record-old', 'record-gone', 'record-other', 'delta', 'delta-swap', 'delta-gone']
  const kind = kinds[c.i % kinds.length]; const i = r.int(0, N - 1); let affected = i; let which = 'chain'
  const flip = e => { if (encrypt) { const d = e._data; const p = r.int(0, d.length - 3); e._data = d.slice(0, p) + (d[p] === 'A' ? 'B' : 'A') + d.slice(p + 1); return e._data !== d } const j = JSON.parse(e._data); const f = r.pick(['version', 'actor', 'op', 'collection', 'id', 'payloadHash', 'ts', 'index', 'prevHash']); j[f] = f === 'version' || f === 'index' ? j[f] + 1 : f === 'op' ? (j.op === 'put' ? 'delete' : 'put') : j[f] + 'x'; e._data = JSON.stringify(j); return true }
  const deltas = Object.keys(snap.acme._ledger_deltas ?? {}).sort()
  if (kind === 'flip') { const e = env(keys[i]); if (!flip(e)) return; put('_ledger', keys[i], e) }
  else if (kind === 'iv') { if (!encrypt) return; const e = env(keys[i]); e._iv = (e._iv[0] === 'A' ? 'B' : 'A') + e._iv.slice(1); put('_ledger', keys[i], e) }
  else if (kind === 'remove') { if (i === N - 1) return; ref.delete('acme', '_ledger', keys[i]) }
  else if (kind === 'truncate') { which = 'tail'; for (let k = i; k < N; k++) ref.delete('acme', '_ledger', keys[k]) }
  else if (kind === 'swap') { const j = r.int(0, N - 1); if (i === j) return; affected = Math.min(i, j); put('_ledger', keys[i], env(keys[j])); put('_ledger', keys[j], env(keys[i])) }
  else if (kind === 'copy') { const j = r.int(0, N - 1); if (i === j) return; put('_ledger', keys[i], env(keys[j])) }
  else if (kind === 'insert') { put('_ledger', keys[i] + '5', env(keys[r.int(0, N - 1)])); affected = i + 1 }
  else if (kind === 'dup-end') { affected = N; put('_ledger', String(N).padStart(10, '0'), env(keys[i])) }
  else if (kind.startsWith('record')) {
    which = 'data'; const id = r.pick(Object.keys(versions)); const e = ref.get('acme', 'docs', id)
    if (kind === 'record') { if (encrypt) { if (!flip(e)) return } else { const j = JSON.parse(e._data); j.s += 'x'; e._data = JSON.stringify(j) } put('docs', id, e) }
    else if (kind === 'record-gone') ref.delete('acme', 'docs', id)
    else if (kind === 'record-old') { const h = Object.keys(snap.acme._history ?? {}).find(k => k.startsWith(`docs:${id}:`)); if (!h) return; put('docs', id, { ...snap.acme._history[h], _v: e._v }) }
    else { const o2 = Object.keys(versions).find(x => x !== id); if (!o2) return; put('docs', id, { ...ref.get('acme', 'docs', o2), _v: e._v }) }
  } else {
    which = 'delta'; if (!deltas.length) return; const d = r.pick(deltas)
    const e = structuredClone(snap.acme._ledger_deltas[d])
    if (kind === 'delta') { if (encrypt) { if (!flip(e)) return } else { const j = JSON.parse(e._data); for (const x of j) if ('value' in x) x.value = 'forged'; e._data = JSON.stringify(j) } put('_ledger_deltas', d, e) }
    else if (kind === 'delta-swap') { const d2 = r.pick(deltas.filter(x => x !== d).concat(d)); if (d2 === d) return; put('_ledger_deltas', d, structuredClone(snap.acme._ledger_deltas[d2])) }
    else ref.delete('acme', '_ledger_deltas', d)
  }
  c.count('tamperings'); c.sig([encrypt, kind, N, i])
  const fresh = await open(store, o); const v2 = r.chance(0.5) ? fresh.v : v
  const run = async f => { try { return { res: await f() } } catch (e) { return { err: e } } }
  if (which === 'chain' || which === 'tail') {
    for (const [label, q] of [['verify', await run(() => v2.ledger().verify())], ['integrity check', await run(() => v2.verifyBackupIntegrity())]]) {
      if (q.err) { c.count('detected_by_error'); continue }
      if (which === 'tail' || (!encrypt && i === N - 1 && kind === 'flip')) { c.ok(q.res.ok === false || q.res.head !== before.head, () => `${label}: ${kind} at ${i} of ${N} leaves the reported head unchanged`); if (which === 'tail' && q.res.ok) c.eq(q.res.length, i, `${label}: length after truncation`); c.count('detected_by_head'); continue }
      c.ok(q.res.ok === false, () => `${label} reports success after ${kind} at entry ${i} of ${N} (${encrypt ? 'encrypted' : 'plain'})`)
      if (q.res.divergedAt !== undefined) c.ok(q.res.divergedAt <= affected + 1, () => `${label}: ${kind} at entry ${affected} reported only at ${q.res.divergedAt}`)
      c.count('detected_by_report')
    }
  } else if (which === 'data') { const q = await run(() => v2.verifyBackupIntegrity()); c.ok(q.err || q.res.ok === false, () => `integrity check reports success after ${kind}`); c.count('detected_by_report') }
  else {
    // altered change records must never rebuild a value that was not written at that version
    for (const id in versions) { const cur = versions[id].at(-1); for (let k = 1; k <= versions[id].length; k++) { const q = await run(() => fresh.v.ledger().reconstruct('docs', id, cur, k)); if (q.err || q.res === null) { c.count('rebuild_refused'); continue } c.eq(q.res, versions[id][k - 1], `rebuilding version ${k} of ${id} after ${kind} returned a value never written at that version`); c.count('reconstructions') } }
  }
  // restoring the original bytes restores verification
  ref.restore(snap); const z = await open(store, o); c.eq((await okChain(c, z.v, 'after restoring the original bytes')).head, before.head, 'head after restoring')
}

// Single store failures anywhere in a mutation: the failed call may or may not leave its entry, but
// the chain stays intact and every acknowledged mutation, before and after, keeps exactly one.
async function faults(c) {
  const r = c.rng
  const encrypt = !r.chance(0.2); const cas = r.chance(0.7)
  const ref = newRef()
  if (!cas) { const put = ref.put.bind(ref); ref.put = (v, cn, id, env) => put(v, cn, id, env) }
  const store = instrument(ref, { keepLog: false, capabilities: { casAtomic: cas, auth: { kind: 'none' } } })
  const o = { features: FEAT, ...(encrypt ? {} : { encrypt: false }) }
  let { db, v } = await open(store, o)
  const names = ['eager', 'lazy', 'idx']
  for (const cn of names) await v.collection(cn, COLLS[cn]).put('seed', { u: 0 })
  const log = names.map(cn => ({ op: 'put', collection: cn, id: 'seed' })); const prog = []; let u = 0
  const n = r.int(4, 14)
  for (let s = 0; s < n; s++) {
    const cn = r.pick(names); const id = r.pick(['a', 'b', 'seed']); const coll = v.collection(cn, COLLS[cn])
    const op = r.weighted([[7, 'put'], [2, 'del'], [1, 'many'], [1, 'tx'], [1, 'reopen']])
    if (op === 'reopen') { ({ db, v } = await open(store, o)); continue }
    const where = r.weighted([[5, ''], [3, '_ledger'], [2, '_ledger_deltas'], [1, '_history'], [1, cn]]); const when = r.pick(['before', 'after']); const what = r.weighted([[5, 'put'], [1, 'get'], [1, 'list']]); let left = where ? 1 : 0; let hit = null
    store._st.fault = ev => { if (left && ev.coll === where && ev.op === what) { left--; hit = `${what} ${where} ${when}`; c.count('store_failures'); c.seen('failed_calls', hit); return when } }
    const evs = op === 'del' ? [{ op: 'delete', collection: cn, id, optional: true }] : op === 'many' ? ['a', 'b'].map(i => ({ op: 'put', collection: cn, id: i })) : [{ op: 'put', collection: cn, id }]
    const there = !!ref.get('acme', cn, id); if (op === 'del' && there) delete evs[0].optional
    let failed = null
    try {
      if (op === 'put') await coll.put(id, rec(r, ++u))
      else if (op === 'del') await coll.delete(id)
      else if (op === 'many') { const res = await coll.putMany(['a', 'b'].map(i => [i, rec(r, ++u)])); if (res.ok !== true) failed = res }
      else await db.transaction(async tx => { tx.vault('acme').collection(cn).put(id, rec(r, ++u)) })
    } catch (e) { failed = e }
    store._st.fault = null
    if (failed && !hit) c.fail(`${op} failed although no store call failed: ${failed.message ?? show(failed)}`, { detail: failed.stack })
    if (failed) { c.count('failed_mutations'); for (const e of evs) e.optional = true; if (op === 'tx') evs.push({ op: 'put', collection: cn, id, optional: true }, { op: 'delete', collection: cn, id, optional: true }) } else c.count('mutations')
    log.push(...evs); prog.push(`${op}:${failed ? hit : 'ok'}`)
    if (failed && r.chance(0.3)) ({ db, v } = await open(store, o))
    if (r.chance(0.4)) { const q = await v.ledger().verify(); c.ok(q.ok === true, () => `the chain no longer verifies after ${prog.slice(-3).join(', ')}: ${show(q)}`) }
  }
  for (const w of [v, (await open(store, o)).v]) {
    const es = await w.ledger().entries(); const q = await w.ledger().verify()
    c.ok(q.ok === true, () => `the chain no longer verifies after ${prog.join(', ')}: ${show(q)}`)
    c.eq(q.length, es.length, 'verified length'); es.forEach((e, k) => c.eq(e.index, k, `index of entry ${k}`))
    // match entries to the log: optional events may be missing
    const small = e => `${e.op} ${e.collection}/${e.id}`
    let at = new Set([0])
    const skip = set => { const out = new Set(set); for (const i of out) if (i < log.length && log[i].optional) out.add(i + 1); return out }
    at = skip(at)
    es.forEach((e, k) => {
      c.count('entries_compared')
      const next = new Set(); for (const i of at) if (i < log.length && small(log[i]) === small(e)) next.add(i + 1)
      c.ok(next.size > 0, () => `entry ${k} (${small(e)}) does not follow from the acknowledged operations ${prog.join(', ')}`)
      at = skip(next)
    })
    c.ok(at.has(log.length), () => `an acknowledged mutation has no ledger entry after ${prog.join(', ')} (matched up to ${[...at].join()} of ${log.length})`)
  }
  c.sig([encrypt, cas, prog])
}

export const scenarios = [
  { name: 'programs', quick: 4000, thorough: 30000, run: programs },
  { name: 'overlap', quick: 2500, thorough: 20000, run: overlap, clock: { auto: 1, timers: true } },
  { name: 'tamper', quick: 3000, thorough: 15000, run: tamper },
  { name: 'faults', quick: 2500, thorough: 15000, run: faults },
]
