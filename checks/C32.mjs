// C32: bounded caches, sortable ids, and state released by close / unsubscribe.
import { Lru, parseBytes, estimateRecordBytes, generateULID, isULID, createNoydb, activeSessionCount, createSession } from '@noy-db/hub'
import { SyncScheduler } from '@noy-db/hub/store'
import { createEnforcer } from '@noy-db/hub/session'
import { PASS, newRef, open, strategies, instrument } from '../lib/world.mjs'
import { Sched } from '../lib/sched.mjs'
import { clock } from '../lib/clock.mjs'

export const meta = {
  property: 'C32', level: 'exploration',
  rule: 'One evaluation is one cache operation, one generated id or one release step judged against an independent model; distinct_nontrivial counts distinct signatures (kind of operation, hit/miss, number evicted, which budget was binding, burst shape, kind of handle released).',
  assumptions: [
    'A record larger than the whole byte budget is never kept; storing it may empty the cache (documented: the budget is hard).',
    'Ids are ordered across milliseconds; within one millisecond their order is random by design.',
    'Release is observed by weak references after forced collections, by the timer table of the virtual clock and by listeners registered on the global event targets.',
  ],
  minimums: { lruOps: 200000, evictions: 20000, lazyOps: 15000, lazyEvictions: 3000, ids: 100000, sizes: 2000, cycles: 400, overlapped: 300 },
}

// ---- model: an ordered list, least recently used first --------------------------------------
class Model {
  constructor(maxRecords, maxBytes) { this.r = maxRecords; this.b = maxBytes; this.l = []; this.hits = this.misses = this.ev = 0 }
  bytes() { return this.l.reduce((s, e) => s + e.size, 0) }
  find(k) { return this.l.findIndex(e => e.k === k) }
  get(k) { const i = this.find(k); if (i < 0) { this.misses++; return undefined } const [e] = this.l.splice(i, 1); this.l.push(e); this.hits++; return e.v }
  set(k, v, size) {
    const i = this.find(k); if (i >= 0) this.l.splice(i, 1)
    this.l.push({ k, v, size })
    let n = 0
    while (this.l.length > 0 && ((this.r !== undefined && this.l.length > this.r) || (this.b !== undefined && this.bytes() > this.b))) { this.l.shift(); this.ev++; n++ }
    return n
  }
  remove(k) { const i = this.find(k); if (i < 0) return false; this.l.splice(i, 1); return true }
}

async function lru(c) {
  const { rng } = c
  const maxRecords = rng.chance(0.7) ? rng.pick([1, 2, 3, 5, 8, 40]) : undefined
  const maxBytes = maxRecords === undefined || rng.chance(0.5) ? rng.pick([1, 10, 50, 100, 1000]) : undefined
  const sut = new Lru({ ...(maxRecords !== undefined ? { maxRecords } : {}), ...(maxBytes !== undefined ? { maxBytes } : {}) })
  const m = new Model(maxRecords, maxBytes)
  const keys = Array.from({ length: rng.int(2, maxRecords ? Math.min(60, maxRecords * 3 + 2) : 20) }, (_, i) => rng.chance(0.05) ? rng.pick(['__proto__', 'constructor', '', 'toString']) + i : 'k' + i)
  const n = rng.int(30, 150)
  let tag = 0
  for (let i = 0; i < n; i++) {
    const k = rng.pick(keys), act = rng.weighted([[5, 'set'], [5, 'get'], [1, 'remove'], [1, 'has'], [0.1, 'clear'], [0.1, 'resetStats'], [0.6, 'values']])
    let out = 0
    if (act === 'set') {
      const size = rng.chance(0.08) ? 0 : maxBytes !== undefined ? rng.pick([1, 2, rng.int(1, maxBytes), rng.int(1, Math.ceil(maxBytes / 3)), rng.chance(0.1) ? maxBytes + rng.int(1, 5) : 3]) : rng.int(1, 100)
      const v = { tag: ++tag }
      sut.set(k, v, size); out = m.set(k, v, size)
      c.count('evictions', out)
    } else if (act === 'get') {
      const a = sut.get(k), b = m.get(k)
      c.ok(a === b, `reading "${k}" from a cache that ${b ? 'holds' : 'does not hold'} it gave ${a ? 'entry ' + a.tag : 'nothing'}; expected ${b ? 'entry ' + b.tag : 'nothing'}`, { key: 'lru-get' })
      out = b ? 1 : 0
    } else if (act === 'remove') c.eq(sut.remove(k), m.remove(k), 'result of remove')
    else if (act === 'has') c.eq(sut.has(k), m.find(k) >= 0, 'result of has')
    else if (act === 'clear') { sut.clear(); m.l = [] }
    else if (act === 'resetStats') { sut.resetStats(); m.hits = m.misses = m.ev = 0 }
    else c.eq([...sut.values()].map(v => v.tag), m.l.map(e => e.v.tag), 'cached values, least recently used first')
    const s = sut.stats()
    c.eq(s.size, m.l.length, `size after ${act}`); c.eq(s.bytes, m.bytes(), `bytes after ${act}`)
    c.eq(s.hits, m.hits, `hits after ${act}`); c.eq(s.misses, m.misses, `misses after ${act}`); c.eq(s.evictions, m.ev, `evictions after ${act}`)
    if (maxRecords !== undefined) c.ok(s.size <= maxRecords, `the cache holds ${s.size} records with a budget of ${maxRecords}`, { key: 'budget' })
    if (maxBytes !== undefined) c.ok(s.bytes <= maxBytes, `the cache holds ${s.bytes} bytes with a budget of ${maxBytes}`, { key: 'budget' })
    for (const q of rng.sample(keys, Math.min(4, keys.length))) c.eq(sut.has(q), m.find(q) >= 0, `presence of "${q}" after ${act}`)
    c.count('lruOps'); c.sig(['lru', act, Math.min(out, 4), maxRecords ?? '-', maxBytes ?? '-'].join('|'))
  }
  c.seen(n)
}

async function lazy(c) {
  const { rng } = c
  const ref = newRef(), store = instrument(ref, { keepLog: true })
  const maxRecords = rng.chance(0.6) ? rng.pick([1, 2, 3, 5]) : undefined
  const maxBytes = maxRecords === undefined || rng.chance(0.4) ? rng.pick([60, 150, 400]) : undefined
  const spelled = maxBytes === undefined ? undefined : rng.pick([maxBytes, String(maxBytes), maxBytes + 'B', ` ${maxBytes} b`])
  const ids = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h']
  const { db, v } = await open(store, { features: [] })
  const col = v.collection('things', { prefetch: false, cache: { ...(maxRecords !== undefined ? { maxRecords } : {}), ...(spelled !== undefined ? { maxBytes: spelled } : {}) } })
  const m = new Model(maxRecords, maxBytes), live = new Map()
  const size = r => Math.max(0, JSON.stringify(r).length)
  const gen = id => ({ id, n: rng.int(0, 999), t: 'x'.repeat(rng.weighted([[4, rng.int(0, 20)], [2, rng.int(20, 80)], [1, maxBytes ? maxBytes + 10 : 200]])) })
  const budget = when => {
    const s = col.cacheStats()
    c.ok(s.lazy === true, 'cache statistics of a lazy collection say it is not lazy')
    if (maxRecords !== undefined) c.ok(s.size <= maxRecords, `after ${when} the cache holds ${s.size} records with a budget of ${maxRecords}`, { key: 'budget' })
    if (maxBytes !== undefined) c.ok(s.bytes <= maxBytes, `after ${when} the cache holds ${s.bytes} bytes with a budget of ${maxBytes}`, { key: 'budget' })
    return s
  }
  const n = rng.int(25, 60)
  for (let i = 0; i < n; i++) {
    const id = rng.pick(ids), act = rng.weighted([[5, 'get'], [4, 'put'], [1, 'delete'], [1, 'getMany'], [0.7, 'bulk'], [0.7, 'scan']])
    const before = col.cacheStats(), at = store._st.log.length
    const reads = () => store._st.log.slice(at).filter(e => e.op === 'get' && e.coll === 'things').map(e => e.id)
    let note = ''
    if (act === 'get') {
      const cached = m.find(id) >= 0
      const got = await col.get(id)
      c.eq(got, live.get(id) ?? null, `record "${id}"`)
      c.eq(reads().length, cached ? 0 : 1, `store reads for a ${cached ? 'cached' : 'not cached'} record`)
      const s = col.cacheStats()
      c.eq(s.hits - before.hits, cached ? 1 : 0, 'hits counted for one read'); c.eq(s.misses - before.misses, cached ? 0 : 1, 'misses counted for one read')
      if (cached) m.get(id); else if (got) c.count('lazyEvictions', m.set(id, got, size(got)))
      note = cached ? 'hit' : got ? 'miss' : 'absent'
    } else if (act === 'put') {
      const r = gen(id)
      await col.put(id, r); live.set(id, r); const out = m.set(id, r, size(r)); c.count('lazyEvictions', out); note = 'out' + Math.min(out, 3)
    } else if (act === 'delete') { await col.delete(id); live.delete(id); m.remove(id) }
    else if (act === 'getMany') {
      const want = rng.sample(ids, 4), got = await col.getMany(want)
      for (const w of want) c.eq(got.get(w) ?? null, live.get(w) ?? null, `record "${w}" of a bulk read`)
      note = 'x'
    } else if (act === 'bulk') {
      const rows = rng.sample(ids, 3).map(x => [x, gen(x)])
      await col.putMany(rows); for (const [x, r] of rows) live.set(x, r)
      note = 'x'
    } else {
      const seen = []
      for await (const r of col.scan({ pageSize: 3 })) seen.push(r.id)
      c.eq(seen.sort(), [...live.keys()].sort(), 'records scanned'); note = 'x'
    }
    const s = budget(act)
    if (note === 'x') { // the order of touches inside a bulk call is not claimed: re-learn it by touching every record
      for (const w of ids) if (live.has(w)) { const r = await col.get(w); c.eq(r, live.get(w), `record "${w}"`) }
      budget('reading everything')
      // what reading all live records in order leaves behind is determined: restart the model
      const m2 = new Model(maxRecords, maxBytes)
      // two passes: the second starts from the state the first left
      for (const w of ids) if (live.has(w)) await col.get(w)
      const st = col.cacheStats()
      const cachedNow = []
      for (const w of ids) if (live.has(w)) cachedNow.push(w)
      for (const w of cachedNow) m2.set(w, live.get(w), size(live.get(w)))
      m.l = m2.l
      {
        // contents after a full pass need not equal the fresh model when big records cleared the cache on the way; compare only when none is oversized
        const total = cachedNow.reduce((a, w) => a + size(live.get(w)), 0)
        if ((maxBytes === undefined || total <= maxBytes) && (maxRecords === undefined || cachedNow.length <= maxRecords)) { c.eq(st.size, cachedNow.length, 'cached records when everything fits'); c.eq(st.bytes, total, 'cached bytes when everything fits') }
        else { // force a known state: drop everything by deleting and re-creating one by one
          for (const w of cachedNow) { const r = live.get(w); await col.delete(w); await col.put(w, r) }
          m.l = []; for (const w of cachedNow) m.set(w, live.get(w), size(live.get(w)))
          const z = col.cacheStats()
          c.eq(z.size, m.l.length, 'cached records after re-creating everything'); c.eq(z.bytes, m.bytes(), 'cached bytes after re-creating everything')
        }
      }
    } else {
      c.eq(s.size, m.l.length, `cached records after ${act}`); c.eq(s.bytes, m.bytes(), `cached bytes after ${act}`)
      c.ok(s.evictions >= before.evictions, 'the eviction count went down')
    }
    c.count('lazyOps'); c.sig(['lazy', act, note, maxRecords ?? '-', maxBytes ?? '-'].join('|'))
  }
  // everything evicted is still readable
  for (const w of ids) c.eq(await col.get(w), live.get(w) ?? null, `record "${w}" at the end`)
  budget('the last reads')
  db.close()
  c.seen(n)
}

// overlapping reads and writes: budgets hold at every store call, values right afterwards
async function overlap(c) {
  const { rng } = c
  const sched = new Sched(rng.fork('s')); sched.enabled = false
  const ref = newRef(), store = instrument(ref, { sched, keepLog: true })
  const maxRecords = rng.pick([1, 2, 3]), maxBytes = rng.chance(0.5) ? 200 : undefined
  const { db, v } = await open(store, { features: [] })
  const col = v.collection('things', { prefetch: false, cache: { maxRecords, ...(maxBytes ? { maxBytes } : {}) } })
  const ids = ['a', 'b', 'c', 'd', 'e']
  for (const id of ids) await col.put(id, { id, n: 0 })
  let bad = null
  store._st.onCall = () => { const s = col.cacheStats(); if (s.size > maxRecords || (maxBytes && s.bytes > maxBytes)) bad = s }
  sched.enabled = true
  const last = new Map(ids.map(i => [i, new Set([0])])), ps = []
  const workers = rng.int(2, 4)
  let n = 0
  for (let w = 0; w < workers; w++) {
    const plan = Array.from({ length: rng.int(3, 7) }, () => [rng.pick(['get', 'get', 'put', 'delete']), rng.pick(ids), ++n])
    ps.push((async () => { for (const [op, id, k] of plan) {
      if (op === 'get') { const r = await col.get(id); if (r) c.eq(r.id, id, 'id of the record read') }
      else if (op === 'put') await col.put(id, { id, n: k, t: 'y'.repeat(k * 3) })
      else await col.delete(id)
    } })())
  }
  await sched.run(ps); sched.enabled = false
  c.ok(!bad, `the cache held ${bad?.size} records and ${bad?.bytes} bytes with budgets of ${maxRecords} and ${maxBytes ?? 'none'}`, { key: 'budget' })
  // what a fresh session reads is what this session must read, whatever is cached
  const { db: db2, v: v2 } = await open(instrument(ref), { features: [] })
  const col2 = v2.collection('things')
  const cached = col.cacheStats()
  let bytes = 0
  for (const id of ids) c.eq(await col.get(id), await col2.get(id), `record "${id}" after overlapping work`)
  const s = col.cacheStats()
  c.ok(s.size <= maxRecords, 'record budget after overlapping work', { key: 'budget' })
  // after deleting everything nothing is accounted for
  for (const id of ids) await col.delete(id)
  const z = col.cacheStats()
  c.eq([z.size, z.bytes], [0, 0], 'cached records and bytes after deleting everything')
  db.close(); db2.close()
  c.count('overlapped'); c.seen(n); c.sig(['ov', maxRecords, maxBytes ?? '-', workers, cached.size].join('|'))
}

async function sizes(c) {
  const { rng } = c
  const mult = { '': 1, B: 1, KB: 1024, MB: 1024 ** 2, GB: 1024 ** 3 }
  for (let i = 0; i < 60; i++) {
    const unit = rng.pick(['', 'B', 'KB', 'MB', 'GB', 'TB', 'XB', 'K', 'constructor', 'toString'])
    const num = rng.pick(['0', '1', '5', '17', '1.5', '0.5', '-3', '1e3', '', 'NaN', '007', String(rng.int(1, 99999)), String(rng.int(1, 99)) + '.' + rng.int(0, 99)])
    const dress = rng.pick([x => x, x => x.toLowerCase(), x => ' ' + x + ' ', x => x.replace(/([A-Za-z])/, ' $1')])
    const text = dress(num + unit)
    const plain = /^\d+(\.\d+)?$/.test(num)
    const want = plain && unit in mult && Object.hasOwn(mult, unit) ? Math.floor(Number(num) * mult[unit]) : null
    let got
    try { got = parseBytes(text) } catch (e) { got = null; c.ok(e instanceof Error, 'refusal of a size is not an error object') }
    if (want !== null && want > 0) c.eq(got, want, `size "${text}"`)
    else c.ok(got === null, `the size "${text}" was understood as ${got}`, { key: 'parse' })
    c.count('sizes'); c.sig(['size', unit, plain, got === null].join('|'))
  }
  for (const x of [0, -1, NaN, Infinity, -Infinity]) { let t = false; try { parseBytes(x) } catch { t = true } c.ok(t, `the size ${x} was accepted`, { key: 'parse' }) }
  const x = rng.int(1, 1e9); c.eq(parseBytes(x), x, 'a numeric size')
  const r = { s: 'é'.repeat(rng.int(0, 20)), n: rng.u32() }
  c.eq(estimateRecordBytes(r), JSON.stringify(r).length, 'size estimate')
  c.seen(66)
}

const ALPHA = '0123456789ABCDEFGHJKMNPQRSTVWXYZ'
async function ids(c) {
  const { rng } = c
  const all = new Map()
  let t = rng.chance(0.5) ? Math.max(0, 2 ** rng.int(1, 47) * rng.int(1, 3) - rng.int(0, 40)) % 2 ** 48 : rng.pick([0, 1, 0xffffff - 2, 0x1000000, 0xffffffff - 3, 0x100000000, Date.UTC(2026, 0, 1), 0xffffff000000 - 5, 2 ** 47, 2 ** 48 - 2000, Math.floor(rng.float() * 2 ** 48)])
  let prevMax = null, prevT = -1
  const bursts = rng.int(8, 25)
  for (let b = 0; b < bursts; b++) {
    clock.set(t)
    const k = rng.pick([1, 2, 10, 40, 150])
    let lo = null, hi = null, head = null
    for (let i = 0; i < k; i++) {
      const id = generateULID()
      c.ok(typeof id === 'string' && id.length === 26 && [...id].every(ch => ALPHA.includes(ch)), `generated id "${id}" is not 26 base-32 characters`, { key: 'form' })
      c.ok(isULID(id), `the generated id "${id}" is not recognised as one`, { key: 'form' })
      c.ok(!all.has(id), `the id "${id}" was generated twice`, { key: 'unique' }); all.set(id, t)
      if (head === null) head = id.slice(0, 10); else c.eq(id.slice(0, 10), head, 'time part within one millisecond')
      if (lo === null || id < lo) lo = id
      if (hi === null || id > hi) hi = id
    }
    if (prevMax !== null && t > prevT) c.ok(prevMax < lo, `id "${prevMax}" made at ${prevT} does not sort before "${lo}" made at ${t}`, { key: 'order' })
    prevMax = hi; prevT = t
    c.count('ids', k); c.sig(['ids', k, b === 0 ? 'first' : 'later', Math.floor(Math.log2(t + 1) / 4)].join('|'))
    t += rng.pick([1, 1, 1, 2, 2, 7, 31, 32, 1000, 0xffffff, 0x1000000, 0x1000001, 0x100000000])
    if (t >= 2 ** 48) break
  }
  // the random part varies in every position
  const tails = [...all.keys()].map(x => x.slice(10))
  if (tails.length > 300) for (let p = 0; p < 16; p++) c.ok(new Set(tails.map(x => x[p])).size > 8, `position ${p} of the random part hardly varies`, { key: 'random' })
  for (const bad of ['', 'a', 'O'.repeat(26), 'I1234567890123456789012345', '0'.repeat(25), '0'.repeat(27), 'L' + '0'.repeat(25), 'U' + '0'.repeat(25), ' ' + '0'.repeat(25)]) c.ok(!isULID(bad), `"${bad}" passes as an id`, { key: 'form' })
  c.seen(all.size)
}

// open/close cycles: what was opened is collectable and silent afterwards
async function cycles(c) {
  const { rng } = c
  const ref = newRef(), remote = newRef()
  const N = 8
  const doc = { hidden: false, visibilityState: 'visible', l: new Set(), addEventListener(t, f) { this.l.add(f) }, removeEventListener(t, f) { this.l.delete(f) } }
  const g = new Set()
  const saved = { document: globalThis.document, add: globalThis.addEventListener, rem: globalThis.removeEventListener }
  globalThis.document = doc
  globalThis.addEventListener = (t, f) => { g.add(f) }; globalThis.removeEventListener = (t, f) => { g.delete(f) }
  c.cleanup(() => { for (const [k, v] of [['document', saved.document], ['addEventListener', saved.add], ['removeEventListener', saved.rem]]) if (v === undefined) delete globalThis[k]; else globalThis[k] = v })
  const exitBefore = process.listenerCount('beforeExit')
  const weak = { db: [], vault: [], coll: [], cb: [], live: [], presence: [], scheduler: [], enforcer: [] }
  const late = []
  const sync = rng.chance(0.5), timeout = rng.chance(0.5)
  const policy = rng.pick([{ push: { mode: 'debounce', debounceMs: 5000, onUnload: true }, pull: { mode: 'on-focus' } }, { push: { mode: 'interval', intervalMs: 1000 }, pull: { mode: 'interval', intervalMs: 700 } }, { push: { mode: 'on-change' }, pull: { mode: 'manual' } }])
  async function once(k) {
    const store = instrument(ref), rs = instrument(remote)
    const db = await createNoydb({ store, user: 'alice', secret: PASS, ...strategies('all'), ...(timeout ? { sessionTimeout: 600000 } : {}), ...(sync ? { sync: rs, syncPolicy: policy } : {}) })
    const v = await db.openVault('acme')
    const col = v.collection('things'), lz = v.collection('lazy' + (k % 2), { prefetch: false, cache: { maxRecords: 3 } })
    let closed = false
    const off = []
    const subs = rng.int(1, 4)
    for (let i = 0; i < subs; i++) {
      const state = { off: false }
      const cb = () => { if (state.off || closed) late.push(state.off ? 'an ended subscription' : 'a subscription of a closed session') }
      weak.cb.push(new WeakRef(cb))
      const stop = rng.pick([() => col.subscribe(cb), () => { db.on('change', cb); return () => db.off('change', cb) }, () => col.query().subscribe(() => cb()), () => lz.subscribe(cb)])()
      off.push(() => { state.off = true; stop() })
    }
    const lq = col.query().live(); weak.live.push(new WeakRef(lq)); const un = lq.subscribe(() => {})
    const session = await createSession(await keyringOf(db), 'acme', { ttlMs: 60000 }).catch(() => null)
    for (let i = 0; i < rng.int(1, 5); i++) { await col.put('r' + rng.int(0, 5), { n: k, i }); await lz.put('q' + rng.int(0, 9), { n: k }) }
    if (rng.chance(0.5)) { const ph = col.presence({ pollIntervalMs: 500 }); weak.presence.push(new WeakRef(ph)); const u = ph.subscribe(() => {}); await ph.update({ here: 1 }); u(); ph.stop() }
    const ended = []
    const sch = new SyncScheduler(policy, { push: async () => { if (closed) late.push('a stopped sync schedule') }, pull: async () => { if (closed) late.push('a stopped sync schedule') }, getDirtyCount: () => 1 })
    sch.start(); if (rng.chance(0.7)) sch.notifyChange(); ended.push(() => sch.stop()); weak.scheduler.push(new WeakRef(sch))
    if (rng.chance(0.4)) { sch.stop(); sch.start() }
    const enf = createEnforcer({ policy: { idleTimeoutMs: 900, absoluteTimeoutMs: 5000, lockOnBackground: true }, sessionId: 'none' + k, onRevoke: () => { if (closed) late.push('a destroyed session policy') } })
    if (rng.chance(0.5)) enf.touch()
    ended.push(() => enf.destroy()); weak.enforcer.push(new WeakRef(enf))
    const early = rng.chance(0.6)
    if (early) { for (const f of off) f(); un(); lq.stop(); await col.put('r0', { after: k }) }
    weak.db.push(new WeakRef(db)); weak.vault.push(new WeakRef(v)); weak.coll.push(new WeakRef(col), new WeakRef(lz))
    for (const f of ended) f()
    db.close()
    for (let i = 0; i < 5; i++) await new Promise(r => setImmediate(r)) // deliveries under way at close may finish
    closed = true
    if (rng.chance(0.5)) await col.put('r1', { late: k }).catch(() => {}) // through a handle kept beyond close
    await c.clock.tick(rng.pick([0, 1000]), { settle: 3 })
    c.ok(!c.clock.hasTimers(), `${c.clock.timers.size} timer(s) still scheduled after the session was closed`, { key: 'timers' })
    if (session) c.eq(activeSessionCount(), 0, 'sessions alive after close')
    c.count('cycles'); c.sig(['cycle', sync, timeout, policy.push.mode, subs, early].join('|'))
  }
  for (let k = 0; k < N; k++) await once(k)
  await c.clock.tick(9000, { settle: 3 })
  c.ok(late.length === 0, `${late[0]} was notified`, { key: 'late' })
  c.ok(!c.clock.hasTimers(), `${c.clock.timers.size} timer(s) still scheduled after ${N} sessions were closed`, { key: 'timers' })
  c.eq(doc.l.size, 0, 'page listeners left after close'); c.eq(g.size, 0, 'global listeners left after close')
  c.eq(process.listenerCount('beforeExit'), exitBefore, 'exit listeners left after close')
  // one more turn so that no frame keeps the last cycle alive
  for (let i = 0; i < 4; i++) { await new Promise(r => setImmediate(r)); globalThis.gc() }
  for (const [kind, refs] of Object.entries(weak)) {
    const alive = refs.filter(w => w.deref() !== undefined).length
    c.max('alive_' + kind, alive)
    c.ok(alive <= 2 || alive <= refs.length / 4, `${alive} of ${refs.length} ${kind} objects are still reachable after their sessions were closed`, { key: 'leak-' + kind })
  }
  c.seen(N * 3)
}
async function keyringOf(db) { return db.getKeyring ? db.getKeyring('acme') : null }

export const scenarios = [
  { name: 'lru', quick: 4000, thorough: 20000, run: lru },
  { name: 'lazy', quick: 700, thorough: 3000, run: lazy },
  { name: 'overlap', quick: 800, thorough: 4000, run: overlap },
  { name: 'sizes', quick: 60, thorough: 200, run: sizes },
  { name: 'ids', quick: 400, thorough: 2000, run: ids, clock: { auto: 0, timers: false } },
  { name: 'cycles', quick: 96, thorough: 400, run: cycles, clock: { auto: 0, timers: true } },
]
