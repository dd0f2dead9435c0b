// Wrapped stores against the map they wrap: the same calls go through every wrapper and stack of
// wrappers (sequentially, overlapping under a controlled scheduler, and with injected failures) and
// every answer must be one the wrapped store itself could have given.
import { wrapStore, withRetry, withLogging, withMetrics, withCircuitBreaker, withCache, withHealthCheck, routeStore, wrapBundleStore } from '@noy-db/hub/store'
import { BundleVersionConflictError, ConflictError } from '@noy-db/hub'
import { toMeter } from '@noy-db/to-meter'
import { drive } from '@noy-db/to-drive'
import { icloud } from '@noy-db/to-icloud'
import { peerStore, servePeerStore, pairInMemory } from '@noy-db/by-peer'
import { tabsChannel } from '@noy-db/by-tabs'
import { newRef } from '../lib/world.mjs'
import { Sched, turn } from '../lib/sched.mjs'
import { instrument } from '../lib/store.mjs'
import { linearizable } from '../lib/lin.mjs'
import { show, deepEq } from '../lib/child.mjs'

export const meta = {
  property: 'C12', level: 'exploration',
  rule: 'distinct by (wrapper stack, operation mix, schedule length, fault points hit, outcome kinds); cases in which nothing was stored are not counted',
  assumptions: [
    'a wrapper assumes it is the only writer of the store it wraps, except bundle-backed stores, which are checked with several devices',
    'while a circuit is open or a store is suspended the documented empty answers are expected and the wrapped store must not be touched',
    'the file service behind bundle-backed stores is a stand-in that checks revisions atomically',
  ],
  minimums: { calls: 20000, linearizability_histories: 1500, faults_hit: 2000, open_answers: 500, replayed: 800, device_conflicts: 300, peer_answers: 3000, migrations: 300, chunk_moves: 200, retried_calls: 10000, fileWrites: 10000, fileRefusals: 2500, fileOffloads: 500, fileReads: 20000 },
}
const DAY = 86400_000
let serial = 0
function env(r, c, v, { big } = {}) {
  return { _noydb: 1, _v: v ?? r.int(1, 9), _ts: new Date(c.clock.now - (r.chance(0.4) ? r.int(0, 60) * DAY : 0)).toISOString(), _iv: 'AAAAAAAAAAAAAAAA', _data: `d${++serial}-` + 'x'.repeat(big ?? r.pick([2, 2, 30, 120])) , _by: r.pick(['alice', 'bob']) }
}
const COLLS = ['inv', 'cli', 'log', '_blob_chunks', '_blob_index', '_keyring']
const VAULTS = ['acme', 'EU-acme', 'EU']

// ─── the file service stand-in ───
export function bundleService(c, hop) {
  const files = new Map(); let rev = 0
  return {
    files, kind: 'bundle', name: 'svc',
    async readBundle(v) { await hop('read>'); const f = files.get(v); const out = f ? { bytes: f.bytes.slice(), version: f.version } : null; await hop('read<'); return out },
    async writeBundle(v, bytes, expected) {
      await hop('write>'); const f = files.get(v)
      if ((f?.version ?? null) !== expected) { c.count('device_conflicts'); await hop('refuse<'); throw new BundleVersionConflictError(f?.version ?? 'none') }
      files.set(v, { bytes: bytes.slice(), version: `r${++rev}` }); const version = `r${rev}`; await hop('write<'); return { version }
    },
    async deleteBundle(v) { files.delete(v) },
    async listBundles() { return [...files].map(([vaultId, f]) => ({ vaultId, version: f.version, size: f.bytes.length })) },
  }
}
function driveClient(c, hop) {
  const files = new Map(); let n = 0
  const meta = f => ({ id: f.id, name: f.name, headRevisionId: f.rev, size: f.bytes.length })
  return {
    async createFile(q) { await hop('create>'); const f = { id: `f${++n}`, name: q.name, bytes: q.bytes.slice(), rev: `v${++n}` }; files.set(f.id, f); await hop('create<'); return meta(f) },
    async updateFile(id, q) { await hop('update>'); const f = files.get(id); if (!f) throw new Error('404'); if (q.expectedRevision != null && q.expectedRevision !== f.rev) throw new BundleVersionConflictError(f.rev); f.bytes = q.bytes.slice(); f.rev = `v${++n}`; const m = meta(f); await hop('update<'); return m },
    async getFileMetadata(id) { await hop('meta'); const f = files.get(id); return f ? meta(f) : null },
    async getFileBytes(id) { await hop('bytes'); return files.get(id)?.bytes.slice() ?? null },
    async deleteFile(id) { files.delete(id) },
    async listFiles() { return [...files.values()].map(meta) },
  }
}
function cloudFs(hop) {
  const files = new Map(); let t = 1
  return {
    async readFile(p) { await hop('read'); return files.get(p)?.data.slice() ?? null },
    async writeFile(p, data) { await hop('write'); files.set(p, { data: new Uint8Array(data), mtimeMs: ++t }) },
    async unlink(p) { files.delete(p) },
    async readdir(p) { return [...files.keys()].filter(f => f.startsWith(p + '/')).map(f => f.slice(p.length + 1)) },
    async stat(p) { await hop('stat'); const f = files.get(p); return f ? { mtimeMs: f.mtimeMs, size: f.data.length } : null },
  }
}
const hopper = c => async what => { const g = c.sched?.gate(what); if (g) await g }

// ─── wrappers: name → (c, inner) → store; `inner()` makes a fresh instrumented map ───
const LAYERS = {
  cache: r => withCache({ maxEntries: r.pick([1, 2, 3, 50]), ttlMs: r.pick([0, 0, 50, 60_000]) }),
  retry: r => withRetry({ maxRetries: r.int(0, 3), backoffMs: r.pick([1, 500]), jitter: 0.3, ...(r.chance(0.3) ? { retryOn: ['NETWORK_ERROR'] } : {}) }),
  logging: (r, c) => withLogging({ level: 'debug', logger: Object.fromEntries(['debug', 'info', 'warn', 'error'].map(l => [l, m => { c.ok(!/d\d+-x/.test(m), () => `log line carries stored contents: ${m}`); c.count('log_lines') }])) }),
  metrics: (r, c) => withMetrics({ onOperation: o => { c.metric.n++; if (!o.success) c.metric.errors++ } }),
  breaker: () => withCircuitBreaker({ failureThreshold: 1e9 }),
  health: () => withHealthCheck({ check: async () => true, checkIntervalMs: 1e9 }),
  meter: (r, c) => next => { const m = toMeter(next, { sampleLimit: r.pick([3, 1024]) }); c.meters.push(m.meter); return m.store },
  peer: (r, c) => next => { const [a, b] = pairInMemory(); const stop = servePeerStore({ channel: b, store: next }); const s = peerStore({ channel: a, timeoutMs: 2 ** 40 }); c.cleanup(() => { s.dispose(); stop() }); return s },
}
const BASES = {
  plain: (c, inner) => inner(),
  blobs: (c, inner) => routeStore({ default: inner('hot'), blobs: inner('blob'), routeBlobMeta: c.rng.chance(0.5) }),
  tiered: (c, inner) => routeStore({ default: inner('hot'), blobs: { large: inner('large'), threshold: 50, ...(c.rng.chance(0.5) ? { small: inner('small') } : {}) } }),
  routes: (c, inner) => routeStore({ default: inner('hot'), routes: { log: inner('log'), cli: inner('cli') }, blobs: inner('blob') }),
  regional: (c, inner) => routeStore({ default: inner('hot'), vaultRoutes: { 'EU-': inner('eu') }, blobs: { large: inner('large'), threshold: 50 }, routes: { log: inner('log') } }),
  aged: (c, inner) => routeStore({ default: inner('hot'), age: { cold: inner('cold'), coldAfterDays: 30, ...(c.rng.chance(0.5) ? { collections: ['inv', 'log'] } : {}) }, ...(c.rng.chance(0.4) ? { routes: { log: inner('log') } } : {}), ...(c.rng.chance(0.3) ? { vaultRoutes: { 'EU-': inner('eu') } } : {}) }),
  overridden: (c, inner) => { const s = routeStore({ default: inner('old'), blobs: inner('blob') }); s.override('default', inner('new')); if (c.rng.chance(0.5)) s.override('blobs', inner('newblob')); return s },
  bundle: c => wrapBundleStore(bundleService(c, hopper(c))),
  drive: c => wrapBundleStore(drive({ drive: driveClient(c, hopper(c)) })),
  icloud: c => wrapBundleStore(icloud({ folder: '/cloud', fs: cloudFs(hopper(c)) })),
}
function build(c, { only, faults, layersMax = 3, bases } = {}) {
  const r = c.rng; c.metric = { n: 0, errors: 0 }; c.meters = []
  const inners = []; const raw = c.raw = []
  const inner = name => { const ref = newRef(); const s = instrument(ref, { sched: c.sched, extras: r.chance(0.5) ? ['listPage', 'listVaults'] : [], name }); if (faults) s._st.fault = faults; inners.push(ref); raw.push(s); return s }
  const base = only ?? r.weighted((bases ?? Object.keys(BASES)).map(b => [b === 'plain' ? 4 : 2, b]))
  let store = BASES[base](c, inner); c.base = store
  const layers = r.sample(Object.keys(LAYERS), r.int(base === 'plain' ? 1 : 0, layersMax))
  store = wrapStore(store, ...layers.map(l => LAYERS[l](r, c)))
  return { store, base, layers, inners, label: `${layers.join('+')}${layers.length ? '(' : ''}${base}${layers.length ? ')' : ''}` }
}
const noEmpty = o => Object.fromEntries(Object.entries(o).filter(([, x]) => Object.keys(x).length))
const isConflict = e => e?.name === 'ConflictError'
async function compare(c, L, store, ref) {
  for (const v of VAULTS) {
    for (const col of COLLS) {
      c.eq((await store.list(v, col)).slice().sort(), ref.list(v, col).sort(), `${L}: list(${v}, ${col})`)
      for (const id of ref.list(v, col)) c.eq(await store.get(v, col, id), ref.get(v, col, id), `${L}: get(${v}, ${col}, ${id})`)
    }
    c.eq(noEmpty(await store.loadAll(v)), noEmpty(ref.loadAll(v)), `${L}: loadAll(${v})`)
  }
}
async function sequence(c) {
  const r = c.rng; const bases = Object.keys(BASES); const w = build(c, { only: bases[c.i % bases.length] }); const { store } = w; const L = w.label; const ref = newRef()
  const ids = ['p', 'q', 'r', 's', 't'].slice(0, r.int(2, 5)); const n = r.int(20, 60); const mix = new Set(); let calls = 0; let bad = 0
  const vaults = r.sample(VAULTS, r.int(1, 3))
  for (let k = 0; k < n; k++) {
    let v = r.pick(vaults); let col = r.pick(COLLS); let id = r.pick(ids)
    const op = r.weighted([[10, 'put'], [4, 'cas'], [3, 'stale'], [6, 'get'], [4, 'delete'], [3, 'list'], [2, 'loadAll'], [1, 'saveAll'], [2, 'compact'], [3, 'time'], [1, 'batch']])
    mix.add(op); c.count('calls')
    if (/stale|cas|get|delete/.test(op) && r.chance(0.75)) { const all = vaults.flatMap(x => COLLS.flatMap(y => ref.list(x, y).map(z => [x, y, z]))); if (all.length) [v, col, id] = r.pick(all) }
    const cur = ref.get(v, col, id)
    if (op === 'put') { const e = env(r, c); if (col === '_blob_chunks' && cur && (cur._data.length > 50) !== (e._data.length > 50)) c.count('chunk_moves'); await store.put(v, col, id, structuredClone(e)); ref.put(v, col, id, e); calls++ }
    else if (op === 'cas') { const e = env(r, c, (cur?._v ?? 0) + 1); await store.put(v, col, id, structuredClone(e), cur?._v ?? 0); ref.put(v, col, id, e); calls++ }
    else if (op === 'stale') {
      if (!cur) continue
      if (w.layers.includes('retry')) { c.clockRunner ??= true }
      let err; const p = store.put(v, col, id, env(r, c), cur._v + r.pick([-1, 1, 7])).catch(e => { err = e }); let done = false; p.then(() => { done = true })
      for (let q = 0; q < 200 && !done; q++) { await turn(); if (!done && c.clock.hasTimers()) await c.clock.runNext() }
      await p; calls++; bad++
      c.ok(isConflict(err) && err instanceof ConflictError, () => `${L}: stale put ${err ? `failed with ${err.name}: ${err.message}` : 'was accepted'}`)
      c.eq(err.version, cur._v, `${L}: conflict reports the wrong current version`)
      c.eq(await store.get(v, col, id), cur, `${L}: refused put changed the record`)
    }
    else if (op === 'get') { c.eq(await store.get(v, col, id), cur, `${L}: get(${v}, ${col}, ${id})`); calls++ }
    else if (op === 'delete') { await store.delete(v, col, id); ref.delete(v, col, id) }
    else if (op === 'list') c.eq((await store.list(v, col)).slice().sort(), ref.list(v, col).sort(), `${L}: list(${v}, ${col})`)
    else if (op === 'loadAll') c.eq(noEmpty(await store.loadAll(v)), noEmpty(ref.loadAll(v)), `${L}: loadAll(${v})`)
    else if (op === 'saveAll') {
      const data = {}
      for (const x of r.sample(['inv', 'cli', 'log'], r.int(0, 3))) { data[x] = {}; for (const y of r.sample(ids, r.int(0, 3))) data[x][y] = env(r, c) }
      await store.saveAll(v, structuredClone(data)); ref.saveAll(v, data)
    }
    else if (op === 'compact') { if (c.base.compact) c.count('migrations', await c.base.compact(v)) }
    else if (op === 'batch') { if (c.base.batch && !w.layers.length) await c.base.batch(v, async () => { for (let q = 0; q < 3; q++) { const e = env(r, c); const i2 = r.pick(ids); await store.put(v, col, i2, structuredClone(e)); ref.put(v, col, i2, e) } }) }
    else if (op === 'time') await c.clock.tick(r.pick([40, 1000, DAY, 20 * DAY]), { settle: 0 })
  }
  await compare(c, L, store, ref)
  // geographic and per-collection routing: nothing outside the store it belongs to
  if (w.base === 'regional') for (const s of c.raw) for (const v of s._ref.listVaults()) c.ok(v.startsWith('EU-') === (s.name === 'eu') || ![...s._ref.data.get(v).values()].some(m => m.size), () => `${L}: vault ${v} has records in store ${s.name}`)
  if (w.base === 'routes') for (const s of c.raw) for (const v of s._ref.listVaults()) for (const [col, m] of s._ref.data.get(v)) if (m.size) c.ok(({ log: 'log', cli: 'cli', _blob_chunks: 'blob' }[col] ?? 'hot') === s.name, () => `${L}: ${col} is stored in ${s.name}`)
  if (c.meters.length && w.layers[0] === 'meter') { const snap = c.meters[0].snapshot(); c.ok(snap.totalCalls >= calls, () => `meter saw ${snap.totalCalls} of at least ${calls} calls`); c.ok(snap.casConflicts >= bad, () => `meter counted ${snap.casConflicts} of ${bad} conflicts`) }
  if (w.base === 'bundle' || w.base === 'drive') c.seen('bundle_backends', w.base)
  if (calls) c.sig([w.base, w.layers, [...mix].sort().join(), n, ref.list('acme', 'inv').length]); c.seen('stacks', L)
  c.sample({ stack: L, operations: n })
}
async function overlap(c) { // overlapping calls: every record's history must have a sequential explanation
  const r = c.rng; const bases = ['plain', 'tiered', 'aged', 'bundle', 'routes', 'drive']; c.sched = new Sched(r.fork()); c.sched.enabled = false
  const w = build(c, { only: bases[c.i % bases.length], layersMax: 2 }); const { store } = w; const L = w.label
  const col = w.base === 'tiered' ? '_blob_chunks' : 'inv'; const ids = r.sample(['p', 'q', 's'], r.int(1, 3))
  const init = new Map(); const hist = new Map(ids.map(i => [i, []])); let t = 0
  for (const id of ids) if (r.chance(0.7)) { const e = env(r, c, 1); await store.put('acme', col, id, structuredClone(e)); init.set(id, e._data) }
  if (w.base === 'aged' && r.chance(0.5)) await c.base.compact('acme')
  c.sched.enabled = true
  const cas = !['bundle', 'drive'].includes(w.base); const n = r.int(3, 8); const ops = []; const lists = []
  for (let k = 0; k < n; k++) {
    const id = r.pick(ids); const kind = r.weighted([[5, 'put'], [2, 'del'], [5, 'get'], [cas ? 2 : 0, 'cas'], [w.base === 'aged' ? 3 : 0, 'compact'], [2, 'list']])
    const delay = r.int(0, 6)
    ops.push((async () => {
      for (let q = 0; q < delay; q++) await turn()
      const inv = ++t
      if (kind === 'get') { const g = await store.get('acme', col, id); hist.get(id).push({ inv, res: ++t, kind, d: g?._data ?? null }) }
      else if (kind === 'list') { const l = await store.list('acme', col); lists.push({ inv, res: ++t, l }) }
      else if (kind === 'compact') { c.count('migrations', await c.base.compact('acme')) }
      else if (kind === 'del') { await store.delete('acme', col, id); hist.get(id).push({ inv, res: ++t, kind, d: null }) }
      else {
        const e = env(r, c, r.int(2, 9)); const ev = kind === 'cas' ? 1 : undefined
        try { await store.put('acme', col, id, structuredClone(e), ev); hist.get(id).push({ inv, res: ++t, kind, d: e._data, v: e._v, ev, ok: true }) } catch (x) {
          c.ok(isConflict(x), () => `${L}: overlapping put failed with ${x.name}: ${x.message}`); c.ok(ev !== undefined, () => `${L}: unconditional put was refused as a conflict`)
          hist.get(id).push({ inv, res: ++t, kind, ev, ok: false })
        }
      }
    })())
  }
  const rs = await c.sched.run(ops, { clock: c.clock }); c.sched.drainOff()
  for (const x of rs) if (x.status === 'rejected') throw x.reason
  for (const id of ids) { const g = await store.get('acme', col, id); hist.get(id).push({ inv: ++t, res: ++t, kind: 'get', d: g?._data ?? null }) }
  const final = await store.list('acme', col)
  const retry = w.layers.includes('retry')
  for (const id of ids) {
    const seq = hist.get(id).map(o => ({ inv: o.inv, res: o.res, apply: s => {
      if (o.kind === 'get') return [s, s.d === o.d]
      if (o.kind === 'del') return [{ d: null, v: null }, true]
      const hit = o.ev === undefined || s.d === null || s.v === o.ev
      if (!o.ok) return [s, !hit]
      return hit ? [{ d: o.d, v: o.v }, true] : [s, false]
    } }))
    if (!(retry && hist.get(id).some(o => o.ok === false))) { // a retried refusal is decided at its last attempt; still linearizable, but checked without the retry layer
      c.ok(linearizable(seq, { d: init.get(id) ?? null, v: init.has(id) ? 1 : null }) !== false, () => `${L}: record ${id} shows a value no order of the calls explains: ${show(hist.get(id).map(o => `${o.kind}[${o.inv},${o.res}]=${String(o.d ?? o.ok).slice(0, 8)}`))}`, { detail: { trace: c.sched.trace } })
      c.count('linearizability_histories')
    }
    const last = hist.get(id).at(-1)
    c.ok(final.includes(id) === (last.d !== null), () => `${L}: list ${show(final)} disagrees with get(${id})`)
    if (!hist.get(id).some(o => o.kind === 'del' || (o.kind !== 'get' && !init.has(id)))) for (const x of lists) c.ok(x.l.includes(id) === init.has(id), () => `${L}: list during overlapping calls ${x.l.includes(id) ? 'invents' : 'misses'} ${id}`, { detail: { trace: c.sched.trace } })
  }
  c.sig([w.base, w.layers, n, c.sched.trace.length, [...hist.values()].map(h => h.map(o => o.kind[0]).join('')).sort()])
}
async function faulty(c) { // failures of the wrapped store: what is acknowledged is stored, what fails is old or new
  const r = c.rng; const bases = ['plain', 'tiered', 'aged', 'routes', 'regional', 'blobs']; let arm = 0; let hit = 0
  const faults = ev => { if (arm > 0 && r.chance(0.35)) { arm--; hit++; c.count('faults_hit'); return r.pick(['before', 'after']) } return undefined }
  const w = build(c, { only: bases[c.i % bases.length], faults, layersMax: 3 }); const { store } = w; const L = w.label
  const cols = w.base === 'plain' ? ['inv'] : ['inv', 'log', '_blob_chunks']; const ids = ['p', 'q', 's']
  const can = new Map(); const K = (a, b, x) => `${a}/${b}/${x}`; const vals = k => can.get(k) ?? [null]
  const n = r.int(15, 40); let acked = 0; const kinds = new Set()
  const settle = async p => { let out; const q = p.then(v => { out = { v } }, e => { out = { e } }); for (let k = 0; k < 4000 && !out; k++) { await turn(); if (!out && c.clock.hasTimers()) await c.clock.runNext() } ; c.ok(out, `${L}: a call never settled after the wrapped store failed`); await q; return out }
  for (let k = 0; k < n; k++) {
    const v = r.pick(['acme', 'EU-acme']); const col = r.pick(cols); const id = r.pick(ids); const key = K(v, col, id)
    arm = r.chance(0.5) ? r.int(1, 4) : 0; const before = hit
    const op = r.weighted([[6, 'put'], [3, 'delete'], [6, 'get'], [2, 'list'], [1, 'loadAll'], [w.base === 'aged' ? 3 : 0, 'compact'], [1, 'time']]); kinds.add(op)
    if (op === 'time') { await c.clock.tick(r.pick([60_000, 31 * DAY]), { settle: 0 }); continue }
    if (op === 'put') { const e = env(r, c); const o = await settle(store.put(v, col, id, structuredClone(e))); if (o.e) { c.ok(o.e.injected || /StoreFault|injected/.test(o.e.message), () => `${L}: put failed with ${o.e.name}: ${o.e.message}`); can.set(key, [...vals(key), e]) } else { can.set(key, [e]); acked++ } if (o.e) c.ok(hit > before, `${L}: put failed though the wrapped store did not`) }
    else if (op === 'delete') { const o = await settle(store.delete(v, col, id)); can.set(key, o.e ? [...vals(key), null] : [null]); if (!o.e) acked++ }
    else if (op === 'get') { const o = await settle(store.get(v, col, id)); if (o.e) c.ok(hit > before, `${L}: get failed though the wrapped store did not: ${o.e}`); else { c.ok(vals(key).some(x => deepEq(x, o.v)), () => `${L}: get(${key}) returned ${show(o.v)}; acknowledged or possible: ${show(vals(key))}`); can.set(key, [o.v]) } }
    else if (op === 'list') { const o = await settle(store.list(v, col)); if (o.e) c.ok(hit > before, `${L}: list failed though the wrapped store did not`); else for (const x of ids) { const p = vals(K(v, col, x)); if (!p.includes(null)) c.ok(o.v.includes(x), () => `${L}: list ${show(o.v)} misses ${K(v, col, x)}`); if (p.every(y => y === null)) c.ok(!o.v.includes(x), () => `${L}: list shows deleted ${K(v, col, x)}`) } }
    else if (op === 'loadAll') { const o = await settle(store.loadAll(v)); if (o.e) c.ok(hit > before, `${L}: loadAll failed though the wrapped store did not`); else if (!col.startsWith('_')) for (const x of ids) { const p = vals(K(v, col, x)); c.ok(p.some(y => deepEq(y, o.v[col]?.[x] ?? null)), () => `${L}: loadAll shows ${show(o.v[col]?.[x])} for ${K(v, col, x)}; possible: ${show(p)}`) } }
    else if (op === 'compact') { const o = await settle(c.base.compact(v)); if (!o.e) c.count('migrations', o.v) }
  }
  arm = 0
  for (const [key, p] of can) { const [v, col, id] = key.split('/'); const g = await store.get(v, col, id); c.ok(p.some(x => deepEq(x, g)), () => `${L}: after the failures ended get(${key}) is ${show(g)}; possible: ${show(p)}`) }
  c.count('calls', n); if (acked && hit) c.sig([w.base, w.layers, hit, n, [...kinds].sort().join()])
}
async function retries(c) { // how often and for which errors a call is repeated, and that a repeated call takes effect once
  const r = c.rng; const ref = newRef(); const inner = instrument(ref, {}); const max = r.pick([0, 1, 2, 3, 5, undefined]); const codes = r.pick([undefined, ['NETWORK_ERROR'], ['NETWORK_ERROR', 'TIMEOUT']]); const backoff = r.pick([1, 20, 500, undefined]); let left = 0, code, tries = 0
  const flaky = { ...inner }; for (const m of ['get', 'put', 'delete', 'list', 'loadAll', 'saveAll']) flaky[m] = async (...a) => { tries++; if (left > 0) { left--; if (mode === 'after') await inner[m](...a); throw Object.assign(new Error('flaky'), code === undefined ? {} : { code }) } return inner[m](...a) }
  const s = wrapStore(flaky, withRetry({ ...(max === undefined ? {} : { maxRetries: max }), ...(codes ? { retryOn: codes } : {}), ...(backoff === undefined ? {} : { backoffMs: backoff }) })); let mode = 'before', log = ''
  const settle = async p => { let out; p.then(v => { out = { v } }, x => { out = { x } }); for (let k = 0; k < 400 && !out; k++) { await turn(); if (!out && c.clock.hasTimers()) await c.clock.runNext() } c.ok(out, 'a retried call never settled'); return out }
  for (let k = r.int(8, 20); k > 0; k--) {
    const id = r.pick(['p', 'q']), op = r.pick(['get', 'put', 'delete', 'list', 'loadAll']); left = r.pick([0, 0, 1, 2, 3, 4, 6]); const planned = left; code = r.pick([undefined, 'NETWORK_ERROR', 'TIMEOUT', 'DENIED']); mode = r.pick(['before', 'after']); tries = 0
    const cur = ref.get('v', 'c', id), e = env(r, c), before = ref.snapshot(), limit = max ?? 3, t = c.clock.now
    const out = await settle(op === 'get' ? s.get('v', 'c', id) : op === 'put' ? s.put('v', 'c', id, structuredClone(e)) : op === 'delete' ? s.delete('v', 'c', id) : op === 'list' ? s.list('v', 'c') : s.loadAll('v')); left = 0
    const repeat = !codes || code === undefined || codes.includes(code); const want = planned === 0 ? 1 : repeat ? Math.min(planned, limit) + 1 : 1
    const what = `${op} failing ${planned} times${code ? ` with ${code}` : ''} (up to ${limit} repeats${codes ? ` for ${codes}` : ''})`
    c.eq(tries, want, `attempts of ${what}`); const fine = planned === 0 || (repeat && planned <= limit)
    c.ok(fine ? !out.x : out.x?.message === 'flaky', () => `${what} answered ${show(out)}`)
    if (fine) { if (op === 'get') c.eq(out.v, cur, what); if (op === 'put') c.eq(ref.get('v', 'c', id), e, `stored by ${what}`); if (op === 'delete') c.eq(ref.get('v', 'c', id), null, `left by ${what}`) } else if (mode === 'before') c.eq(ref.snapshot(), before, `stored after ${what}`)
    let least = 0; for (let q = 0; q < want - 1; q++) least += (backoff ?? 500) * 2 ** q
    c.ok(c.clock.now - t >= least, () => `${what} waited ${c.clock.now - t} ms in all, at least ${least} asked for`)
    c.count('calls'); if (planned) c.count('retried_calls'); log += op[0] + want
  }
  c.sig([max, codes, backoff, log])
}
async function breaker(c) { // the circuit: open answers are empty and touch nothing; it recovers
  const r = c.rng; const ref = newRef(); const inner = instrument(ref, {}); const threshold = r.int(1, 4); const reset = r.pick([1000, 30_000]); let opened = 0; let closed = 0
  const s = wrapStore(inner, withCircuitBreaker({ failureThreshold: threshold, resetTimeoutMs: reset, onOpen: () => opened++, onClose: () => closed++ }))
  let down = false; inner._st.fault = () => (down ? 'before' : undefined)
  let state = 'closed'; let fails = 0; let lastFail = 0; let opens = 0; let closes = 0; let log = ''
  for (let k = 0; k < r.int(25, 60); k++) {
    if (r.chance(0.15)) { down = !down }
    if (r.chance(0.2)) c.clock.set(c.clock.now + r.pick([1, reset - 1, reset, reset + 1, 5 * reset]))
    const id = r.pick(['p', 'q']); const op = r.pick(['get', 'put', 'delete', 'list', 'stale', 'loadAll', 'saveAll'])
    const calls = inner._st.log.length; const t = c.clock.now
    const cur = ref.get('v', 'c', id); if (op === 'stale' && !cur) continue
    const before = ref.snapshot()
    if (state === 'open' && t - lastFail >= reset) state = 'half'
    const e = env(r, c); let out; try { out = { v: await (op === 'get' ? s.get('v', 'c', id) : op === 'put' ? s.put('v', 'c', id, e) : op === 'stale' ? s.put('v', 'c', id, e, cur._v + 3) : op === 'delete' ? s.delete('v', 'c', id) : op === 'list' ? s.list('v', 'c') : op === 'loadAll' ? s.loadAll('v') : s.saveAll('v', { c: { [id]: e } })) } } catch (x) { out = { x } }
    c.count('calls'); log += state[0]
    if (state === 'open') {
      c.eq(out, { v: { get: null, list: [], loadAll: {} }[op] }, `${op} while the circuit is open`)
      c.ok(inner._st.log.length === calls, `${op} reached the store while the circuit is open`); c.eq(ref.snapshot(), before, 'open circuit changed the store'); c.count('open_answers')
      continue
    }
    c.ok(inner._st.log.length === calls + 1, () => `${op} with the circuit ${state} reached the store ${inner._st.log.length - calls} times`)
    if (down) { c.ok(out.x?.injected, () => `${op} hid the store's failure: ${show(out)}`); fails++; lastFail = c.clock.now; if (state === 'half') state = 'open'; else if (fails >= threshold) { state = 'open'; opens++ } } else {
      if (op === 'stale') c.ok(isConflict(out.x), () => `stale put answered ${show(out)}`)
      else { c.ok(!out.x, () => `${op} failed with ${out.x}`); if (op === 'get') c.eq(out.v, cur, 'get through a closed circuit'); if (op === 'put') c.eq(ref.get('v', 'c', id), e, 'put through a closed circuit'); if (op === 'list') c.eq(out.v.slice().sort(), Object.keys(before.v?.c ?? {}).sort(), 'list') }
      fails = 0; if (state === 'half') { closes++; state = 'closed' }
    }
    lastFail = down ? c.clock.now : lastFail
  }
  c.eq([opened, closed], [opens, closes], 'open/close notifications'); c.sig([threshold, log])
}
async function suspended(c) { // suspension: nothing touched; queued writes replay in order behind no newer write
  const r = c.rng; c.sched = new Sched(r.fork()); c.sched.enabled = false; const mk = name => { const ref = newRef(); const s = instrument(ref, { sched: c.sched, name }); return s }
  const hot = mk('hot'); const blob = mk('blob'); const small = mk('small'); const tiered = r.chance(0.5); const log = mk('log')
  const s = routeStore({ default: hot, blobs: tiered ? { large: blob, small, threshold: 50 } : blob, routes: { log } })
  const route = r.pick(['default', 'blobs', 'log']); const col = { default: 'inv', blobs: '_blob_chunks', log: 'log' }[route]; const other = route === 'default' ? 'log' : 'inv'; const ids = ['p', 'q', 's']
  const last = new Map(); const lastOther = new Map(); const put = async (k, cl, m) => { const e = env(r, c); m.set(k, e); await s.put('acme', cl, k, structuredClone(e)) }; const del = async (k, cl, m) => { m.set(k, null); await s.delete('acme', cl, k) }
  for (const k of ids) { if (r.chance(0.6)) await put(k, col, last); if (r.chance(0.6)) await put(k, other, lastOther) }
  const before = JSON.stringify([hot, blob, small, log].map(x => x._ref.snapshot()?.acme?.[col] ?? {}))
  const queue = r.chance(0.8); const drop = new Map(last); let dropped = last; s.suspend(route, queue ? { queue: true } : {})
  const n = r.int(1, 8); if (!queue) dropped = drop
  for (let k = 0; k < n; k++) { const id = r.pick(ids); const m = queue ? last : new Map(); if (r.chance(0.7)) await put(id, col, m); else await del(id, col, m); if (r.chance(0.2)) { s.suspend(route, queue ? { queue: true } : {}) } if (r.chance(0.3)) await put(id, other, lastOther) }
  c.eq(await s.get('acme', col, ids[0]), null, 'get while suspended'); c.eq(await s.list('acme', col), [], 'list while suspended'); c.count('open_answers', 2)
  c.eq(JSON.stringify([hot, blob, small, log].map(x => x._ref.snapshot()?.acme?.[col] ?? {})), before, 'suspended route was written')
  c.eq(s.routeStatus().queued[route] ?? 0, queue ? n : 0, 'queued writes reported')
  c.sched.enabled = true; const ops = []; const newer = queue ? r.int(0, 4) : 0
  const expected = new Map(last)
  ops.push(s.resume(route))
  for (let k = 0; k < newer; k++) { const id = ids[k % 3]; const delay = r.int(0, 5) + 6 * Math.floor(k / 3); const e = env(r, c); ops.push((async () => { for (let q = 0; q < delay; q++) await turn(); if (!expected.get('$' + id)) { expected.set('$' + id, []) } expected.get('$' + id).push(e); await s.put('acme', col, id, structuredClone(e)) })()) }
  const rs = await c.sched.run(ops); c.sched.drainOff()
  for (const x of rs) if (x.status === 'rejected') throw x.reason
  for (let k = 0; k < 20; k++) await turn()
  const more = s.routeStatus().suspended.includes(route) ? await s.resume(route) : 0
  if (queue) { c.ok(rs[0].value + more >= n, () => `resume reports ${rs[0].value} replayed of ${n}`); c.count('replayed', rs[0].value) }
  for (const id of ids) {
    const g = await s.get('acme', col, id); const nw = expected.get('$' + id)
    if (nw) c.ok(nw.some(e => deepEq(e, g)), () => `after resume ${col}/${id} is ${show(g)}; a queued older write replaced the newer one`, { detail: { trace: c.sched.trace } })
    else c.eq(g, dropped.get(id) ?? null, `after resume ${col}/${id}`)
    c.eq(await s.get('acme', other, id), lastOther.get(id) ?? null, `unaffected ${other}/${id}`)
  }
  c.eq((await s.list('acme', col)).slice().sort(), ids.filter(id => expected.get('$' + id) || dropped.get(id)).sort(), 'list after resume')
  c.count('calls', n + newer); c.sig([route, tiered, queue, n, newer, c.sched.trace.length])
}
async function health(c) {
  const r = c.rng; const ref = newRef(); const inner = instrument(ref, {}); let up = true; let mode = 0; let sus = 0; let res = 0; const F = r.int(1, 3); const S = r.int(1, 3)
  const s = wrapStore(inner, withHealthCheck({ checkIntervalMs: 1000, suspendAfterFailures: F, resumeAfterSuccess: S, check: async () => { if (up) return true; if (mode) throw new Error('down'); return false }, onSuspend: () => sus++, onResume: () => res++ }))
  let state = 'up'; let f = 0; let g = 0; let log = ''; let es = 0; let er = 0
  for (let k = 0; k < r.int(15, 35); k++) {
    if (r.chance(0.25)) { up = !up; mode = r.int(0, 1) }
    await c.clock.tick(1000, { settle: 2 })
    if (up) { f = 0; g++; if (state === 'down' && g >= S) { state = 'up'; g = 0; er++ } } else { g = 0; f++; if (state === 'up' && f >= F) { state = 'down'; f = 0; es++ } }
    const calls = inner._st.log.length; const e = env(r, c); const cur = ref.get('v', 'c', 'p'); const before = ref.snapshot()
    const op = r.pick(['get', 'put', 'list', 'delete', 'loadAll']); log += state[0]
    const out = await (op === 'get' ? s.get('v', 'c', 'p') : op === 'put' ? s.put('v', 'c', 'p', e) : op === 'list' ? s.list('v', 'c') : op === 'delete' ? s.delete('v', 'c', 'p') : s.loadAll('v'))
    if (state === 'down') { c.eq(out, { get: null, list: [], loadAll: {} }[op], `${op} while suspended`); c.ok(inner._st.log.length === calls, 'suspended store was touched'); c.eq(ref.snapshot(), before, 'suspended store changed'); c.count('open_answers') } else {
      c.ok(inner._st.log.length === calls + 1, () => `${op} on a healthy store did not reach it`); if (op === 'get') c.eq(out, cur, 'get'); if (op === 'put') c.eq(ref.get('v', 'c', 'p'), e, 'put')
    }
    c.count('calls')
  }
  c.eq([sus, res], [es, er], 'suspend/resume notifications'); c.sig([F, S, log])
}
async function devices(c) { // several devices on one versioned file: no acknowledged write disappears
  const r = c.rng; c.sched = new Sched(r.fork()); c.sched.enabled = false
  const useDrive = r.chance(0.3); const hop = hopper(c); const svc = bundleService(c, hop); let client; let handles
  if (useDrive) { client = driveClient(c, hop); const map = new Map(); handles = { async getHandle(v) { return map.get(v) ?? null }, async setHandle(v, h) { map.set(v, h) }, async deleteHandle(v) { map.delete(v) } } }
  const device = () => wrapBundleStore(useDrive ? drive({ drive: client, handles }) : svc)
  const first = device(); for (const id of ['p', 'q', 'shared', 'own0', 'own1', 'own2']) await first.put('acme', 'inv', id, env(r, c, 1))
  await first.put('acme', '_keyring', 'alice', env(r, c, 1))
  const nd = r.int(2, 3); const devs = Array.from({ length: nd }, device); const acked = new Map(); const tried = new Map(); const base = (await first.loadAll('acme')).inv
  for (const d of devs) if (r.chance(0.7)) await d.get('acme', 'inv', 'p')
  c.sched.enabled = true; let conflicts = 0
  const ops = devs.map(async (d, x) => {
    const n = r.int(1, 4)
    for (let k = 0; k < n; k++) {
      const id = r.weighted([[5, `own${x}`], [3, `new${x}-${r.int(0, 1)}`], [2, 'shared']]); const del = r.chance(0.25)
      const e = del ? null : { ...env(r, c, r.int(2, 9)), _ts: new Date(c.clock.now + k * 1000 + 5).toISOString() }
      ;(tried.get(id) ?? tried.set(id, []).get(id)).push(e)
      const batch = r.chance(0.2)
      try { const go = () => (del ? d.delete('acme', 'inv', id) : d.put('acme', 'inv', id, structuredClone(e))); if (batch) await d.batch('acme', go); else await go(); acked.set(id, e) } catch (err) { c.ok(err instanceof BundleVersionConflictError, () => `device write failed with ${err.name}: ${err.message}`); conflicts++; acked.delete(id); acked.set(id + '$unsure', true) }
      if (r.chance(0.3)) { const g = await d.get('acme', 'inv', 'q'); c.ok(deepEq(g, base.q), () => `record nobody touched reads as ${show(g)}`) }
    }
  })
  const rs = await c.sched.run(ops, { clock: c.clock }); c.sched.drainOff(); for (const x of rs) if (x.status === 'rejected') throw x.reason
  const fresh = device(); const all = (await fresh.loadAll('acme')).inv ?? {}
  for (const id of new Set([...Object.keys(base), ...tried.keys()])) {
    if (!tried.has(id)) { c.eq(all[id], base[id], `untouched record ${id} after the devices synchronised`); continue }
    if (acked.has(id + '$unsure')) continue
    const mine = id === 'shared' ? [...tried.get(id), ...(tried.get(id).every(x => x === null) ? [] : [])] : [acked.get(id)]
    c.ok(mine.some(e => deepEq(e ?? undefined, all[id])), () => `${useDrive ? 'drive' : 'file'}: acknowledged ${id} = ${show(mine)} but the file holds ${show(all[id])}`, { detail: { trace: c.sched.trace } })
  }
  c.ok((await fresh.list('acme', '_keyring')).length === 1, 'internal records disappeared')
  c.count('calls', tried.size); if (conflicts) c.count('device_gave_up', conflicts); c.sig([useDrive, nd, c.sched.trace.length, tried.size, conflicts])
}
// The whole-file stores themselves, one call at a time from several devices on one folder: a write
// is accepted only on top of the revision the caller last saw, a refused one changes nothing, and
// reads, deletes and listings describe exactly the files that are there.
async function files(c) {
  const r = c.rng; const kind = r.pick(['drive', 'icloud']); const suffix = r.pick(['.noydb', '.nvault']); const VS = ['acme', 'globex', 'acme.noydb', 'acme-2', 'glob']
  let rev = 0; const disk = new Map(); const stubs = new Map(); let names = () => []; let canDownload = r.chance(0.7)
  const indexed = r.chance(0.6); let make; let vanish; let offload; let rival; const clash = new Set()
  if (kind === 'drive') {
    const byId = new Map(); const map = new Map(); const meta = f => ({ id: f.id, name: f.name, headRevisionId: f.rev, size: f.bytes.length })
    const client = {
      async createFile(q) { const f = { id: `f${++rev}`, name: q.name, bytes: q.bytes.slice(), rev: `v${++rev}`, parents: [...q.parents] }; byId.set(f.id, f); return meta(f) },
      async updateFile(id, q) { const f = byId.get(id); if (!f) throw new Error('404'); if (q.expectedRevision != null && q.expectedRevision !== f.rev) throw new BundleVersionConflictError(f.rev); f.bytes = q.bytes.slice(); f.rev = `v${++rev}`; return meta(f) },
      async getFileMetadata(id) { const f = byId.get(id); return f ? meta(f) : null }, async getFileBytes(id) { return byId.get(id)?.bytes.slice() ?? null },
      async deleteFile(id) { if (!byId.delete(id)) throw new Error('404') },
      async listFiles(q) { return [...byId.values()].filter(f => !q.parents || q.parents.some(p => f.parents.includes(p))).map(meta) },
    }
    byId.set('other', { id: 'other', name: 'holiday.jpg', bytes: new Uint8Array(3), rev: 'v0', parents: ['appDataFolder'] })
    const handles = { async getHandle(v) { return map.get(v) ?? null }, async setHandle(v, h) { map.set(v, h) }, async deleteHandle(v) { map.delete(v) }, ...(indexed ? { async listHandles() { return [...map].map(([vaultId, handle]) => ({ vaultId, handle })) } } : {}) }
    make = () => drive({ drive: client, handles, suffix }); names = () => [...byId.values()].filter(f => f.id !== 'other').map(f => f.name)
    vanish = v => { const h = map.get(v); if (h) byId.delete(h.fileId) }
  } else {
    const dir = '/cloud'; const path = v => `${dir}/${v}${suffix}`
    disk.set(`${dir}/holiday.jpg`, { data: new Uint8Array(3), mtimeMs: 1 }); rev = 1
    const fs = {
      async readFile(p) { return disk.get(p)?.data.slice() ?? null }, async writeFile(p, data) { disk.set(p, { data: new Uint8Array(data), mtimeMs: ++rev }) },
      async unlink(p) { if (p.endsWith('.icloud')) stubs.delete(p); else if (!disk.delete(p)) throw new Error('ENOENT') },
      async readdir(p) { return [...disk.keys(), ...stubs.keys()].filter(f => f.startsWith(p + '/')).map(f => f.slice(p.length + 1)) },
      async stat(p) { const f = disk.get(p); return f ? { mtimeMs: f.mtimeMs, size: f.data.length } : stubs.has(p) ? { mtimeMs: 0, size: 0 } : null },
      ...(canDownload ? { async triggerDownload(p) { const f = stubs.get(p); if (f) { stubs.delete(p); disk.set(p.replace(/\.icloud$/, ''), f) } } } : {}),
    }
    make = () => icloud({ folder: r.chance(0.3) ? dir + '/' : dir, fs, suffix })
    vanish = v => { disk.delete(path(v)) }
    offload = v => { const f = disk.get(path(v)); if (f) { disk.delete(path(v)); stubs.set(path(v) + '.icloud', f); return true } return false }
    rival = v => { const p = `${dir}/${v} (conflicted copy 2026-04-23)${suffix}`; disk.set(p, { data: new Uint8Array(2), mtimeMs: ++rev }); return () => disk.delete(p) }
  }
  const devs = [make(), make()]; const model = new Map(); const off = new Set(); const known = [new Map(), new Map()]; let log = kind[0]; let conflict = null
  const text = v => new TextEncoder().encode(`${v}#${++rev}` + 'x'.repeat(r.pick([0, 0, 40])))
  const verify = async () => {
    for (const v of VS) {
      if (off.has(v)) { if (canDownload) continue; let e; try { await devs[0].readBundle(v) } catch (x) { e = x } c.ok(e, `${kind}: an offloaded file read as if it were there`); continue }
      const got = await devs[r.int(0, 1)].readBundle(v); const m = model.get(v)
      c.eq(got && { bytes: [...got.bytes], version: got.version }, m ? { bytes: [...m.bytes], version: m.version } : null, `${kind}: file of ${v}`); c.count('fileReads')
    }
    if (conflict) return
    const here = [...model].filter(([v]) => !off.has(v)); const listed = await devs[r.int(0, 1)].listBundles()
    const key = x => JSON.stringify(x)
    if (kind === 'drive' && !indexed) c.eq(listed.map(x => key([x.version, x.size])).sort(), here.map(([, m]) => key([m.version, m.bytes.length])).sort(), 'drive: listing without an index')
    else c.eq(listed.map(x => key([x.vaultId, x.version, x.size])).sort(), here.map(([v, m]) => key([v, m.version, m.bytes.length])).sort(), `${kind}: listing`)
    for (const n of names()) c.ok(n.endsWith(suffix) && !/acme|glob/.test(n), () => `file name ${n} tells which vault it holds`)
  }
  const n = r.int(4, 14)
  for (let k = 0; k < n; k++) {
    const x = r.int(0, 1); const d = devs[x]; const v = r.pick(VS.slice(0, r.int(2, 5))); const m = model.get(v)
    const op = r.weighted([[6, 'write'], [3, 'read'], [2, 'delete'], [1, 'vanish'], [2, 'offload'], [1, 'rival']]); log += op[0]
    if (op === 'read') {
      let got; let err; try { got = await d.readBundle(v) } catch (e) { err = e }
      if (off.has(v) && !canDownload) { c.ok(err, 'an offloaded file read as if it were there'); continue }
      if (err) throw err
      c.eq(got && [...got.bytes], m ? [...m.bytes] : null, `${kind}: read of ${v}`); off.delete(v); if (got) c.eq(got.version, m.version, `${kind}: revision of ${v}`); known[x].set(v, got?.version ?? null)
    } else if (op === 'write') {
      const expected = r.chance(0.75) ? known[x].get(v) ?? null : r.pick([null, 'other-revision', m?.version ?? null]); const bytes = text(v); let got; let err
      try { got = await d.writeBundle(v, bytes, expected) } catch (e) { err = e }
      if (err) c.ok(err instanceof BundleVersionConflictError, () => `${kind}: refused with ${err.name}: ${err.message}`)
      const must = conflict?.v === v ? 'refuse' : off.has(v) ? 'refuse' : m ? (expected === m.version ? 'accept' : 'refuse') : expected === null ? 'accept' : 'either'
      if (conflict && conflict.v !== v && err) { log += '~' } else if (must === 'accept') c.ok(!err, () => `${kind}: a write on top of the current revision was refused: ${err.message}`)
      else if (must === 'refuse') c.ok(err, () => `${kind}: a write expecting ${expected} replaced ${v} at ${m?.version}${off.has(v) ? ' (offloaded)' : ''}`)
      if (err) { c.count('fileRefusals'); log += '!' } else { model.set(v, { bytes, version: got.version }); known[x].set(v, got.version); c.ok(!m || m.version !== got.version, 'a write kept the old revision'); c.count('fileWrites') }
    } else if (op === 'delete') { await d.deleteBundle(v); if (r.chance(0.3)) await d.deleteBundle(v); model.delete(v); off.delete(v); known[x].delete(v); c.count('fileDeletes') }
    else if (op === 'vanish') { if (m && !off.has(v)) { vanish(v); model.delete(v); for (const kn of known) kn.delete(v); c.eq(await d.readBundle(v), null, `${kind}: a file removed behind the store's back`) } }
    else if (op === 'offload') { if (offload?.(v)) { off.add(v); c.count('fileOffloads') } }
    else if (rival) { if (conflict) { conflict.undo(); conflict = null } else if (m) conflict = { v, undo: rival(v) } }
    if (r.chance(0.4)) await verify()
  }
  if (conflict) { conflict.undo(); conflict = null } await verify()
  c.count('calls', n); c.sig([log, suffix, indexed, canDownload])
}
class Bus { static all = []; static sched = null
  constructor(name) { this.name = name; this.ls = new Set(); this.closed = false; Bus.all.push(this) }
  addEventListener(_, f) { this.ls.add(f) } removeEventListener(_, f) { this.ls.delete(f) }
  postMessage(d) { if (this.closed) throw new Error('closed'); const to = Bus.all.filter(b => b !== this && b.name === this.name && !b.closed); for (const b of to) { b.q = (b.q ?? Promise.resolve()).then(async () => { const g = Bus.sched?.gate('bus'); if (g) await g; if (!b.closed) for (const f of b.ls) f({ data: d }) }) } }
  close() { this.closed = true }
}
async function peers(c) { // several clients on one channel: each request gets its own answer, once
  const r = c.rng; c.sched = new Sched(r.fork()); c.sched.enabled = false; const tabs = r.chance(0.7); const nc = tabs ? r.int(2, 4) : 1
  const ref = newRef(); const inner = instrument(ref, { sched: c.sched, keepLog: true }); const clients = []; const chans = []
  const real = globalThis.BroadcastChannel; Bus.all = []; Bus.sched = c.sched; globalThis.BroadcastChannel = Bus; c.cleanup(() => { globalThis.BroadcastChannel = real })
  const timeoutMs = r.pick([2 ** 40, 2 ** 40, 5000]); let serverCh; let stop
  if (tabs) { serverCh = tabsChannel({ name: 'x' }); stop = servePeerStore({ channel: serverCh, store: inner }); for (let k = 0; k < nc; k++) { const ch = tabsChannel({ name: 'x' }); chans.push(ch); clients.push(peerStore({ channel: ch, timeoutMs })) } } else { const [a, b] = pairInMemory(); serverCh = b; stop = servePeerStore({ channel: b, store: inner }); chans.push(a); clients.push(peerStore({ channel: a, timeoutMs })) }
  globalThis.BroadcastChannel = real
  for (const k of ['p', 'q']) for (let x = 0; x < nc; x++) ref.put('acme', 'inv', `${x}${k}`, env(r, c, 1))
  c.sched.enabled = true; const closeAt = r.chance(0.4) ? r.int(1, 8) : 0; const faulty = r.chance(0.4); let done = 0; let failed = 0
  if (faulty) inner._st.fault = () => (r.chance(0.15) ? 'before' : undefined)
  const closed = new Set(); const seenPuts = new Map()
  const ops = clients.map(async (s, x) => {
    for (let k = 0; k < r.int(2, 5); k++) {
      const id = `${x}${r.pick(['p', 'q'])}`; const op = r.weighted([[4, 'get'], [4, 'put'], [2, 'stale'], [1, 'list'], [1, 'del']])
      const cur = ref.get('acme', 'inv', id); const e = env(r, c, r.int(2, 9)); const isPut = op === 'put' || op === 'stale'
      if (isPut) seenPuts.set(e._data, 0)
      try {
        if (op === 'get') { const g = await s.get('acme', 'inv', id); c.ok(deepEq(g, cur), () => `client ${x} asked for ${id} and got ${show(g)} instead of ${show(cur)}`) }
        else if (op === 'list') { const l = await s.list('acme', 'inv'); c.ok(Array.isArray(l) && l.every(y => /^\d[pq]$/.test(y)), () => `list answered ${show(l)}`) }
        else if (op === 'del') { await s.delete('acme', 'inv', id); c.ok(ref.get('acme', 'inv', id) === null, `delete of ${id} acknowledged but not done`) }
        else if (op === 'put') { await s.put('acme', 'inv', id, structuredClone(e)); c.ok(deepEq(ref.get('acme', 'inv', id), e), () => `client ${x}: put of ${id} acknowledged but the store holds ${show(ref.get('acme', 'inv', id))}`) }
        else if (cur) { let err; try { await s.put('acme', 'inv', id, structuredClone(e), cur._v + 5) } catch (q) { err = q } if (!err) c.fail(`client ${x}: stale put of ${id} was acknowledged`); if (isConflict(err)) c.eq(err.version, cur._v, 'conflict version over the wire'); else throw err }
        done++; c.count('peer_answers')
      } catch (err) { if (err.name === 'Violation') throw err; const expectFail = closed.has(x) || closed.has('server') || faulty || timeoutMs === 5000; c.ok(expectFail, () => `client ${x}: ${op} failed with ${err.name}: ${err.message}`); failed++; if (closed.has(x)) return }
    }
  })
  if (closeAt) ops.push((async () => { for (let k = 0; k < closeAt * 3; k++) await turn(); const x = r.int(0, nc - 1); closed.add(x); if (!tabs) closed.add('server'); chans[x].close() })())
  const rs = await c.sched.run(ops, { clock: c.clock }); c.sched.drainOff()
  for (const x of rs) if (x.status === 'rejected') throw x.reason
  for (const ev of inner._st.log) if (ev.op === 'put') { const d = ev.args[3]?._data; if (seenPuts.has(d)) seenPuts.set(d, seenPuts.get(d) + 1) }
  for (const [d, k] of seenPuts) c.ok(k <= 1, () => `one put reached the store ${k} times (${d.slice(0, 8)})`)
  for (const s of clients) s.dispose(); stop()
  c.count('calls', done + failed); if (done) c.sig([tabs, nc, closeAt, faulty, done, failed, c.sched.trace.length])
}
const clock = { timers: true, auto: 0 }
export const scenarios = [
  { name: 'sequence', quick: 10000, run: sequence, clock },
  { name: 'overlap', quick: 10000, run: overlap, clock },
  { name: 'faulty', quick: 6000, run: faulty, clock },
  { name: 'breaker', quick: 2500, run: breaker, clock },
  { name: 'retries', quick: 2500, run: retries, clock },
  { name: 'health', quick: 1000, run: health, clock },
  { name: 'suspended', quick: 4000, run: suspended, clock },
  { name: 'devices', quick: 5000, run: devices, clock },
  { name: 'files', quick: 6000, run: files, clock },
  { name: 'peers', quick: 5000, run: peers, clock },
]
