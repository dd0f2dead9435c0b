// Change notifications and live views: every event is matched one to one against the
// acknowledged mutations, and every view is compared with a recomputation once quiet.
import { open, newRef, instrument } from '../lib/world.mjs'
import { Sched, turn } from '../lib/sched.mjs'
import { show } from '../lib/child.mjs'
import { z } from 'zod'
import { ref as fkRef, count, sum } from '@noy-db/hub'
import { collectionStore, queryStore, syncStore } from '@noy-db/in-svelte'
import { createNoydbStore } from '@noy-db/in-zustand'
import { createStore } from 'zustand/vanilla'
import { createCollectionSignal, createQuerySignal } from '@noy-db/in-solid'
import { createRoot as solidRoot } from 'solid-js'
import { useCollection as vueCollection, useBlobURL, useSync as vueSync } from '@noy-db/in-vue'
import { effectScope, createApp, createRenderer, ref as vueRef } from 'vue'
import { defineNoydbStore } from '@noy-db/in-pinia'
import { createPinia, setActivePinia } from 'pinia'
import { QueryClient, QueryObserver } from '@tanstack/query-core'
import { collectionListOptions, collectionQueryOptions, collectionGetOptions, collectionPutOptions, collectionDeleteOptions, bindInvalidation } from '@noy-db/in-tanstack-query'
import { Window } from 'happy-dom'

export const meta = {
  property: 'C09', level: 'exploration',
  rule: 'distinct by (mode, view kinds, released interleaving of storage calls or operation list)',
  assumptions: ['transactions that fail and are rolled back are outside the statement', 'deleting a record that does not exist may or may not be announced', 'writes reported as failed are injected before they reach the backend'],
  minimums: { events_matched: 20000, live_comparisons: 5000, view_comparisons: 1000, after_stop_windows: 500, throwing_subscribers: 500, failed_mutations: 300, writes_through_views: 500, switched_views: 1200, indicator_checks: 5000 },
}
const MODES = { eager: {}, idx: { indexes: ['n'] }, lazy: { prefetch: false, cache: { maxRecords: 2 } }, 'lazy-one': { prefetch: false, cache: { maxRecords: 1 } } }
const IDS = ['a', 'b', 'c', 'd']
const schema = z.object({ id: z.string(), u: z.number(), n: z.number(), to: z.string().optional() })
const rec = (r, id, u) => ({ id, u, n: r.int(0, 2) })
const FEAT = ['history', 'index', 'tx', 'aggregate', 'crdt']
const quiet = async (n = 12) => { for (let i = 0; i < n; i++) await turn() }
const byU = l => l.map(x => x.u).sort((a, b) => a - b)

// ---- events -----------------------------------------------------------------------------
async function events(c) {
  const r = c.rng
  const mode = r.pick(Object.keys(MODES)); const overlap = r.chance(0.6)
  const ref = newRef(); const sched = new Sched(r.fork('s')); sched.enabled = false
  const store = instrument(ref, { sched, keepLog: false })
  const { db, v } = await open(store, { features: FEAT })
  const coll = v.collection('docs', { ...MODES[mode], schema }); const other = v.collection('other'); const v2 = await db.openVault('beta'); const twin = v2.collection('docs')
  let u = 0
  for (const id of IDS) if (r.chance(0.4)) await coll.put(id, rec(r, id, ++u))
  const got = []; const sub = []; const order = []; let thrown = 0
  const bad = () => { thrown++; throw new Error('subscriber failure') }
  const throwing = r.chance(0.6)
  if (throwing) { db.on('change', bad); if (r.chance(0.5)) coll.subscribe(bad) }
  let t = 0; const acked = []
  const handler = e => {
    const x = { ...e, at: ++t }; got.push(x)
    // the mutation must be readable when it is announced
    if (e.collection === 'docs' && e.vault === 'acme') { order.push(e.id); if (mode === 'eager' || mode === 'idx') { const q = coll.query().where('id', '==', e.id).toArray(); x.saw = q.map(y => y.u) } else x.stored = ref.get('acme', 'docs', e.id)?._v ?? null }
  }
  db.on('change', handler)
  let unsub = coll.subscribe(e => { sub.push({ ...e, at: ++t }) })
  let removed = 0; const gone = () => { removed++ }
  db.on('change', gone); db.off('change', gone)
  if (throwing && r.chance(0.5)) db.on('change', bad)
  let stopped = false; const stopAt = overlap ? r.int(2, 14) : Infinity
  sched.enabled = overlap
  const act = async r2 => {
    const op = r2.weighted([[6, 'put'], [3, 'del'], [2, 'many'], [1, 'delMany'], [1, 'atomic'], [1, 'tx'], [1, 'other'], [1, 'twin'], [2, 'bad'], [2, 'fault'], [1, 'get']])
    const id = r2.pick(IDS); const inv = ++t
    const ack = (vault, collection, id, action, extra = {}) => acked.push({ vault, collection, id, action, inv, res: ++t, ...extra })
    const existed = i => ref.get('acme', 'docs', i) !== null
    if (op === 'put') { const x = rec(r2, id, ++u); await coll.put(id, x); ack('acme', 'docs', id, 'put', { u: x.u }) }
    else if (op === 'del') { const was = existed(id); await coll.delete(id); ack('acme', 'docs', id, 'delete', { optional: overlap || !was }) }
    else if (op === 'many' || op === 'atomic') { const items = r2.sample(IDS, 2).map(i => [i, rec(r2, i, ++u)]); const res = await coll.putMany(items, op === 'atomic' ? { atomic: true } : undefined); c.ok(res.ok, () => `bulk put failed ${show(res)}`); for (const [i, x] of items) ack('acme', 'docs', i, 'put', { u: x.u }) }
    else if (op === 'delMany') { const ids = r2.sample(IDS, 2); const was = ids.map(existed); await coll.deleteMany(ids); ids.forEach((i, k) => ack('acme', 'docs', i, 'delete', { optional: overlap || !was[k] })) }
    else if (op === 'tx') { const [a, b] = r2.sample(IDS, 2); const x = rec(r2, a, ++u); const was = existed(b); await db.transaction(async tx => { const q = tx.vault('acme').collection('docs'); q.put(a, x); q.delete(b) }); ack('acme', 'docs', a, 'put', { u: x.u }); ack('acme', 'docs', b, 'delete', { optional: overlap || !was }) }
    else if (op === 'other') { await other.put(id, { u: ++u }); ack('acme', 'other', id, 'put') }
    else if (op === 'twin') { await twin.put(id, { u: ++u }); ack('beta', 'docs', id, 'put') }
    else if (op === 'bad') { let e; try { await coll.put(id, { id, u: 'not a number' }) } catch (x) { e = x } c.ok(e, 'a record violating its schema was accepted'); c.count('failed_mutations') }
    else if (op === 'fault' && !overlap) {
      const del = r2.chance(0.4); let hit = false
      store._st.fault = ev => { if (!hit && (ev.op === 'put' || ev.op === 'delete') && ev.coll === 'docs' && ev.id === id) { hit = true; return 'before' } }
      let e; const n0 = got.length; try { if (del) await coll.delete(id); else await coll.put(id, rec(r2, id, ++u)) } catch (x) { e = x } store._st.fault = null
      if (hit) { c.ok(e, 'a write whose storage call failed was acknowledged'); await quiet(3); c.eq(got.length, n0, 'a failed mutation was announced'); c.count('failed_mutations') } else if (!e) ack('acme', 'docs', id, del ? 'delete' : 'put', { optional: del })
    } else if (op === 'get') await coll.get(id)
    if (!stopped && t > stopAt * 3 && overlap) { stopped = true; unsub(); sub.stoppedAt = sub.length }
  }
  if (overlap) { const rs = await sched.run(Array.from({ length: r.int(2, 4) }, (_, k) => (async r2 => { const m = r2.int(1, 4); for (let j = 0; j < m; j++) await act(r2) })(r.fork('k' + k)))); for (const x of rs) if (x.status === 'rejected') throw x.reason; await sched.run([quiet(10)]); sched.drainOff(); sched.enabled = false } else { const m = r.int(3, 12); for (let j = 0; j < m; j++) { await act(r); if (r.chance(0.5)) await quiet(2) } }
  await quiet()
  if (throwing) { c.count('throwing_subscribers'); c.ok(thrown > 0 || got.length === 0, 'the throwing subscriber was never called') }
  c.eq(removed, 0, 'a removed handler was called')
  // one event per acknowledged mutation
  const rest = got.slice()
  for (const a of acked.slice().sort((x, y) => (x.optional ? 1 : 0) - (y.optional ? 1 : 0) || x.res - y.res)) {
    // an event belongs to a mutation if it fell between its invocation and acknowledgement
    const i = rest.findIndex(e => e.vault === a.vault && e.collection === a.collection && e.id === a.id && e.action === a.action && e.at > a.inv && e.at < a.res)
    if (i < 0) { c.ok(a.optional, () => `acknowledged ${a.action} of ${a.vault}/${a.collection}/${a.id} was not announced (mode ${mode}${throwing ? ', with a throwing subscriber' : ''})`); continue }
    const e = rest.splice(i, 1)[0]; c.count('events_matched')
    if (!overlap && e.saw) c.eq(e.saw, a.action === 'put' && acked.filter(y => y.inv === a.inv && y.id === a.id).length === 1 ? [a.u] : e.saw, 'announced before the new state was readable')
    if (!overlap && e.stored !== undefined) c.ok(a.action === 'put' ? e.stored !== null : e.stored === null, 'announced before the backend held the new state')
  }
  c.ok(rest.length === 0, () => `unexpected or duplicate announcements ${show(rest)} (acknowledged ${show(acked, 900)})`)
  // subscribe() sees the same puts and deletes of its collection, each once
  const mineGot = got.filter(e => e.vault === 'acme' && e.collection === 'docs')
  if (stopped) { c.count('after_stop_windows'); c.eq(sub.length, sub.stoppedAt, 'a subscriber was called after it had unsubscribed') } else {
    c.eq(sub.map(e => e.type + e.id).sort(), mineGot.map(e => e.action + e.id).sort(), 'collection subscribers and global listeners disagree')
    const mirror = {}; for (const e of sub) { if (e.type === 'delete' || e.record === null) delete mirror[e.id]; else { c.ok(e.record.id === e.id, 'notification carries another record'); mirror[e.id] = e.record.u } }
    const truth = {}; for (const id of IDS) { const x = await coll.get(id); if (x) truth[id] = x.u }
    for (const e of sub) if (!(e.id in truth)) c.ok(!(e.id in mirror), () => `following the notifications leaves deleted record ${e.id} alive`); else c.eq(mirror[e.id], truth[e.id], `following the notifications gives a stale value for ${e.id} (mode ${mode})`)
    unsub(); const n = sub.length; c.count('after_stop_windows')
    await coll.put('a', rec(r, 'a', ++u)); await quiet(3); c.eq(sub.length, n, 'a subscriber was called after it had unsubscribed')
  }
  c.sig([mode, overlap, throwing, overlap ? sched.trace.join() : acked.map(a => a.action + a.id).join()])
}

// ---- live queries -----------------------------------------------------------------------
const LIVE = ['all', 'where', 'order', 'limit', 'join', 'agg', 'group']
async function live(c) {
  const r = c.rng
  const mode = r.pick(['eager', 'idx']); const cold = r.chance(0.5)
  const ref = newRef(); const sched = new Sched(r.fork('s')); sched.enabled = false
  const store = instrument(ref, { sched, keepLog: false })
  const openIt = async () => { const { db, v } = await open(store, { features: FEAT }); return { db, v, targets: v.collection('targets'), coll: v.collection('docs', { ...MODES[mode], refs: { to: fkRef('targets', 'warn') } }) } }
  let w = await openIt(); let u = 0
  for (const k of ['x', 'y']) await w.targets.put(k, { id: k, name: 'T' + k })
  const mk = (r2, id) => ({ ...rec(r2, id, ++u), to: r2.pick(['x', 'y', 'zz']) })
  for (const id of IDS) if (r.chance(0.6)) await w.coll.put(id, mk(r, id))
  if (cold) w = await openIt(); else await w.coll.count()
  const { coll, targets, db } = w
  if (!cold || r.chance(0.5)) await targets.count()
  const build = {
    all: () => coll.query(), where: () => coll.query().where('n', '==', 1), order: () => coll.query().orderBy('u', 'desc'), limit: () => coll.query().where('n', '>=', 1).orderBy('u').limit(2), join: () => coll.query().join('to', { as: 't' }),
    agg: () => coll.query().where('n', '<', 2).aggregate({ c: count(), s: sum('u') }), group: () => coll.query().groupBy('n').aggregate({ c: count(), s: sum('u') }),
  }
  const exec = k => { const q = build[k](); return ['agg', 'group'].includes(k) ? q.run() : q.toArray() }
  const views = []
  const add = k => { const l = build[k]().live(); const x = { k, l, shown: l.value, calls: 0, stoppedAt: null }; l.subscribe(() => { x.calls++; x.shown = l.value }); if (r.chance(0.3)) l.subscribe(() => { throw new Error('view failure') }); if (r.chance(0.2)) { const o = l.subscribe(() => { x.late = true }); o() } views.push(x) }
  for (const k of r.sample(LIVE, r.int(1, 4))) add(k)
  sched.enabled = r.chance(0.7)
  const client = async r2 => {
    const m = r2.int(1, 5)
    for (let j = 0; j < m; j++) {
      const id = r2.pick(IDS)
      const op = r2.weighted([[6, 'put'], [3, 'del'], [1, 'many'], [1, 'tx'], [2, 'target'], [1, 'add'], [1, 'stop']])
      if (op === 'put') await coll.put(id, mk(r2, id)); else if (op === 'del') await coll.delete(id)
      else if (op === 'many') await coll.putMany(r2.sample(IDS, 2).map(i => [i, mk(r2, i)]))
      else if (op === 'tx') await db.transaction(async tx => { const t = tx.vault('acme').collection('docs'); t.put(id, mk(r2, id)); t.delete(r2.pick(IDS.filter(x => x !== id))) })
      else if (op === 'target') { if (r2.chance(0.7)) await targets.put('x', { id: 'x', name: 'T' + ++u }); else await targets.put('zz', { id: 'zz', name: 'Z' + ++u }) }
      else if (op === 'add') { if (views.length < 6) add(r2.pick(LIVE)) }
      else { const x = r2.pick(views); if (x.stoppedAt === null) { x.l.stop(); x.stoppedAt = x.calls } }
    }
  }
  if (sched.enabled) { const rs = await sched.run(Array.from({ length: r.int(1, 3) }, (_, k) => client(r.fork('k' + k)))); for (const x of rs) if (x.status === 'rejected') throw x.reason; await sched.run([quiet(10)]); sched.drainOff(); sched.enabled = false } else await client(r)
  await quiet(); await coll.count(); await targets.count(); await quiet()
  for (const x of views) {
    c.ok(!x.late, 'an unsubscribed callback of a live view was called')
    if (x.stoppedAt !== null) { c.count('after_stop_windows'); c.eq(x.calls, x.stoppedAt, `live ${x.k} called back after stop`); continue }
    c.count('live_comparisons'); const want = exec(x.k)
    c.eq(x.l.error ?? null, null, `live ${x.k} reports an error`)
    c.eq(JSON.parse(JSON.stringify(x.l.value)), JSON.parse(JSON.stringify(want)), `live ${x.k} does not show the current data (${cold ? 'opened before the records were loaded' : 'loaded'}, ${mode})`)
    c.eq(JSON.parse(JSON.stringify(x.shown)), JSON.parse(JSON.stringify(want)), `what the subscriber of live ${x.k} last saw is not the current data`)
    x.l.stop(); x.stoppedAt = x.calls
  }
  await coll.put('a', mk(r, 'a')); await quiet(3)
  for (const x of views) c.eq(x.calls, x.stoppedAt, `live ${x.k} called back after stop`)
  c.sig([mode, cold, views.map(x => x.k), sched.trace.join()]); c.sample({ mode, cold, views: views.map(x => x.k) })
}

// ---- framework bindings -----------------------------------------------------------------
let dom
async function react() {
  if (!dom) {
    const w = new Window(); dom = w; globalThis.window = w; globalThis.document = w.document
    globalThis.HTMLElement ??= w.HTMLElement; globalThis.HTMLIFrameElement ??= w.HTMLIFrameElement; globalThis.Node ??= w.Node
  }
  const [R, D, N] = await Promise.all([import('react'), import('react-dom/client'), import('@noy-db/in-react')]); return { R: R.default ?? R, createRoot: (D.default ?? D).createRoot, N }
}
const KINDS = ['svelte-list', 'svelte-query', 'svelte-slow', 'zustand', 'solid-list', 'solid-query', 'solid-slow', 'vue', 'pinia', 'pinia-store', 'tanstack', 'tanstack-query', 'tanstack-get', 'react-list', 'react-query', 'react-slow', 'svelte-sync']
async function views(c) {
  const r = c.rng
  const kind = KINDS[c.i % KINDS.length]; const cold = r.chance(0.6)
  const ref = newRef(); const sched = new Sched(r.fork('s')); sched.enabled = false
  const store = instrument(ref, { sched, keepLog: false })
  let w = await open(store, { features: FEAT }); let u = 0
  for (const id of IDS) if (r.chance(0.6)) await w.v.collection('docs').put(id, rec(r, id, ++u))
  if (cold) { w = await open(store, { features: FEAT, vault: kind === 'vue' || kind.startsWith('pinia') ? undefined : 'acme' }); if (!w.v) w.v = await w.db.openVault('acme') }
  const { db, v } = w; const coll = v.collection('docs')
  sched.enabled = r.chance(0.8)
  // an asynchronous builder whose earlier runs may finish after later ones
  const waits = []; const slow = q => { const l = q.where('n', '>=', 1).toArray(); return new Promise(res => waits.push(() => res(l))) }
  const flushSlow = () => { while (waits.length) waits.splice(r.int(0, waits.length - 1), 1)[0]() }
  const plain = q => q.where('n', '>=', 1).toArray()
  let shown; let stop = () => {}; let calls = 0; let view = 'list'; let slowOnes = false; let readNow = null; let write = null
  if (kind === 'svelte-list') { const s = collectionStore(v, 'docs'); s.subscribe(x => { calls++; shown = x.records }); stop = () => s.stop() }
  else if (kind === 'svelte-query' || kind === 'svelte-slow') { view = 'query'; slowOnes = kind === 'svelte-slow'; const s = queryStore(v, 'docs', slowOnes ? slow : plain); s.subscribe(x => { calls++; shown = x.data }); stop = () => s.stop() }
  else if (kind === 'svelte-sync') { view = 'last'; const s = syncStore(db); s.subscribe(x => { calls++; shown = x.lastEvent }); stop = () => s.stop() }
  else if (kind === 'zustand') { const s = createStore(createNoydbStore(() => coll)); s.subscribe(x => { calls++; shown = Object.values(x.records) }); stop = () => s.getState()._unsubscribe(); readNow = () => s.getState().records; c.loose = true; if (r.chance(0.5)) write = { put: (id, x) => s.getState().put(id, x), del: id => s.getState().remove(id) } }
  else if (kind === 'solid-list') { solidRoot(d => { const [rows] = createCollectionSignal(v, 'docs'); readNow = rows; stop = d }) }
  else if (kind === 'solid-query' || kind === 'solid-slow') { view = 'query'; slowOnes = kind === 'solid-slow'; solidRoot(d => { const [data] = createQuerySignal(v, 'docs', slowOnes ? slow : plain); readNow = data; stop = d }) }
  else if (kind === 'vue') { const sc = effectScope(); sc.run(() => { const x = vueCollection(db, 'acme', 'docs'); readNow = () => x.data.value }); stop = () => sc.stop() }
  else if (kind === 'pinia') { view = 'query'; const p = createPinia(); setActivePinia(p); const useS = defineNoydbStore('docs' + c.i, { vault: 'acme', collection: 'docs', noydb: db }); const s = useS(p); const rdy = s.$ready; if (sched.enabled) await sched.one(rdy); else await rdy; const lq = s.liveQuery(q => q.where('n', '>=', 1)); readNow = () => lq.items.value; stop = () => lq.stop() }
  else if (kind === 'pinia-store') { // a store that is written through: its items follow its own writes
    const p = createPinia(); setActivePinia(p); const s = defineNoydbStore('st' + c.i, { vault: 'acme', collection: 'docs', noydb: db, ...(r.chance(0.3) ? { prefetch: false } : {}) })(p); const rdy = s.$ready; if (r.chance(0.6)) { if (sched.enabled) await sched.one(rdy); else await rdy } else void rdy.catch(() => {})
    let wrote = false; write = { put: (id, x) => { wrote = true; return (r.chance(0.5) ? s.add : s.update)(id, x) }, del: id => { wrote = true; return s.remove(id) }, end: async () => { if (!wrote) await s.refresh(); c.eq(s.count, s.items.length, 'pinia count'); for (const x of s.items) c.eq(s.byId(x.id), x, 'pinia byId()'); c.ok(s.byId('nobody') === undefined, 'pinia byId() of an unknown id'); c.eq(byU(s.query().toArray()), byU(s.items), 'pinia query()') } }; readNow = () => s.items
  }
  else if (kind.startsWith('tanstack')) {
    const qc = new QueryClient({ defaultOptions: { queries: { retry: false, gcTime: Infinity } } }); const un = bindInvalidation(qc, 'acme', 'docs', coll)
    const o = kind === 'tanstack' ? collectionListOptions('acme', 'docs', () => coll) : kind === 'tanstack-get' ? collectionGetOptions('acme', 'docs', 'a', () => coll) : collectionQueryOptions('acme', 'docs', () => coll, plain)
    view = kind === 'tanstack' ? 'list' : kind === 'tanstack-get' ? 'get' : 'query'
    if (r.chance(0.5)) { const po = collectionPutOptions(() => coll), dl = collectionDeleteOptions(() => coll); write = { put: (id, record) => po.mutationFn({ id, record }), del: id => dl.mutationFn({ id }) } }
    const ob = new QueryObserver(qc, o); const un2 = ob.subscribe(x => { calls++; shown = x.data }); stop = () => { un(); un2(); qc.clear() }
  } else {
    const { R, createRoot, N } = await react(); const el = document.createElement('div'); const root = createRoot(el)
    view = kind === 'react-list' ? 'list' : 'query'; slowOnes = kind === 'react-slow'
    const f = slowOnes ? slow : plain
    const Comp = () => { const s = kind === 'react-list' ? N.useCollection(v, 'docs') : N.useQuery(v, 'docs', f); calls++; shown = s.data; return null }
    root.render(R.createElement(Comp)); stop = () => root.unmount(); await quiet(4)
  }
  let last = null; const told = {}, done = {}; db.on('change', e => { last = e; if (e.action === 'put') told[e.id] = (told[e.id] ?? 0) + 1 })
  const client = async r2 => {
    const m = r2.int(1, 4)
    for (let j = 0; j < m; j++) {
      const id = r2.pick(IDS); const op = r2.weighted([[6, 'put'], [3, 'del'], [1, 'many'], [1, 'flush']])
      if (op === 'put') await (write ?? coll).put(id, rec(r2, id, ++u)); else if (op === 'del') await (write ? write.del(id) : coll.delete(id)); else if (op === 'many' && !write) await coll.putMany(r2.sample(IDS, 2).map(i => [i, rec(r2, i, ++u)])); else flushSlow()
      if (op === 'put') { done[id] = (done[id] ?? 0) + 1; c.ok((told[id] ?? 0) >= done[id], `a write through the ${kind} view reported success before it was made`) }
      if (write && (op === 'put' || op === 'del')) c.count('writes_through_views')
      if (r2.chance(0.3)) await quiet(2)
    }
  }
  if (sched.enabled) { const rs = await sched.run(Array.from({ length: r.int(1, 3) }, (_, k) => client(r.fork('k' + k)))); for (const x of rs) if (x.status === 'rejected') throw x.reason; await sched.run([quiet(15)]); sched.drainOff(); sched.enabled = false } else await client(r)
  for (let k = 0; k < 12; k++) { await quiet(8); flushSlow() }
  await quiet(10)
  if (write?.end) await write.end()
  if (readNow) shown = readNow()
  const list = await coll.list(); c.count('view_comparisons'); c.seen('view_kinds', kind)
  const label = `${kind} view (${cold ? 'opened before the records were loaded' : 'loaded'})`
  if (view === 'last') c.eq(shown && { id: shown.id, action: shown.action }, last && { id: last.id, action: last.action }, `${label}: last event`)
  else if (view === 'get') c.eq(shown ?? null, await coll.get('a'), `${label} does not show the current record`)
  else { c.ok(shown !== undefined && shown !== null, `${label} never showed anything`); c.eq(byU(kind === 'zustand' ? Object.values(shown) : shown), byU(view === 'list' ? list : list.filter(x => x.n >= 1)), `${label} does not show the current data once everything is quiet`) }
  if (kind === 'zustand') for (const [k, x] of Object.entries(shown)) c.eq(k, x.id, 'record kept under the wrong id')
  stop(); await quiet(6); const n = calls; c.count('after_stop_windows')
  const late = coll.put('a', rec(r, 'a', ++u)); await late; await quiet(6); flushSlow(); await quiet(3)
  c.eq(calls, n, `${label} called back after it was stopped`)
  c.sig([kind, cold, sched.trace.join()])
}

// ---- views that switch what they show, and sync indicators -------------------------------
const renderer = createRenderer({ createElement: () => ({}), createText: () => ({}), createComment: () => ({}), setText() {}, setElementText() {}, insert() {}, remove() {}, patchProp() {}, parentNode: () => null, nextSibling: () => null })
async function switching(c) {
  const r = c.rng; const kind = ['blob-url', 'vue-sync', 'react-vault'][c.i % 3]; const ref = newRef(); const sched = new Sched(r.fork('s')); sched.enabled = false; const store = instrument(ref, { sched, keepLog: false })
  if (kind === 'blob-url') { // the address of an attachment follows the chosen record and never outlives it
    const { v } = await open(store, { features: ['blob'] }); const coll = v.collection('docs'); const slot = r.pick([undefined, 'pdf']); const size = {}
    for (const [k, id] of ['a', 'b', 'c'].entries()) { await coll.put(id, { id, u: k, n: 0 }); if (id !== 'c') { size[id] = 10 + k * 7 + (slot ? 3 : 0); await coll.blob(id).put(slot ?? 'default', new Uint8Array(size[id]), { mimeType: `x/${id}`, compress: false }); if (slot) await coll.blob(id).put('default', new Uint8Array(3), { compress: false }) } }
    const live = new Map(); let n = 0; const mk = URL.createObjectURL, rv = URL.revokeObjectURL; c.cleanup(() => { URL.createObjectURL = mk; URL.revokeObjectURL = rv })
    URL.createObjectURL = b => { const u = `blob:${++n}`; live.set(u, b); return u }; URL.revokeObjectURL = u => { live.delete(u) }
    const ids = ['a', 'b', 'c', 'nobody', null, undefined, '']; const cur = vueRef(r.pick(ids)); const forced = r.pick([undefined, 'y/z', () => 'y/f']); const sc = effectScope(); let url
    sched.enabled = r.chance(0.85); sc.run(() => { url = useBlobURL(coll, () => cur.value, { ...(slot ? { slot } : {}), ...(forced ? { mimeType: forced } : {}) }) })
    let log = ''; const user = async () => { for (let k = r.int(1, 5); k > 0; k--) { await quiet(r.int(0, 5)); c.ok(url.value === null || live.has(url.value), 'an address already released is shown'); cur.value = r.pick(ids); log += String(cur.value)[0] } }
    const settle = async () => { if (sched.enabled) await sched.run([quiet(150)]); else await quiet(60) }
    if (sched.enabled) await sched.one(user()); else await user()
    const early = r.chance(0.3); if (!early) {
      await settle(); const want = size[cur.value]; c.ok((url.value !== null) === (want !== undefined), () => `record ${show(cur.value)} is chosen, the address is ${url.value}`)
      if (url.value) { const b = live.get(url.value); c.eq(b && [b.size, b.type], [want, typeof forced === 'function' ? 'y/f' : forced ?? `x/${cur.value}`], `attachment shown for ${show(cur.value)}`) }
      c.eq(live.size, url.value ? 1 : 0, 'addresses held once quiet'); c.count('switched_views'); if (r.chance(0.5)) cur.value = r.pick(ids)
    }
    sc.stop(); await settle(); sched.drainOff(); await quiet(20); c.eq([live.size, url.value], [0, null], 'addresses held after the view is gone'); c.sig([kind, log, early, slot, sched.trace.length]); return
  }
  if (kind === 'vue-sync') { // the indicator is on exactly while something runs, and the status is the current one
    const remote = newRef(); const rem = instrument(remote, { sched, keepLog: false }); const { db, v } = await open(store, { features: ['sync'], vault: 'acme', sync: rem, syncPolicy: { push: { mode: 'manual' }, pull: { mode: 'manual' } } }); const coll = v.collection('docs')
    let x; const app = renderer.createApp({ setup() { x = vueSync(db, 'acme'); return () => null } }); app.mount({}); let running = 0; let u = 0; let log = ''
    sched.enabled = true; if (r.chance(0.3)) rem._st.fault = () => (r.chance(0.05) ? 'before' : undefined)
    const call = async f => { running++; try { await f() } catch (e) { c.ok(e.injected || /store failed|fault|inject/i.test(String(e.message)) || rem._st.fault, () => `sync failed with ${e.message}`) } finally { running-- } }
    let over = false; const watchdog = (async () => { while (!over) { await turn(); c.ok(x.syncing.value === running > 0, () => `syncing is ${x.syncing.value} with ${running} operations running`); c.count('indicator_checks') } })()
    const client = async r2 => { for (let k = r2.int(1, 3); k > 0; k--) { const op = r2.pick(['push', 'pull', 'sync', 'put', 'direct']); log += op[1]; if (op === 'put') await coll.put(r2.pick(IDS), rec(r2, 'x', ++u)); else if (op === 'direct') await db.pull('acme').catch(() => {}); else await call(() => x[op]()) } }
    const rs = await sched.run([...Array.from({ length: r.int(1, 3) }, (_, k) => client(r.fork('k' + k)))]); over = true; await watchdog; for (const q of rs) if (q.status === 'rejected') throw q.reason
    rem._st.fault = null; sched.drainOff(); await x.pull(); c.eq(x.status.value, db.syncStatus('acme'), 'status shown'); await coll.put('a', rec(r, 'a', ++u)); await db.push('acme'); c.eq(x.status.value, db.syncStatus('acme'), 'status shown after a push made elsewhere'); c.ok(x.status.value.dirty === 0, 'changes still pending after a push'); c.ok(!x.syncing.value, 'still syncing')
    app.unmount(); const was = x.status.value; await coll.put('b', rec(r, 'b', ++u)); await db.push('acme'); await quiet(4); c.ok(x.status.value === was, 'status updated after the view is gone'); c.count('switched_views'); c.sig([kind, log, sched.trace.length]); return
  }
  const { db } = await open(store, { features: FEAT, vault: undefined }); const { R, createRoot, N } = await react(); const names = ['acme', 'globex', 'third']; for (const n of names) if (r.chance(0.5)) await db.openVault(n)
  const root = createRoot(document.createElement('div')); let state; let setName; let calls = 0; let name = r.pick(names)
  const Comp = () => { const [n, set] = R.useState(name); setName = set; state = N.useVault(n); calls++; return null }
  sched.enabled = true; root.render(R.createElement(N.NoydbProvider, { db }, R.createElement(Comp))); let log = name[0]
  await sched.one((async () => { await quiet(4); for (let k = r.int(1, 4); k > 0; k--) { name = r.pick(names); log += name[0]; setName(name); await quiet(r.int(0, 4)) } })()); await sched.run([quiet(60)]); sched.drainOff(); await quiet(30)
  c.ok(state.vault && !state.loading && !state.error && state.vault.name === name, () => `vault ${name} is chosen, shown is ${show([state.vault?.name, state.loading, state.error?.message])}`); c.count('switched_views')
  root.unmount(); await quiet(5); const had = calls; await db.openVault('late'); await quiet(5); c.eq(calls, had, 'a view that is gone was updated'); c.sig([kind, log, sched.trace.length])
}

export const scenarios = [
  { name: 'events', quick: 6000, thorough: 40000, run: events },
  { name: 'live', quick: 4000, thorough: 30000, run: live },
  { name: 'views', quick: 3400, thorough: 17000, run: views },
  { name: 'switching', quick: 2400, thorough: 12000, run: switching },
]
