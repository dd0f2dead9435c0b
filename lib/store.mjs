// Reference store (executable model of the 6-method contract) and the instrumented
// wrapper every workload runs on.
export class StoreFault extends Error { constructor(m) { super(m); this.name = 'StoreFault'; this.injected = true } }
const clone = x => (x === null || x === undefined ? x : JSON.parse(JSON.stringify(x)))

export class RefStore {
  constructor(ConflictError) { this.data = new Map(); this.ConflictError = ConflictError; this.name = 'ref' }
  coll(v, c, make) {
    let vm = this.data.get(v); if (!vm) { if (!make) return null; this.data.set(v, vm = new Map()) }
    let cm = vm.get(c); if (!cm) { if (!make) return null; vm.set(c, cm = new Map()) }
    return cm
  }
  get(v, c, id) { return clone(this.coll(v, c)?.get(id) ?? null) }
  put(v, c, id, env, ev) {
    const cur = this.coll(v, c)?.get(id)
    if (ev !== undefined && cur && cur._v !== ev) throw new this.ConflictError(cur._v, `Version conflict: expected ${ev}, found ${cur._v}`)
    this.coll(v, c, true).set(id, clone(env))
  }
  delete(v, c, id) { this.coll(v, c)?.delete(id) }
  list(v, c) { return [...(this.coll(v, c)?.keys() ?? [])] }
  loadAll(v) {
    const out = {}
    for (const [c, m] of this.data.get(v) ?? []) { if (c.startsWith('_')) continue; const o = {}; for (const [id, e] of m) o[id] = clone(e); out[c] = o }
    return out
  }
  saveAll(v, data) {
    const vm = this.data.get(v)
    if (vm) for (const c of [...vm.keys()]) if (!c.startsWith('_')) vm.delete(c)
    for (const [c, recs] of Object.entries(data)) { const m = this.coll(v, c, true); for (const [id, e] of Object.entries(recs)) m.set(id, clone(e)) }
  }
  listPage(v, c, cursor, limit = 100) {
    const ids = [...(this.coll(v, c)?.keys() ?? [])].sort(); const s = cursor ? parseInt(cursor, 10) : 0; const e = Math.min(s + limit, ids.length)
    return { items: ids.slice(s, e).map(id => ({ id, envelope: this.get(v, c, id) })), nextCursor: e < ids.length ? String(e) : null }
  }
  listVaults() { return [...this.data.keys()] }
  listSince(v, c, since) { return this.list(v, c).filter(id => this.get(v, c, id)._ts > since) }
  // test-side helpers (not part of the contract)
  snapshot() { const o = {}; for (const [v, vm] of this.data) { o[v] = {}; for (const [c, m] of vm) { o[v][c] = {}; for (const [id, e] of m) o[v][c][id] = clone(e) } } return o }
  restore(s) { this.data = new Map(); for (const v in s) for (const c in s[v]) { const m = this.coll(v, c, true); for (const id in s[v][c]) m.set(id, clone(s[v][c][id])) } }
}

const METHODS = ['get', 'put', 'delete', 'list', 'loadAll', 'saveAll', 'listPage', 'listVaults', 'listSince']
export const WRITES = new Set(['put', 'delete', 'saveAll'])

/**
 * opts: ref, sched (gates), onCall(ev) before apply, onResult(ev), log (array),
 *       extras: subset of optional methods, cas: capabilities.casAtomic
 * Fault plan: store.fault = (ev) => 'before' | 'after' | undefined
 */
export function instrument(ref, opts = {}) {
  const extras = new Set(opts.extras ?? ['listPage', 'listVaults'])
  const st = { seq: 0, log: opts.log ?? [], fault: null, onCall: opts.onCall ?? null, onArgs: opts.onArgs ?? null, sched: opts.sched ?? null, inFlight: 0, keepLog: opts.keepLog !== false, frozen: false, maxLog: 200000 }
  const store = { name: opts.name ?? 'instrumented', _st: st, _ref: ref }
  if (opts.capabilities) store.capabilities = opts.capabilities
  for (const m of METHODS) {
    if (m === 'listPage' || m === 'listVaults' || m === 'listSince') { if (!extras.has(m)) continue }
    store[m] = async (...args) => {
      const ev = { seq: ++st.seq, op: m, vault: m === 'listVaults' ? undefined : args[0], coll: ['get', 'put', 'delete', 'list', 'listPage', 'listSince'].includes(m) ? args[1] : undefined, id: ['get', 'put', 'delete'].includes(m) ? args[2] : undefined, args }
      if (m === 'put') { ev.v = args[3]?._v; ev.ev = args[4] }
      if (st.keepLog && st.log.length < st.maxLog) st.log.push(ev)
      st.inFlight++
      try {
        if (st.onArgs) st.onArgs(ev)
        const g1 = st.sched?.gate(`${m}:${ev.coll ?? ''}:${ev.id ?? ''}>`); if (g1) await g1
        if (st.onCall) { const r = st.onCall(ev); if (r) await r }
        const f = st.fault ? st.fault(ev) : undefined
        if (f === 'before') { ev.fault = f; throw new StoreFault(`injected fault (before) at #${ev.seq} ${m} ${ev.coll ?? ''}/${ev.id ?? ''}`) }
        if (st.frozen && WRITES.has(m)) { ev.fault = 'frozen'; throw new StoreFault('store frozen') }
        let r
        try { r = ref[m](...args); ev.done = ++st.seq } catch (e) { ev.error = e.name; throw e }
        if (r && typeof r.then === 'function') r = await r
        if (f === 'after') { ev.fault = f; throw new StoreFault(`injected fault (after) at #${ev.seq} ${m} ${ev.coll ?? ''}/${ev.id ?? ''}`) }
        const g2 = st.sched?.gate(`${m}:${ev.coll ?? ''}:${ev.id ?? ''}<`); if (g2) await g2
        return r
      } finally { st.inFlight-- }
    }
  }
  if (opts.ping) store.ping = async () => true
  return store
}
export { clone }
