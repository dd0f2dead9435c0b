// Replica convergence: several replicas with their own local store edit, delete, push,
// pull, sync and restart against one shared remote, overlapping and with remote calls
// failing. Every write carries a unique tag; a monitor on each store keeps the
// "supersedes" relation (who saw what, which conflicts the policy decided) and refuses
// any overwrite of a change that was neither seen nor beaten in a reported conflict.
import { open, newRef, instrument, PASS } from '../lib/world.mjs'
import { Sched } from '../lib/sched.mjs'
import { show } from '../lib/child.mjs'
import { createNoydb } from '@noy-db/hub'

export const meta = {
  property: 'C18', level: 'exploration',
  rule: 'distinct by (number of replicas, conflict policy, collection mode, step sequence, released interleaving)',
  assumptions: ['the remote honours the version precondition of a write (checked separately for every backend)', 'removing a record from the remote does not remove copies other replicas already hold: the format has no deletion markers, and the statement says so', 'the store contract has no conditional delete: a change that reaches the remote between the pushing replica\'s look at the record and its delete call is lost with it', 'version numbers start over when a deleted record is created again; ids that were re-created after a deletion are not judged'],
  minimums: { converged_records: 3000, conflicts: 400, overlapping_batches: 1500, remote_faults: 400, restarts: 300, deletes: 300, unions_checked: 400, target_records: 500, reads: 5000 },
}
const IDS = ['a', 'b', 'c']; const DEL = ['x', 'y']
const POLICIES = ['version', 'local-wins', 'remote-wins', 'fn', 'c:last-writer-wins', 'c:first-writer-wins', 'c:manual']
const F = ['sync', 'history', 'index']

async function seedStore() {
  const ref = newRef(); const { db, v } = await open(instrument(ref, { keepLog: false }), { features: F })
  for (const n of ['docs', 'other']) { const k = v.collection(n); await k.put('zz', { tag: 'seed' }); await k.delete('zz') }
  db.close()
  const s = ref.snapshot(); for (const n of Object.keys(s.acme)) if (n !== '_keyring' && n !== '_meta') delete s.acme[n]
  return s
}
const ivOf = e => e ? `${e._iv}|${e._data}` : null

class World {
  // a violation noticed inside a store call is kept: the code under test may swallow the exception
  bad(msg, o) { this.first ??= [msg, o]; }
  raise() { if (this.first) this.c.fail(...this.first) }
  constructor(c, { n, policy, mode, sched, merge }) {
    Object.assign(this, { c, n, policy, mode, sched, merge }); this.reps = []; this.remote = newRef(); this.tags = new Map(); this.up = new Map(); this.sawUp = new Map(); this.k = 0; this.recs = new Map(); this.excused = new Set(); this.rtombs = new Map(); c.mon.keep = { push: x => { if (x.pt[0] === 123) try { this.recs.set(x.iv, JSON.parse(x.pt)) } catch {} } }; this.dels = new Set(); this.restarted = new Set(); this.acked = []; this.hist = []
  }
  async init() {
    const s = await seedStore(); this.remote.restore({ acme: {} })
    for (let i = 0; i < this.n; i++) {
      const ref = newRef(); ref.restore(s)
      const R = { i, ref, cur: new Map(), win: new Map(), conf: [], down: 0, faults: 0 }
      R.local = instrument(ref, { sched: this.sched, keepLog: false, onCall: ev => this.onLocal(R, ev) })
      R.rem = instrument(this.remote, { sched: this.sched, keepLog: false, onCall: ev => this.onRemote(R, ev) })
      R.rem._st.fault = ev => { if (!R.down || ev.vault !== 'acme') return; if (this.c.rng.chance(R.down)) { R.faults++; this.c.count('remote_faults'); return this.c.rng.chance(0.5) ? 'before' : 'after' } }
      this.reps.push(R); await this.openR(R)
    }
  }
  async openR(R) {
    const p = this.policy
    R.db = await createNoydb({ store: R.local, user: 'alice', secret: PASS, sync: R.rem, syncPolicy: { push: { mode: 'manual' }, pull: { mode: 'manual' } },
      conflict: p === 'fn' ? (x => (this.pickFn(x))) : p.startsWith('c:') ? 'version' : p, ...(await strat()) })
    R.db.on('sync:conflict', x => this.onConflict(R, x))
    R.v = await R.db.openVault('acme')
    const pol = this.merge ?? (p.startsWith('c:') ? p.slice(2) : undefined)
    R.coll = R.v.collection('docs', { ...(pol ? { conflictPolicy: pol } : {}), ...(this.mode === 'lazy' ? { prefetch: false, cache: { maxRecords: 2 } } : {}) })
    R.other = R.v.collection('other')
    if (this.mode !== 'lazy') await R.coll.count()
  }
  // --- the supersedes relation -----------------------------------------------------------
  pickFn(x) { return ivOf(x.local) > ivOf(x.remote) ? 'local' : 'remote' }
  rec(e) { return e ? this.recs.get(Buffer.from(e._iv, 'base64').toString('hex')) : undefined }
  tag(e) { return e ? this.tags.get(e._iv) ?? `?${e._iv}` : null }
  over(b, a, up = this.up) { if (!a || a === b) return true; const seen = new Set([b]); const q = [b]; while (q.length) { const x = q.pop(); for (const y of up.get(x) ?? []) { if (y === a) return true; if (!seen.has(y)) { seen.add(y); q.push(y) } } } return false }
  add(b, a, seenOnly = true) { if (!a || a === b) return; for (const m of seenOnly ? [this.up, this.sawUp] : [this.up]) { let s = m.get(b); if (!s) m.set(b, s = new Set()); s.add(a) } }
  // what the writer of b had seen or replaced, leaving out what only a conflict policy decided
  knew(b, a) { return this.over(b, a, this.sawUp) }
  onConflict(R, x) {
    this.c.count('conflicts'); const l = this.tag(x.local), r = this.tag(x.remote)
    if (this.policy === 'c:manual') {
      const side = ivOf(x.local) > ivOf(x.remote) ? 'local' : 'remote'
      if (this.deferRate && this.c.rng.chance(this.deferRate)) { this.deferred = (this.deferred ?? 0) + 1; return }
      x.resolve(x[side]); this.decide(l, r, side); return
    }
    const side = { version: () => x.localVersion >= x.remoteVersion ? 'local' : 'remote', 'local-wins': () => 'local', 'remote-wins': () => 'remote', fn: () => this.pickFn(x) }[this.policy]?.()
    if (side) this.decide(l, r, side)
  }
  decide(l, r, side) { if (side === 'local') this.add(l, r, false); else this.add(r, l, false) }
  silent(a, b, ea, eb, mine) { // per-collection policies decide without an event: derive the decision
    if (this.policy === 'c:last-writer-wins') return mine === 'b' ? eb._ts >= ea._ts : eb._ts > ea._ts
    if (this.policy === 'c:first-writer-wins') return true
    return false
  }
  // replica replaces `old` (on either side) by `env`
  replace(R, side, ev, old, env) {
    if (this.merge || this.restarted.has(ev.id)) return
    const a = this.tag(old), b = this.tag(env)
    if (!a || a === b || this.over(b, a)) return
    const mine = side === 'remote' ? 'b' : 'a'
    if (this.policy.startsWith('c:') && this.silent(a, b, old, env, mine)) { this.c.count('conflicts'); this.add(b, a, false); return }
    const lt = side === 'remote' ? null : this.tombs(R, ev.id)
    this.bad(`replica ${R.i} replaced a change nobody superseded on the ${side} side (${this.policy})`, { key: `lost-${side}`, detail: { id: ev.id, old: a, new: b, oldV: old._v, newV: env._v, hist: this.hist.slice(-40), lt } })
  }
  tombs() { return null }
  onRemote(R, ev) {
    if (ev.vault !== 'acme' || ev.coll !== 'docs') return
    if (ev.op === 'get') { (R.looked ??= new Map()).set(ev.id, this.remote.get('acme', 'docs', ev.id)); return }
    if (ev.op === 'put') {
      const old = this.remote.get('acme', 'docs', ev.id); const env = ev.args[3]
      if (old && ev.ev !== undefined && old._v !== ev.ev) return // will be refused
      this.hist.push(`R${R.i} remote ${ev.id} ${this.tag(old)}@${old?._v} -> ${this.tag(env)}@${env._v}`)
      if (!(this.merge || this.tags.has(env._iv))) this.bad('a value nobody wrote was pushed', { key: 'invented' })
      if (!(!old || ivOf(old) === ivOf(env) || env._v > old._v)) this.bad(`a push replaced version ${old?._v} by different content under version ${env._v}: other replicas will not pick it up`, { key: 'version-not-raised' })
      if (!old && this.rtombs.has(ev.id)) { this.restarted.add(ev.id); for (const t of this.rtombs.get(ev.id)) this.add(this.tag(env), t) }
      this.replace(R, 'remote', ev, old, env)
    } else if (ev.op === 'delete') {
      const old = this.remote.get('acme', 'docs', ev.id); if (!old) return
      this.hist.push(`R${R.i} remote ${ev.id} ${this.tag(old)}@${old._v} -> deleted`)
      const t = R.tomb?.get(ev.id)
      this.rtombs.set(ev.id, [...this.rtombs.get(ev.id) ?? [], ...t ?? []])
      if (this.merge || this.restarted.has(ev.id)) return
      // the store contract has no conditional delete: a change landing between the look and the delete cannot be kept
      const looked = R.looked?.get(ev.id); R.looked?.delete(ev.id)
      if (looked && ivOf(looked) !== ivOf(old) && t && [...t].some(x => this.over(x, this.tag(looked)))) { for (const x of t) this.add(x, this.tag(old), false); this.c.count('unconditional_delete_races'); return }
      if (!(t && [...t].some(x => this.over(x, this.tag(old))))) this.bad(`a deletion removed a change the deleting replica had never seen (${this.policy})`, { key: 'delete-over-unseen', detail: { id: ev.id, old: this.tag(old), hist: this.hist.slice(-40) } })
    }
  }
  onLocal(R, ev) {
    if (ev.vault !== 'acme' || ev.coll !== 'docs' || (ev.op !== 'put' && ev.op !== 'delete')) return
    const op = R.cur.get(ev.id)
    const old = R.ref.get('acme', 'docs', ev.id)
    if (ev.op === 'put') {
      const env = ev.args[3]
      if (op && op.t === 'put' && !op.done && this.rec(env)?.tag === op.tag) { // the session's own write
        op.done = true; this.tags.set(env._iv, op.tag); this.add(op.tag, this.tag(old))
        this.hist.push(`R${R.i} local ${ev.id} ${this.tag(old)}@${old?._v} -> ${op.tag}@${env._v} (edit, saw ${op.saw})`)
        if (this.merge && old) { const mine = this.rec(env).set; for (const t of this.rec(old).set) if (!mine.includes(t)) this.excused.add(t) } // put is unconditional: it replaces what the store holds by now
        return
      }
      if (old && ev.ev !== undefined && old._v !== ev.ev) return
      this.hist.push(`R${R.i} local ${ev.id} ${this.tag(old)}@${old?._v} -> ${this.tag(env)}@${env._v} (sync)`)
      if (this.merge) return
      this.replace(R, 'local', ev, old, env)
    } else { if (op?.t === 'del') this.add(op.tag, this.tag(old)); this.hist.push(`R${R.i} local ${ev.id} ${this.tag(old)} -> deleted ${op ? '(edit)' : '(sync)'}`) }
  }
  // --- operations -------------------------------------------------------------------------
  async edit(R, id, viaTx) {
    const tag = `${'ABCD'[R.i]}${++this.k}:${id}`
    const saw = await R.coll.get(id)
    const op = { t: 'put', tag, saw: saw?.tag, seen: new Set() }
    R.cur.set(id, op)
    if (!saw && this.dels.has(id)) this.restarted.add(id) // version numbers start over: an older base is indistinguishable
    this.add(tag, saw?.tag); if (!saw) for (const t of R.tomb?.get(id) ?? []) this.add(tag, t)
    const rec = this.merge ? { tag, set: [...new Set([...(saw?.set ?? []), tag])].sort() } : { tag }
    try {
      if (viaTx) { const t = R.db.transaction('acme'); t.put('docs', id, rec); await t.commit() } else await R.coll.put(id, rec)
      this.acked.push({ R: R.i, id, tag })
    } finally { R.cur.delete(id) }
  }
  async del(R, id) {
    const saw = await R.coll.get(id); if (!saw) return
    const tag = `del${++this.k}:${id}`; const op = { t: 'del', tag, seen: new Set() }
    this.add(tag, saw.tag)
    if (!R.tomb) R.tomb = new Map(); if (!R.tomb.has(id)) R.tomb.set(id, new Set()); R.tomb.get(id).add(tag)
    R.cur.set(id, op); this.dels.add(id)
    try { await R.coll.delete(id); this.c.count('deletes') } finally { R.cur.delete(id) }
  }
  async sync(R, kind) {
    const o = kind.endsWith('*') ? { collections: ['docs'] } : undefined
    const k = kind.replace('*', '')
    const r = await R.db[k]('acme', k === 'sync' ? undefined : o)
    const parts = k === 'sync' ? [r.pull, r.push] : [r]
    return parts.flatMap(x => x.errors)
  }
  async restart(R) {
    const d = R.db.syncStatus('acme').dirty; R.db.close(); await this.openR(R)
    this.c.eq(R.db.syncStatus('acme').dirty, d, 'pending changes were forgotten or invented by closing and reopening'); this.c.count('restarts')
  }
  // with nothing in flight, a session shows what its store holds (so edits build on it)
  async readers() {
    for (const R of this.reps) for (const id of [...IDS, ...DEL]) {
      const e = R.ref.get('acme', 'docs', id); const x = await R.coll.get(id); this.c.count('reads')
      if (!e || !x || !this.merge) this.c.eq(x?.tag ?? null, e ? this.tag(e) : null, `an open session does not show the synchronised value of "${id}" (${this.mode})`, { key: 'stale-session', detail: this.hist.slice(-30) })
    }
  }
  async settle(rounds = 2) {
    this.raise()
    for (const R of this.reps) R.down = 0
    for (let k = 0; k < rounds; k++) for (const R of this.reps) { const e = await this.sync(R, 'sync'); this.c.ok(e.length === 0, `a sync without any failing call reported errors: ${e.map(x => x.message).join('; ')}`, { detail: this.hist.slice(-30) }) }
    this.raise()
  }
}
let cachedStrat
async function strat() { if (!cachedStrat) { const m = await import('../lib/world.mjs'); cachedStrat = () => m.strategies(F) } return cachedStrat() }

async function main(c, { withDeletes, faults }) {
  const r = c.rng
  const sched = new Sched(r); sched.enabled = false
  const policy = r.pick(POLICIES); const mode = r.chance(0.3) ? 'lazy' : 'eager'; const n = r.weighted([[6, 2], [3, 3], [1, 4]])
  const w = new World(c, { n, policy, mode, sched }); await w.init()
  const steps = r.int(4, 16); const log = []
  for (let s = 0; s < steps; s++) {
    await c.clock.tick(r.weighted([[3, 0], [5, 7], [1, 5000]]))
    if (faults) for (const R of w.reps) R.down = r.chance(0.35) ? r.pick([0.1, 0.3, 0.9]) : 0
    const batch = []; const used = new Set(); const m = r.weighted([[4, 1], [4, 2], [3, 3], [1, 5]])
    for (let k = 0; k < m; k++) {
      const R = r.pick(w.reps); const id = withDeletes && r.chance(0.5) ? r.pick(DEL) : r.pick(IDS)
      const what = r.weighted([[6, 'edit'], [1, 'tx'], [DEL.includes(id) ? 3 : 0, 'del'], [4, 'push'], [3, 'pull'], [4, 'sync'], [1, 'push*'], [1, 'pull*'], [1, 'restart']])
      const key = ['edit', 'tx', 'del'].includes(what) ? `${R.i}/${id}` : null
      if (key && used.has(key)) continue
      if (what === 'restart') { if (m === 1) { log.push(`restart${R.i}`); batch.push(() => w.restart(R)) } continue }
      if (key) used.add(key)
      log.push(`${what}${R.i}${key ? id : ''}`)
      batch.push(what === 'edit' || what === 'tx' ? () => w.edit(R, id, what === 'tx') : what === 'del' ? () => w.del(R, id) : () => w.sync(R, what))
    }
    log.push('|')
    if (batch.length > 1) {
      c.count('overlapping_batches'); sched.enabled = true
      const res = await sched.run(batch.map(f => f())); sched.enabled = false
      for (const x of res) if (x.status === 'rejected') throw x.reason
    } else for (const f of batch) await f()
    if (r.chance(0.4)) await w.readers()
    w.raise()
  }
  await w.settle()
  for (const R of w.reps) c.eq(R.db.syncStatus('acme').dirty, 0, `replica ${R.i} still has pending changes after two clean syncs`, { detail: w.hist.slice(-40) })
  for (const id of withDeletes ? [...IDS, ...DEL] : IDS) {
    const rem = w.remote.get('acme', 'docs', id); const acked = w.acked.filter(x => x.id === id)
    if (IDS.includes(id)) {
      c.ok(!!rem === acked.length > 0, `record "${id}": ${acked.length} acknowledged changes but it is ${rem ? 'present' : 'absent'} on the remote`, { key: 'lost-record', detail: w.hist.slice(-60) })
      for (const R of w.reps) {
        const l = R.ref.get('acme', 'docs', id)
        c.ok(ivOf(l) === ivOf(rem) && l?._v === rem?._v, `replica ${R.i} and the remote still differ on "${id}" after every replica synced twice (${policy})`, { key: 'diverged', detail: { local: l && [w.tag(l), l._v], remote: rem && [w.tag(rem), rem._v], hist: w.hist.slice(-60) } })
      }
      if (rem) { const t = w.tag(rem); for (const a of acked) c.ok(w.over(t, a.tag), `the acknowledged change ${a.tag} vanished: the surviving value ${t} never superseded it`, { key: 'lost-change', detail: w.hist.slice(-60) }); c.count('converged_records') }
    } else if (!w.restarted.has(id)) {
      // nothing comes back by itself: what remains is not older than a deletion that was made
      const t = rem && w.tag(rem)
      for (const R of w.reps) for (const d of R.tomb?.get(id) ?? []) {
        if (rem) c.ok(!w.knew(d, t), `"${id}" came back on the remote although the change it carries had been deleted`, { key: 'resurrected-remote', detail: { t, d, hist: w.hist.slice(-60) } })
        const l = R.ref.get('acme', 'docs', id)
        if (l) c.ok(!w.knew(d, w.tag(l)), `"${id}" came back on replica ${R.i} which had deleted it`, { key: 'resurrected-local', detail: { l: w.tag(l), d, hist: w.hist.slice(-60) } })
      }
      const tombs = w.reps.flatMap(R => [...R.tomb?.get(id) ?? []])
      for (const a of acked) c.ok((t && w.over(t, a.tag)) || tombs.some(d => w.over(d, a.tag)), `the acknowledged change ${a.tag} vanished: neither superseded nor deleted by anybody who had seen it`, { key: 'lost-change', detail: w.hist.slice(-60) })
    }
  }
  // a freshly opened session shows what the store holds
  const R = r.pick(w.reps); await w.restart(R)
  for (const id of IDS) { const e = R.ref.get('acme', 'docs', id); const x = await R.coll.get(id); c.eq(x?.tag ?? null, e ? w.tag(e) : null, 'a reopened session shows a different value than the one synchronised') }
  for (const x of w.reps) x.db.close()
  c.sig(`${n}|${policy}|${mode}|${log.join(' ')}|${sched.trace.join(',').slice(0, 400)}`)
  c.sample({ policy, mode, replicas: n, steps: log.join(' ').slice(0, 160), writes: w.acked.length, superseded: w.up.size })
}
// merge function policy: union of sets, so every acknowledged tag has to survive everywhere
async function merge(c) {
  const r = c.rng; const sched = new Sched(r); sched.enabled = false
  const mode = r.chance(0.3) ? 'lazy' : 'eager'; const n = r.weighted([[6, 2], [3, 3], [1, 4]])
  const w = new World(c, { n, policy: 'c:merge', mode, sched, merge: (l, x) => ({ tag: l.tag > x.tag ? l.tag : x.tag, set: [...new Set([...l.set, ...x.set])].sort() }) })
  await w.init(); const log = []
  const localFaults = r.chance(0.25)
  for (let s = 0, m = r.int(4, 14); s < m; s++) {
    await c.clock.tick(r.pick([0, 7]))
    for (const R of w.reps) R.down = r.chance(0.3) ? r.pick([0.1, 0.4]) : 0
    const batch = []; const used = new Set()
    for (let k = 0, q = r.weighted([[4, 1], [4, 2], [3, 3]]); k < q; k++) {
      const R = r.pick(w.reps); const id = r.pick(IDS); const what = r.weighted([[6, 'edit'], [1, 'tx'], [4, 'push'], [3, 'pull'], [4, 'sync']])
      const key = what === 'edit' || what === 'tx' ? `${R.i}/${id}` : null
      if (key && used.has(key)) continue; if (key) used.add(key)
      log.push(`${what}${R.i}${key ? id : ''}`)
      batch.push(key ? () => w.edit(R, id, what === 'tx') : () => w.sync(R, what))
    }
    log.push('|')
    if (localFaults) { const R = r.pick(w.reps); let at = r.int(1, 8); R.local._st.fault = ev => ev.coll === '_sync' && ev.op === 'put' && --at === 0 ? (r.chance(0.5) ? 'before' : 'after') : undefined }
    sched.enabled = batch.length > 1; if (batch.length > 1) c.count('overlapping_batches')
    const res = await sched.run(batch.map(f => f())); sched.enabled = false
    for (const R of w.reps) R.local._st.fault = null
    for (const x of res) if (x.status === 'rejected' && !x.reason.injected) throw x.reason
    if (!localFaults && r.chance(0.08)) { log.push('restart'); await w.restart(r.pick(w.reps)) }
  }
  await w.settle()
  for (const R of w.reps) c.eq(R.db.syncStatus('acme').dirty, 0, 'still pending after two clean syncs')
  for (const R of w.reps) {
    await w.restart(R)
    for (const id of IDS) {
      const rec = await R.coll.get(id); const want = w.acked.filter(x => x.id === id).map(x => x.tag)
      for (const t of want) if (!w.excused.has(t)) c.ok(rec?.set.includes(t), `acknowledged element ${t} is missing from the merged record on replica ${R.i}`, { key: 'merge-lost', detail: { rec, hist: w.hist.slice(-60) } })
      if (want.length) c.count('unions_checked')
      const e = R.ref.get('acme', 'docs', id), g = w.remote.get('acme', 'docs', id)
      c.ok(ivOf(e) === ivOf(g), `replica ${R.i} and the remote differ on "${id}" after merging`, { key: 'merge-diverged', detail: { l: e?._v, g: g?._v, hist: w.hist.slice(-60) } })
    }
    R.db.close()
  }
  c.sig(`merge|${n}|${mode}|${log.join(' ')}|${sched.trace.join(',').slice(0, 400)}`)
  c.sample({ policy: 'merge function', mode, replicas: n, steps: log.join(' ').slice(0, 160) })
}
// undecided conflicts stay pending and untouched, and are offered again
async function deferred(c) {
  const r = c.rng; const sched = new Sched(r); sched.enabled = false
  const w = new World(c, { n: 2, policy: 'c:manual', mode: 'eager', sched }); await w.init()
  const [A, B] = w.reps; const ids = r.sample(IDS, r.int(1, 3))
  const common = r.chance(0.6)
  if (common) { for (const id of ids) await w.edit(A, id); await w.sync(A, 'push'); await w.sync(B, 'pull'); await w.restart(B) }
  for (const id of ids) { for (let k = r.int(1, 3); k > 0; k--) await w.edit(A, id); for (let k = r.int(1, 3); k > 0; k--) await w.edit(B, id) }
  await w.sync(A, r.pick(['push', 'sync']))
  w.deferRate = 1
  for (let k = r.int(1, 3); k > 0; k--) {
    const what = r.pick(['push', 'pull', 'sync']); const before = JSON.stringify([w.remote.snapshot(), ids.map(id => B.ref.get('acme', 'docs', id))])
    w.deferred = 0
    await w.sync(B, what)
    c.eq(JSON.stringify([w.remote.snapshot(), ids.map(id => B.ref.get('acme', 'docs', id))]), before, `an undecided conflict changed data (${what})`)
    c.eq(B.db.syncStatus('acme').dirty, ids.length, `an undecided conflict is no longer pending (${what})`)
    c.ok(w.deferred >= ids.length, `a pending conflict was not offered (${what})`)
  }
  if (r.chance(0.5)) await w.restart(B)
  w.deferRate = 0; await w.settle()
  for (const id of ids) { const g = w.remote.get('acme', 'docs', id); for (const R of w.reps) c.ok(ivOf(R.ref.get('acme', 'docs', id)) === ivOf(g), 'replicas differ after the conflict was decided', { key: 'manual-diverged', detail: w.hist }); c.count('converged_records') }
  c.sig(`deferred|${ids}|${common}|${w.hist.length}|${c.i % 97}`)
  for (const R of w.reps) R.db.close()
}
// several targets: each has its own list of pending changes
async function targets(c) {
  const r = c.rng; const ref = newRef(); ref.restore(await seedStore())
  const sched = new Sched(r); sched.enabled = false
  const tr = []; const note = (who) => ev => { if (ev.coll === 'docs' && (ev.op === 'put' || ev.op === 'delete')) tr.push(`${who} ${ev.op} ${ev.id} v${ev.v ?? ''} exp${ev.ev}`) }
  const local = instrument(ref, { keepLog: false, sched, onCall: note('local') })
  const roles = r.sample(['sync-peer', 'backup', 'archive', 'backup', 'archive', 'backup'], r.int(2, 4)); if (r.chance(0.7) && !roles.includes('sync-peer')) roles[0] = 'sync-peer'
  const down = roles.map(() => 0)
  const T = roles.map((role, k) => { const t = newRef(); const s = instrument(t, { keepLog: false, sched, onCall: note(role + k) }); s._st.fault = () => down[k] && r.chance(down[k]) ? (c.count('remote_faults'), r.pick(['before', 'after'])) : undefined; return { t, role, target: { store: s, role, ...(r.chance(0.5) ? { label: `t${k}` } : {}), ...(r.chance(0.3) ? { policy: { push: { mode: 'manual' }, pull: { mode: 'manual' } } } : {}) } } })
  let db, v, k
  const openIt = async () => { db = await createNoydb({ store: local, user: 'alice', secret: PASS, sync: T.map(x => x.target), syncPolicy: { push: { mode: 'manual' }, pull: { mode: 'manual' } }, ...(await strat()) }); v = await db.openVault('acme'); k = v.collection('docs'); await k.count() }
  await openIt(); const log = []; let u = 0
  for (let s = 0, m = r.int(4, 14); s < m; s++) {
    await c.clock.tick(5)
    for (let q = 0; q < T.length; q++) down[q] = r.chance(0.4) ? r.pick([0.3, 1]) : 0
    const what = r.weighted([[5, 'put'], [2, 'del'], [2, 'push'], [3, 'sync'], [1, 'pull'], [2, 'restart'], [2, 'both']]); log.push(what)
    const id = r.pick([...IDS, ...DEL])
    if (what === 'put') await k.put(id, { tag: `t${++u}` })
    else if (what === 'del') await k.delete(id)
    else if (what === 'restart') { db.close(); await openIt(); c.count('restarts') }
    else if (what === 'both') { sched.enabled = true; const res = await sched.run([k.put(id, { tag: `t${++u}` }), db.sync('acme'), k.put('a2', { tag: `t${++u}` }), r.chance(0.5) ? db.push('acme') : db.sync('acme')]); sched.enabled = false; c.count('overlapping_batches'); for (const x of res) if (x.status === 'rejected') throw x.reason }
    else await db[what]('acme')
  }
  down.fill(0); await db.sync('acme'); await db.sync('acme')
  const want = Object.fromEntries(Object.entries(ref.loadAll('acme').docs ?? {}).map(([i, e]) => [i, ivOf(e)]))
  for (const x of T) {
    const got = Object.fromEntries(Object.entries(x.t.loadAll('acme').docs ?? {}).map(([i, e]) => [i, ivOf(e)]))
    c.eq(got, want, `a ${x.role} target does not hold the local records after clean syncs (${T.length} targets: ${roles})`, { detail: { log: log.join(' '), tr } })
    c.count('target_records', Object.keys(got).length)
  }
  db.close()
  c.sig(`targets|${roles}|${log.join(' ')}|${sched.trace.length}`)
}
const ck = { auto: false, timers: true }
export const scenarios = [
  { name: 'edits', quick: 3000, thorough: 12000, clock: ck, run: c => main(c, { withDeletes: false, faults: false }) },
  { name: 'edits-faults', quick: 3000, thorough: 12000, clock: ck, run: c => main(c, { withDeletes: false, faults: true }) },
  { name: 'deletes', quick: 4000, thorough: 12000, clock: ck, run: c => main(c, { withDeletes: true, faults: c.i % 3 === 0 }) },
  { name: 'merge', quick: 2500, thorough: 12000, clock: ck, run: merge },
  { name: 'deferred', quick: 300, thorough: 2000, clock: ck, run: deferred },
  { name: 'targets', quick: 2500, thorough: 6000, clock: ck, run: targets },
]
