// Diagnostics: store probes, topology checks and meters run on stores whose speed, concurrency
// behaviour, liveness and failures are chosen per case and recorded call by call. What they report
// must be what the recorder saw, and the data the store held before must be untouched.
import { ConflictError } from '@noy-db/hub'
import { runStoreProbe, probeTopology } from '@noy-db/to-probe'
import { toMeter } from '@noy-db/to-meter'
import { newRef } from '../lib/world.mjs'
import { instrument, StoreFault } from '../lib/store.mjs'
import { show } from '../lib/child.mjs'

export const meta = {
  property: 'C34', level: 'exploration',
  rule: 'distinct by (scenario, declared and actual behaviour, thresholds crossed, operation mix, status history)',
  assumptions: [
    'time is virtual: a call takes exactly the time the case gives it',
    'a probe interrupted by a store failure may leave its own records behind, as documented',
    'liveness checks that overlap each other are not generated',
  ],
  minimums: { probes: 1500, mismatches: 150, slow: 400, probe_faults: 300, topologies: 700, topology_errors: 150, metered: 60000, meter_faults: 5000, meter_conflicts: 1000, transitions: 2000, outages: 800, resets: 500 },
}
const clock = { auto: 0, timers: true }
const flat = ref => { const o = {}; const s = ref.snapshot(); for (const v in s) for (const k in s[v]) for (const id in s[v][k]) o[`${v}/${k}/${id}`] = s[v][k][id]; return o }
let serial = 0
const env = (c, v = 1) => ({ _noydb: 1, _v: v, _ts: new Date(c.clock.now).toISOString(), _iv: 'AAAAAAAAAAAAAAAA', _data: `d${++serial}` })
// a store with chosen speed and concurrency behaviour, holding data of its own
function subject(c, { name } = {}) {
  const r = c.rng; const ref = newRef(); const inner = instrument(ref, { extras: [], keepLog: false })
  for (let k = r.int(0, 12); k > 0; k--) ref.put(r.pick(['acme', 'globex', 'probe-vault', 'probe', '_probe-a']), r.pick(['invoices', 'probe', '_keyring', 'probe-benchmark-2']), `r${r.int(0, 9)}`, env(c, r.int(1, 5)))
  const t = { ref, lat: { get: r.int(0, 4), put: r.pick([0, 1, 10, 99, 100, 101, 250, 251, 400]), delete: 0, list: r.int(0, 3), loadAll: r.pick([0, 5, 499, 500, 501, 900]), saveAll: 1 }, lets: r.weighted([[4, 1], [2, 2], [1, 5], [1, 1e9]]), cas: [], puts: 0, n: 0, failAt: Infinity }
  const passed = new Map(); const store = { name: name ?? r.pick(['mem', 'backend', undefined]) }
  if (store.name === undefined) delete store.name
  for (const m of Object.keys(t.lat)) store[m] = async (...a) => {
    c.clock.now += t.lat[m]; if (++t.n === t.failAt) { c.count('probe_faults'); throw new StoreFault('store failed') }
    if (m === 'put' && a[4] !== undefined) {
      const key = a.slice(0, 3).join('/'); const n = passed.get(key) ?? 0; passed.set(key, n + 1)
      if (n > 0 && n < t.lets) { ref.put(a[0], a[1], a[2], a[3]); t.cas.push(true); return }
      try { await inner.put(...a); t.cas.push(true) } catch (e) { t.cas.push(false); throw e }
      return
    }
    return inner[m](...a)
  }
  t.ping = r.pick(['none', 'ok', 'fails']); if (t.ping !== 'none') store.ping = async () => { c.clock.now += 7; if (t.ping === 'fails') throw new Error('no answer'); return true }
  t.store = store; return t
}
const caps = (r, atomic) => ({ casAtomic: atomic, auth: { kind: 'none', required: false, flow: 'static' } })
function options(r) {
  return { ...(r.chance(0.5) ? { writeSampleSize: r.pick([1, 2, 7, 20]) } : {}), ...(r.chance(0.5) ? { casConcurrency: r.int(2, 12) } : {}), hydrationRecords: r.pick([5, 40, 90]), syncBatchSize: r.pick([1, 10]),
    ...(r.chance(0.3) ? { slowWriteMs: r.pick([1, 50, 300]) } : {}), ...(r.chance(0.3) ? { slowHydrationMs: r.pick([1, 700]) } : {}), ...(r.chance(0.3) ? { slowSyncMs: r.pick([5, 350]) } : {}) }
}
function judge(c, t, o, rep, what) {
  const codes = rep.suitability.risks.map(x => x.code); const L = t.lat.put
  const has = (code, want) => c.ok(codes.includes(code) === want, () => `${what}: ${want ? 'missing' : 'unfounded'} ${code} (put ${L} ms, load ${t.lat.loadAll} ms, ${t.lets} concurrent writers let through, declared ${show(o.capabilities)}): ${show(codes)}`)
  c.ok(new Set(codes).size === codes.length, `${what}: a risk reported twice`)
  has('slow-write-p99', L > (o.slowWriteMs ?? 100)); has('slow-hydration', t.lat.loadAll > (o.slowHydrationMs ?? 500)); has('slow-sync', L > (o.slowSyncMs ?? 250)); has('no-ping', t.ping === 'none')
  const won = t.cas.filter(Boolean).length; const declared = o.capabilities?.casAtomic
  c.eq([rep.cas.concurrent, rep.cas.successes, rep.cas.rejections], [t.cas.length, won, t.cas.length - won], `${what}: concurrent writers reported and seen`); c.ok(t.cas.length === (o.casConcurrency ?? 10), `${what}: number of concurrent writers`)
  has('cas-mismatch', declared === true && won > 1); has('cas-unsupported', declared === false); if (declared === true && won > 1) c.count('mismatches')
  const w = rep.write; c.eq([w.coldStart, w.serial.p50, w.serial.p99, w.serial.max, w.serial.count], [L, L, L, L, o.writeSampleSize ?? 20], `${what}: write latency`)
  c.eq([rep.hydration.loadAllMs, rep.sync.singlePushMs], [t.lat.loadAll, L], `${what}: load and push latency`)
  c.eq([rep.network.pingSupported, rep.network.pingMs], [t.ping !== 'none', t.ping === 'ok' ? 7 : null], `${what}: liveness`)
  const roles = new Set(rep.suitability.recommended); const bad = rep.suitability.risks.some(x => x.severity === 'error')
  if (bad) c.ok(!roles.size, () => `${what}: recommended for ${[...roles]} despite an error`)
  else { c.ok(roles.has('backup') && roles.has('archive'), `${what}: not recommended for backups though nothing is wrong`); c.ok(roles.has('sync-peer') === (declared !== false), `${what}: sync role`); c.ok(roles.has('primary') === !codes.includes('slow-write-p99'), `${what}: primary role`) }
  if (codes.some(x => x.startsWith('slow'))) c.count('slow')
  return { codes, bad }
}
async function probe(c) {
  const r = c.rng; const t = subject(c); const o = { ...options(r), ...(r.chance(0.7) ? { capabilities: caps(r, r.chance(0.7)) } : {}), ...(r.chance(0.2) ? { vault: r.pick(['scratch', 'acme']), collection: 'bench' } : {}) }
  const before = flat(t.ref); const breaks = r.chance(0.25); if (breaks) t.failAt = r.int(1, 60)
  let rep; let err; try { rep = await runStoreProbe(t.store, o) } catch (e) { err = e }
  const after = flat(t.ref)
  for (const k in before) c.eq(after[k], before[k], `${k} after a probe`)
  if (!breaks) { c.ok(!err, () => `probe failed: ${err.message}`); c.eq(Object.keys(after).filter(k => !(k in before)), [], 'records left behind by a probe') }
  if (err) { c.ok(err instanceof StoreFault, () => `probe failed with ${err.name}: ${err.message}`); c.sig(['fault', t.failAt, t.lets]); return }
  c.count('probes'); if (t.n < t.failAt) { const j = judge(c, t, o, rep, 'probe'); c.sig([j.codes, o.capabilities?.casAtomic, t.lets, o.casConcurrency, t.ping, t.lat.put, t.lat.loadAll, Object.keys(before).length]) }
}
async function topology(c) {
  const r = c.rng; const p = subject(c); const users = r.pick([undefined, 1, 2, 5]); const capabilities = r.chance(0.7) ? caps(r, r.chance(0.6)) : undefined
  const o = { ...options(r), ...(capabilities ? { capabilities } : {}), ...(users ? { expectedUsers: users } : {}) }
  const ts = Array.from({ length: r.int(0, 3) }, (_, k) => ({ t: subject(c, { name: r.pick(['mem', 'google-drive', 'webdav', 'wrapped-bundle', 'dynamo']) }), role: r.pick(['sync-peer', 'backup', 'archive']), label: r.chance(0.7) ? `t${k}` : undefined, pull: r.chance(0.4) }))
  const all = [p, ...ts.map(x => x.t)]; const before = all.map(t => flat(t.ref))
  const rep = await probeTopology({ ...o, store: p.store, sync: ts.map(x => ({ store: x.t.store, role: x.role, ...(x.label ? { label: x.label } : {}), ...(x.pull ? { hasPullPolicy: true } : {}) })) })
  all.forEach((t, k) => c.eq(flat(t.ref), before[k], `store ${k} after a topology check`))
  c.eq(rep.targets.map(x => [x.role, x.label]), ts.map(x => [x.role, x.label ?? x.t.store.name]), 'targets')
  const js = [judge(c, p, o, rep.primary, 'primary'), ...ts.map((x, k) => judge(c, x.t, o, rep.targets[k], `target ${k}`))]
  const want = []
  for (const x of ts) {
    const l = x.label ?? x.t.store.name
    if (x.role === 'sync-peer' && x.t.store.name !== 'mem' && x.t.store.name !== 'dynamo') want.push([l, 'bundle-as-sync-peer', 'warn'])
    if (x.role === 'sync-peer' && (users ?? 1) > 1 && capabilities?.casAtomic === false) want.push([l, 'no-atomic-cas-sync-peer', 'error'])
    if (x.role === 'sync-peer' && p.lat.put > x.t.lat.put * 2) want.push([l, 'primary-slower-than-peer', 'warn'])
    if (x.role === 'archive' && x.pull) want.push([l, 'archive-pull-configured', 'error'])
  }
  const key = x => JSON.stringify(x); c.eq(rep.topology.map(x => key([x.target, x.code, x.severity])).sort(), want.map(key).sort(), 'topology risks')
  const bad = js.some(j => j.bad) || want.some(x => x[2] === 'error'); c.ok(rep.recommended === !bad, () => `recommended ${rep.recommended} with risks ${show([js.map(j => j.codes), want])}`)
  c.count('topologies'); if (bad) c.count('topology_errors'); c.sig([ts.map(x => [x.role, x.t.store.name, x.t.lat.put, x.pull]), users, capabilities?.casAtomic, p.lat.put, js.map(j => j.codes)])
}
const METHODS = ['get', 'put', 'delete', 'list', 'loadAll', 'saveAll']
function stats(all, limit) {
  if (!all.length) return { count: 0, errors: 0, p50: 0, p90: 0, p99: 0, max: 0, avg: 0 }
  const s = all.slice(-limit).map(x => x.ms).sort((a, b) => a - b); const q = f => s[Math.min(s.length - 1, Math.floor(f * s.length))]
  return { count: all.length, errors: all.filter(x => x.err).length, p50: q(0.5), p90: q(0.9), p99: q(0.99), max: s.at(-1), avg: Math.round(s.reduce((a, b) => a + b, 0) / s.length) }
}
async function meter(c) {
  const r = c.rng; const ref = newRef(); const inner = instrument(ref, { extras: [], keepLog: false }); const limit = r.pick([5, 12, 40, 1024]); const degradedMs = r.pick([undefined, 50, 200]); const T = degradedMs ?? 500
  let slow = 0; let next = 0; let fail = null; const calls = []
  const base = { name: 'backend' }; for (const m of METHODS) base[m] = async (...a) => { calls.push(m); c.clock.now += next; if (fail === 'before') throw new StoreFault('store failed'); const out = await inner[m](...a); if (fail === 'after') throw new StoreFault('store failed'); return out }
  const live = r.chance(0.5); const hasPing = r.chance(0.5); let up = 'yes'; const interval = 1000; let pings = 0
  const alive = () => { pings++; if (up === 'throws') throw new Error('no answer'); return up === 'yes' }
  if (live && hasPing) base.ping = async () => alive()
  const own = live && !hasPing ? { ...base, put: async (...a) => { if (a[1] === 'probe-liveness') { if (!alive()) throw new Error('no answer'); return inner.put(...a) } return base.put(...a) }, delete: async (...a) => (a[1] === 'probe-liveness' ? inner.delete(...a) : base.delete(...a)) } : base
  const events = []; const degraded = []; const restored = []; const faulty = r.chance(0.3)
  const { store, meter: m } = toMeter(own, { sampleLimit: limit, ...(degradedMs ? { degradedMs } : {}), ...(live ? { liveness: { interval } } : {}), onDegraded: e => { degraded.push(e.status); if (faulty) throw new Error('observer failed') }, onRestored: e => { restored.push(e.status); if (faulty) throw new Error('observer failed') } })
  c.cleanup(() => m.close())
  m.subscribe(e => { events.push(e); if (faulty) throw new Error('listener failed') }); const extra = []; let un = m.subscribe(e => extra.push(e.status))
  const seen = Object.fromEntries(METHODS.map(x => [x, []])); let status = 'ok'; const want = []; let conflicts = 0; let extraWant = 0; let puts = 0; let log = ''; const deg = []; const res = []
  const move = to => { if (to === status) return; want.push([to === 'ok' ? 'restored' : 'degraded', to]); if (to === 'degraded') deg.push(to); if (to === 'ok') res.push(to); status = to; if (un) extraWant++; log += to[0]; c.count('transitions') }
  const check = () => {
    const s = m.snapshot(); for (const x of METHODS) c.eq(s.byMethod[x], stats(seen[x], limit), `meter of ${x}`)
    c.eq([s.totalCalls, s.casConflicts, s.status], [METHODS.reduce((n, x) => n + seen[x].length, 0), conflicts, status], 'meter totals')
    c.eq(events.map(e => [e.type, e.status]), want, 'status changes announced'); c.eq([degraded, restored], [deg, res], 'degraded and restored callbacks'); c.eq(extra.length, extraWant, 'announcements to a second listener')
  }
  const n = r.int(15, 60); const phases = r.chance(0.7)
  for (let k = 0; k < n; k++) {
    const what = r.weighted([[30, 'op'], [live ? 4 : 0, 'tick'], [1, 'reset'], [2, 'check'], [un ? 1 : 0, 'unsub']])
    if (what === 'tick') {
      up = r.weighted([[4, 'yes'], [2, 'no'], [2, 'throws']]); const p = pings; await c.clock.tick(interval); c.ok(pings > p, 'no liveness check within its interval')
      if (up === 'yes') { if (status === 'unreachable') move('ok') } else { if (status !== 'unreachable') c.count('outages'); move('unreachable') }
      continue
    }
    if (what === 'reset') { m.reset(); for (const x of METHODS) seen[x] = []; conflicts = 0; puts = 0; c.count('resets'); log += 'R'; continue }
    if (what === 'unsub') { if (r.chance(0.3)) { un(); un = null } continue }
    if (what === 'check') { check(); continue }
    if (phases && k % 15 === 0) slow = r.pick([0, 0, 1]); next = slow ? r.int(T - 20, T + 300) : r.chance(0.04) ? T + 1 : r.int(0, T)
    fail = r.weighted([[9, null], [1, 'before'], [1, 'after']]); const op = r.weighted([[6, 'put'], [2, 'get'], [1, 'delete'], [1, 'list'], [1, 'loadAll'], [0.5, 'saveAll']])
    const id = r.pick(['a', 'b']); const cur = ref.get('v', 'k', id); const stale = op === 'put' && r.chance(0.2) && cur; const e = env(c, (cur?._v ?? 0) + 1); const before = flat(ref); const nc = calls.length
    let out; let err; try { out = await store[op](...({ get: ['v', 'k', id], put: ['v', 'k', id, e, ...(stale ? [cur._v + 3] : [])], delete: ['v', 'k', id], list: ['v', 'k'], loadAll: ['v'], saveAll: ['v', { k: { z: e } }] })[op]) } catch (x) { err = x }
    c.eq(calls.slice(nc), [op], 'calls reaching the store for one call')
    const isConflict = stale && fail !== 'before'; const bad = !!(fail !== null || isConflict)
    c.ok(!!err === bad, () => `${op} ${err ? `failed with ${err.message}` : 'succeeded'} though the store ${bad ? 'failed' : 'succeeded'}`); if (err) c.ok(isConflict ? err instanceof ConflictError : err instanceof StoreFault, () => `${op} failed with ${err.name}: ${err.message}`)
    if (isConflict) c.count('meter_conflicts'); if (fail) c.count('meter_faults')
    if (!err && op === 'get') c.eq(out, cur, 'get through the meter')
    if (!err && op === 'put') c.eq(ref.get('v', 'k', id), e, 'put through the meter'); if (fail === 'before') c.eq(flat(ref), before, 'store after a refused call')
    seen[op].push({ ms: next, err: bad }); if (isConflict) conflicts++
    if (op === 'put' && ++puts >= 10) { const breached = stats(seen.put, limit).p99 > T; if (breached && status === 'ok') move('degraded'); else if (!breached && status === 'degraded') move('ok') }
    c.count('metered')
  }
  check(); m.close(); const had = events.length; if (live) { const p = pings; up = 'no'; await c.clock.tick(3 * interval); c.ok(pings === p, 'liveness checks after close'); c.ok(events.length === had, 'announcement after close') }
  c.ok(!c.clock.hasTimers(), 'timers left after close'); c.eq(Object.keys(flat(ref)).filter(k => k.includes('probe-liveness')), [], 'liveness records left behind')
  c.sig([log, limit, T, live, hasPing, n])
}
export const scenarios = [
  { name: 'probe', quick: 3000, run: probe, clock },
  { name: 'topology', quick: 1200, run: topology, clock },
  { name: 'meter', quick: 6000, run: meter, clock },
]
