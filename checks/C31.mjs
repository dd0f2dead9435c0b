// C31 - scheduled sync: online trace-spec monitors over the push/pull events of the scheduler under a virtual clock
import { SyncScheduler, INDEXED_STORE_POLICY, BUNDLE_STORE_POLICY } from '@noy-db/hub/store'
import { real } from '../lib/clock.mjs'
import { open, newRef, instrument } from '../lib/world.mjs'

export const meta = {
  property: 'C31', level: 'exploration',
  rule: 'a case counts as non-trivial when its (policy, event times) trace differs from the others and at least one push started',
  assumptions: ['timers and Date are the virtual clock\'s', 'the transport is a stand-in whose duration and outcome the check chooses', 'browser lifecycle events are delivered through stand-in document/window event targets'],
  minimums: { pushes: 3000, changes_during_push: 500, failed_pushes: 300, min_interval_waits: 200, unload_flushes: 200, stops: 500, forced: 500, pulls: 500, database_changes: 2000, database_pushes: 500 },
}
const turn = () => new Promise(r => real.setImmediate(r))

function policy(r) {
  const k = r.int(0, 11)
  if (k === 0) return INDEXED_STORE_POLICY
  if (k === 1) return BUNDLE_STORE_POLICY
  const mode = r.pick(['on-change', 'on-change', 'debounce', 'debounce', 'interval', 'manual'])
  const push = { mode }
  if (mode === 'debounce' && r.chance(0.9)) push.debounceMs = r.pick([10, 50, 100])
  if (mode === 'interval') push.intervalMs = r.pick([30, 100])
  if (r.chance(0.5)) push.minIntervalMs = r.pick([20, 60, 150, 400])
  if (r.chance(0.4)) push.onUnload = r.chance(0.5)
  const pm = r.pick(['manual', 'interval', 'interval', 'on-focus'])
  const pull = { mode: pm }
  if (pm === 'interval') pull.intervalMs = r.pick([40, 90])
  return { push, pull }
}

// stand-ins for the browser lifecycle
function browser(c) {
  const doc = new EventTarget(); doc.visibilityState = 'visible'
  const win = new EventTarget()
  const live = new Map()
  const wrap = (t, name) => {
    const add = t.addEventListener.bind(t), rem = t.removeEventListener.bind(t)
    t.addEventListener = (e, f) => { (live.get(name + e) ?? live.set(name + e, new Set()).get(name + e)).add(f); add(e, f) }
    t.removeEventListener = (e, f) => { live.get(name + e)?.delete(f); rem(e, f) }
  }
  wrap(doc, 'doc:'); wrap(win, 'win:')
  const had = { document: Object.getOwnPropertyDescriptor(globalThis, 'document'), addEventListener: Object.getOwnPropertyDescriptor(globalThis, 'addEventListener'), removeEventListener: Object.getOwnPropertyDescriptor(globalThis, 'removeEventListener') }
  globalThis.document = doc
  globalThis.addEventListener = win.addEventListener
  globalThis.removeEventListener = win.removeEventListener
  c.cleanup(() => { for (const [k, d] of Object.entries(had)) { if (d) Object.defineProperty(globalThis, k, d); else delete globalThis[k] } })
  return {
    listeners: () => [...live.values()].reduce((a, s) => a + s.size, 0),
    hide() { doc.visibilityState = 'hidden'; doc.dispatchEvent(new Event('visibilitychange')) },
    show() { doc.visibilityState = 'visible'; doc.dispatchEvent(new Event('visibilitychange')) },
    pagehide() { win.dispatchEvent(new Event('pagehide')) },
  }
}

async function run(c) {
  const r = c.rng, pol = policy(r), P = pol.push
  const inBrowser = r.chance(0.6), br = inBrowser ? browser(c) : null
  const beforeExit0 = process.listeners('beforeExit').length
  c.cleanup(() => { for (const f of process.listeners('beforeExit').slice(beforeExit0)) process.removeListener('beforeExit', f) })
  const minI = P.minIntervalMs ?? 0
  const unload = P.onUnload ?? P.mode !== 'manual'
  const deb = P.debounceMs ?? 30_000
  const now = () => c.clock.now
  const tr = []
  const at = (what, x) => { tr.push(`${now() - T0} ${what}${x === undefined ? '' : ' ' + x}`) }
  const T0 = now()
  // ---- state the monitors keep
  const changes = []               // {t, attempted, done}
  let started = false, startedAt = 0, ticksBase = 0, flying = null, lastOk = -Infinity, lastFail = null, lastTickSeen = -1
  let forcedOut = 0, flushOut = false, flushDue = false, pulling = null, pushes = 0, lastPushStart = -Infinity, lastOkIso = null, lastPullIso = null, forcedPulls = 0, pullDue = false
  let bad = null, lastEnd = -1
  const violate = msg => { bad ??= msg }
  const dirty = () => changes.filter(x => !x.done).length
  const open = []
  let pushPlan, pullPlan
  const ticksUpTo = t => P.intervalMs && started ? Math.floor((t - startedAt) / P.intervalMs) : 0
  let tickAtLastPush = 0
  const cb = {
    getDirtyCount: () => dirty(),
    push() {
      at('push>'); pushes++; c.count('pushes')
      if (flying) violate(`a second push started at ${now() - T0} while one was running`)
      const forced = forcedOut > 0 || flushDue || flushOut
      if (!started && !forced) violate(`a push started after the scheduler was stopped`)
      if (!forced) {
        if (P.mode === 'manual') violate('a push was started without being asked for in manual mode')
        if (now() < lastOk + minI) violate(`a scheduled push started ${now() - lastOk} ms after the previous one, below the minimum interval of ${minI} ms`)
        const old = changes.findLast(x => x.at >= 0)
        if (P.mode === 'debounce' && old && now() !== lastEnd && !(minI && now() === lastOk + minI) && now() < old.t + deb) violate(`pushed ${now() - old.t} ms after the last change, before the quiet time of ${deb} ms`)
        if (P.mode === 'interval' && ticksUpTo(now()) <= tickAtLastPush) violate('an interval push started without an interval tick since the previous push')
      }
      if (dirty() === 0) violate('a push was started with nothing to push')
      tickAtLastPush = ticksUpTo(now()); lastPushStart = now(); flushDue = false
      const batch = changes.filter(x => !x.done)
      for (const x of changes) x.attempted = true
      const { ms, fail } = pushPlan()
      const op = { end: now() + ms }
      flying = op
      return new Promise((res, rej) => {
        const fin = () => {
          flying = null; lastEnd = now(); at(fail ? 'push!' : 'push<')
          if (fail) { lastFail = new Error(`transport ${pushes}`); c.count('failed_pushes'); rej(fail === 'odd' ? 'plain string' : lastFail) }
          else { for (const x of batch) x.done = true; lastOk = now(); lastOkIso = new Date(now()).toISOString(); lastFail = null; res() }
        }
        if (ms === 0) fin(); else open.push(setTimeout(fin, ms))
      })
    },
    pull() {
      at('pull>'); c.count('pulls')
      if (pulling) violate('a second pull started while one was running')
      if (!started && !forcedPulls) violate('a pull started after the scheduler was stopped')
      if (!forcedPulls && !pullDue && pol.pull.mode !== 'interval') violate(`a pull was started without being asked for in ${pol.pull.mode} mode`)
      pullDue = false
      const { ms, fail } = pullPlan()
      pulling = {}
      return new Promise((res, rej) => { const fin = () => { pulling = null; at('pull<'); if (fail) { lastFail = new Error('pull'); rej(lastFail) } else { lastPullIso = new Date(now()).toISOString(); lastFail = null; res() } }; if (ms === 0) fin(); else setTimeout(fin, ms) })
    },
  }
  const durations = r.pick([[0], [0, 5, 30], [30, 80, 200], [5, 500]])
  const failP = r.pick([0, 0, 0.2, 0.5])
  const plan = () => ({ ms: r.pick(durations), fail: r.chance(failP) ? (r.chance(0.3) ? 'odd' : 'err') : null })
  pushPlan = plan; pullPlan = plan
  const s = new SyncScheduler(pol, cb)
  const detail = () => JSON.stringify({ policy: pol, inBrowser, trace: tr })
  const check = () => {
    if (bad) c.fail(bad, { detail: detail() })
    if (!flying) flushOut = false
    // every change gets its push in time
    const waiting = changes.filter(x => !x.attempted && x.at >= startedAt)
    if (started && waiting.length && !flying) {
      const oldest = waiting[0], last = changes[changes.length - 1]
      if (now() < lastOk + minI) { c.count('min_interval_waits') } else {
        let due = null
        if (P.mode === 'on-change') due = oldest.t
        else if (P.mode === 'debounce') due = last.t + deb
        else if (P.mode === 'interval') {
          // the first tick after the change at which no minimum interval stood in the way
          let k = Math.floor((oldest.t - startedAt) / P.intervalMs) + 1
          while (startedAt + k * P.intervalMs < lastOk + minI) k++
          due = startedAt + k * P.intervalMs
        }
        if (due !== null && P.mode !== 'interval') due = Math.max(due, lastOk + minI)
        if (due !== null && now() > due) c.fail(`a change made at ${oldest.t - T0} was due to be pushed at ${due - T0} under ${P.mode} but no push has started by ${now() - T0}`, { detail: detail() })
      }
    }
    const st = s.status
    if (st.pendingWrites !== dirty()) c.fail(`status reports ${st.pendingWrites} pending writes, there are ${dirty()}`, { detail: detail() })
    if (st.lastPushAt !== lastOkIso) c.fail(`status reports the last push at ${st.lastPushAt}, it was ${lastOkIso}`, { detail: detail() })
    if (st.lastPullAt !== lastPullIso) c.fail(`status reports the last pull at ${st.lastPullAt}, it was ${lastPullIso}`, { detail: detail() })
    if (flying && st.state !== 'pushing') c.fail(`status is ${st.state} while a push is running`, { detail: detail() })
    if (!flying && st.state === 'pushing') c.fail('status is pushing while no push is running', { detail: detail() })
    if (lastFail && !flying && !pulling && !st.lastError) c.fail('the last operation failed but no error is reported', { detail: detail() })
    if (!flying && !pulling && !dirty() && st.state === 'pending') c.fail('status is pending with nothing to push', { detail: detail() })
  }
  const settle = async () => { for (let i = 0; i < 6; i++) await turn(); check() }
  const pullTick = () => pol.pull.mode === 'interval' && started ? Math.floor((now() - startedAt) / pol.pull.intervalMs) : 0
  let lastPullTick = 0, pullsBefore = 0
  const advance = async ms => {
    // step from timer to timer so that the deadlines are judged at every instant
    const target = now() + ms
    for (let g = 0; g < 4000; g++) {
      const n = c.clock.next()
      if (!n || n.at > target) break
      await c.clock.tick(Math.max(0, n.at - now()), { settle: 2 }); check()
    }
    if (now() < target) await c.clock.tick(target - now(), { settle: 2 })
    check()
  }
  const n = r.int(10, 40)
  const waits = []
  const start = () => { s.start(); if (!started) { started = true; startedAt = now(); tickAtLastPush = 0; lastPullTick = 0 } at('start') }
  const stop = () => { s.stop(); started = false; c.count('stops'); at('stop')
    if (br && br.listeners()) c.fail(`${br.listeners()} lifecycle listeners left after stop`, { detail: detail() })
    if (process.listeners('beforeExit').length !== beforeExit0) c.fail('exit listener left after stop', { detail: detail() }) }
  if (r.chance(0.9)) start()
  for (let k = 0; k < n; k++) {
    const step = r.weighted([[10, 'change'], [8, 'wait'], [2, 'force'], [1, 'forcePull'], [1.2, 'hide'], [0.5, 'pagehide'], [0.7, 'exit'], [0.8, 'focus'], [0.5, 'stop'], [0.7, 'start'], [2, 'burst'], [1, 'longwait']])
    if (step === 'change' || step === 'burst') {
      for (let j = step === 'burst' ? r.int(2, 5) : 1; j > 0; j--) {
        const x = { t: now(), at: started ? now() : -1, attempted: false, done: false }
        if (flying) c.count('changes_during_push')
        changes.push(x); at('change'); c.count('changes')
        s.notifyChange()
        if (r.chance(0.5)) await turn()
      }
    } else if (step === 'wait') await advance(r.pick([1, 5, 10, 20, 30, 60, 100]))
    else if (step === 'longwait') await advance(r.pick([500, 31_000]))
    else if (step === 'force') {
      c.count('forced'); at('force>')
      const before = changes.slice()
      forcedOut++
      let settled = false
      const p = s.forcePush().then(() => {
        settled = true; forcedOut--; at('force<')
        const miss = before.find(x => !x.attempted)
        if (miss) violate(`a forced push returned without pushing the change made at ${miss.t - T0}`)
        const p0 = before.filter(x => !x.done)
        if (failP === 0 && p0.length) violate(`a forced push returned with ${p0.length} earlier changes unpushed`)
      }, e => { violate(`a forced push rejected with ${e}`) })
      waits.push(() => settled)
      if (r.chance(0.5)) { for (let g = 0; g < 400 && !settled; g++) { await turn(); await turn(); if (!settled && c.clock.hasTimers()) await advance(Math.max(0, c.clock.next().at - now())) } }
      void p
    } else if (step === 'forcePull') {
      forcedPulls++
      const was = pulling; let begun = false
      const p0 = tr.length
      let settled = false
      s.forcePull().then(() => { settled = true; forcedPulls--; begun = was !== null || tr.slice(p0).some(x => x.endsWith('pull>')); if (!begun) violate('a forced pull returned without pulling') }, e => violate(`a forced pull rejected with ${e}`))
      waits.push(() => settled)
    } else if (step === 'hide' && br) { if (started && unload && dirty()) { if (!flying) flushDue = true; else flushOut = true; c.count('unload_flushes') } const was = flying, nd = dirty(), p0 = pushes; br.hide(); at('hide'); await flush(was, nd, p0) }
    else if (step === 'pagehide' && br) { if (started && unload && dirty()) { if (!flying) flushDue = true; else flushOut = true; c.count('unload_flushes') } const was = flying, nd = dirty(), p0 = pushes; br.pagehide(); at('pagehide'); await flush(was, nd, p0) }
    else if (step === 'exit') {
      const mine = process.listeners('beforeExit').slice(beforeExit0)
      if (started && unload && mine.length === 0) c.fail('no exit hook registered although pending changes are to be pushed on exit', { detail: detail() })
      if (!unload && mine.length) c.fail('an exit hook is registered although pushing on exit is off', { detail: detail() })
      if (started && unload && dirty()) { if (!flying) flushDue = true; else flushOut = true; c.count('unload_flushes') }
      const was = flying, nd = dirty(), p0 = pushes
      at('exit'); for (const f of mine) f(0); await flush(was, nd, p0)
    } else if (step === 'focus' && br) {
      const due = started && pol.pull.mode === 'on-focus'; if (due) pullDue = true
      const was = pulling; const p0 = tr.length
      br.show(); at('focus'); await turn()
      if (due && !was && !tr.slice(p0).some(x => x.endsWith('pull>'))) c.fail('the window was shown but nothing was pulled', { detail: detail() })
      pullDue = false
    } else if (step === 'stop' && started) { stop(); const left = changes.filter(x => !x.attempted); for (const x of left) x.at = -1 }
    else if (step === 'start') start()
    await settle()
  }
  async function flush(was, nd, p0) {
    await turn()
    if (started && unload && nd) {
      if (!was) { if (pushes === p0) c.fail('pending changes were not pushed when the page went away', { detail: detail() }); flushDue = false }
      else {
        // the running push finishes, then the rest goes out
        for (let g = 0; g < 50 && flying === was; g++) await advance(Math.max(0, c.clock.next().at - now()))
        for (let i = 0; i < 4; i++) await turn()
        
        const miss = started && changes.find(x => !x.attempted && x.t < lastPushStart)
        if (miss) c.fail('a change was left out of the push made when the page went away', { detail: detail() })
      }
    } else flushDue = false
  }
  // ---- the transport recovers; everything must get through by itself (or on the next change / request)
  pushPlan = () => ({ ms: r.pick([0, 20]), fail: null }); pullPlan = pushPlan
  if (P.mode !== 'manual' && started) {
    const x = { t: now(), at: now(), attempted: false, done: false }
    changes.push(x); at('change'); s.notifyChange(); await settle()
    await advance(P.mode === 'interval' ? P.intervalMs * 2 + minI + 600 : deb * (P.mode === 'debounce' ? 1 : 0) + minI * 2 + 1200)
    if (dirty()) c.fail(`${dirty()} changes never pushed although the transport works again`, { detail: detail() })
  } else { forcedOut++; const p = s.forcePush(); await advance(1200); await p; forcedOut--; if (dirty()) c.fail(`${dirty()} changes left after a forced push`, { detail: detail() }) }
  if (pol.pull.mode === 'interval' && started) {
    const a = tr.filter(x => x.endsWith('pull>')).length
    await advance(pol.pull.intervalMs + 600)
    if (tr.filter(x => x.endsWith('pull>')).length === a) c.fail('no pull in a whole pull interval', { detail: detail() })
  }
  for (const w of waits) if (!w()) c.fail('a forced operation never returned', { detail: detail() })
  if (started) {
    if (r.chance(0.5)) { changes.push({ t: now(), at: -1, attempted: false, done: false }); s.notifyChange() }
    stop()
    const p0 = pushes
    await advance(200)
    for (let i = 0; i < 3; i++) { changes.push({ t: now(), at: -1, attempted: false, done: false }); s.notifyChange(); await advance(r.pick([50, 40_000])) }
    if (br) { br.hide(); br.pagehide(); br.show() }
    await settle()
    if (pushes !== p0) c.fail('a push started after the scheduler was stopped', { detail: detail() })
  }
  if (bad) c.fail(bad, { detail: detail() })
  if (pushes) c.sig(tr.join(';') + JSON.stringify(pol))
  c.sample({ policy: pol, events: tr.slice(0, 14) })
}
// a database opened with a policy: what reaches the other side, and when
async function database(c) {
  const r = c.rng, mode = r.pick(['on-change', 'debounce', 'interval', 'manual']), P = { mode, onUnload: false }
  if (mode === 'debounce') P.debounceMs = r.pick([50, 400, 30_000]); if (mode === 'interval') P.intervalMs = r.pick([100, 1000]); if (mode !== 'interval' && mode !== 'manual' && r.chance(0.3)) P.minIntervalMs = r.pick([200, 5000])
  const pol = { push: P, pull: { mode: 'manual' } }, remote = newRef(); let down = false, writes = 0, lastWrite = -1
  const rs = instrument(remote, { keepLog: false, onCall: ev => { if (/put|delete/.test(ev.op ?? ev.method ?? '')) { writes++; lastWrite = c.clock.now } } }); rs._st.fault = ev => down ? 'before' : undefined
  const extra = r.chance(0.3) ? newRef() : null, perTarget = r.chance(0.3)
  const sync = extra || perTarget ? [{ store: rs, role: 'sync-peer', ...(perTarget ? { policy: pol } : {}) }, ...(extra ? [{ store: instrument(extra, { keepLog: false }), role: 'backup', ...(perTarget ? { policy: pol } : {}) }] : [])] : rs
  const { db, v } = await open(instrument(newRef(), { keepLog: false }), { features: ['sync'], sync, ...(perTarget ? {} : { syncPolicy: pol }) }), k = v.collection('docs'); await k.list()
  const settle = async () => { for (let q = 0; q < 12; q++) await turn() }
  const state = new Map(), behind = (ref) => { const got = ref.data.get('acme')?.get('docs') ?? new Map(); return [...state].filter(([id, x]) => x === null ? got.has(id) : got.get(id)?._v !== x).map(([id]) => id) }
  let log = mode[0], lastChange = c.clock.now, lastPush = -Infinity, first = null; const t0 = c.clock.now
  for (let n = r.int(4, 14); n > 0; n--) {
    const op = r.weighted([[6, 'put'], [2, 'del'], [4, 'wait'], [1, 'down'], [2, 'explicit']]); log += op[0]
    if (op === 'put') { const id = r.pick(['a', 'b', 'c']); const had = state.get(id); if (had === null) continue; await k.put(id, { n }); state.set(id, (had ?? 0) + 1); lastChange = c.clock.now; c.count('database_changes') }
    else if (op === 'del') { const id = r.pick(['a', 'b', 'c']); if (!state.get(id)) continue; await k.delete(id); state.set(id, null); lastChange = c.clock.now; c.count('database_changes') }
    else if (op === 'down') { down = true; await c.clock.tick(r.pick([10, 2000]), { settle: 12 }); down = false; const id = 'd'; await k.put(id, { n }); state.set(id, (state.get(id) ?? 0) + 1); lastChange = c.clock.now }
    else if (op === 'explicit') { await db.push('acme'); c.eq(behind(remote), [], `after an explicit push under the ${mode} policy the other side misses changes of`) }
    else await c.clock.tick(r.pick([5, 60, 500]), { settle: 12 })
    await settle()
    if (mode === 'manual') continue
    if (r.chance(0.4)) { // give the policy its time
      const wait = (mode === 'on-change' ? 0 : mode === 'debounce' ? P.debounceMs : P.intervalMs) + (P.minIntervalMs ?? 0) + 5
      await c.clock.tick(wait, { settle: 12 }); await settle()
      c.eq(behind(remote), [], `${c.clock.now - lastChange} ms after the last change, under the policy ${JSON.stringify(P)}, the other side misses changes of`); c.count('database_pushes')
      if (extra) c.eq(behind(extra), [], 'the second target misses changes of')
    }
  }
  if (mode === 'debounce') { // not before the quiet time is over
    await c.clock.tick(P.debounceMs + (P.minIntervalMs ?? 0) + 5, { settle: 12 }); const w = writes; await k.put('z', { n: 0 }); state.set('z', 1); await c.clock.tick(P.debounceMs - 2, { settle: 12 }); c.ok(writes === w, 'a change was pushed before the quiet time was over'); await c.clock.tick(5 + (P.minIntervalMs ?? 0), { settle: 12 }); c.eq(behind(remote), [], 'after the quiet time the other side misses changes of')
  }
  if (mode === 'manual') { await c.clock.tick(100_000, { settle: 3 }); c.ok(writes === 0 || log.includes('e'), 'the manual policy pushed by itself') }
  db.close(); const w = writes; await c.clock.tick(200_000, { settle: 3 }); c.ok(writes === w, 'a closed database still pushed'); c.ok(!c.clock.hasTimers(), 'a closed database still has timers')
  c.sig(['db', JSON.stringify(P), !!extra, perTarget, log]); c.sample({ scenario: 'database', policy: P, program: log, remoteWrites: writes })
}
async function unconfigured(c) { // no policy given: documented as pushing on every change
  const remote = newRef(); const { db, v } = await open(instrument(newRef(), {}), { features: ['sync'], sync: instrument(remote, {}) }); await v.collection('docs').put('a', { n: 1 }); await c.clock.tick(100_000, { settle: 12 })
  const there = remote.data.get('acme')?.get('docs')?.has('a'); db.close(); c.sig('unconfigured'); c.ok(there, 'a database with a sync target and no policy never pushes a change by itself', { key: 'default-policy-not-started' })
}
export const scenarios = [{ name: 'unconfigured', quick: 1, clock: { auto: 0, timers: true }, run: unconfigured }, { name: 'database', quick: 700, thorough: 4000, clock: { auto: 0, timers: true }, run: database }, { name: 'trace', quick: 16000, thorough: 80000, clock: { auto: 0, timers: true }, run }]
