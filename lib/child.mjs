import { Rng, hash32 } from './prng.mjs'
import { mon } from './cryptomon.mjs'
import { clock, real } from './clock.mjs'
import { isDeepStrictEqual, inspect } from 'node:util'

export class Violation extends Error { constructor(msg, { key = null, detail = null } = {}) { super(msg); this.name = 'Violation'; this.key = key; this.detail = detail } }
export const show = (x, n = 400) => { const s = inspect(x, { depth: 6, breakLength: 160, maxArrayLength: 30, maxStringLength: 200 }); return s.length > n ? s.slice(0, n) + '…' : s }
export const deepEq = isDeepStrictEqual

export async function childMain(check) {
  const [w, n] = process.env.VERIF_WORKER.split('/').map(Number)
  const tier = process.env.VERIF_TIER
  const baseSeed = process.env.VERIF_SEED
  const replay = process.env.VERIF_REPLAY ? JSON.parse(process.env.VERIF_REPLAY) : null
  const only = process.env.VERIF_ONLY || null
  const send = m => process.send(m)
  const R = { evaluations: 0, sigs: new Set(), counters: {}, samples: [], truncated: 0, warns: 0, perScenario: {}, maxima: {}, sets: {} }
  const budget = tier === 'thorough' ? 720_000 : 420_000
  const t0 = real.Date.now()
  console.warn = () => { R.warns++ }; console.info = () => {}; console.debug = () => {}
  if (!replay && !process.env.VERIF_VERBOSE) console.error = () => { R.warns++ }
  let current = null
  const stray = []
  process.on('unhandledRejection', e => { stray.push(e) })
  process.on('uncaughtException', e => { stray.push(e) })
  let nviol = 0; let fresh = 0
  const keepAlive = null

  async function runCase(s, i) {
    const seed = hash32(`${baseSeed}|${check.meta.property}|${s.name}|${i}`)
    current = { s: s.name, i, seed }
    send({ t: 'start', ...current })
    mon.fast = s.realCrypto ? false : true
    mon.reset(seed)
    clock.install({ auto: s.clock?.auto ?? 1, timers: s.clock?.timers ?? false })
    stray.length = 0
    const c = {
      seed, i, tier, scenario: s.name, rng: new Rng(seed), mon, clock, replaying: !!replay, cleanups: [], stray,
      sig(x) { R.sigs.add(s.name + '|' + hash32(typeof x === 'string' ? x : JSON.stringify(x)).toString(36)) },
      count(k, v = 1) { R.counters[k] = (R.counters[k] ?? 0) + v },
      max(k, v) { R.maxima[k] = Math.max(R.maxima[k] ?? -Infinity, v) },
      seen(k, v) { (R.sets[k] ??= new Set()).add(String(v)) },
      sample(x) { if (R.samples.length < 3 && !R.samples.some(y => y.scenario === s.name)) R.samples.push({ scenario: s.name, case: i, ...x }) },
      fail(msg, o) { throw new Violation(msg, o) },
      ok(cond, msg, o) { if (!cond) throw new Violation(typeof msg === 'function' ? msg() : msg, o) },
      eq(a, b, msg, o) { if (!isDeepStrictEqual(a, b)) throw new Violation(`${typeof msg === 'function' ? msg() : msg}: got ${show(a)} expected ${show(b)}`, o) },
      note(msg, o) { send({ t: 'violation', ...current, scenario: s.name, msg, key: o?.key ?? null, detail: o?.detail ?? null }) ; nviol++ },
      cleanup(f) { this.cleanups.push(f) },
    }
    let timer
    try {
      const limit = s.timeoutMs ?? 60_000
      const to = new Promise((_, rej) => { timer = real.setTimeout(() => rej(new Violation(`case did not finish within ${limit / 1000}s`)), limit); timer.unref() })
      await Promise.race([s.run(c), to])
      await new Promise(r => real.setImmediate(r))
      if (stray.length && !s.allowStray) { const e = stray[0]; throw new Violation(`stray async error: ${e?.name}: ${e?.message}`, { detail: e?.stack }) }
    } catch (e) {
      nviol++
      const isV = e instanceof Violation
      send({ t: 'violation', scenario: s.name, i, seed, msg: isV ? e.message : `unexpected ${e?.name ?? typeof e}: ${e?.message ?? e}`, key: isV ? e.key : null, detail: isV ? e.detail : null, stack: e?.stack ?? null })
      if (!(isV && e.key)) fresh++
    } finally {
      real.clearTimeout(timer)
      for (const f of c.cleanups.reverse()) { try { await f() } catch { /* cleanup only */ } }
      clock.uninstall()
    }
    R.evaluations++; R.perScenario[s.name] = (R.perScenario[s.name] ?? 0) + 1
  }

  try {
    if (check.setup) await check.setup({ tier, worker: w })
    if (replay) {
      const s = check.scenarios.find(x => x.name === replay.scenario)
      await runCase(s, replay.i)
    } else {
      let g = 0
      // interleave scenarios so that truncation cuts all of them evenly
      const lists = check.scenarios.filter(s => !only || s.name === only).map(s => ({ s, n: process.env.VERIF_CASES ? parseInt(process.env.VERIF_CASES, 10) : (tier === 'thorough' ? (s.thorough ?? s.quick * 5) : s.quick), i: 0 }))
      const total = lists.reduce((a, l) => a + l.n, 0)
      for (let k = 0; k < total; k++) {
        // pick the list with the smallest progress fraction
        let best = null
        for (const l of lists) if (l.i < l.n && (!best || l.i / l.n < best.i / best.n)) best = l
        const i = best.i++
        if (g++ % n !== w) continue
        if (real.Date.now() - t0 > budget) { R.truncated++; continue }
        if (fresh >= 3) { R.truncated++; continue }
        await runCase(best.s, i)
      }
    }
    if (check.teardown) await check.teardown()
  } catch (e) { send({ t: 'error', msg: `harness failure in ${JSON.stringify(current)}: ${e?.stack ?? e}` }) }
  send({ t: 'end', ...R, sigs: [...R.sigs], sets: Object.fromEntries(Object.entries(R.sets).map(([k, v]) => [k, [...v]])), meta: check.meta })
  send({ t: 'done' })
  await new Promise(r => real.setTimeout(r, 20))
  process.exit(0)
}
