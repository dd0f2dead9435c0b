// node lib/main.mjs <ID> [--tier quick|thorough] [--replay file] [--workers n] [--only scenario] [--cases n]
import { bundle, ROOT, REPO } from './build.mjs'
import { fork } from 'node:child_process'
import { existsSync, mkdirSync, readFileSync, rmSync, writeFileSync } from 'node:fs'
import { join } from 'node:path'
import { cpus } from 'node:os'

const argv = process.argv.slice(2)
const id = argv[0]
const opt = (n, d) => { const i = argv.indexOf('--' + n); return i >= 0 ? argv[i + 1] : d }
const tier = opt('tier', process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick')
const seed = parseInt(process.env.VERIF_SEED ?? '1', 10) || 1
const replay = opt('replay', null)
const only = opt('only', null)
const casesOverride = opt('cases', null)
const workers = replay ? 1 : parseInt(opt('workers', String(Math.max(1, Math.min(8, cpus().length)))), 10)
const t0 = Date.now()
const EV = join(ROOT, 'evidence')
const die = (m) => { console.error('CHECK-ERROR:', m); process.exitCode = 2 }

function knownKeys() {
  const f = join(ROOT, 'known-findings.txt'); const m = new Map()
  if (!existsSync(f)) return m
  for (const line of readFileSync(f, 'utf8').split('\n')) {
    const x = /^known: property=(\S+) key=(\S+) (.*)$/.exec(line)
    if (x && x[1] === id) m.set(x[2], x[3])
  }
  return m
}

const STALL = 180_000
async function main() {
  mkdirSync(EV, { recursive: true })
  const bdir = join(ROOT, '.build'); const out = join(bdir, `${id}-${process.pid}.mjs`)
  const evFile = join(EV, `${id}.json`)
  if (!replay && !only) { try { rmSync(evFile) } catch { /* none */ } }
  await bundle(`import './lib/preload.mjs'; import * as check from './checks/${id}.mjs'; import { childMain } from './lib/child.mjs'; await childMain(check);`, out)
  const agg = { evaluations: 0, sigs: new Set(), counters: {}, samples: [], violations: [], errors: [], meta: null, known: new Map(), truncated: 0, warns: 0, perScenario: {}, maxima: {}, sets: {} }
  const known = knownKeys()
  const cap = tier === 'thorough' ? 840_000 : 600_000
  const last = new Array(workers).fill(null)
  const replayData = replay ? JSON.parse(readFileSync(replay, 'utf8')) : null
  await Promise.all(Array.from({ length: workers }, (_, w) => new Promise(resolve => {
    const child = fork(out, [], {
      execArgv: ['--enable-source-maps', '--expose-gc', '--no-warnings', '--max-old-space-size=3000', '--stack-trace-limit=30'], cwd: ROOT, stdio: ['ignore', 'inherit', 'inherit', 'ipc'],
      env: { NODE_ENV: "production", ...process.env, VERIF_WORKER: `${w}/${workers}`, VERIF_TIER: tier, VERIF_SEED: String(replayData?.baseSeed ?? seed), VERIF_REPLAY: replay ? JSON.stringify(replayData) : '', VERIF_ONLY: only ?? '', VERIF_CASES: casesOverride ?? '', VERIF_REPO: REPO, TZ: 'UTC' },
    })
    let done = false
    const timer = setTimeout(() => { agg.errors.push(`worker ${w} exceeded the time cap, last case ${JSON.stringify(last[w])}`); child.kill('SIGKILL') }, cap)
    // a case that stops reporting altogether is spinning: its own time limit cannot fire any more
    let heard = Date.now(), spun = false
    const watch = setInterval(() => { if (Date.now() - heard > STALL) { spun = true; child.kill('SIGKILL') } }, 5000)
    child.on('message', m => {
      heard = Date.now()
      if (m.t === 'start') last[w] = m
      else if (m.t === 'end') {
        agg.evaluations += m.evaluations; for (const s of m.sigs) agg.sigs.add(s)
        for (const k in m.counters) agg.counters[k] = (agg.counters[k] ?? 0) + m.counters[k]
        for (const k in m.maxima) agg.maxima[k] = Math.max(agg.maxima[k] ?? -Infinity, m.maxima[k])
        for (const k in m.sets) { const s = (agg.sets[k] ??= new Set()); for (const x of m.sets[k]) s.add(x) }
        for (const k in m.perScenario) agg.perScenario[k] = (agg.perScenario[k] ?? 0) + m.perScenario[k]
        agg.samples.push(...m.samples); agg.truncated += m.truncated; agg.warns += m.warns
        agg.meta = m.meta
      } else if (m.t === 'violation') agg.violations.push(m)
      else if (m.t === 'error') agg.errors.push(m.msg)
      else if (m.t === 'done') { done = true; child.disconnect() }
    })
    child.on('exit', (code, sig) => {
      clearTimeout(timer); clearInterval(watch)
      if (!done) {
        if (code === 13) agg.violations.push({ t: 'violation', scenario: last[w]?.s, i: last[w]?.i, seed: last[w]?.seed, msg: 'an operation never settled (event loop drained while it was pending)', key: null })
        else if (spun || sig === 'SIGABRT') agg.violations.push({ t: 'violation', scenario: last[w]?.s, i: last[w]?.i, seed: last[w]?.seed, msg: spun ? 'a case never finished and never yielded (endless loop)' : 'a case exhausted the memory of its process', key: null })
        else if (!agg.errors.length) agg.errors.push(`worker ${w} exited code=${code} sig=${sig} last case ${JSON.stringify(last[w])}`)
      }
      resolve()
    })
  })))
  try { rmSync(out) } catch { /* ignore */ }
  // classify violations
  const fresh = []
  for (const v of agg.violations) {
    if (v.key && known.has(v.key)) agg.known.set(v.key, (agg.known.get(v.key) ?? 0) + 1)
    else fresh.push(v)
  }
  for (const [k, n] of agg.known) console.log(`KNOWN-FINDING: property=${id} ${known.get(k)} [${k}, seen ${n}x]`)
  const meta = agg.meta ?? { level: 'exploration', rule: '' }
  const sets = Object.fromEntries(Object.entries(agg.sets).map(([k, s]) => [k, s.size > 40 ? s.size : [...s].sort()]))
  const ev = {
    property: id, tier, seed, level: meta.level,
    coverage: { evaluations: agg.evaluations, distinct_nontrivial: agg.sigs.size, rule: meta.rule, samples: agg.samples.slice(0, 6), per_scenario: agg.perScenario, monitors: agg.counters, maxima: agg.maxima, observed: sets, truncated_cases: agg.truncated, known_findings: Object.fromEntries(agg.known) },
    assumptions: meta.assumptions ?? [], wall_s: (Date.now() - t0) / 1000, violations: fresh.length,
  }
  if (!replay && !only) writeFileSync(evFile, JSON.stringify(ev, null, 1))
  console.log(`${id} ${tier} seed=${seed}: ${agg.evaluations} cases, ${agg.sigs.size} distinct, ${JSON.stringify(agg.counters)} in ${ev.wall_s.toFixed(1)}s${agg.truncated ? ` (${agg.truncated} cases not started: time budget)` : ''}`)
  if (fresh.length) {
    mkdirSync(join(EV, 'replay'), { recursive: true })
    const seen = new Set()
    for (const v of fresh) {
      const k = `${v.scenario}|${String(v.msg).slice(0, 80)}`
      if (seen.has(k) && seen.size) continue
      seen.add(k)
      if (seen.size > 8) break
      const f = join(EV, 'replay', `${id}-${v.scenario}-${v.i}.json`)
      writeFileSync(f, JSON.stringify({ property: id, scenario: v.scenario, i: v.i, baseSeed: seed, tier, msg: v.msg, detail: v.detail ?? null, stack: v.stack ?? null }, null, 1))
      console.log(`[${v.scenario} #${v.i}] ${v.msg}`)
      if (process.env.VERIF_VERBOSE && v.stack) console.log(v.stack)
      if (process.env.VERIF_VERBOSE && v.detail) console.log(JSON.stringify(v.detail).slice(0, 6000))
      console.log(`VIOLATION property=${id} replay=${f}`)
    }
    process.exitCode = 1
    return
  }
  if (agg.errors.length) { for (const e of agg.errors.slice(0, 5)) console.error('CHECK-ERROR:', e); process.exitCode = 2; return }
  if (!replay && !only && !casesOverride) {
    const short = []
    if (agg.sigs.size === 0) short.push('no distinct non-trivial case')
    for (const [k, n] of Object.entries(meta.minimums ?? {})) if ((agg.counters[k] ?? 0) < n) short.push(`${k}=${agg.counters[k] ?? 0} < ${n}`)
    if (short.length) die('monitors observed too little: ' + short.join(', '))
  }
}
main().catch(e => { die(e.stack ?? e); })
