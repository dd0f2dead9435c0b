// Closed periods: what is dated inside stays as it was, whoever writes and however; the period records chain.
import { createHash } from 'node:crypto'
import { ref as fk } from '@noy-db/hub'
import * as asJson from '@noy-db/as-json'
import { z } from 'zod'
import { newRef, open, openExporter, instrument, PASS } from '../lib/world.mjs'
import { Sched } from '../lib/sched.mjs'
import { show } from '../lib/child.mjs'

export const meta = {
  property: 'C22', level: 'exploration',
  rule: 'distinct (write path, date relation of stored and incoming record to the closed periods, collection kind, role, outcome) plus distinct overlap schedules and tampering outcomes',
  assumptions: ['Sessions use the periods strategy and were opened after the closes of other sessions.', 'Replication, restore and attachments are not write paths.', 'Users other than the owner were granted access after the first close, so they hold the key of the period records.', 'Dates are ISO dates or UTC timestamps, or Date objects.', 'A write overlapping the close may fall on either side of it.'],
  minimums: { programs: 1000, refusedWrites: 8000, allowedWrites: 6000, chainChecks: 3000, overlapCloses: 1500, tampered: 800, carried: 800 },
}
const norm = x => JSON.parse(JSON.stringify(x))
const canon = x => Array.isArray(x) ? '[' + x.map(canon).join(',') + ']' : x && typeof x === 'object' ? '{' + Object.keys(x).sort().map(k => JSON.stringify(k) + ':' + canon(x[k])).join(',') + '}' : JSON.stringify(x)
const sha = s => createHash('sha256').update(s).digest('hex')
const isClosed = e => e?.name === 'PeriodClosedError' || e?.code === 'PERIOD_CLOSED' || (e?.cause && isClosed(e.cause))

/** Independent judgement of "dated at or before the end". */
export function inside(raw, end) {
  if (raw === undefined || raw === null) return false
  const s = raw instanceof Date ? raw.toISOString() : raw; if (typeof s !== 'string') return false
  const t = Date.parse(s.length === 10 ? s + 'T00:00:00.000Z' : s)
  return t <= Date.parse(end.length === 10 ? end + 'T23:59:59.999Z' : end)
}
const sealedBy = (ps, raw, ts) => ps.filter(p => p.kind === 'closed').some(p => p.dateField ? p.dateField === 'date' && inside(raw, p.endDate) : ts !== null && ts !== undefined && inside(ts, p.endDate))

export function chainOk(ps) {
  for (let i = 0; i < ps.length; i++) {
    const want = i ? sha(canon(ps[i - 1])) : ''
    if (ps[i].priorPeriodHash !== want) return `period ${i} (${ps[i].name}) does not carry the digest of the period before it`
    if (i && ps[i].priorPeriodName !== ps[i - 1].name) return `period ${i} (${ps[i].name}) names ${ps[i].priorPeriodName} as the one before it, expected ${ps[i - 1].name}`
  }
  return null
}
const DATES = ['2025-12-31', '2026-01-01', '2026-01-31', '2026-02-01', '2026-02-28', '2026-03-01', '2026-03-31', '2026-04-01', '2026-03-31T23:59:59.999Z', '2026-04-01T00:00:00.000Z', '2026-01-31T12:00:00.000Z', '2026-01-31T12:00:00.001Z', '2026-06-30', '2027-01-01']
const ENDS = ['2026-01-31', '2026-02-28', '2026-03-31', '2026-01-31T12:00:00.000Z', '2026-03-31T23:59:59.999Z', '2025-12-31']
const SPECS = {
  entries: {}, lines: { refs: { entry: fk('entries', 'cascade') } }, lazy: { prefetch: false, cache: { maxRecords: 2 } }, indexed: { prefetch: false, cache: { maxRecords: 2 }, indexes: ['n'] }, merged: { crdt: 'lww-map' },
  tiered: { tiers: [0, 1, 2] }, checked: { schema: z.object({ id: z.string(), n: z.number(), date: z.string().transform(x => x.replaceAll('/', '-')).optional(), entry: z.string().nullish() }) },
}
const KINDS = Object.keys(SPECS); const IDS = ['1', '2', '3']

async function programs(c) {
  const r = c.rng; const ref = newRef(); c.clock.set(Date.parse('2026-05-01T00:00:00Z')); const features = ['history', 'tx', 'periods', 'crdt', 'index', 'i18n']
  let who = 'alice', w, granted = false; const periods = []; const model = new Map() // coll/id -> { rec, tier }
  const openAs = async u => { who = u; w = u === 'alice' ? await openExporter(instrument(ref, {}), { features }) : await open(instrument(ref, {}), { features, user: u, secret: PASS + u }); w.cols = Object.fromEntries(Object.entries(SPECS).map(([k, o]) => [k, w.v.collection(k, o)])) }
  await openAs('alice'); c.count('programs')
  if (r.chance(0.7)) for (const k of KINDS) { await w.cols[k].put('seed', { id: 'seed', n: 0 }); await w.cols[k].delete('seed') } // every collection has its key before anyone else is granted access
  else granted = null
  const tsOf = (cn, id) => ref.data.get('acme')?.get(cn)?.get(id)?._ts ?? null
  const envs = () => { const out = {}; for (const [k, m] of ref.data.get('acme') ?? []) if (!k.startsWith('_keyring')) for (const [i, e] of m) out[k + '|' + i] = e; return show(out) }
  const rd = () => { const d = r.pick(DATES); return r.chance(0.12) ? new Date(d) : d }
  const kinds = r.sample(KINDS, 3); if (!kinds.includes('entries')) kinds.push('entries'); const useLines = kinds.includes('lines')
  const touch = (cn, id, incoming) => { const m = model.get(cn + '/' + id); return sealedBy(periods, m?.rec.date, m ? tsOf(cn, id) : null) || (incoming !== null && periods.some(p => p.kind === 'closed' && p.dateField === 'date' && inside(cn === 'checked' && typeof incoming.date === 'string' ? incoming.date.replaceAll('/', '-') : incoming.date, p.endDate))) }
  const closure = (cn, id) => { const out = [[cn, id]]; if (cn === 'entries' && useLines) for (const i of IDS) { const m = model.get('lines/' + i); if (m && m.rec.entry === id) out.push(['lines', i]) } return out }
  const mk = (cn, id) => ({ id, n: r.int(0, 99), ...(r.chance(0.93) ? { date: cn === 'checked' ? (d => r.chance(0.5) ? d.replaceAll('-', '/') : d)(r.pick(DATES)) : rd() } : {}), ...(cn === 'lines' ? { entry: r.pick(IDS) } : {}) })
  const stored = (cn, rec) => norm(cn === 'checked' && rec.date ? { ...rec, date: rec.date.replaceAll('/', '-') } : rec)
  const setM = (cn, id, rec, tier) => { const old = model.get(cn + '/' + id); let x = stored(cn, rec); if (cn === 'merged' && old) x = { ...old.rec, ...x }; model.set(cn + '/' + id, { rec: x, tier: tier ?? 0 }) }
  const steps = r.int(14, 26)
  for (let k = 0; k < steps; k++) {
    c.clock.set(c.clock.now + r.pick([1, 1000, 86400000]))
    const cn = r.pick(kinds); const id = r.pick(IDS); const col = w.cols[cn]; const m = model.get(cn + '/' + id)
    const op = r.weighted([[5, 'put'], [2, 'delete'], [2, 'putMany'], [2, 'deleteMany'], [2, 'atomic'], [3, 'tx'], [who === 'alice' && SPECS[cn].prefetch !== false && cn !== 'tiered' ? 2 : 0, 'import'], [1, 'revert'], [who === 'alice' ? (periods.length < 5 ? 2 : 0) : 0, 'close'], [who === 'alice' && periods.some(p => p.kind === 'closed') && periods.length < 9 ? 2 : 0, 'open'], [cn === 'tiered' && who === 'alice' ? 6 : 0, 'tier'], [1, 'restart']])
    let err = null, expect = 'ok', what = op, effect = () => {}
    const before = envs()
    const go = async fn => { try { await fn() } catch (e) { err = e } }
    // records of the tiered collection above tier 0 are only reached by the tier calls
    if (cn === 'tiered' && m?.tier && !['tier', 'close', 'restart', 'open'].includes(op)) continue
    if (op === 'restart') { w.db.close(); const next = granted && r.chance(0.5) ? 'bob' : 'alice'; await openAs(next) }
    else if (op === 'close') {
      const spec = { name: 'P' + periods.length, endDate: r.chance(0.15) ? new Date(c.clock.now + r.pick([-86400000 * 3, 0])).toISOString() : r.pick(ENDS), ...(r.chance(0.8) ? { dateField: r.chance(0.9) ? 'date' : 'other' } : {}) }
      if (!spec.dateField && !r.chance(0.4)) spec.endDate = new Date(c.clock.now - r.pick([0, 1000, 86400000])).toISOString()
      await go(async () => { const p = await w.v.closePeriod(spec); c.eq([p.name, p.endDate, p.kind, p.dateField], [spec.name, spec.endDate, 'closed', spec.dateField], 'the closed period as returned'); periods.push(norm(p)) })
      if (granted === false) { granted = true; await w.db.grant('acme', { userId: 'bob', displayName: 'Bob', role: r.pick(['operator', 'admin']), passphrase: PASS + 'bob', permissions: Object.fromEntries(KINDS.map(x => [x, 'rw'])) }) }
      what = `close ${show(spec)}`
    } else if (op === 'open') {
      const from = r.pick(periods.filter(p => p.kind === 'closed')); const tgt = r.pick(['entries', ...kinds.filter(x => !['lines', 'tiered', 'merged'].includes(x))]); const nid = 'ob' + r.int(0, 1); const rec = { ...mk(tgt, nid), id: nid }; const bad = touch(tgt, nid, rec); let seen = null
      const fails = r.chance(0.15); expect = fails ? 'thrown' : bad ? 'closed' : 'ok'
      await go(async () => { const p = await w.v.openPeriod({ name: 'O' + periods.length, startDate: '2026-07-01', fromPeriod: from.name, carryForward: async ctx => { seen = { end: ctx.priorEndDate, one: await ctx.collection('entries').get('1') }; if (fails) throw new Error('no balances'); return { [tgt]: { [nid]: rec } } } }); c.eq([p.kind, p.openingCollections], ['opened', [tgt]], 'the opened period as returned'); periods.push(norm(p)) })
      c.ok(seen, 'the carry-forward function was not called'); c.eq(seen.end, from.endDate, 'the end of the period carried forward'); const e1 = model.get('entries/1'); c.eq(seen.one === null ? null : norm(seen.one), e1 ? e1.rec : null, 'the state the balances are computed from')
      effect = () => { setM(tgt, nid, rec); c.count('carried') }; what = `open from ${from.name} carrying ${tgt}/${nid} ${show(rec)}`
    } else if (op === 'put' || op === 'putMany' || op === 'atomic' || op === 'import' || op === 'tx') {
      const n = op === 'put' ? 1 : r.int(1, 3); const ids = r.sample(IDS, n); const recs = ids.map(i => mk(cn, i)); const bad = ids.map((i, q) => touch(cn, i, recs[q])); what = `${op} ${cn} ${show(recs)}`
      if (cn === 'tiered' && ids.some(i => model.get('tiered/' + i)?.tier)) continue
      expect = op === 'putMany' ? 'each' : bad.some(Boolean) ? 'closed' : 'ok'
      if (op === 'put') await go(() => col.put(ids[0], recs[0]))
      else if (op === 'putMany') await go(async () => { const x = await col.putMany(ids.map((i, q) => [i, recs[q]])); for (let q = 0; q < n; q++) { const f = x.failures.find(y => y.id === ids[q]); c.ok(!!f === bad[q], () => `${what}: item ${ids[q]} ${f ? 'was refused' : 'was stored'}, stored ${show(model.get(cn + '/' + ids[q])?.rec)}, periods ${show(periods)}`); if (!f) { setM(cn, ids[q], recs[q]); c.count('allowedWrites') } else { c.ok(isClosed(f.error), () => `${what}: refused for another reason: ${f.error}`); c.count('refusedWrites') } } })
      else if (op === 'atomic') await go(() => col.putMany(ids.map((i, q) => [i, recs[q]]), { atomic: true }))
      else if (op === 'import') {
        // unchanged rows are not written; 'replace' deletes the records left out
        const policy = r.pick(['merge', 'insert-only', 'replace']); const same = (a, b) => show(a) === show(b)
        const rows = recs.map(norm); let sealed = false; const todo = []
        for (let q = 0; q < n; q++) { const old = model.get(cn + '/' + ids[q]); if (old && (policy === 'insert-only' || same(canon(old.rec), canon(rows[q])))) continue; if (touch(cn, ids[q], rows[q])) sealed = true; todo.push(() => setM(cn, ids[q], rows[q])) }
        if (policy === 'replace') for (const key of [...model.keys()]) if (key.startsWith(cn + '/')) { const i = key.slice(cn.length + 1); if (!ids.includes(i)) for (const [a, b] of closure(cn, i)) { if (touch(a, b, null)) sealed = true; todo.push(() => model.delete(a + '/' + b)) } }
        what += ' ' + policy; expect = sealed ? 'closed' : 'ok'; effect = () => todo.forEach(f => f())
        await go(async () => (await asJson.fromObject(w.v, { [cn]: rows }, { policy, collections: [cn] })).apply())
      } else {
        let del = null; if (r.chance(0.3)) { del = ['entries', r.pick(IDS)]; if (cn === 'entries' && ids.includes(del[1])) del = null; else if (cn === 'lines') del = null }
        if (del && closure(...del).some(([a, b]) => touch(a, b, null))) expect = 'closed'
        await go(() => w.db.transaction(async tx => { ids.forEach((i, q) => tx.vault('acme').collection(cn).put(i, recs[q])); if (del) tx.vault('acme').collection(del[0]).delete(del[1]) }))
        effect = () => { ids.forEach((i, q) => setM(cn, i, recs[q])); if (del) for (const [a, b] of closure(...del)) model.delete(a + '/' + b) }; what += del ? ' and delete ' + del.join('/') : ''
      }
      if (op !== 'tx' && op !== 'import' && op !== 'putMany') effect = () => ids.forEach((i, q) => setM(cn, i, recs[q]))
    } else if (op === 'delete') { const cl = closure(cn, id); if (cl.some(([a, b]) => touch(a, b, null))) expect = 'closed'; await go(() => col.delete(id)); effect = () => cl.forEach(([a, b]) => model.delete(a + '/' + b)); what = `delete ${cn}/${id}` }
    else if (op === 'deleteMany') {
      const ids = r.sample(IDS, 2); if (cn === 'tiered' && ids.some(i => model.get('tiered/' + i)?.tier)) continue
      what = `deleteMany ${cn} ${ids}`; expect = 'each'
      const bad = ids.map(i => closure(cn, i).some(([a, b]) => touch(a, b, null)))
      await go(async () => { const x = await col.deleteMany(ids); ids.forEach((i, q) => { const f = x.failures.find(y => y.id === i); c.ok(!!f === bad[q], () => `${what}: ${i} ${f ? 'was refused: ' + f.error : 'was deleted'}, stored ${show(model.get(cn + '/' + i)?.rec)}, periods ${show(periods)}`); if (!f) { for (const [a, b] of closure(cn, i)) model.delete(a + '/' + b); c.count('allowedWrites') } else c.count('refusedWrites') }) })
    } else if (op === 'revert') {
      if (!m || cn === 'merged' || cn === 'tiered') continue
      const hist = await col.history(id); if (!hist.length) continue
      const h = r.pick(hist); const rec = norm(h.record); if (touch(cn, id, rec)) expect = 'closed'; await go(() => col.revert(id, h.version)); effect = () => setM(cn, id, rec); what = `revert ${cn}/${id} to ${show(rec)}`
    } else {
      const t = r.pick([0, 1, 2]); const sub = r.pick(m ? ['putAtTier', 'elevate', 'demote'] : ['putAtTier']); const rec = mk('tiered', id); what = `${sub} tiered/${id} ${t} ${show(rec)}`
      if (sub === 'elevate' && (m.tier >= t) || sub === 'demote' && (m.tier <= t)) continue
      if (touch('tiered', id, sub === 'putAtTier' ? rec : null)) expect = 'closed'
      await go(() => sub === 'putAtTier' ? col.putAtTier(id, rec, t) : sub === 'elevate' ? col.elevate(id, t) : col.demote(id, t))
      effect = () => sub === 'putAtTier' ? setM('tiered', id, rec, t) : (model.get('tiered/' + id).tier = t)
    }
    if (expect === 'ok') { c.ok(!err, () => `${what} by ${who} was refused although nothing it touches is dated in a closed period: ${err?.stack}; periods ${show(periods)}; stored ${show(m?.rec)}`); effect(); if (!['restart', 'close'].includes(op)) c.count('allowedWrites') }
    else if (expect === 'closed') {
      c.ok(err, () => `${what} by ${who} was carried out although it touches a record dated in a closed period; stored ${show(m?.rec)} written ${tsOf(cn, id)}; periods ${show(periods)}`); c.ok(isClosed(err), () => `${what}: failed for another reason: ${err?.stack}`)
      c.ok(envs() === before || op === 'tx' || op === 'atomic' || op === 'import', () => `${what} by ${who} was refused but changed what is stored`); c.count('refusedWrites')
    } else if (expect === 'thrown') c.ok(err, 'a failing carry-forward was accepted')
    else if (err) throw err
    c.sig(`${op}|${cn}|${who}|${expect}|${!!m}|${periods.length}|${periods.at(-1)?.endDate}|${typeof m?.rec.date === 'string' ? m.rec.date : ''}`)
    // every record is as the model says
    for (const q of new Set([...kinds, 'entries'])) for (const i of [...IDS, 'ob0', 'ob1']) { const x = model.get(q + '/' + i); if (q === 'tiered' && x?.tier) { if (who === 'alice') c.eq(norm((await w.cols.tiered.getAtTier(i)) ?? null), x.rec, `tiered/${i} after ${what} by ${who}`) } else { const got = await w.cols[q].get(i); c.eq(got === null ? null : norm(got), x ? x.rec : null, `${q}/${i} after ${what} by ${who} (${expect})`) } }
    const ps = (await w.v.listPeriods()).map(norm); c.eq(ps, periods, `the list of periods after ${what}`); const bad = chainOk(ps); c.ok(!bad, () => bad); c.count('chainChecks')
  }
  w.db.close()
}

// closes and opens of one session overlapping each other and writes
async function overlap(c) {
  const r = c.rng; const ref = newRef(); const sched = new Sched(r.fork('s')); sched.enabled = false; const fresh = r.chance(0.5)
  let w = await open(instrument(ref, { sched }), { features: ['history', 'tx', 'periods'] }); let col = w.v.collection('entries')
  for (const i of IDS) await col.put(i, { id: i, date: r.pick(DATES) })
  await w.v.closePeriod({ name: 'base', endDate: '2025-12-31', dateField: 'date' })
  if (fresh) { w.db.close(); w = await open(instrument(ref, { sched }), { features: ['history', 'tx', 'periods'] }); col = w.v.collection('entries') }
  const { v, db } = w; sched.enabled = true; const closed = [{ endDate: '2025-12-31' }]; const ps = []; const log = []; let names = 0
  const late = async i => { const d = r.pick(DATES); const must = closed.some(p => inside(d, p.endDate)); try { await col.put('n' + i, { id: 'n' + i, date: d }); c.ok(!must, () => `a record dated ${d} was stored after a close up to ${show(closed)} had completed; ${log.join('; ')}`) } catch (e) { if (!isClosed(e)) throw e } }
  for (let k = 0, n = r.int(2, 6); k < n; k++) {
    const kind = r.weighted([[4, 'close'], [2, 'open'], [3, 'put'], [1, 'list'], [1, 'same']]); const end = r.pick(ENDS)
    if (kind === 'close') { const name = 'P' + names++; ps.push(v.closePeriod({ name, endDate: end, dateField: 'date' }).then(p => { closed.push(p); log.push('closed ' + end); c.count('overlapCloses'); return late(k) })) }
    else if (kind === 'open') { const name = 'O' + names++; ps.push(v.openPeriod({ name, startDate: '2026-07-01', fromPeriod: 'base', carryForward: async () => ({ entries: { ['b' + k]: { id: 'b' + k, date: '2027-01-01' } } }) })) }
    else if (kind === 'put') ps.push(late(k + 10))
    else if (kind === 'same') { const two = [0, 1].map(() => v.closePeriod({ name: 'same' + k, endDate: end, dateField: 'date' }).then(() => { closed.push({ endDate: end }); return true }, e => { if (e.name !== 'ValidationError') throw e; return false })); ps.push(Promise.all(two).then(x => c.eq(x.sort(), [false, true], 'of two closes of one name exactly one is accepted'))) }
    else ps.push(v.listPeriods())
    if (r.chance(0.2)) for (const x of await sched.run(ps.splice(0))) if (x.status === 'rejected') throw x.reason
  }
  for (const x of await sched.run(ps)) if (x.status === 'rejected') throw x.reason
  sched.enabled = false; const a = (await v.listPeriods()).map(norm); const bad = chainOk(a); c.ok(!bad, () => `${bad}: ${show(a)}`, { detail: { trace: sched.trace } }); c.eq(a.length, new Set(a.map(p => p.name)).size, 'period names are distinct')
  c.eq(a.filter(p => p.kind === 'closed').length, closed.length, 'every accepted close is listed'); c.count('chainChecks'); db.close()
  const z2 = await open(instrument(ref, {}), { features: ['history', 'periods'] }); const b = (await z2.v.listPeriods()).map(norm); const bad2 = chainOk(b); c.ok(!bad2, () => `after reopening, ${bad2}: ${show(b)}`); c.eq(b, a, 'the periods after reopening'); const led = await z2.v.ledger().verify(); c.ok(led.ok, 'the ledger does not verify after overlapping closes')
  c.sig(`ov|${log.join(',')}|${fresh}|${sched.trace.length}`); z2.db.close()
}

// period records altered in the store
async function tamper(c) {
  const r = c.rng; const ref = newRef(); c.clock.set(Date.parse('2026-05-01T00:00:00Z')); const { db, v } = await open(instrument(ref, {}), { features: ['history', 'periods'] }); const col = v.collection('entries')
  for (const i of IDS) await col.put(i, { id: i, date: '2026-01-0' + i })
  const n = r.int(2, 5); const names = []
  for (let k = 0; k < n; k++) { c.clock.set(c.clock.now + r.pick([0, 0, 5, 86400000, -1000])); if (k && r.chance(0.3)) { names.push('O' + k); await v.openPeriod({ name: 'O' + k, startDate: '2026-07-01', fromPeriod: names.find(x => x[0] === 'P'), carryForward: async () => ({}) }) } else { names.push('P' + k); await v.closePeriod({ name: 'P' + k, endDate: `2026-0${k + 1}-15`, dateField: 'date' }) } }
  db.close(); const w1 = await open(instrument(ref, {}), { features: ['history', 'periods'] }); c.eq((await w1.v.listPeriods()).map(p => p.name), names, 'the order of the periods after reopening'); const ok0 = chainOk((await w1.v.listPeriods()).map(norm)); c.ok(!ok0, () => ok0); const vb = await w1.v.verifyBackupIntegrity(); c.ok(vb.ok, () => `an untouched vault does not verify: ${vb.message}`); w1.db.close(); c.count('chainChecks')
  const P = ref.data.get('acme').get('_periods'); const how = r.pick(['flip', 'swap', 'copy', 'drop', 'rename', 'iv']); const a = r.pick(names), b = r.pick(names.filter(x => x !== a)); const ea = norm(P.get(a)), eb = norm(P.get(b))
  const flip = s => { const k = r.int(0, s.length - 5); return s.slice(0, k) + (s[k] === 'A' ? 'B' : 'A') + s.slice(k + 1) }
  if (how === 'flip') P.set(a, { ...ea, _data: flip(ea._data) }); else if (how === 'iv') P.set(a, { ...ea, _iv: flip(ea._iv) }); else if (how === 'swap') { P.set(a, eb); P.set(b, ea) } else if (how === 'copy') P.set(a, eb); else if (how === 'drop') P.delete(a); else { P.delete(a); P.set('x', ea) }
  c.count('tampered'); c.sig(`tamper|${how}|${names.indexOf(a)}|${n}`)
  const w2 = await open(instrument(ref, {}), { features: ['history', 'periods'] }); let listed = null; try { listed = (await w2.v.listPeriods()).map(norm) } catch {}
  const bi = await w2.v.verifyBackupIntegrity().catch(() => ({ ok: false })); const detected = !bi.ok || listed === null || chainOk(listed) !== null
  if (!(how === 'iv' || (how === 'rename' || how === 'swap') && listed)) c.ok(detected, () => `period ${a} was altered (${how}) and nothing shows it: ${show(listed)}`)
  else c.ok(detected || show(listed.map(p => p.name).sort()) === show([...names].sort()), () => `period ${a} was altered (${how}) and nothing shows it: ${show(listed)}`)
  // a period record that cannot be read never opens what it sealed
  if (listed === null) { const e = w2.v.collection('entries'); let err = null; try { await e.put('1', { id: '1', date: '2026-01-01', n: 9 }) } catch (x) { err = x } c.ok(err, 'a record of a closed period was overwritten because its period record could not be read') }
  w2.db.close()
}

export const scenarios = [
  { name: 'programs', quick: 3200, thorough: 12000, run: programs },
  { name: 'overlap', quick: 2500, thorough: 10000, run: overlap },
  { name: 'tamper', quick: 1000, thorough: 4000, run: tamper },
]
