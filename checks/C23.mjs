// Consent audit: one entry per completed access inside a scope, none otherwise; tier accesses announced once.
import { ref as fk, i18nText } from '@noy-db/hub'
import { z } from 'zod'
import { newRef, open, openExporter, instrument, PASS } from '../lib/world.mjs'
import { Sched } from '../lib/sched.mjs'
import { show } from '../lib/child.mjs'

export const meta = {
  property: 'C23', level: 'exploration',
  rule: 'distinct (operation, collection kind, cache state, scope depth, overlap, fault, outcome) combinations plus distinct filter shapes with their answer class and distinct overlap schedules',
  assumptions: ['Accesses are awaited inside the scope they belong to; a vault handle carries one scope at a time.', 'A deletion of an absent record counts as an access; listing and querying are not audited.', 'Users other than the owner were granted access after the first audited access.', 'Injected faults fail before they take effect.', 'Accesses undone by a failed transaction are not judged.'],
  minimums: { programs: 1000, audited: 15000, unaudited: 8000, failedAccesses: 2000, filters: 6000, tierEvents: 2000, overlapped: 6000, auditWriteFaults: 250, elevations: 250 },
}
const KEYS = ['actor', 'collection', 'consentHash', 'id', 'op', 'purpose', 'recordId', 'timestamp']
const SPECS = () => ({
  eager: {}, lazy: { prefetch: false, cache: { maxRecords: 2 } }, indexed: { prefetch: false, cache: { maxRecords: 3 }, indexes: ['n'] },
  parent: {}, child: { refs: { parent: fk('parent', 'strict') } }, branch: { refs: { parent: fk('parent', 'cascade') } },
  words: { i18nFields: { t: i18nText({ languages: ['en', 'th'], required: 'any' }) } },
  checked: { schema: z.object({ id: z.string(), n: z.number(), note: z.string() }) },
  merged: { crdt: 'lww-map' }, tiered: { tiers: [0, 1, 2] },
})
const PLAIN = ['eager', 'lazy', 'indexed', 'checked', 'merged', 'words', 'child']
const IDS = ['1', '2', '3', 'ก/é']
const PURPOSES = ['audit', 'review', 'quarterly review — รายไตรมาส', 'a', '']
const iso = (r, t) => { const d = new Date(t).toISOString(); const k = r.int(0, 4)
  if (k === 0 && t % 1000 === 0) return d.replace('.000Z', 'Z')
  if (k === 1) return new Date(t + 7 * 3600e3).toISOString().replace('Z', '+07:00')
  if (k === 2 && t % 1000 === 0) return new Date(t - 5 * 3600e3).toISOString().replace('.000Z', '-05:00')
  return d }

async function world(c, sched, { encrypt = true, extra = {} } = {}) {
  const ref = newRef(); const features = ['history', 'tx', 'consent', 'crdt', 'index', 'i18n']; const opts = { features, ...(encrypt ? {} : { encrypt: false }), ...extra }
  const st = instrument(ref, { ...(sched ? { sched } : {}) })
  const alice = encrypt ? await openExporter(st, opts) : await open(st, opts)
  const boot = alice.v; for (const [k, o] of Object.entries(SPECS())) { boot.collection(k, o); await boot.collection(k).put('seed', k === 'words' ? { id: 'seed', t: { en: 'x' } } : { id: 'seed', n: 0, note: 's', ...(k === 'child' ? { parent: 'seed' } : k === 'branch' ? { parent: 'zzz' } : {}) }).catch(async e => { if (k !== 'branch') throw e }); if (k !== 'parent') await boot.collection(k).delete('seed').catch(() => {}) }
  await boot.withConsent({ purpose: 'setup', consentHash: '00' }, () => boot.collection('parent').get('seed'))
  if (encrypt) { for (const t of [1, 2]) { const e = await boot.elevate(t, { ttlMs: 9, reason: 'setup' }); await e.collection('tiered').put('seed', { id: 'seed', n: 1, note: 's' }); await e.release() } }
  return { ref, st, opts, alice }
}
const audited = (v, f) => v.consentAudit(f)
const line = e => [e.actor, e.purpose, e.consentHash, e.op, e.collection, e.recordId].join('|')
const bag = xs => { const m = new Map(); for (const x of xs) m.set(x, (m.get(x) ?? 0) + 1); return m }
function compare(c, got, want, what, optional = []) {
  const g = bag(got), w = bag(want), most = bag([...want, ...optional])
  for (const [k, n] of w) c.ok((g.get(k) ?? 0) >= n, () => `${what}: an access left ${g.get(k) ?? 0} audit entries, expected ${n} (${k})`, { key: 'missing-entry', detail: { k, got, want } })
  for (const [k, n] of g) c.ok((most.get(k) ?? 0) >= n, () => `${what}: ${n} audit entries for ${w.get(k) ?? 0} completed accesses (${k})`, { key: 'extra-entry', detail: { k, got, want } })
}

async function programs(c) {
  const r = c.rng; const sched = new Sched(r); sched.enabled = false; const encrypt = r.chance(0.93)
  c.clock.set(Date.parse('2026-05-01T00:00:00Z') + r.int(0, 5) * 250)
  const W = await world(c, sched, { encrypt }); const { ref, st } = W; c.count('programs')
  let serial = 0; const canary = () => `CANARY${c.i}x${serial++}x`
  const handles = [{ who: 'alice', ...W.alice }]
  if (encrypt && r.chance(0.6)) {
    await W.alice.db.grant('acme', { userId: 'bob', displayName: 'bob', role: 'admin', passphrase: PASS + 'bob' })
    handles.push({ who: 'bob', ...await open(st, { ...W.opts, user: 'bob', secret: PASS + 'bob' }) })
  }
  if (r.chance(0.3)) handles.push({ who: 'alice', ...await open(st, W.opts) })
  const everyEvent = []
  for (const h of handles) {
    for (const [k, o] of Object.entries(SPECS())) h.v.collection(k, o)
    h.events = []; h.gone = []; h.audit0 = 0
    if (r.chance(0.3)) h.v.onCrossTierAccess(() => { throw new Error('listener') })
    h.v.onCrossTierAccess(e => h.events.push(e)); const off = h.v.onCrossTierAccess(e => h.gone.push(e)); off()
    if (r.chance(0.4)) { for (const k of ['eager', 'lazy', 'child']) h.v.collection(k).subscribe(() => {}) }
    h.stack = []
  }
  let before = (await audited(W.alice.v)).length; c.eq(before, 1, 'the first audited access leaves one entry'); let wantElev = encrypt ? 2 : 0
  const mk = (k, id) => k === 'words' ? { id, t: { en: canary(), th: canary() } } : { id, n: r.chance(0.08) && k === 'checked' ? 'bad' : r.int(0, 9), note: canary(), ...(k === 'child' || k === 'branch' ? { parent: r.pick([...IDS, 'seed', 'nope']) } : {}) }
  const tierOf = id => ref.data.get('acme')?.get('tiered')?.get(id)?._tier ?? 0

  // one access: returns the entries it must leave once it completes ([] when it does not), and the tier events
  const pickOp = (h, alone) => {
    const k = r.pick(PLAIN), id = r.pick(IDS), col = h.v.collection(k)
    const kinds = [[6, 'put'], [7, 'get'], [2, 'delete'], [1, 'getMany'], [1, 'putMany'], [0.7, 'list'], [1, 'parent'], [0.5, 'deleteMany'], [0.5, 'history']]
    if (encrypt) kinds.push([2, 'putTier'], [2, 'getTier'], [0.6, 'elevateRecord'], [0.6, 'demote'])
    if (alone && encrypt) kinds.push([1.2, 'elevate'])
    if (alone) kinds.push([1, 'cascade'], [0.8, 'tx'], [0.6, 'export'], [0.5, 'integrity'], [0.4, 'revert'], [0.4, 'failTx'])
    const op = r.weighted(kinds); const one = (o, kk, i) => ({ op: o, collection: kk, recordId: i }); const tv = h.v.collection('tiered')
    switch (op) {
      case 'put': { const rec = mk(k, id); return [op, k, id, async () => { await col.put(id, rec); return [one('put', k, id)] }] }
      case 'get': { const loc = k === 'words' && r.chance(0.5) ? r.pick([{ locale: 'en' }, { locale: 'raw' }, { locale: 'fr' }, { locale: 'fr', fallback: 'any' }]) : undefined; return [op + (loc ? ':' + loc.locale : ''), k, id, async () => (await col.get(id, loc)) !== null ? [one('get', k, id)] : []] }
      case 'delete': return [op, k, id, async () => { await col.delete(id); return [one('delete', k, id)] }]
      case 'getMany': { const ids = r.sample([...IDS, 'none'], r.int(0, 4)); return [op, k === 'words' ? 'eager' : k, ids.join(), async () => { const m = await h.v.collection(k === 'words' ? 'eager' : k).getMany(ids); return [...m].filter(([, x]) => x !== null).map(([i]) => one('get', k === 'words' ? 'eager' : k, i)) }] }
      case 'putMany': { const es = r.sample(IDS, r.int(1, 3)).map(i => [i, mk(k, i)]); return [op, k, es.map(e => e[0]).join(), async () => { const x = await col.putMany(es); return x.success.map(i => one('put', k, i)) }] }
      case 'deleteMany': { const ids = r.sample(IDS, r.int(1, 3)); return [op, k, ids.join(), async () => { const x = await col.deleteMany(ids); return x.success.map(i => one('delete', k, i)) }] }
      case 'list': return [op, 'eager', '', async () => { await h.v.collection('eager').list(); await h.v.collection('eager').query().where('n', '>', 3).toArray(); await h.v.collection('lazy').listPage({ limit: 2 }); for await (const x of h.v.collection('lazy').scan({ pageSize: 2 })) void x; return [] }]
      case 'history': return [op, 'eager', id, async () => { await h.v.collection('eager').history(id); return [] }]
      case 'parent': { const rec = mk('parent', id); return [op, 'parent', id, async () => { await h.v.collection('parent').put(id, rec); return [one('put', 'parent', id)] }] }
      case 'cascade': { const kids = []; return [op, 'parent', id, async () => {
        const b = h.v.collection('branch'); await h.v.collection('parent').put(id, mk('parent', id)); const made = []; for (const i of r.sample(IDS, r.int(0, 3))) { await b.put('b' + i, { id: 'b' + i, n: 1, note: canary(), parent: id }); made.push(i) }
        const known = (await b.list()).filter(x => x.parent === id).map(x => x.id); const strict = (await h.v.collection('child').list()).some(x => x.parent === id)
        const head = [one('put', 'parent', id), ...made.map(i => one('put', 'branch', 'b' + i))]
        try { await h.v.collection('parent').delete(id) } catch (e) { if (strict) return null; throw e }
        return [...head, ...known.map(i => one('delete', 'branch', i)), one('delete', 'parent', id)] }, 'many'] }
      case 'putTier': { const t = r.int(0, 2); const rec = { id, n: t, note: canary() }; return [op + t, 'tiered', id, async () => { await tv.putAtTier(id, rec, t); return [one('put', 'tiered', id), ...(t ? [{ ev: 'put', tier: t, recordId: id }] : [])] }] }
      case 'getTier': return [op, 'tiered', id, async () => { const x = await tv.getAtTier(id); if (x === null || x._ghost) return []; return [one('get', 'tiered', id), ...(alone ? tierOf(id) ? [{ ev: 'get', recordId: id, tier: tierOf(id) }] : [] : [{ ev: 'get', recordId: id, maybe: true }])] }]
      case 'elevateRecord': { const t = r.int(1, 2); return [op, 'tiered', id, async () => { const was = tierOf(id); await tv.elevate(id, t); return alone && was === t ? [] : [{ ev: 'elevate', tier: t, recordId: id, maybe: !alone }] }] }
      case 'demote': { const t = r.int(0, 1); return [op, 'tiered', id, async () => { const was = tierOf(id); await tv.demote(id, t); return alone && was === t ? [] : [{ ev: 'demote', recordId: id, maybe: !alone }] }] }
      case 'elevate': return [op, 'tiered', id, async () => {
        const reason = r.pick(['break glass', 'เหตุฉุกเฉิน', 'x']); const t = r.int(1, 2); const e = await h.v.elevate(t, { ttlMs: 5000, reason }); wantElev++; c.count('elevations')
        const out = []; for (let i = 0, n = r.int(0, 2); i < n; i++) { const d = r.pick(IDS); await e.collection('tiered').put(d, { id: d, n: t, note: canary() }); out.push(one('put', 'tiered', d), { ev: 'put', tier: t, recordId: d, authorization: 'elevation', reason }) }
        await e.release(); return out }, 'many']
      case 'tx': { const ks = r.sample(['eager', 'lazy', 'indexed'], r.int(1, 2)); return [op, ks.join(), id, async () => { await h.db.transaction(async tx => { for (const kk of ks) tx.vault('acme').collection(kk).put(id, mk(kk, id)) }); return ks.map(kk => one('put', kk, id)) }, 'many'] }
      case 'failTx': return [op, 'eager', id, async () => { await h.db.transaction(async tx => { tx.vault('acme').collection('eager').put(id, mk('eager', id)); throw new Error('body') }).then(() => c.fail('a failing transaction body succeeded'), () => {}); return [] }, 'many']
      case 'export': return [op, 'all', '', async () => { if (!encrypt || h.who !== 'alice') return []; const out = []; for await (const ch of h.v.exportStream()) void ch; return null }, 'many']
      case 'integrity': return [op, 'all', '', async () => { await h.v.checkIntegrity(); return [] }, 'many']
      case 'revert': return [op, 'eager', id, async () => { const col2 = h.v.collection('eager'); const hs = await col2.history(id); if (!hs.length) return []; await col2.revert(id, hs[hs.length - 1].version); return [one('put', 'eager', id)] }, 'many']
    }
  }
  const seen = new Set((await audited(W.alice.v)).map(e => e.id))
  const settleEvents = (h, wantEv, what) => {
    const got = h.events.splice(0); const left = [...got]; c.ok(h.gone.length === 0, 'an unsubscribed listener was told of an access', { key: 'unsubscribed' })
    for (const w of [...wantEv].sort((a, b) => !!a.maybe - !!b.maybe)) { const i = left.findIndex(e => e.op === w.ev && e.id === w.recordId && e.collection === 'tiered' && e.actor === h.who && (w.tier === undefined || e.tier === w.tier || w.ev === 'demote') && (w.authorization === undefined ? e.authorization !== 'x' : e.authorization === w.authorization && e.reason === w.reason))
      if (i >= 0) { c.count('tierEvents'); left.splice(i, 1) } else if (!w.maybe) c.fail(`${what}: an access above tier 0 was not announced (${w.ev} ${w.recordId})`, { key: 'missing-event', detail: { wantEv, got } }) }
    c.ok(left.length === 0, () => `${what}: more tier accesses announced than made: ${show(left)}`, { key: 'extra-event', detail: { wantEv, got } })
  }
  const check = async (wantLines, t0, what, free, optional) => {
    const all = await audited(W.alice.v); const ids = all.map(e => e.id); c.ok(new Set(ids).size === ids.length, 'two audit entries share an id', { key: 'dup-id' })
    for (const i of seen) c.ok(ids.includes(i), 'an audit entry disappeared', { key: 'lost-entry' })
    const fresh = all.filter(e => !seen.has(e.id)); for (const e of fresh) { seen.add(e.id)
      c.eq(Object.keys(e).sort(), KEYS, 'fields of an audit entry'); const t = Date.parse(e.timestamp); c.ok(t >= t0 && t <= c.clock.now, `an audit entry is dated ${e.timestamp}, outside the access`, { key: 'dated' })
      c.ok(!JSON.stringify(e).includes('CANARY'), () => `record contents in an audit entry: ${show(e)}`, { key: 'contents' }) }
    if (!free) compare(c, fresh.map(line), wantLines, what, optional)
    else for (const e of fresh) c.ok(free(e), () => `${what}: unexpected audit entry ${show(e)}`, { key: 'extra-entry' })
    return all
  }
  for (let step = 0, n = r.int(5, 11); step < n; step++) {
    const h = r.pick(handles)
    // scopes open and close between steps, nested up to three deep, realised as one withConsent chain per step
    const depth = r.weighted([[3, 0], [5, 1], [2, 2], [1, 3]]); const chain = Array.from({ length: depth }, () => ({ purpose: r.pick(PURPOSES), consentHash: r.pick(['7f3a', 'aa', '']) }))
    const t0 = c.clock.now; const batch = []; const expected = []; const optional = []; const events = []; let free = null; const alone = r.chance(0.45); if (r.chance(0.15)) c.clock.set(c.clock.now + 1)
    const runAll = async ctx => {
      const ops = alone ? [pickOp(h, true)] : Array.from({ length: r.int(2, 5) }, () => pickOp(h, false))
      const fault = r.chance(0.25) ? { at: r.int(1, 12), n: 0, audit: r.chance(0.45) } : null
      if (ops[0][4] === 'many') { if (fault) fault.at = 0 }
      let hit = 0; if (fault?.at) st._st.fault = ev => { if (!(ev.op === 'put' || ev.op === 'get' || ev.op === 'delete')) return; if (fault.audit ? ev.coll !== '_consent_audit' || ev.op !== 'put' : ev.coll.startsWith('_')) return; if (++fault.n === (fault.audit ? Math.min(fault.at, 2) : fault.at)) { hit++; return 'before' } }
      if (!alone) { sched.enabled = true; c.count('overlapped', ops.length) }
      const ps = ops.map(o => o[3]().then(v => ({ v }), e => ({ e })))
      const rs = alone ? await Promise.all(ps) : await sched.run(ps, { clock: c.clock }).then(() => Promise.all(ps)); sched.enabled = false; st._st.fault = undefined
      if (hit && fault.audit) c.count('auditWriteFaults', hit)
      ops.forEach((o, i) => {
        const { v, e } = rs[i]; const isTier = o[1] === 'tiered'
        c.sig(`${o[0]}/${o[1]}/${ctx ? depth : 0}/${alone ? 1 : 'n'}/${hit ? (fault.audit ? 'af' : 'f') : ''}/${e ? e.name : v === null ? 'free' : v.length}`)
        if (e) { c.count('failedAccesses'); if (!hit && !['LocaleNotSpecifiedError', 'RefIntegrityError', 'SchemaValidationError', 'ConflictError', 'MissingTranslationError', 'TierDemoteDeniedError', 'Error', 'TamperedError', 'TierNotGrantedError'].includes(e.name)) throw e
          if (isTier) events.push(...['put', 'get', 'elevate', 'demote'].map(ev => ({ ev, recordId: o[2], maybe: true, failed: true }))) // announced before its audit entry could fail
          if (o[0] === 'getMany' && ctx) for (const i2 of o[2].split(',')) optional.push([h.who, ctx.purpose, ctx.consentHash, 'get', o[1], i2].join('|')) // the reads that did complete
          return }
        if (v === null) { free = () => true; return }
        const plain = v.filter(x => !x.ev); for (const x of v) if (x.ev) events.push(x)
        if (ctx) { c.count('audited', plain.length); for (const p of plain) expected.push([h.who, ctx.purpose, ctx.consentHash, p.op, p.collection, p.recordId].join('|')) } else c.count('unaudited', plain.length)
      })
      if (hit === 0 && fault?.at) c.count('faultUnused')
    }
    const nest = async i => { if (i === chain.length) return runAll(chain[i - 1]); await h.v.withConsent(chain[i], async () => { await nest(i + 1); if (i + 1 < chain.length) { const rec = mk('eager', '2'); await h.v.collection('eager').put('2', rec); c.count('afterInner'); expected.push([h.who, chain[i].purpose, chain[i].consentHash, 'put', 'eager', '2'].join('|')) } }) }
    if (depth && r.chance(0.15)) { // a scope left by an exception
      await h.v.withConsent(chain[0], async () => { throw new Error('leave') }).then(() => c.fail('the exception of a scope was swallowed'), () => {})
    }
    await nest(0)
    settleEvents(h, events, `step ${step}`)
    await check(expected, t0, `step ${step} by ${h.who}`, free, optional)
    // outside again: nothing is recorded
    const quiet = r.chance(0.4); if (quiet) { const t1 = c.clock.now; await h.v.collection('eager').put('1', mk('eager', '1')); await h.v.collection('lazy').get('1'); c.count('unaudited', 2); await check([], t1, 'outside any scope') }
    if (r.chance(0.3)) c.clock.set(c.clock.now + r.pick([1, 250, 1000, 3600e3]))
  }
  // filters
  const all = await audited(W.alice.v)
  for (let i = 0; i < 6; i++) {
    const t = () => { const b = Date.parse(r.pick(all).timestamp); return r.pick([b, b - 1, b + 1, Math.floor(b / 1000) * 1000, Math.ceil(b / 1000) * 1000]) }
    const f = {}; const w = {}
    if (r.chance(0.4)) { w.since = t(); f.since = iso(r, w.since) } if (r.chance(0.4)) { w.until = t(); f.until = iso(r, w.until) }
    if (r.chance(0.3)) f.collection = r.pick([...PLAIN, 'tiered', 'none']); if (r.chance(0.25)) f.actor = r.pick(['alice', 'bob', 'carol']); if (r.chance(0.25)) f.purpose = r.pick(PURPOSES.filter(Boolean))
    const got = await audited(r.pick(handles).v, f)
    const ok = all.filter(e => (w.since === undefined || Date.parse(e.timestamp) >= w.since) && (w.until === undefined || Date.parse(e.timestamp) <= w.until) && (!f.collection || e.collection === f.collection) && (!f.actor || e.actor === f.actor) && (!f.purpose || e.purpose === f.purpose))
    c.ok(show(got.map(e => e.id).sort()) === show(ok.map(e => e.id).sort()), () => `filter ${show(f)} returned ${got.length} entries, ${ok.length} match`, { key: 'filter', detail: { f, got: got.map(line), ok: ok.map(line) } })
    c.count('filters'); c.sig(`filter:${Object.keys(f).sort().join()}/${f.since?.length ?? ''}/${f.until?.length ?? ''}/${ok.length === 0 ? 0 : ok.length === all.length ? 'all' : 'some'}`)
  }
  // what is stored says nothing to the store
  for (const [id, e] of ref.data.get('acme')?.get('_consent_audit') ?? []) if (encrypt) { const txt = Buffer.from(e._data, 'base64').toString('latin1') + JSON.stringify({ ...e, _data: '' }) + id; for (const p of ['purpose', 'recordId', 'consentHash', 'review']) c.ok(!txt.includes(p), 'an audit entry is stored readable', { key: 'readable' }) }
  const elev = [...(ref.data.get('acme')?.get('_elevation_audit')?.keys() ?? [])].length; c.ok(elev === wantElev, () => `${elev} elevation entries for ${wantElev} elevations`, { key: 'elevation-entries' })
  // a new session reads the same log
  const again = await open(instrument(ref, {}), W.opts); c.eq(show((await audited(again.v)).map(line).sort()), show(all.map(line).sort()), 'the audit log of a new session')
  if (c.i < 6) c.sample({ entries: all.length, last: all.slice(-2) })
}

// cold and warm caches, each read path, one record: exactly one entry per access
async function readPaths(c) {
  const r = c.rng; const W = await world(c, null); c.count('programs'); const kinds = r.shuffle(['eager', 'lazy', 'indexed', 'parent', 'checked', 'merged'])
  for (const k of kinds) await W.alice.v.collection(k).put('1', { id: '1', n: 3, note: 'x' })
  const h = r.chance(0.5) ? W.alice : await open(W.st, W.opts); for (const [k, o] of Object.entries(SPECS())) h.v.collection(k, o)
  let n = (await audited(h.v)).length; const two = [{ purpose: 'a', consentHash: '1' }, { purpose: 'b', consentHash: '2' }]
  for (const k of kinds) for (const times of [1, 2]) {
    const ctx = r.pick(two); const m = r.int(1, 4)
    await h.v.withConsent(ctx, () => Promise.all(Array.from({ length: m }, () => h.v.collection(k).get('1'))))
    const all = await audited(h.v); const fresh = all.length - n; n = all.length
    c.ok(fresh === m, () => `${m} overlapping reads of one record in ${k} (${times === 1 ? 'cold' : 'warm'}) left ${fresh} entries`, { key: fresh < m ? 'missing-entry' : 'extra-entry' })
    c.count('audited', m); c.count('overlapped', m); c.sig(`path/${k}/${times}/${m}/${h === W.alice}`)
    const sc = all.slice(-m); c.ok(all.filter(e => e.purpose === ctx.purpose && e.collection === k).length >= m, 'the purpose of the scope is recorded', { key: 'purpose' })
  }
}

export const scenarios = [
  { name: 'programs', quick: 2200, thorough: 12000, run: programs },
  { name: 'sameInstant', quick: 500, thorough: 4000, run: programs, clock: { auto: 0 } },
  { name: 'readPaths', quick: 400, thorough: 3000, run: readPaths, clock: { auto: 0 } },
]
