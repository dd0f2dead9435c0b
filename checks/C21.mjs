// Declared references and schemas, enforced through every write path and every read path.
import { open, openExporter, newRef, instrument } from '../lib/world.mjs'
import { Sched } from '../lib/sched.mjs'
import { ref as fk } from '@noy-db/hub'
import { z } from 'zod'
import * as asJson from '@noy-db/as-json'
import * as asNdjson from '@noy-db/as-ndjson'
import { show } from '../lib/child.mjs'

export const meta = {
  property: 'C21', level: 'exploration',
  rule: 'non-trivial: a write or delete whose outcome depends on a declared reference or schema (refused, cascading through at least one record, transformed, or stored data not matching the schema); signatures = (scenario, write path, reference modes involved, outcome).',
  assumptions: ['A record of the cascade that also holds a strict reference into it may block the delete or go with it; both are accepted, nothing in between.', 'Schema transformations are idempotent, as reading validates again.', 'Overlapping writes are those of one session.', 'A transaction contains at most one delete, as its last operation.', 'Histories in which an overlapping transaction was undone halfway are not judged: undoing puts back what the transaction found.'],
  minimums: { programs: 1500, refused: 3000, cascaded: 300, integrity: 6000, schemaRefused: 2500, driftReads: 2000, overlaps: 3000, transformed: 1000, upgradeReads: 1000 },
}
const COLLS = ['a', 'b', 'd', 'e']; const IDS = ['1', '2', '3', '4']; const MODES = ['strict', 'cascade', 'warn']
const isRefErr = e => e?.name === 'RefIntegrityError' || e?.code === 'REF_INTEGRITY'

function graph(r) {
  const g = {}; for (const c of COLLS) g[c] = {}
  const n = r.int(2, 6)
  for (let k = 0; k < n; k++) { const from = r.pick(COLLS), to = r.pick(COLLS); const mode = from === to ? r.pick(['cascade', 'warn']) : r.pick(MODES); g[from]['f' + k] = { to, mode } }
  return g
}
class Refs {
  constructor(g) { this.g = g; this.s = {}; for (const c of COLLS) this.s[c] = new Map() }
  clone() { const m = new Refs(this.g); for (const c of COLLS) m.s[c] = new Map(this.s[c]); return m }
  put(c, id, rec) { for (const [f, d] of Object.entries(this.g[c])) { if (d.mode !== 'strict') continue; const x = rec[f]; if (x === null || x === undefined) continue; if (typeof x !== 'string' && typeof x !== 'number') return 'refused'; if (!this.s[d.to].has(String(x))) return 'refused' } this.s[c].set(id, rec); return 'ok' }
  del(c, id) { // 'ok' | 'refused' | 'either'
    const closure = new Set([c + '/' + id]); const todo = [[c, id]]; const strict = []
    while (todo.length) { const [tc, ti] = todo.pop(); for (const cc of COLLS) for (const [f, d] of Object.entries(this.g[cc])) if (d.to === tc) for (const [i, rec] of this.s[cc]) { const x = rec[f]; if ((typeof x !== 'string' && typeof x !== 'number') || String(x) !== ti) continue; if (d.mode === 'strict') strict.push(cc + '/' + i); else if (d.mode === 'cascade' && !closure.has(cc + '/' + i)) { closure.add(cc + '/' + i); todo.push([cc, i]) } } }
    if (strict.some(k => !closure.has(k))) return { out: 'refused', closure }
    return { out: strict.length ? 'either' : 'ok', closure }
  }
  drop(closure) { for (const k of closure) { const [c, i] = k.split('/'); this.s[c].delete(i) } }
  dangling() { const out = []; for (const c of COLLS) for (const [i, rec] of this.s[c]) for (const [f, d] of Object.entries(this.g[c])) { const x = rec[f]; if (x === null || x === undefined) continue; if ((typeof x !== 'string' && typeof x !== 'number') || !this.s[d.to].has(String(x))) out.push(`${c}/${i}.${f}->${d.to}/${show(x)} ${d.mode}`) } return out.sort() }
}
const plainOf = m => { const o = {}; for (const c of COLLS) o[c] = Object.fromEntries([...m.s[c]].sort()); return o }
function collOpts(g, c, lazy) { const refs = {}; for (const [f, d] of Object.entries(g[c])) refs[f] = fk(d.to, d.mode); return { ...(Object.keys(refs).length ? { refs } : {}), ...(lazy ? { prefetch: false, cache: { maxRecords: 3 } } : {}) } }
async function state(cols) { const o = {}; for (const c of COLLS) { o[c] = {}; for (const i of IDS) { const x = await cols[c].get(i); if (x !== null) o[c][i] = x } } return o }
function mkRec(r, g, c, id) { const rec = { id, n: r.int(0, 99) }; for (const [f, d] of Object.entries(g[c])) { const x = r.weighted([[6, r.pick(IDS)], [1, null], [1, undefined], [1, Number(r.pick(IDS))], [d.mode === 'strict' ? 0.4 : 0, true]]); if (x !== undefined) rec[f] = x } return rec }
const norm = rec => JSON.parse(JSON.stringify(rec))

async function references(c) {
  const r = c.rng; const g = graph(r); const ref = newRef(); const lazy = Object.fromEntries(COLLS.map(x => [x, r.chance(0.25)]))
  const store = instrument(ref, {})
  const { db, v } = await openExporter(store, { features: ['history', 'tx', 'index'] })
  const cols = {}; for (const k of r.shuffle([...COLLS])) cols[k] = v.collection(k, collOpts(g, k, lazy[k]))
  const m = new Refs(g); c.count('programs')
  for (let step = 0; step < 22; step++) {
    const cn = r.pick(COLLS), id = r.pick(IDS), col = cols[cn]; const before = m.clone(); let err = null; let what = ''; let expect = null
    const kind = r.weighted([[7, 'put'], [2, 'putMany'], [1.5, 'atomic'], [2, 'tx'], [lazy[cn] ? 0 : 1, 'import'], [1, 'revert'], [4, 'delete'], [1.5, 'deleteMany'], [1, 'txdel']])
    if (kind === 'put') { const rec = mkRec(r, g, cn, id); expect = m.put(cn, id, rec); what = `put ${cn}/${id} ${show(rec)}`; try { await col.put(id, rec) } catch (e) { err = e } }
    else if (kind === 'putMany') {
      const items = Array.from({ length: r.int(1, 4) }, () => { const i = r.pick(IDS); return [i, mkRec(r, g, cn, i)] }); what = `putMany ${cn} ${show(items)}`
      const res = await col.putMany(items); const bad = []; for (let k = 0; k < items.length; k++) if (m.put(cn, items[k][0], items[k][1]) === 'refused') bad.push(items[k][0])
      c.eq(res.failures.map(f => f.id).sort(), bad.sort(), `step ${step}: ${what}: the refused items`); if (bad.length) c.count('refused', bad.length); expect = 'ok'
    } else if (kind === 'atomic' || kind === 'import' || kind === 'tx' || kind === 'txdel') {
      const n = r.int(1, 3); const ops = []; for (let k = 0; k < n; k++) { const cc = kind === 'tx' || kind === 'txdel' ? r.pick(COLLS) : cn; const i = r.pick(IDS); if (kind !== 'tx' && kind !== 'txdel' && ops.some(o => o[1] === i)) continue; ops.push([cc, i, mkRec(r, g, cc, i)]) }
      let t = m.clone(); expect = 'ok'
      for (const o of ops) { const x = t.put(o[0], o[1], o[2]); if (x === 'refused') { expect = 'refused'; break } }
      let dl = null; if (kind === 'txdel') { dl = [r.pick(COLLS), r.pick(IDS)]; if (expect === 'ok') { const d = t.del(...dl); expect = d.out; if (d.out !== 'refused') t.drop(d.closure) } }
      what = `${kind} ${show(ops)} ${dl ? 'then delete ' + dl.join('/') : ''}`
      try {
        if (kind === 'atomic') await col.putMany(ops.map(o => [o[1], o[2]]), { atomic: true })
        else if (kind === 'import') { const rows = ops.map(o => norm(o[2])); const nd = r.chance(0.5); const plan = nd ? await asNdjson.fromString(v, rows.map(x => JSON.stringify(x)).join('\n'), { policy: 'merge', collection: cn }) : await asJson.fromObject(v, { [cn]: rows }, { policy: 'merge', collections: [cn] }); await plan.apply() }
        else await db.transaction(async tx => { for (const o of ops) tx.vault('acme').collection(o[0]).put(o[1], o[2]); if (dl) tx.vault('acme').collection(dl[0]).delete(dl[1]) })
      } catch (e) { err = e }
      if (expect === 'either') { if (!err) { m.s = t.s } expect = null } else if (expect === 'ok') m.s = t.s
    } else if (kind === 'revert') {
      const h = await col.history(id); if (!h.length) continue; const e = r.pick(h); what = `revert ${cn}/${id} to version ${e.version}`
      const rec = await col.getVersion(id, e.version); expect = m.put(cn, id, rec); try { await col.revert(id, e.version) } catch (x) { err = x }
    } else if (kind === 'delete') {
      const d = m.del(cn, id); what = `delete ${cn}/${id}`; try { await col.delete(id) } catch (e) { err = e }
      expect = d.out === 'either' ? null : d.out; if (d.out === 'ok' || (d.out === 'either' && !err)) { m.drop(d.closure); if (d.closure.size > 1) c.count('cascaded') }
      c.sig(`ref|delete|${d.out}|${Math.min(d.closure.size, 4)}|${lazy[cn]}`)
    } else {
      const ids = r.sample(IDS, 2); what = `deleteMany ${cn} ${ids}`; const res = await col.deleteMany(ids); expect = 'ok'
      for (const i of ids) { const d = m.del(cn, i); const failed = res.failures.some(f => f.id === i); if (d.out !== 'either') c.ok(failed === (d.out === 'refused'), () => `step ${step}: ${what}: deleting ${i} was ${failed ? 'refused' : 'carried out'} although it should be ${d.out}`); if (!failed) m.drop(d.closure); if (failed) c.count('refused') }
    }
    if (expect === 'refused') { c.count('refused'); c.ok(err, () => `step ${step}: ${what} was carried out although a declared reference forbids it`, { detail: { g, before: plainOf(before) } }); m.s = before.s }
    if (expect === 'ok') c.ok(!err, () => `step ${step}: ${what} failed: ${err?.message}`, { detail: { g, before: plainOf(before) } })
    if (err && expect === 'refused') c.ok(isRefErr(err) || /ref|referenc/i.test(err.message) || isRefErr(err.cause), () => `step ${step}: ${what} was refused for another reason: ${err.message}`)
    c.sig(`ref|${kind}|${expect}|${Object.values(g[cn]).map(d => d.mode[0]).sort().join('')}`)
    const got = norm(await state(cols)), want = norm(plainOf(m))
    c.eq(got, want, `step ${step}: after ${what} (${err ? 'refused' : 'accepted'}) the records`)
    if (step % 5 === 4) { const rep = await v.checkIntegrity(); c.count('integrity'); c.eq(rep.violations.map(x => `${x.collection}/${x.id}.${x.field}->${x.refTo}/${show(x.refId)} ${x.mode}`).sort(), m.dangling(), `step ${step}: the dangling references reported`) }
  }
  db.close()
  const again = await open(instrument(ref, {}), { features: ['history', 'tx', 'index'] }); const cols2 = {}; for (const k of COLLS) cols2[k] = again.v.collection(k, collOpts(g, k, lazy[k]))
  c.eq(norm(await state(cols2)), norm(plainOf(m)), 'the records after reopening')
  const rep = await again.v.checkIntegrity(); c.count('integrity'); c.eq(rep.violations.map(x => `${x.collection}/${x.id}.${x.field}->${x.refTo}/${show(x.refId)} ${x.mode}`).sort(), m.dangling(), 'the dangling references reported after reopening')
  again.db.close()
}

// ── writes and deletes of one session overlapping ───────────────────────────
async function overlap(c) {
  const r = c.rng; const ref = newRef(); const sched = new Sched(r.fork('s')); sched.enabled = false
  const { db, v } = await open(instrument(ref, { sched }), { features: ['history', 'tx'] }); const lazy = r.chance(0.3)
  const mode = r.pick(['strict', 'strict', 'chain'])
  const par = v.collection('a', lazy ? { prefetch: false, cache: { maxRecords: 10 } } : {}); const mid = v.collection('b', { refs: { p: fk('a', mode === 'chain' ? 'cascade' : 'strict') } }); const leaf = v.collection('d', { refs: { q: fk('b', 'strict'), p: fk('a', 'strict') } })
  for (const i of ['1', '2']) { await par.put(i, { id: i }); if (r.chance(0.4)) await mid.put(i, { id: i, p: i }) }
  sched.enabled = true; const ps = []; const log = []; const go = (n, fn) => { log.push(n); ps.push(fn().then(() => { log.push(n + ' ok'); return true }, e => { log.push(n + ' refused'); if (!isRefErr(e) && !isRefErr(e.cause)) throw e; return false })) }
  for (let k = 0; k < r.int(2, 6); k++) {
    const i = r.pick(['1', '2']), j = r.pick(['1', '2'])
    const kind = r.weighted([[4, 'delA'], [3, 'putB'], [3, 'putD'], [2, 'delB'], [1, 'tx'], [1, 'putA'], [1, 'many']])
    if (kind === 'delA') go(`delete a/${i}`, () => par.delete(i))
    else if (kind === 'putB') go(`put b/${j}->a/${i}`, () => mid.put(j, { id: j, p: i }))
    else if (kind === 'putD') go(`put d/${j}->b/${i},a/${j}`, () => leaf.put(j, { id: j, q: r.chance(0.7) ? i : null, p: r.chance(0.5) ? j : null }))
    else if (kind === 'delB') go(`delete b/${j}`, () => mid.delete(j))
    else if (kind === 'putA') go(`put a/${i}`, () => par.put(i, { id: i, n: 2 }))
    else if (kind === 'many') go(`putMany b`, () => mid.putMany([[j, { id: j, p: i }]]))
    else go(`tx d/${j}->b/${i}`, () => db.transaction(async tx => { tx.vault('acme').collection('d').put(j, { id: j, q: i }); tx.vault('acme').collection('b').put(j, { id: j, p: i }) }))
    if (r.chance(0.25)) { const res = await sched.run(ps.splice(0)); for (const x of res) if (x.status === 'rejected') throw x.reason }
  }
  const res = await sched.run(ps); for (const x of res) if (x.status === 'rejected') throw x.reason
  sched.enabled = false; c.count('overlaps')
  // a transaction refused halfway puts back what it found, over whatever was written meanwhile: isolation of transactions is not claimed
  if (log.some(x => x.startsWith('tx') && x.endsWith('refused'))) { c.count('undone'); db.close(); return }
  for (const [vv, why] of [[v, ''], [null, 'after reopening, ']]) {
    const w = vv ? null : await open(instrument(ref, {}), { features: ['history'] }); const V = vv ?? w.v
    const A = vv ? par : V.collection('a'), B = vv ? mid : V.collection('b', { refs: { p: fk('a', mode === 'chain' ? 'cascade' : 'strict') } }), D = vv ? leaf : V.collection('d', { refs: { q: fk('b', 'strict'), p: fk('a', 'strict') } })
    for (const j of ['1', '2']) {
      const b = await B.get(j), d = await D.get(j)
      if (b && mode === 'strict') c.ok(await A.get(b.p), () => `${why}b/${j} strictly references a/${b.p}, which is gone: ${log.join('; ')}`, { detail: { trace: sched.trace } })
      if (d?.q) c.ok(await B.get(d.q), () => `${why}d/${j} strictly references b/${d.q}, which is gone: ${log.join('; ')}`, { detail: { trace: sched.trace } })
      if (d?.p) c.ok(await A.get(d.p), () => `${why}d/${j} strictly references a/${d.p}, which is gone: ${log.join('; ')}`, { detail: { trace: sched.trace } })
    }
    w?.db.close()
  }
  c.sig(`ov|${mode}|${lazy}|${log.join(',').replace(/[12]/g, '')}`); db.close()
}

// ── schemas on input ────────────────────────────────────────────────────────
const SCHEMAS = {
  zod: () => ({ s: z.object({ id: z.string(), n: z.number().int().min(0), name: z.string().trim().min(1) }), out: x => ({ id: x.id, n: x.n, name: x.name.trim() }) }),
  strip: () => ({ s: z.object({ id: z.string(), n: z.number().int().min(0), name: z.string().min(1) }), out: x => ({ id: x.id, n: x.n, name: x.name }) }),
  async: () => ({ s: { '~standard': { version: 1, vendor: 't', validate: async x => { await Promise.resolve(); await new Promise(q => setImmediate(q)); return x && typeof x === 'object' && Number.isInteger(x.n) && x.n >= 0 && typeof x.name === 'string' && x.name.trim() ? { value: { ...x, name: x.name.toUpperCase() } } : { issues: [{ message: 'bad' }] } } } }, out: x => ({ ...x, name: x.name.toUpperCase() }) }),
  throws: () => ({ s: { '~standard': { version: 1, vendor: 't', validate: x => { if (!(x && Number.isInteger(x.n) && x.n >= 0 && typeof x.name === 'string' && x.name.trim())) throw new TypeError('cannot validate'); return { value: x } } } }, out: x => x }),
}
const BAD = [{ id: 'x', n: -1, name: 'a' }, { id: 'x', n: 1.5, name: 'a' }, { id: 'x', n: 'q', name: 'a' }, { id: 'x', n: 1 }, { id: 'x', n: 1, name: '' }, { id: 'x', name: 'a' }, { id: 'x', n: null, name: 'k' }]
async function schemaInput(c) {
  const r = c.rng; const kind = r.pick(Object.keys(SCHEMAS)); const { s, out } = SCHEMAS[kind](); const ref = newRef(); const lazy = r.chance(0.4)
  const { db, v } = await openExporter(instrument(ref, {}), { features: ['history', 'tx', 'periods', 'i18n', 'crdt'] })
  const o = { schema: s, ...(lazy ? { prefetch: false, cache: { maxRecords: 2 } } : {}), tiers: [0, 1], dictKeyFields: undefined }; delete o.dictKeyFields
  const col = v.collection('docs', o); const m = new Map(); const ids = ['1', '2', '3']
  let bad = 0
  for (let k = 0; k < 16; k++) {
    const id = r.pick(ids); const good = r.chance(0.45); const rec = good ? { id, n: r.int(0, 50), name: r.pick([' pad ', 'plain', 'x', 'Mixed ']), ...(kind === 'strip' && r.chance(0.5) ? { extra: 1 } : {}) } : { ...r.pick(BAD), id }
    const path = r.pick(['put', 'putMany', 'atomic', 'tx', 'tier', ...(lazy ? [] : ['import']), 'open']); let err = null
    try {
      if (path === 'put') await col.put(id, rec)
      else if (path === 'putMany') { const x = await col.putMany([[id, rec]]); if (!x.ok) err = x.failures[0].error ?? new Error('refused') }
      else if (path === 'atomic') await col.putMany([[id, rec]], { atomic: true })
      else if (path === 'tx') await db.transaction(async tx => { tx.vault('acme').collection('docs').put(id, rec) })
      else if (path === 'tier') await col.putAtTier(id, rec, 0)
      else if (path === 'import') { const plan = await asJson.fromObject(v, { docs: [rec] }, { policy: 'merge' }); await plan.apply() }
      else { const n = 'P' + k; await v.closePeriod({ name: n, endDate: '1999-01-01', dateField: 'nodate' }); await v.openPeriod({ name: 'O' + k, startDate: '1999-01-02', fromPeriod: n, carryForward: () => ({ docs: { [id]: rec } }) }) }
    } catch (e) { err = e }
    if (good) { c.ok(!err, () => `a valid record was refused by ${path}: ${err?.message}`); m.set(id, norm(out(rec))); if (show(out(rec)) !== show(rec)) c.count('transformed') }
    else { c.ok(err, () => `${path} stored ${show(rec)}, which violates the schema (${kind})`); c.count('schemaRefused'); bad++ }
    c.sig(`in|${kind}|${path}|${good}|${lazy}`)
    for (const i of ids) { const got = await col.get(i); c.eq(got === null ? null : norm(got), m.get(i) ?? null, `docs/${i} after ${path} of ${show(rec)} (${kind})`) }
  }
  db.close()
  // what is stored is the validated value: read it back without the schema
  const w = await open(instrument(ref, {}), { features: [] }); const raw = w.v.collection('docs')
  for (const i of ids) { const got = await raw.get(i); c.eq(got === null ? null : norm(got), m.get(i) ?? null, `stored value of docs/${i} (${kind})`) }
  w.db.close()
}

// ── stored data that no longer matches ──────────────────────────────────────
async function drift(c) {
  const r = c.rng; const ref = newRef(); const lazy = r.chance(0.5)
  const w0 = await open(instrument(ref, {}), { features: ['history'] }); const plain = w0.v.collection('docs'); const other = w0.v.collection('links')
  const ids = ['1', '2', '3', '4']; const badIds = r.sample(ids, r.int(1, 2)); const good = id => ({ id, n: Number(id), name: 'ok' })
  for (const id of ids) await plain.put(id, badIds.includes(id) ? { ...r.pick(BAD), id, marker: 'DRIFT' } : good(id))
  for (const id of ids) await other.put(id, { id, to: id })
  w0.db.close()
  const { db, v } = await openExporter(instrument(ref, {}), { features: ['history', 'index', 'aggregate', 'tx', 'shadow'] })
  const s = z.object({ id: z.string(), n: z.number().int().min(0), name: z.string().min(1) })
  const col = v.collection('docs', { schema: s, indexes: ['name'], ...(lazy ? { prefetch: false, cache: { maxRecords: 2 } } : {}) })
  const links = v.collection('links', { refs: { to: fk('docs', 'warn') } })
  const okRec = x => s.safeParse(x).success
  const paths = {
    get: async () => { const out = []; for (const i of r.shuffle([...ids])) try { out.push(await col.get(i)) } catch (e) { out.push(e) } return out },
    list: () => col.list(), getMany: async () => [...(await col.getMany(ids)).values()],
    scan: async () => { const out = []; for await (const x of col.scan({ pageSize: 2 })) out.push(x); return out },
    listPage: async () => { const out = []; let cur; do { const p = await col.listPage({ limit: 2, ...(cur ? { cursor: cur } : {}) }); out.push(...p.items); cur = p.nextCursor } while (cur); return out },
    query: async () => { if (!lazy) await col.list(); return col.query().toArray() }, where: async () => { if (!lazy) await col.list(); return col.query().where('name', '==', 'a').toArray() },
    lazyQuery: async () => lazy ? (await col.rebuildIndexes(), col.lazyQuery().where('name', '==', 'a').toArray()) : [],
    join: async () => { if (lazy) return []; await links.list(); return links.query().join('to', { as: 'target' }).toArray().map(x => x.target).filter(Boolean) },
    frame: async () => v.frame().collection('docs').list(), export: async () => { const doc = await asJson.toObject(v, { collections: ['docs'] }); return Object.values(doc.collections ?? doc).flatMap(x => Array.isArray(x) ? x : Object.values(x)).filter(x => x && typeof x === 'object' && x.id) },
    update: async () => { const out = []; for (const i of badIds) { try { await col.put(i, good(i)) } catch (e) { out.push(e) } } for (const i of ids) try { const x = await col.get(i); if (x) out.push(x) } catch (e) { out.push(e) } return out },
  }
  for (const p of [...r.sample(Object.keys(paths).filter(x => x !== 'update'), 5), 'update']) {
    let out; let err = null; try { out = await paths[p]() } catch (e) { err = e; out = [] }
    c.count('driftReads')
    for (const x of out) if (x && !(x instanceof Error)) c.ok(okRec(x), () => `${p} (${lazy ? 'lazy' : 'eager'}) returned ${show(x)}, which does not match the declared schema`)
    if (p === 'get') for (const x of out) c.ok(x !== null, 'a stored record was reported missing')
    c.sig(`drift|${p}|${lazy}|${err?.name}|${badIds.length}`)
  }
  db.close()
}

// ── stored data the schema fills in when read ───────────────────────────────
async function upgrade(c) {
  const r = c.rng; const ref = newRef(); const lazy = r.chance(0.5); const w0 = await open(instrument(ref, {}), { features: ['history'] })
  const ids = ['1', '2', '3', '4', '5'].slice(0, r.int(2, 5)); const m = new Map(); const plain = w0.v.collection('docs')
  for (const id of ids) { const x = { id, name: r.pick(['a', ' b ', 'c']), ...(r.chance(0.5) ? { n: r.int(0, 9) } : {}), ...(r.chance(0.3) ? { old: 1 } : {}) }; await plain.put(id, x); m.set(id, { id, n: x.n ?? 7, name: x.name.trim() }) }
  w0.db.close()
  const { db, v } = await open(instrument(ref, {}), { features: ['history', 'aggregate', 'index', 'tx'] })
  const col = v.collection('docs', { schema: z.object({ id: z.string(), n: z.number().default(7), name: z.string().trim() }), ...(lazy ? { prefetch: false, cache: { maxRecords: 2 } } : {}) })
  const by = xs => xs.map(norm).sort((x, y) => x.id < y.id ? -1 : 1); const all = [...m.values()]
  const ways = { get: async () => by(await Promise.all(ids.map(i => col.get(i)))), getMany: async () => by([...(await col.getMany(ids)).values()]), scan: async () => { const out = []; for await (const x of col.scan({ pageSize: 2 })) out.push(x); return by(out) }, listPage: async () => { const out = []; let cur; do { const p = await col.listPage({ limit: 2, ...(cur ? { cursor: cur } : {}) }); out.push(...p.items); cur = p.nextCursor } while (cur); return by(out) } }
  if (!lazy) { ways.list = async () => by(await col.list()); ways.query = async () => { await col.list(); return by(col.query().toArray()) }; ways.where = async () => { await col.list(); return by([...col.query().where('n', '==', 7).toArray(), ...col.query().where('n', '!=', 7).toArray()]) } }
  for (const k of r.shuffle(Object.keys(ways))) { c.eq(await ways[k](), by(all), `records read by ${k} through a schema that fills in and trims (${lazy ? 'lazy' : 'eager'})`); c.count('upgradeReads'); c.sig(`up|${k}|${lazy}|${all.length}`) }
  db.close()
}

export const scenarios = [
  { name: 'upgrade', quick: 300, thorough: 1000, run: upgrade },
  { name: 'references', quick: 2000, thorough: 8000, run: references },
  { name: 'overlap', quick: 5000, thorough: 20000, run: overlap },
  { name: 'schemaInput', quick: 500, thorough: 2000, run: schemaInput },
  { name: 'drift', quick: 500, thorough: 2000, run: drift },
]
