// Backups, bundles and diffs: restore a copy and compare it with the original, corrupt every byte, cut slices, seal for recipients.
import { open, newRef, instrument, PASS } from '../lib/world.mjs'
import { dictKey, diffVault, readNoydbBundle, readNoydbBundleHeader, writeNoydbBundle } from '@noy-db/hub'
import * as asNoydb from '@noy-db/as-noydb'
import { show, deepEq } from '../lib/child.mjs'
import { json, record as anyRecord } from '../lib/gen.mjs'

export const meta = {
  property: 'C17', level: 'exploration',
  rule: 'non-trivial: a restored vault compared with its original, an altered backup or container read, a slice or a recipient judged against the selection, a difference set applied; signatures = (scenario, what the vault held, options or alteration, outcome)',
  assumptions: [
    'Backups carry records, users, the audit trail, dictionaries and closed periods; attachments and old version snapshots are not part of them (documented).',
    'Tampering with a backup is detected through its audit trail: without one it is loaded with a warning (documented). Envelope timestamps and version numbers are not covered by it, nor are copies added under new ids.',
    'A slice of a vault with an audit trail is judged on its contents: restoring it is refused because records the trail names are missing (documented).',
    'The flag and handle bytes of a container carry no contents; changing them may go unnoticed.',
  ],
  minimums: { vaults: 1500, restored: 1200, viaBundle: 500, users: 2500, entries: 9000, tampered: 1500, flips: 150000, cuts: 60000, appended: 4000, slices: 2500, kept: 8000, dropped: 8000, predicates: 8000, recipients: 900, refusedRecipients: 3500, diffs: 3000, diffEntries: 12000, closedAgain: 150, dictionaries: 300 },
}
const NAMES = ['inv', 'ord', 'doc', 'a/b', 'a', 'constructor', 'ข้อ']
const OPTS = { ord: { indexes: ['k', 'status'], prefetch: false, cache: { maxRecords: 4 } }, inv: { dictKeyFields: { status: dictKey('status') } }, doc: { crdt: 'lww-map' } }
const coll = (v, n) => v.collection(n, OPTS[n])
const IDS = ['1', '2', '3', 'b/c', 'c', 'x y', 'บ', 'toString']
const USERS = [['bob', 'admin'], ['eve', 'viewer'], ['opal', 'operator'], ['carl', 'client']]
const phrase = u => u === 'alice' ? PASS : `${PASS}-${u}`
const quiet = async f => { const w = console.warn; console.warn = () => {}; try { return await f() } finally { console.warn = w } }
const data = ref => { const out = {}; for (const [n, m] of ref.data.get('acme') ?? []) out[n] = Object.fromEntries([...m].map(([k, e]) => [k, e])); return out }
const clean = x => JSON.parse(JSON.stringify(x))
const rec = (r, id, n) => { const o = clean(anyRecord(r, { id })); o.id = id; o.k = r.int(0, 5); if (r.chance(0.6)) o.status = r.pick(['draft', 'paid']); o.date = `2026-0${r.int(1, 6)}-15`; if (n !== 'doc' && r.chance(0.2)) o[r.pick(['a.b', 'x[0]', 'toString'])] = json(r, 1); return o }

// builds a vault through the public API and returns what it is expected to hold
async function build(c, r, { features = ['history', 'index', 'crdt', 'i18n', 'periods', 'tx', 'blob'], history = true, users = true, tiers = false, encrypt = true } = {}) {
  const ref = newRef(), st = instrument(ref, {})
  if (!history) features = features.filter(f => f !== 'history')
  const opts = { features, ...(encrypt ? {} : { encrypt: false }) }
  const w = await open(st, opts), v = w.v, m = new Map(), at = {}, sealed = []
  const names = r.sample(NAMES, r.int(2, 5)); const tags = []
  if (r.chance(0.3)) { await v.dictionary('status').putAll({ draft: { en: 'Draft', th: 'ร่าง' }, paid: { en: 'Paid' } }); tags.push('dict'); if (r.chance(0.3)) await v.dictionary(r.pick(['unit', 'constructor'])).putAll({ u: { en: 'U' } }) }
  for (const n of names) m.set(n, new Map())
  const steps = r.int(3, 22)
  for (let k = 0; k < steps; k++) {
    const n = r.pick(names), C = coll(v, n), M = m.get(n), id = r.pick(IDS); c.clock.set(c.clock.now + r.pick([1, 50, 3000]))
    const kind = r.weighted([[10, 'put'], [2, 'delete'], [1, 'many'], [1, 'tx'], [n === 'doc' ? 0 : 1, 'revert'], [features.includes('blob') ? 0.6 : 0, 'blob']])
    if (kind === 'put') { const x = rec(r, id, n); await C.put(id, x); M.set(id, n === 'doc' ? { ...(M.get(id) ?? {}), ...x } : x) }
    else if (kind === 'delete') { if (M.has(id)) { await C.delete(id); M.delete(id) } }
    else if (kind === 'many') { const ids = r.sample(IDS, 3), xs = ids.map(i => [i, rec(r, i, n)]); await C.putMany(xs); for (const [i, x] of xs) M.set(i, n === 'doc' ? { ...(M.get(i) ?? {}), ...x } : x) }
    else if (kind === 'tx') { if (n === 'doc') continue; const x = rec(r, id, n); await w.db.transaction(tx => { tx.vault('acme').collection(n).put(id, x) }); M.set(id, x) }
    else if (kind === 'revert') { const h = history && M.has(id) ? await C.history(id) : []; if (h.length) { const e = r.pick(h); await C.revert(id, e.version); M.set(id, await C.get(id)) } }
    else if (kind === 'blob') { if (M.has(id)) await C.blob(id).put('f', r.bytes(20), { compress: false }) }
    at[n] = c.clock.now
  }
  if (history && encrypt && features.includes('periods') && r.chance(0.25)) { await v.closePeriod({ name: 'P1', endDate: '2026-03-31', dateField: 'date' }); tags.push('period') }
  const granted = ['alice']
  if (users && encrypt) for (const [u, role] of r.sample(USERS, r.int(0, 3))) { const permissions = role === 'operator' || role === 'client' ? Object.fromEntries(r.sample(names, r.int(1, names.length)).map(n => [n, r.pick(['rw', 'ro'])])) : undefined; await w.db.grant('acme', { userId: u, displayName: u + ' X', role, passphrase: phrase(u), ...(permissions ? { permissions } : {}) }); granted.push(u) }
  if (granted.length > 1) tags.push('users')
  c.count('vaults')
  return { ref, st, w, v, m, names, opts, tags, granted, sealed, history }
}
async function contents(v, names) { const out = {}; for (const n of names) { let x; try { x = (await coll(v, n)._entries()).map(e => [e.id, e.record]).sort((a, b) => a[0] < b[0] ? -1 : 1) } catch (e) { x = e.name } out[n] = x } return out }
const ordered = m => [...m].sort((a, b) => a[0] < b[0] ? -1 : 1)

async function restore(c) {
  const r = c.rng, history = r.chance(0.8), encrypt = r.chance(0.92); const b = await build(c, r, { history, encrypt }); const { ref, v, w, names } = b
  const rotated = encrypt && history && r.chance(0.02); let rotatedName = null
  if (rotated) { rotatedName = r.pick(names); await w.db.rotate('acme', [rotatedName]) }
  const before = ref.snapshot(); const way = r.pick(['dump', 'none', 'gzip', 'auto', 'brotli'])
  let dump
  if (way === 'dump') dump = await v.dump()
  else { let bytes; try { bytes = await asNoydb.toBytes(v, { compression: way }) } catch (e) { if (way !== 'brotli' || !/not supported/.test(e.message)) throw e; bytes = await asNoydb.toBytes(v) } const hd = readNoydbBundleHeader(bytes); c.eq(hd.handle, await v.getBundleHandle(), 'the handle in the container'); dump = (await readNoydbBundle(bytes)).dumpJson; c.count('viaBundle') }
  const after = ref.snapshot(); for (const s of [before, after]) if (s.acme) { delete s.acme._meta; for (const q in s) if (q === 'acme' && !Object.keys(s[q]).length) delete s[q] }
  c.ok(deepEq(before, after), 'taking a backup changed the vault', { key: 'backup-writes' })
  // a little later, in another place
  c.clock.set(c.clock.now + 100000)
  const ref2 = newRef(), st2 = instrument(ref2, {}); const n2 = await open(st2, b.opts)
  if (r.chance(0.3)) { await coll(n2.v, names[0]).get('1'); if (b.tags.includes('dict')) await n2.v.dictionary('status').list(); if (history) await n2.v.listPeriods(); else { await coll(n2.v, names[0]).put('gone', { id: 'gone', k: 1 }); await coll(n2.v, names[0]).delete('gone') } } // handles used before the restore
  let refused = null
  try { await quiet(() => n2.v.load(dump)) } catch (e) { refused = e }
  if (refused && !(rotated && refused.name === 'BackupCorruptedError')) c.fail(`an untouched backup was refused: ${refused.name}: ${refused.message}`, { key: 'refused', detail: { tags: b.tags, way, history, encrypt } })
  c.count('restored')
  // through the session that restored, and through a fresh one
  const fresh = await open(st2, b.opts), src = await open(b.st, b.opts); for (const n of names) for (const x of [fresh, src, n2]) coll(x.v, n)
  for (const [label, x] of [['the restoring session', n2.v], ['a new session', fresh.v]]) {
    const got = await contents(x, names); for (const n of names) c.ok(deepEq(got[n], ordered(b.m.get(n))), () => `${label} reads other records in "${n}" than were backed up: ${show(got[n])} instead of ${show(ordered(b.m.get(n)))}`, { key: 'records' })
    c.count('entries', names.reduce((s, n) => s + b.m.get(n).size, 0))
    if (history) { const vi = await x.verifyBackupIntegrity(); c.ok(vi.ok || rotated, () => `${label}: the restored audit trail does not verify: ${show(vi)}`, { key: 'verify' }) }
    if (b.tags.includes('dict')) { c.ok(deepEq(await x.dictionary('status').list(), await src.v.dictionary('status').list()), `${label} shows other dictionary entries than were backed up`, { key: 'dictionary' }); c.count('dictionaries') }
    if (b.tags.includes('period')) c.ok(deepEq(await x.listPeriods(), await src.v.listPeriods()), `${label} shows other periods than were backed up`, { key: 'periods' })
  }
  const A = data(ref), B = data(ref2); for (const n of names) for (const id of Object.keys(A[n] ?? {})) c.ok(deepEq(B[n]?.[id], A[n][id]), () => `stored entry ${n}/${id} differs after the restore`, { key: 'envelope' })
  if (history) {
    const la = src.v.ledger(), lb = fresh.v.ledger(); c.ok(deepEq(await lb.loadAllEntries(), await la.loadAllEntries()), 'the restored audit trail has other entries', { key: 'ledger' }); c.eq((await lb.head())?.hash, (await la.head())?.hash, 'head of the audit trail')
    const n = r.pick(names), id = r.pick([...b.m.get(n).keys(), 'none']); if (n !== 'doc' && b.m.get(n).has(id)) for (let k = 1; k <= 3; k++) { const cur = b.m.get(n).get(id), t = async l => { try { return await l.reconstruct(n, id, cur, k) } catch (e) { return e.name } }; c.ok(deepEq(await t(lb), await t(la)), `version ${k} of ${n}/${id} reconstructs differently`, { key: 'reconstruct' }) }
  }
  if (b.m.has('ord') && b.opts.features.includes('index')) { const k = r.int(0, 5), q = async x => (await coll(x, 'ord').lazyQuery().where('k', '==', k).toArray()).map(o => o.id).sort(); c.eq(await q(fresh.v), [...b.m.get('ord')].filter(([, o]) => o.k === k).map(([i]) => i).sort(), 'an indexed query after the restore') }
  const d = await diffVault(src.v, fresh.v); c.ok(d.summary.total === 0 && d.summary.add === 0, () => `the vault and its restored copy are reported to differ: ${d.format()}`, { key: 'diff-self' })
  // everybody else gets in with their own passphrase only, and sees the same
  c.ok(deepEq(await fresh.db.listUsers('acme'), await src.db.listUsers('acme')), 'the restored vault lists other users', { key: 'users' })
  if (encrypt) for (const u of b.granted) {
    const x = await open(st2, { ...b.opts, user: u, secret: phrase(u) }), y = await open(b.st, { ...b.opts, user: u, secret: phrase(u) }); const gx = await contents(x.v, names), gy = await contents(y.v, names); c.ok(deepEq(gx, gy), () => `${u} sees something else in the restored vault: ${show(gx)} instead of ${show(gy)}`, { key: 'user-view' }); c.count('users'); x.db.close(); y.db.close()
    const wrong = await open(st2, { ...b.opts, user: u, secret: phrase(u) + '!' }).then(() => true, () => false); if (Object.keys(JSON.parse(dump).keyrings[u].deks).length) c.ok(!wrong, `${u} opened the restored vault with a wrong passphrase`, { key: 'wrong-passphrase' })
  }
  // the copy is alive: closed periods are closed, new records are kept and recorded
  const n = r.pick(names), x = rec(r, 'new', n); x.date = '2026-02-01'; let err = null; try { await coll(fresh.v, n).put('new', x) } catch (e) { err = e }
  if (b.tags.includes('period')) { c.ok(err?.name === 'PeriodClosedError', () => `a write into a closed period was ${err ? 'refused with ' + err.name : 'accepted'} after the restore`, { key: 'period-open' }); c.count('closedAgain') }
  else if (err) throw err
  x.date = '2026-09-01'; await coll(fresh.v, n).put('new', x); const again = await open(st2, b.opts); c.ok(deepEq(await coll(again.v, n).get('new'), x), 'a record added after the restore is not there', { key: 'later-write' }); if (history && !rotated) { const vi = await again.v.verifyBackupIntegrity(); c.ok(vi.ok, 'the audit trail does not verify after a write on the restored copy', { key: 'verify-later' }) }
  c.sig(['restore', way, history, encrypt, b.tags, names, [...b.m.values()].map(M => M.size)])
  for (const db of [w.db, n2.db, fresh.db, src.db, again.db]) db.close()
  if (refused) c.fail('a backup taken after keys were rotated is reported as tampered with when restored', { key: 'backup-after-rotation' })
}

// a vault with tiers: raising a record's tier re-encrypts it outside the audit trail
async function tiered(c) {
  const r = c.rng, ref = newRef(), st = instrument(ref, {}), opts = { features: ['history'] }; const { v, db } = await open(st, opts), T = x => x.collection('t', { tiers: [0, 1, 2] }); const C = T(v), m = new Map(); let changed = false
  const ids = ['1', '2', '3', '4']; for (const id of r.sample(ids, 3)) { const tier = r.int(0, 2), x = rec(r, id); if (tier) await C.putAtTier(id, x, tier); else await C.put(id, x); m.set(id, { tier, x }) }
  if (r.chance(0.1)) for (const [id, e] of m) if (e.tier < 2) { if (e.tier === 0) changed = true; await C.elevate(id, e.tier + 1); e.tier++; break }
  const dump = await v.dump(); const ref2 = newRef(), n2 = await open(instrument(ref2, {}), opts); let refused = null; try { await quiet(() => n2.v.load(dump)) } catch (e) { refused = e }
  if (refused && !(changed && refused.name === 'BackupCorruptedError')) c.fail(`an untouched backup with tiered records was refused: ${refused.message}`, { key: 'refused-tiers' })
  for (const [id, e] of m) { const got = await T(n2.v).getAtTier(id); c.ok(deepEq(got, e.x), () => `tiered record ${id} reads ${show(got)} after the restore`, { key: 'tier-record' }); c.count('entries') }
  const low = await T(n2.v).list(); c.ok(deepEq(low.map(x => x.id).sort(), [...m].filter(([, e]) => e.tier === 0).map(([i]) => i).sort()), 'other records than those of the lowest tier are listed after the restore', { key: 'tier-list' })
  c.count('vaults'); c.sig(['tiered', [...m.values()].map(e => e.tier), changed]); db.close(); n2.db.close()
  if (refused) c.fail('a backup taken after a record changed its tier is reported as tampered with when restored', { key: 'backup-after-tier-change' })
}

async function tampered(c) {
  const r = c.rng; const b = await build(c, r, { users: false, features: ['history', 'index', 'crdt', 'i18n', 'tx'] }); const { v, w, names } = b; const old = JSON.parse(await v.dump())
  const n = r.pick(names), id = r.pick(IDS.slice(0, 4)); await coll(v, n).put(id, rec(r, id, n)); if (r.chance(0.5)) await coll(v, n).put('z', rec(r, 'z', n))
  const j = JSON.parse(await v.dump()); const cells = []; for (const [cn, rows] of Object.entries(j.collections)) for (const i of Object.keys(rows)) if (!i.startsWith('_idx/')) cells.push([cn, i])
  const flip = s => { const B = Buffer.from(s, 'base64'); B[r.int(0, B.length - 1)] ^= 1 << r.int(0, 7); return B.toString('base64') }
  for (let k = 0; k < 3; k++) {
    const x = clean(j), [cn, i] = r.pick(cells); const kind = r.pick(['data', 'remove', 'swap', 'old', 'ledger', 'head', 'gap', 'cut', 'dict', 'drop']); let must = true
    if (kind === 'data') x.collections[cn][i]._data = flip(x.collections[cn][i]._data)
    else if (kind === 'remove') delete x.collections[cn][i]
    else if (kind === 'swap') { const o = cells.filter(z => z[0] === cn && z[1] !== i); if (!o.length) continue; const [, i2] = r.pick(o); const t = x.collections[cn][i]; x.collections[cn][i] = x.collections[cn][i2]; x.collections[cn][i2] = t }
    else if (kind === 'old') { if (!old.collections[n]?.[id]) continue; x.collections[n][id] = old.collections[n][id] }
    else if (kind === 'ledger') { const L = x._internal._ledger, key = r.pick(Object.keys(L)); L[key]._data = flip(L[key]._data) }
    else if (kind === 'head') x.ledgerHead.hash = x.ledgerHead.hash.replace(/^./, h => h === 'a' ? 'b' : 'a')
    else if (kind === 'gap') { const L = x._internal._ledger, ks = Object.keys(L).sort(); if (ks.length < 3) continue; delete L[ks[r.int(0, ks.length - 2)]] }
    else if (kind === 'cut') { const L = x._internal._ledger, ks = Object.keys(L).sort(); if (ks.length < 2) continue; for (const q of ks.slice(ks.length - r.int(1, ks.length - 1))) delete L[q] }
    else if (kind === 'dict') { const D = x._internal._dict_status; if (!D) continue; D.draft._data = flip(D.draft._data) }
    else if (kind === 'drop') delete x.collections[cn]
    const n2 = await open(instrument(newRef(), {}), b.opts); let err = null; try { await quiet(() => n2.v.load(JSON.stringify(x))) } catch (e) { err = e }
    c.ok(err !== null || !must, () => `a backup with ${kind === 'data' ? 'an altered record' : kind === 'remove' ? 'a missing record' : kind === 'swap' ? 'two records exchanged' : kind === 'old' ? 'a record set back to an earlier version' : kind === 'drop' ? 'a missing collection' : kind === 'dict' ? 'an altered dictionary entry' : 'an altered audit trail (' + kind + ')'} was restored without an error (${cn}/${i})`, { key: 'undetected-' + kind })
    c.count('tampered'); c.sig(['tampered', kind, err?.name, cn]); n2.db.close()
  }
  w.db.close()
}

// every byte of small containers, every truncation; random ones of larger
async function container(c) {
  const r = c.rng; const b = await build(c, r, { users: r.chance(0.3), history: r.chance(0.3) }); const compression = r.pick(['none', 'gzip', 'auto']); const bytes = await asNoydb.toBytes(b.v, { compression }); const good = (await readNoydbBundle(bytes)).dumpJson
  const N = bytes.length; const pos = new Set(); for (let k = 0; k < Math.min(N, 220); k++) pos.add(k); for (let k = 0; k < 260; k++) pos.add(r.int(0, N - 1)); pos.add(N - 1)
  const read = async x => { try { return (await readNoydbBundle(x)).dumpJson } catch (e) { if (!(e instanceof Error)) c.fail('reading a corrupt container threw something that is no error', { key: 'no-error' }); return null } }
  for (const p of pos) {
    const x = new Uint8Array(bytes); x[p] ^= r.pick([1, 2, 4, 8, 16, 32, 64, 128, r.int(1, 255)]); const got = await read(x); c.ok(got === null || got === good, () => `a container with byte ${p} of ${N} altered was read as something else`, { key: 'altered-byte' })
    if (p >= N - 40) c.ok(got === null, () => `a container with byte ${p} of ${N} altered was accepted`, { key: 'altered-body' }); c.count('flips')
  }
  const cuts = new Set(); for (let k = 0; k < 60; k++) cuts.add(r.int(0, N - 1)); for (let k = 0; k < 40; k++) { cuts.add(k); cuts.add(N - 1 - k) }
  for (const n of cuts) { if (n < 0) continue; const got = await read(bytes.slice(0, n)); c.ok(got === null, () => `a container cut to ${n} of ${N} bytes was accepted`, { key: 'cut' }); c.count('cuts') }
  for (let k = 0; k < 8; k++) { const t = r.bytes(r.int(1, 5)), x = new Uint8Array(N + t.length); x.set(bytes); x.set(t, N); c.ok(await read(x) === null, 'a container with bytes appended was accepted', { key: 'appended' }); c.count('appended') }
  { const x = new Uint8Array(bytes); const i = r.int(Math.floor(N / 2), N - 2), t = x[i]; x[i] = x[i + 1]; x[i + 1] = t; if (x[i] !== x[i + 1]) c.ok(await read(x) === null, 'a container with two bytes exchanged was accepted', { key: 'exchanged' }) }
  c.sig(['container', compression, b.names, N]); b.w.db.close()
}

async function slices(c) {
  const r = c.rng, tiers = r.chance(0.3), history = r.chance(0.4); const b = await build(c, r, { users: false, history, features: ['history', 'index', 'crdt', 'i18n', 'tx'] }); const { ref, v, w } = b; const names = [...b.names]; const m = new Map(b.m)
  if (tiers) { const T = v.collection('t', { tiers: [0, 1, 2] }), M = new Map(); for (const id of r.sample(IDS, 4)) { const tier = r.int(0, 2), x = rec(r, id); if (tier) await T.putAtTier(id, x, tier); else await T.put(id, x); M.set(id, x) } m.set('t', M); names.push('t') }
  if (m.has('ord') && r.chance(0.5)) { c.clock.set(c.clock.now + 5000); await coll(v, 'ord').rebuildIndexes() }
  const env = data(ref); const times = names.flatMap(n => Object.entries(env[n] ?? {}).map(([, e]) => Date.parse(e._ts)))
  for (let k = 0; k < 3; k++) {
    const o = { compression: r.pick(['none', 'gzip']) }; if (r.chance(0.5)) o.collections = r.sample([...names, 'missing', '_ledger'], r.int(0, 3)); if (r.chance(0.4) && times.length) { const t = r.pick(times) + r.pick([0, 0, 1, -1]); o.since = r.chance(0.5) ? new Date(t) : new Date(t).toISOString() } if (r.chance(0.3)) o.tierAtMost = r.int(0, 2); const lim = r.int(0, 5), asked = []; if (r.chance(0.5)) o.where = r.chance(0.5) ? (x, ctx) => { asked.push([ctx.collection, ctx.id, x]); return x.k <= lim } : async (x, ctx) => { asked.push([ctx.collection, ctx.id, x]); await null; return x.k <= lim }
    const bytes = await writeNoydbBundle(v, o); const j = JSON.parse((await readNoydbBundle(bytes)).dumpJson)
    const expect = new Map(); let all = 0; const under = []
    for (const n of names) for (const [id, x] of m.get(n)) { all++; const e = env[n][id]; const tierOk = o.tierAtMost === undefined || (e._tier ?? 0) <= o.tierAtMost; if (tierOk) under.push([n, id, x]); if (tierOk && (!o.where || x.k <= lim) && (!o.collections || o.collections.includes(n)) && (o.since === undefined || Date.parse(e._ts) >= new Date(o.since).getTime())) expect.set(JSON.stringify([n, id]), e) }
    const got = new Map(), cars = []; for (const [n, rows] of Object.entries(j.collections)) for (const [id, e] of Object.entries(rows)) if (id.startsWith('_idx/')) cars.push([n, id]); else got.set(JSON.stringify([n, id]), e)
    const why = show({ ...o, where: o.where ? `k <= ${lim}` : undefined })
    for (const key of got.keys()) c.ok(expect.has(key), () => `a slice holds ${key}, which was not selected by ${why}`, { key: 'slice-extra' })
    for (const [key, e] of expect) { c.ok(got.has(key), () => `a slice lacks ${key}, which was selected by ${why}`, { key: 'slice-missing' }); c.ok(deepEq(got.get(key), clean(e)), () => `a slice changed ${key}`, { key: 'slice-changed' }) }
    for (const [n, id] of cars) c.ok(expect.has(JSON.stringify([n, id.split('/').slice(2).join('/')])), () => `a slice holds index entry ${id} of a record that was not selected`, { key: 'slice-index' })
    if (o.where) { const norm = l => l.map(x => JSON.stringify(x)).sort(); const A = norm(asked.map(([n, i]) => [n, i])), E = norm(under.map(([n, i]) => [n, i])); for (const [n, i, x] of asked) { c.count('predicates'); c.ok(m.get(n)?.has(i) && deepEq(x, m.get(n).get(i)), () => `the filter was shown ${show(x)} for ${n}/${i}`, { key: 'predicate-record' }) } c.ok(!o.collections && o.since === undefined ? deepEq(A, E) : A.every(x => E.includes(x)), () => `the filter was asked about ${A.length} records of ${E.length}`, { key: 'predicate-calls' }) }
    c.count('slices'); c.count('kept', expect.size); c.count('dropped', all - expect.size); c.sig(['slice', Object.keys(o).sort(), expect.size, all, names])
    if (!history) { // a slice of a vault without an audit trail restores to just the selection
      const n2 = await open(instrument(newRef(), {}), b.opts); await quiet(() => n2.v.load(JSON.stringify(j))); for (const n of b.names) { const sel = ordered(m.get(n)).filter(([id]) => expect.has(JSON.stringify([n, id]))); const rows = (await contents(n2.v, [n]))[n]; c.ok(deepEq(rows, sel), () => `a restored slice reads ${show(rows)} in "${n}" instead of ${show(sel)}`, { key: 'slice-restored' }); if (n === 'ord') { const q = (await coll(n2.v, 'ord').lazyQuery().where('k', '>=', 0).toArray()).map(x => x.id).sort(); c.eq(q, sel.map(([, x]) => x.id).sort(), 'an indexed query over a restored slice') } } n2.db.close()
    }
  }
  w.db.close()
}

async function recipients(c) {
  const r = c.rng; const b = await build(c, r, { users: false, features: ['history', 'index', 'crdt', 'i18n', 'tx'], history: r.chance(0.5) }); const { v, w, names } = b; const kind = r.weighted([[4, 'recipients'], [2, 'phrase'], [2, 'operator']])
  const o = { compression: 'none' }; let people
  let from = v, vis = null
  if (kind === 'recipients') {
    people = r.sample([...USERS, ['constructor', 'viewer'], ['zoe', 'owner'], ['alice', 'viewer'], ['nobody', undefined]], r.int(1, 4)).map(([id, role]) => { const p = { id, passphrase: `${PASS}-for-${id}`, ...(role ? { role } : {}) }; if (role === 'operator' || role === 'client') p.permissions = Object.fromEntries(r.sample(names, r.int(0, names.length)).map(n => [n, r.pick(['rw', 'ro'])])); if (r.chance(0.15)) p.expiresAt = new Date(c.clock.now + r.pick([-5000, 5e7])).toISOString(); return p })
    o.recipients = people
  } else if (kind === 'phrase') { people = [{ id: 'alice', passphrase: PASS + '-moved', role: 'owner' }]; o.exportPassphrase = people[0].passphrase }
  else { const permissions = Object.fromEntries(r.sample(names, r.int(1, names.length)).map(n => [n, r.pick(['rw', 'ro'])])); await w.db.grant('acme', { userId: 'opal', displayName: 'opal', role: 'operator', passphrase: phrase('opal'), permissions, exportCapability: { bundle: true } }); const x = await open(b.st, { ...b.opts, user: 'opal', secret: phrase('opal') }); from = x.v; people = [{ id: 'opal', passphrase: PASS + '-opal-moved', role: 'operator', permissions }]; o.exportPassphrase = people[0].passphrase; vis = x }
  const j = JSON.parse((await readNoydbBundle(await asNoydb.toBytes(from, o))).dumpJson)
  c.ok(deepEq(Object.keys(j.keyrings).sort(), people.map(p => p.id).sort()), () => `a bundle sealed for ${people.map(p => p.id)} carries keys for ${Object.keys(j.keyrings)}`, { key: 'keyrings' })
  const place = async () => { const ref = newRef(), st = instrument(ref, {}); for (const [n, rows] of [...Object.entries(j.collections), ...Object.entries(j._internal ?? {})]) for (const [id, e] of Object.entries(rows)) await ref.put('acme', n, id, clean(e)); for (const [u, k] of Object.entries(j.keyrings)) await ref.put('acme', '_keyring', u, { _noydb: 1, _v: 1, _ts: new Date(c.clock.now).toISOString(), _iv: '', _data: JSON.stringify(k) }); return st }
  const st = await place()
  for (const p of people) {
    const expired = p.expiresAt && Date.parse(p.expiresAt) < c.clock.now; let x = null, err = null; try { x = await open(st, { ...b.opts, user: p.id, secret: p.passphrase }) } catch (e) { err = e }
    if (expired) { c.ok(err, `${p.id} opened a bundle after its expiry`, { key: 'expired' }); c.count('refusedRecipients'); continue }
    if (err) c.fail(`${p.id} cannot open the bundle sealed for them: ${err.name}: ${err.message}`, { key: 'recipient-refused' })
    const role = p.role ?? 'viewer', all = ['owner', 'admin', 'viewer'].includes(role)
    for (const n of names) {
      const may = all || (p.permissions && Object.hasOwn(p.permissions, n)); let rows, e2 = null; try { rows = (await coll(x.v, n)._entries()).map(e => [e.id, e.record]).sort((a, q) => a[0] < q[0] ? -1 : 1) } catch (e) { e2 = e }
      if (may) c.ok(!e2 && deepEq(rows, ordered(b.m.get(n))), () => `recipient ${p.id} (${role}) reads ${e2 ? e2.message : show(rows)} in "${n}"`, { key: 'recipient-view' })
      else if (b.m.get(n).size) c.ok(e2 !== null || rows.length === 0, () => `recipient ${p.id} (${role}) reads "${n}" without permission`, { key: 'recipient-leak' })
    }
    c.count('recipients'); c.sig(['recipient', kind, role, names.length, Object.keys(p.permissions ?? {}).length]); x.db.close()
    const keys = Object.keys(j.keyrings[p.id].deks).length
    for (const bad of [PASS, p.passphrase + ' ', p.passphrase.slice(0, -1), ...people.filter(q => q !== p).map(q => q.passphrase)]) { if (!keys) break; const ok = await open(st, { ...b.opts, user: p.id, secret: bad }).then(() => true, () => false); c.ok(!ok, () => `the bundle part of ${p.id} opened with another passphrase`, { key: 'other-passphrase' }); c.count('refusedRecipients') }
  }
  vis?.db.close(); w.db.close()
}

async function diffs(c) {
  const r = c.rng; const side = () => { const o = Object.create(null); for (const n of r.sample(['inv', 'ord', 'a/b', 'constructor', 'ข้อ'], r.int(1, 4))) { o[n] = Object.create(null); for (const id of r.sample(IDS, r.int(0, 6))) o[n][id] = rec(r, id, n) } return o }
  const A = side(), B = side(); for (const n in A) if (r.chance(0.7)) { B[n] ??= Object.create(null); for (const id in A[n]) if (r.chance(0.6)) { const x = clean(A[n][id]); if (r.chance(0.6)) { const key = r.pick([...Object.keys(x), 'extra', 'a.b']); if (key !== 'id') { if (r.chance(0.3)) delete x[key]; else x[key] = json(r, 2) } } B[n][id] = x } }
  const opts = { features: ['index', 'i18n'] }, mk = async X => { const st = instrument(newRef(), {}), w = await open(st, opts); for (const n in X) for (const id in X[n]) await coll(w.v, n).put(id, X[n][id]); return w }
  const a = await mk(A); const form = r.pick(['vault', 'object', 'json']); const bw = form === 'vault' ? await mk(B) : null
  const lists = Object.fromEntries(Object.entries(B).map(([n, rows]) => [n, r.shuffle(Object.values(rows))])); const cand = form === 'vault' ? bw.v : form === 'object' ? lists : JSON.stringify(lists)
  const o = {}; if (r.chance(0.3)) o.collections = r.sample([...Object.keys({ ...A, ...B }), 'none'], 2); if (r.chance(0.4)) o.includeUnchanged = true; const loose = r.chance(0.15); if (loose) o.compareFn = (x, y) => x.k === y.k
  const d = await diffVault(a.v, cand, o); const E = { added: [], modified: [], deleted: [], unchanged: [] }
  for (const n of new Set([...Object.keys(A), ...Object.keys(B)])) { if (o.collections && !o.collections.includes(n)) continue; for (const id of new Set([...Object.keys(A[n] ?? {}), ...Object.keys(B[n] ?? {})])) { const x = Object.hasOwn(A, n) && Object.hasOwn(A[n], id) ? A[n][id] : undefined, y = Object.hasOwn(B, n) && Object.hasOwn(B[n], id) ? B[n][id] : undefined; const same = x && y && (loose ? x.k === y.k : deepEq(x, y)); E[!x ? 'added' : !y ? 'deleted' : same ? 'unchanged' : 'modified'].push([n, id, x, y]) } }
  const key = e => JSON.stringify([e.collection ?? e[0], e.id ?? e[1]])
  for (const part of ['added', 'modified', 'deleted', ...(o.includeUnchanged ? ['unchanged'] : [])]) c.ok(deepEq(d[part].map(key).sort(), E[part].map(key).sort()), () => `reported as ${part}: ${d[part].map(key)} instead of ${E[part].map(key)}`, { key: 'diff-' + part })
  if (!o.includeUnchanged) c.eq(d.unchanged, undefined, 'unchanged records when not asked for')
  c.eq(d.summary, { add: E.added.length, modify: E.modified.length, delete: E.deleted.length, total: E.added.length + E.modified.length + E.deleted.length }, 'summary of the comparison')
  for (const e of d.modified) { const [, , x, y] = E.modified.find(z => key(z) === key(e)); c.ok(deepEq(e.before, x) && deepEq(e.record, y), () => `a modified record is shown as ${show(e)}`, { key: 'diff-values' }); const changed = [...new Set([...Object.keys(x), ...Object.keys(y)])].filter(k => Object.hasOwn(x, k) !== Object.hasOwn(y, k) || !deepEq(x[k], y[k])).sort(); c.ok(deepEq([...e.fieldsChanged].sort(), changed), () => `changed fields ${show(e.fieldsChanged)} instead of ${show(changed)}`, { key: 'diff-fields' }); c.ok(deepEq(x, y) === (e.fieldDiffs.length === 0), 'the field differences do not match the records', { key: 'diff-fieldDiffs' })
    for (const f of e.fieldDiffs) { const okFrom = f.type === 'added' || JSON.stringify(x).includes(JSON.stringify(f.from)), okTo = f.type === 'removed' || JSON.stringify(y).includes(JSON.stringify(f.to)); c.ok(okFrom && okTo, () => `a field difference names values the records do not hold: ${show(f)}`, { key: 'diff-field-values' }) } }
  for (const e of d.added) c.ok(deepEq(e.record, B[e.collection][e.id]), 'an added record is shown with other contents', { key: 'diff-values' }); for (const e of d.deleted) c.ok(deepEq(e.record, A[e.collection][e.id]), 'a deleted record is shown with other contents', { key: 'diff-values' })
  const text = d.format(); for (const part of ['added', 'modified', 'deleted']) for (const e of d[part]) c.ok(text.includes(`${e.collection}/${e.id}\t${part}`), () => `the text form lacks ${e.collection}/${e.id}`, { key: 'diff-text' })
  // applying it makes the vault equal to the other side
  if (!loose) { for (const e of [...d.added, ...d.modified]) await coll(a.v, e.collection).put(e.id, e.record); for (const e of d.deleted) await coll(a.v, e.collection).delete(e.id); const again = await diffVault(a.v, cand, o.collections ? { collections: o.collections } : {}); c.ok(again.summary.total === 0, () => `after applying the differences there still are: ${again.format()}`, { key: 'diff-applied' })
    if (!o.collections) { const fresh = a.v; for (const n of Object.keys({ ...A, ...B })) { const got = Object.fromEntries((await contents(fresh, [n]))[n]); c.ok(deepEq(got, { ...(Object.hasOwn(B, n) ? B[n] : {}) }), () => `"${n}" after applying the differences: ${show(got)}`, { key: 'diff-result' }) } } }
  c.count('diffs'); c.count('diffEntries', d.summary.total); c.sig(['diff', form, d.summary.add, d.summary.modify, d.summary.delete, !!o.collections, loose]); a.db.close(); bw?.db.close()
}

export const scenarios = [
  { name: 'restore', quick: 1600, thorough: 8000, run: restore },
  { name: 'tiered', quick: 300, thorough: 1500, run: tiered },
  { name: 'tampered', quick: 700, thorough: 3500, run: tampered },
  { name: 'container', quick: 700, thorough: 3500, run: container },
  { name: 'slices', quick: 1100, thorough: 6000, run: slices },
  { name: 'recipients', quick: 900, thorough: 5000, run: recipients },
  { name: 'diffs', quick: 4000, thorough: 20000, run: diffs },
]
