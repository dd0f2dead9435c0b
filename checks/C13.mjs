// Authorisation monitor. An owner fills a vault whose every value carries a marker naming its
// collection; users of every role and permission map then call every public operation in
// random order. Whatever an operation returns or delivers is searched for markers of
// collections the caller may not read, and the storage difference it leaves is compared with
// what the caller may change. New users and exported packages are opened and read in turn.
import { createNoydb, ref } from '@noy-db/hub'
import { writeNoydbBundle, readNoydbBundle } from '@noy-db/hub/bundle'
import { dictKey, i18nText } from '@noy-db/hub/i18n'
import { newRef, instrument, strategies } from '../lib/world.mjs'
import { show } from '../lib/child.mjs'
import { phrase } from './C04.mjs'
import * as asJson from '@noy-db/as-json'
import * as asCsv from '@noy-db/as-csv'

export const meta = {
  property: 'C13', level: 'exploration',
  rule: 'distinct by (role, permission on the target, operation, outcome); a case counts only if some calls were refused and some accepted',
  assumptions: ['names of collections and records, and system data shared by all users of a vault (dictionaries, audit entries without field values), are not contents', 'a session keeps the permissions it was opened with until it is reopened', 'package importers and the command line go through the same collection operations'],
  minimums: { operations: 30000, refused: 8000, returned_values_scanned: 15000, storage_diffs: 30000, reads_confirmed: 5000, writes_confirmed: 800, users_created: 400, packages_opened: 300 },
}
const COLLS = ['invoices', 'payroll', 'notes', 'maps']
const IDS = ['a', 'b', 'c']
const MARK = /Mk(invoices|payroll|notes|maps|tier)(\d?)Q/g
const drain = async it => { const o = []; for await (const x of it) o.push(x); return o }
function text(x, depth = 0, seen = new Set()) {
  if (x === null || x === undefined || depth > 12) return ''
  if (typeof x === 'string') return x + ' '
  if (typeof x !== 'object') return ''
  if (seen.has(x)) return ''; seen.add(x)
  if (x instanceof Uint8Array) return Buffer.from(x).toString('latin1') + ' '
  if (x instanceof ArrayBuffer) return Buffer.from(x).toString('latin1') + ' '
  if (x instanceof Error) return `${x.message} ${text(Object.entries(x), depth + 1, seen)}`
  if (x instanceof Map) return [...x].map(y => text(y, depth + 1, seen)).join('')
  if (x instanceof Set) return [...x].map(y => text(y, depth + 1, seen)).join('')
  if (Array.isArray(x)) return x.map(y => text(y, depth + 1, seen)).join('')
  return Object.entries(x).map(([k, v]) => k + ' ' + text(v, depth + 1, seen)).join('')
}
const POWER = { owner: 3, admin: 2, operator: 1, viewer: 1, client: 1 }

class Office {
  constructor(c) { this.c = c; this.r = c.rng; this.n = 0; this.ref = newRef(); this.store = instrument(this.ref, { keepLog: false }); this.users = new Map(); this.sessions = new Map(); this.done = new Set() }
  val(coll, tier = 0) { return { tag: `Mk${coll}${tier || ''}Q${this.n++}`, n: this.r.int(0, 5), email: `Mk${coll}${tier || ''}Qmail`, kind: this.r.pick(['x', 'y']), deep: { list: [`Mk${coll}${tier || ''}Q`] } } }
  doc(coll) { const v = this.val(coll); if (coll === 'notes') { v.inv = this.r.pick(IDS); v.title = { en: `Mk${coll}Q`, th: `Mk${coll}Qth` }; v.status = 'open' } return v }
  bind(v) {
    const lazy = this.r.chance(0.3)
    return {
      invoices: v.collection('invoices', { indexes: ['kind'], deterministicFields: ['email'], acknowledgeDeterministicRisk: true }),
      payroll: v.collection('payroll', lazy ? { prefetch: false, cache: { maxRecords: 2 }, indexes: ['kind', { fields: ['kind', 'n'] }] } : {}),
      notes: v.collection('notes', { refs: { inv: ref('invoices', this.mode) }, i18nFields: { title: i18nText({ languages: ['en', 'th'], required: 'all' }) }, dictKeyFields: { status: dictKey('status') } }),
      maps: v.collection('maps', { crdt: 'lww-map' }),
      tier: v.collection('tier', { tiers: [1, 2], tierMode: this.r.pick(['ghost', 'invisible']) }),
    }
  }
  async session(u) {
    let s = this.sessions.get(u)
    if (!s) {
      const db = await createNoydb({ store: this.store, user: u, secret: this.users.get(u).pass, ...strategies('all') }); const v = await db.openVault('acme')
      s = { db, v, w: this.bind(v), heard: [] }; this.sessions.set(u, s)
      db.on('change', e => s.heard.push(e)); db.on('sync:conflict', e => s.heard.push(e))
    }
    return s
  }
  async start() {
    this.mode = this.r.pick(['strict', 'warn', 'cascade'])
    this.users.set('alice', { role: 'owner', perms: {}, pass: phrase(this.r), keys: new Set() })
    const { db, v, w } = await this.session('alice'); const r = this.r
    await v.dictionary('status').put('open', { en: 'Open', th: 'เปิด' })
    for (const k of COLLS) for (const id of IDS) { await w[k].put(id, this.doc(k)); if (r.chance(0.5)) await w[k].put(id, this.doc(k)) }
    for (const k of ['invoices', 'payroll']) { for (const s of ['s1', 's2']) await w[k].blob('a').put(s, new TextEncoder().encode(`Mk${k}Qblob${this.n++}`), { mimeType: 'text/plain' }); await w[k].blob('a').publish('s1', 'v1') }
    await w.tier.put('t0', this.val('tier')); await w.tier.putAtTier('t1', this.val('tier', 1), 1); await w.tier.putAtTier('t2', this.val('tier', 2), 2)
    if (r.chance(0.5)) { await w.tier.putAtTier('te', this.val('tier', 1), 0); await w.tier.elevate('te', 1) }
    await v.withConsent({ purpose: 'audit', consentHash: 'h' }, async () => { await w.invoices.get('a') })
    if (r.chance(0.3)) await w.payroll.delete('c')
    for (const k of Object.keys(this.deks('alice'))) this.users.get('alice').keys.add(k)
    const perm = () => { const p = {}; for (const k of [...COLLS, 'tier', 'tier#1', 'tier#2']) { const x = r.pick(['rw', 'ro', null, null]); if (x) p[k] = x } return p }
    await this.grant('alice', 'adam', 'admin', {}); await this.grant('alice', 'otto', 'operator', perm()); await this.grant('alice', 'odo', 'operator', r.chance(0.4) ? {} : perm()); await this.grant('alice', 'vera', 'viewer', {}); await this.grant('alice', 'cleo', 'client', perm())
    return this
  }
  deks(u) { const e = this.ref.get('acme', '_keyring', u); return e ? JSON.parse(e._data).deks : {} }
  async grant(by, u, role, permissions) {
    const s = await this.session(by); const pass = phrase(this.r)
    await s.db.grant('acme', { userId: u, displayName: u, role, passphrase: pass, permissions })
    this.learn(by, u, role, permissions, pass)
  }
  learn(by, u, role, permissions, pass) {
    const full = ['owner', 'admin', 'viewer'].includes(role); const keys = new Set(); for (const k of this.users.get(by).keys) if (full || k in permissions) keys.add(k)
    this.users.set(u, { role, perms: full ? {} : permissions, pass, keys }); const old = this.sessions.get(u); if (old) { old.db.close(); this.sessions.delete(u) }
  }
  canRead(u, coll, tier = 0) { const x = this.users.get(u); const k = tier ? `${coll}#${tier}` : coll; if (x.role === 'owner') return true; return ['admin', 'viewer'].includes(x.role) ? x.keys.has(k) : k in x.perms && x.keys.has(k) }
  canWrite(u, coll) { const x = this.users.get(u); return x.role === 'owner' || x.role === 'admin' || (x.role === 'operator' && x.perms[coll] === 'rw') }
  scan(u, what, value) {
    const t = text(value); this.c.count('returned_values_scanned')
    for (const m of t.matchAll(MARK)) this.c.ok(this.canRead(u, m[1], Number(m[2] || 0)) || (this.moved && m[1] === 'tier' && [0, 1, 2].some(t => this.canRead(u, 'tier', t))), () => `${what} by ${this.users.get(u).role} ${u} (permissions ${show(this.users.get(u).perms)}) delivered contents of "${m[1]}"${m[2] ? ' tier ' + m[2] : ''}: …${t.slice(Math.max(0, m.index - 30), m.index + 40)}…`)
    return t.length
  }
  flat() { const o = new Map(); for (const [v, vm] of this.ref.data) for (const [k, m] of vm) for (const [id, e] of m) o.set(`${v}\u0000${k}\u0000${id}`, JSON.stringify(e)); return o }
  // which user collection a stored item belongs to
  owner(coll, id) {
    if (id.startsWith('_idx/')) return null // derived, rebuilt from the records by whoever opens them
    if (!coll.startsWith('_')) return coll
    if (coll === '_history') return id.split(':')[0]
    const m = /^_blob_(?:slots|versions)_(.+)$/.exec(coll); if (m) return m[1]
    return null
  }
  diff(u, what, before, refused, allowedUsers) {
    const c = this.c; const after = this.flat(); c.count('storage_diffs'); const x = this.users.get(u); const who = `${x.role} ${u} (permissions ${show(x.perms)})`
    const writesAny = [...COLLS, 'tier'].some(k => this.canWrite(u, k))
    const changed = []; for (const [k, e] of after) if (before.get(k) !== e) changed.push(k); for (const k of before.keys()) if (!after.has(k)) changed.push(k)
    for (const key of changed) {
      const [v, coll, id] = key.split('\u0000'); const own = this.owner(coll, id); const gone = !after.has(key)
      if (v !== 'acme') c.fail(`${what} by ${who} changed vault "${v}"`)
      if (own) c.ok(this.canWrite(u, own), () => `${what} by ${who} ${gone ? 'removed' : before.has(key) ? 'changed' : 'added'} ${coll}/${id}${refused ? ' although it was refused: ' + refused.message : ''}`)
      if (coll === 'tier' && !gone) { const t = JSON.parse(after.get(key))._tier ?? 0; if (t > 0) c.ok(POWER[x.role] >= POWER.admin || x.keys.has(`tier#${t}`), () => `${what} by ${who} stored ${coll}/${id} at tier ${t}, which they were not cleared for`) }
      if (coll === 'tier' && before.has(key)) { const t = JSON.parse(before.get(key))._tier ?? 0; if (t > 0) c.ok(POWER[x.role] >= POWER.admin || x.keys.has(`tier#${t}`), () => `${what} by ${who} ${gone ? 'removed' : 'replaced'} ${coll}/${id} of tier ${t}, which they were not cleared for`) }
      if (own) continue
      if (coll === '_keyring') {
        if (id === u && !gone) { const a = before.get(key) && JSON.parse(JSON.parse(before.get(key))._data); const b = JSON.parse(JSON.parse(after.get(key))._data); c.ok(!a || (a.role === b.role && JSON.stringify(a.permissions) === JSON.stringify(b.permissions) && JSON.stringify(a.export_capability) === JSON.stringify(b.export_capability)) || allowedUsers?.has(id), () => `${what} by ${who} changed their own role or permissions from ${a.role} ${show(a.permissions)} to ${b.role} ${show(b.permissions)}`) }
        else c.ok(allowedUsers?.has(id), () => `${what} by ${who} ${gone ? 'removed' : before.has(key) ? 'changed' : 'created'} the keyring of "${id}"`)
      } else if (coll.startsWith('_dict_')) c.ok(POWER[x.role] >= 2, () => `${what} by ${who} changed ${coll}/${id}`)
      else if (coll === '_ledger' || coll === '_ledger_deltas') c.ok(!before.has(key) && writesAny || allowedUsers, () => `${what} by ${who} ${before.has(key) ? 'rewrote' : 'added'} audit entry ${coll}/${id}`)
      else if (coll.startsWith('_blob')) c.ok(writesAny, () => `${what} by ${who} changed ${coll}/${id}`)
    }
    if (refused && /^(ReadOnly|NoAccess|PermissionDenied|Privilege|Tier)/.test(refused.name)) {
      c.count('refused')
      const rest = changed.filter(k => !k.endsWith(`_keyring\u0000${u}`) && !/\u0000_(consent_audit|sync|presence|elevation_audit|meta)/.test(k) && !(/^tx/.test(what) && /\u0000_(ledger|ledger_deltas|history|idx\/.*)/.test(k))) // a rolled-back transaction stays on the audit trail
      c.ok(rest.length === 0, () => `${what} by ${who} was refused (${refused.name}: ${refused.message}) but changed ${rest.map(k => k.split('\u0000').slice(1).join('/')).join(', ')}`)
    }
  }
  reads(s, coll, id) {
    const { v, w, db } = s; const k = w[coll]
    return {
      get: () => k.get(id), list: () => k.list(), query: () => k.query().where('n', '>=', 0).toArray(), predicate: () => k.query(() => true), many: () => k.getMany(IDS), page: () => k.listPage({ limit: 2 }), scan: () => drain(k.scan({ pageSize: 2 })), count: () => k.count(),
      lazy: () => k.lazyQuery().where('kind', '==', 'x').toArray(), raw: () => k.getRaw(id), history: () => k.history(id), version: () => k.getVersion(id, 1), diff: () => k.diff(id, 1), locale: () => k.get(id, { locale: 'en' }), rawLocale: () => k.get(id, { locale: 'raw' }),
      agg: () => k.query().aggregate({ m: { init: () => [], step: (a, x) => [...a, x.tag], finalize: a => a } }).run(), group: () => k.query().groupBy('tag').aggregate({}).run(),
      join: () => w.notes.query().join('inv', { as: 'invoice' }).toArray(), joinLive: async () => { await w.invoices.list(); return w.notes.query().join('inv', { as: 'invoice' }).toArray() },
      exportStream: () => drain(v.exportStream()), exportJSON: () => v.exportJSON(), dump: () => v.dump(), at: () => v.at(new Date(this.c.clock.now)).collection(coll).get(id), atList: () => v.at(new Date(this.c.clock.now)).collection(coll).list(), frame: () => v.frame().collection(coll).get(id), frameList: () => v.frame().collection(coll).list(),
      blobGet: () => k.blob('a').get('s1'), blobList: () => k.blob('a').list(), blobVersion: () => k.blob('a').getVersion('s1', 'v1'), blobInfo: () => k.blob('a').blobInfo('s1'), blobResponse: async () => { const x = await k.blob('a').response('s1'); return x && await x.arrayBuffer() }, exportBlobs: () => drain(v.exportBlobs()),
      entries: () => v.ledger().entries(), head: () => v.ledger().head(), deltas: async () => { const o = []; for (let i = 0; i < 40; i++) { try { o.push(await v.ledger().loadDelta(i)) } catch (e) { o.push(e) } } return o }, reconstruct: () => v.ledger().reconstruct(coll, id, {}, 1), consent: () => v.consentAudit(), integrity: () => v.checkIntegrity(), backup: () => v.verifyBackupIntegrity(),
      det: () => w.invoices.findByDet('email', 'MkinvoicesQmail'), detAll: () => w.invoices.queryByDet('email', 'MkinvoicesQmail'), tierGet: () => w.tier.getAtTier(this.r.pick(['t0', 't1', 't2', 'te'])), tierList: () => w.tier.listAtTier(), tierPlain: () => w.tier.list(), tierOne: () => w.tier.get(this.r.pick(['t0', 't1', 't2'])),
      across: () => db.queryAcross(['acme'], x => x.collection(coll).list()), users: () => db.listUsers('acme'), vaults: () => db.listAccessibleVaults(), collections: () => v.collections(), dict: () => v.dictionary('status').list(),
      other: () => v.collection(coll + '').get(id), proto: () => v.collection('constructor').list(), sub: async () => { const seen = []; const off = k.subscribe(e => seen.push(e)); await k.get(id); off(); return seen }, live: () => { const q = k.query().live(); const x = q.value; q.stop?.(); return x },
      presence: () => { const p = k.presence(); p.stop(); return null }, hist2: async () => { const s2 = await db.vault('acme'); return s2.collection(coll).get(id) }, asJson: () => asJson.toString(v), asCsv: () => asCsv.toString(v, { collection: coll }), stats: () => k.cacheStats(),
    }
  }
  writes(s, coll, id) {
    const { v, w, db } = s; const k = w[coll]; const r = this.r; const d = () => this.doc(coll)
    return {
      put: () => k.put(id, d()), putNew: () => k.put('new' + this.n++, d()), del: () => k.delete(id), putMany: () => k.putMany([['a', d()], ['b', d()]], { atomic: r.chance(0.5) }), delMany: () => k.deleteMany(['a', 'b']), revert: () => k.revert(id, 1),
      tx: () => db.transaction(async tx => { const t = tx.vault('acme'); t.collection(coll).put(id, d()); const o = r.pick(COLLS); t.collection(o).put('b', this.doc(o)) }), txDel: () => db.transaction(async tx => { tx.vault('acme').collection(coll).delete(id) }),
      blobPut: () => k.blob(r.pick(['a', 'b'])).put('s' + r.int(1, 3), new TextEncoder().encode(`Mk${coll}Q${this.n++}`)), blobDel: () => k.blob('a').delete('s1'), blobPublish: () => k.blob('a').publish('s1', 'v' + r.int(1, 3)), blobDelVersion: () => k.blob('a').deleteVersion('s1', 'v1'),
      clear: () => k.clearHistory(r.chance(0.5) ? id : undefined), prune: () => k.pruneRecordHistory(id, { keepVersions: 0 }), tierPut: () => { const t = r.pick([0, 1, 2]); return w.tier.putAtTier('t' + t, this.val('tier', t), t) }, tierUp: () => w.tier.elevate(r.pick(['t0', 't1', 'te']), 2), tierDown: () => w.tier.demote(r.pick(['t1', 't2', 'te']), 0),
      vaultElevate: async () => { const h = await v.elevate(1, { ttlMs: 1000, reason: 'x' }); try { await h.collection('tier').put('t1', this.val('tier', 1)) } finally { await h.release() } }, dictPut: () => v.dictionary('status').put('open', { en: 'E' + this.n++, th: 'x' }), dictRename: () => v.dictionary('status').rename('open', 'open2'), dictDel: () => v.dictionary('status').delete('open', { mode: 'strict' }),
      load: async () => { const a = await this.session('alice'); const x = await a.v.dump(); return v.load(x) }, compact: () => v.compact(), rebuild: () => k.rebuildIndexes(), reconcile: () => k.reconcileIndex('kind'), consent: () => v.withConsent({ purpose: 'p', consentHash: 'h' }, () => k.put(id, d())),
      frameWrite: () => v.frame().collection(coll).put(id, d()), atWrite: () => v.at(new Date(this.c.clock.now)).collection(coll).put(id, d()), crdt: () => w.maps.put(id, { f: `MkmapsQ${this.n++}` }), json: async () => { const p = await asJson.fromString?.(v, JSON.stringify({ [coll]: [{ id, ...d() }] }), { policy: 'replace' }); return p?.apply?.() }, csv: async () => { const p = await asCsv.fromString?.(v, `id,tag\n${id},Mk${coll}Q${this.n++}\n`, { collection: coll, policy: 'replace' }); return p?.apply?.() },
      secret: async () => { const u = [...this.sessions].find(([, x]) => x === s)[0]; const p = phrase(r); await db.changeSecret('acme', p); this.users.get(u).pass = p },
    }
  }
  // a write that must be accepted from this user (role and permission say yes)
  async confirm(u, coll) {
    const old = this.sessions.get(u); if (old) { old.db.close(); this.sessions.delete(u) } // other sessions' writes show after reopening
    const s = await this.session(u)
    if (coll === 'notes' && this.mode === 'strict' && !this.canRead(u, 'invoices')) return // checking the reference takes access to its target
    if (this.canWrite(u, coll) && this.canRead(u, coll)) {
      const x = this.doc(coll); await s.w[coll].put('z', x); const got = await s.w[coll].get('z', { locale: 'raw' }); this.c.count('writes_confirmed')
      this.c.ok(got?.tag === x.tag, `${u} could not read back what they wrote to "${coll}"`)
    }
    const e = this.ref.get('acme', coll, 'b')
    if (e && this.canRead(u, coll)) { const got = await s.w[coll].get('b', { locale: 'raw' }); this.c.count('reads_confirmed'); this.c.ok(got, () => `${this.users.get(u).role} ${u} with permission on "${coll}" cannot read its record`) }
  }
}

async function ops(c) {
  const o = await new Office(c).start(); const r = c.rng; let refused = 0; let fine = 0
  for (let i = 0; i < 40; i++) {
    const u = r.pick(['adam', 'otto', 'odo', 'vera', 'cleo', 'otto', 'cleo']); const coll = r.pick(COLLS); const id = r.pick(IDS); const x = o.users.get(u)
    if (r.chance(0.25) && o.sessions.has(u)) { o.sessions.get(u).db.close(); o.sessions.delete(u) }
    const s = await o.session(u); const isRead = r.chance(0.55); const table = isRead ? o.reads(s, coll, id) : o.writes(s, coll, id); const name = r.pick(Object.keys(table)); const what = `${name}(${coll})`
    const before = o.flat(); let err = null; let val
    try { val = await table[name]() } catch (e) { err = e }
    c.count('operations'); if (err) refused++; else fine++
    if (!err && (name === 'tierUp' || name === 'tierDown')) o.moved = true // contents now legitimately at another tier
    o.diff(u, what, before, err, name === 'load' && POWER[x.role] >= 2 ? new Set(o.users.keys()) : null)
    o.scan(u, what, err ?? val); o.scan(u, `notification of ${what}`, s.heard.splice(0)); c.seen('operations', name)
    c.sig([x.role, x.perms[coll] ?? '-', name, err?.name ?? 'ok'])
    if (name === 'load' && !err) { for (const [n, t] of o.sessions) { t.db.close(); o.sessions.delete(n) } }
    if (i === 5) c.sample({ user: u, role: x.role, permissions: x.perms, operation: what, outcome: err ? `${err.name}` : 'accepted' })
    if (r.chance(0.15)) { const q = r.pick([...o.users.keys()]); for (const k of COLLS) await o.confirm(q, k).catch(e => { if (e.name === 'Violation' || !/Closed|period|RefIntegrity|dictionary/i.test(e.name + e.message)) throw e }) }
  }
  if (!refused || !fine) c.note('trivial')
}

// creating, replacing and removing users; new users may read no more than their creator
async function authority(c) {
  const o = await new Office(c).start(); const r = c.rng; const names = ['adam', 'otto', 'vera', 'cleo', 'alice', 'new1', 'new2', 'eve']; const log = []
  if (r.chance(0.5)) await o.grant('alice', 'eve', 'admin', {})
  for (let i = 0; i < 10; i++) {
    const by = r.pick([...o.users.keys()]); const t = r.pick(names); const role = r.pick(['owner', 'admin', 'operator', 'viewer', 'client']); const perms = { [r.pick(COLLS)]: 'rw', [r.pick(COLLS)]: 'ro', ...(r.chance(0.3) ? { 'tier#1': 'rw' } : {}) }
    const me = o.users.get(by); const old = o.users.get(t); const s = await o.session(by); const before = o.flat(); let err = null; const kind = r.pick(['grant', 'grant', 'grant', 'grant', 'grant', 'grant', 'revoke', 'revoke', 'rotate']); const pass = phrase(r)
    log.push(`${by} ${kind} ${t} ${role}`)
    try {
      if (kind === 'grant') await s.db.grant('acme', { userId: t, displayName: t, role, passphrase: pass, permissions: perms })
      else if (kind === 'revoke') await s.db.revoke('acme', { userId: t, rotateKeys: r.chance(0.3), cascade: r.pick(['strict', 'warn']) })
      else await s.db.rotate('acme', [r.pick(COLLS)])
    } catch (e) { err = e }
    c.count('operations'); c.sig([me.role, kind, old?.role ?? '-', kind === 'grant' ? role : '', err?.name ?? 'ok'])
    const may = POWER[me.role] >= 2
    if (!err) {
      c.ok(may, () => `${me.role} ${by} could ${kind}${kind === 'rotate' ? '' : ` ${t}${kind === 'grant' ? ' as ' + role : ''}`}`)
      if (kind === 'grant') { c.ok(POWER[role] <= POWER[me.role], () => `${me.role} ${by} created the ${role} ${t}`); c.ok(!old || POWER[old.role] <= POWER[me.role], () => `${me.role} ${by} replaced the ${old.role} ${t}`) }
      if (kind === 'revoke' && old) c.ok(POWER[old.role] <= POWER[me.role] && old.role !== 'owner', () => `${me.role} ${by} removed the ${old.role} ${t}`)
    }
    if (kind === 'grant') {
      o.diff(by, `grant(${t} as ${role})`, before, err, err ? null : new Set([t]))
      if (!err) {
        const mine = new Set(me.keys); o.learn(by, t, role, perms, pass); c.count('users_created')
        // the new user reads everything they can; nothing beyond what they were given and their creator had
        const ns = await o.session(t)
        for (const k of COLLS) for (const n of ['get', 'history', 'exportStream', 'deltas', 'blobGet', 'dump', 'tierGet', 'atList']) { let val; try { val = await o.reads(ns, k, 'b')[n]() } catch (e) { val = e } o.scan(t, `${n}(${k})`, val); for (const m of text(val).matchAll(MARK)) { const key = m[2] ? `${m[1]}#${m[2]}` : m[1]; c.ok(me.role === 'owner' || mine.has(key), `${t}, created by ${by}, can read "${key}" which ${by} could not`) } }
      }
    } else if (kind === 'revoke' && !err) { o.users.delete(t); for (const [n, x] of o.sessions) { x.db.close(); o.sessions.delete(n) } return } // key rotation changes who can read what; ends the case
    else if (kind === 'rotate' && !err) return
    else o.diff(by, kind, before, err, null)
  }
}

// packages written for others contain no more than the author could read
async function packages(c) {
  const o = await new Office(c).start(); const r = c.rng
  for (let i = 0; i < 4; i++) {
    const u = r.pick(['adam', 'otto', 'odo', 'vera', 'cleo']); const s = await o.session(u); const before = o.flat(); const pass = phrase(r); let body; let err = null
    const how = r.pick(['plain', 'passphrase', 'recipients', 'recipients', 'where', 'tier'])
    try {
      const perms = {}; for (const k of [...COLLS, 'tier', 'tier#1']) if (r.chance(0.6)) perms[k] = r.pick(['rw', 'ro'])
      const bytes = await writeNoydbBundle(s.v, { compression: 'none', ...(how === 'passphrase' ? { exportPassphrase: pass } : how === 'recipients' ? { recipients: [{ id: 'bob', passphrase: pass, role: r.pick(['owner', 'admin', 'operator', 'viewer', 'client']), permissions: perms }] } : how === 'where' ? { where: () => true } : how === 'tier' ? { tierAtMost: 0 } : {}) })
      body = (await readNoydbBundle(bytes)).dumpJson
    } catch (e) { err = e }
    c.count('operations'); o.diff(u, `package(${how})`, before, err, null); o.scan(u, `package(${how})`, err ?? body); c.sig([o.users.get(u).role, how, err?.name ?? 'ok'])
    if (err) continue
    c.count('packages_opened')
    // open it elsewhere as whoever it was meant for
    const store2 = instrument(newRef(), { keepLog: false }); const dump = JSON.parse(body)
    for (const [k, recs] of Object.entries({ ...dump.collections, ...dump._internal })) for (const [id, e] of Object.entries(recs)) await store2.put('acme', k, id, e)
    for (const [id, f] of Object.entries(dump.keyrings)) await store2.put('acme', '_keyring', id, { _noydb: 1, _v: 1, _ts: '2024-01-01T00:00:00.000Z', _iv: '', _data: JSON.stringify(f) })
    for (const id of Object.keys(dump.keyrings)) for (const p of [pass, o.users.get(u).pass]) {
      let s2; try { const db = await createNoydb({ store: store2, user: id, secret: p, ...strategies('all') }); const v = await db.openVault('acme'); s2 = { db, v, w: o.bind(v), heard: [] } } catch { continue }
      if (o.users.has(id) && id !== u) c.fail(`the package by ${u} opens as ${id} with ${u}'s passphrase`)
      for (const k of COLLS) for (const n of ['get', 'list', 'exportStream', 'tierGet', 'deltas']) { let val; try { val = await o.reads(s2, k, 'b')[n]() } catch (e) { val = e } o.scan(u, `${n}(${k}) in a package (${how}) written by ${u}, opened as ${id}:`, val); c.count('operations') }
      s2.db.close()
    }
  }
}
export const scenarios = [
  { name: 'ops', quick: 1100, thorough: 20000, run: ops },
  { name: 'authority', quick: 500, thorough: 8000, run: authority },
  { name: 'packages', quick: 300, thorough: 4000, run: packages },
]
