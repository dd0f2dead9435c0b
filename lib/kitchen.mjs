// One workload that uses every storage-touching feature, on tagged secrets. Used by the
// leak scanner (C01), the crypto sanitizer (C02) and the tampering check (C03).
import { createNoydb, ref } from '@noy-db/hub'
import { writeNoydbBundle, readNoydbBundle } from '@noy-db/hub/bundle'
import { putCredential, getCredential } from '@noy-db/hub/team'
import { dictKey, i18nText } from '@noy-db/hub/i18n'
import { newRef, instrument, strategies } from './world.mjs'

export const TAG = 'ZqX7kWpV'
export class Kitchen {
  constructor(c, { faults = 0, sync = false, pubsub = false, onPublish = null } = {}) {
    this.c = c; this.r = c.rng; this.n = 0
    this.ref = newRef(); this.remoteRef = newRef()
    this.store = instrument(this.ref, { keepLog: false }); this.remote = instrument(this.remoteRef, { keepLog: false })
    if (pubsub) {
      const subs = new Map()
      this.store.presencePublish = async (ch, p) => { onPublish?.(ch, p); for (const f of subs.get(ch) ?? []) f(p) }
      this.store.presenceSubscribe = (ch, f) => { if (!subs.has(ch)) subs.set(ch, new Set()); subs.get(ch).add(f); return () => subs.get(ch).delete(f) }
    }
    this.faults = faults; this.sync = sync; this.pass = this.secret('pass'); this.users = []; this.done = []; this.out = []
    this.errors = 0; this.blobTexts = []; this.passphrases = [this.pass]
  }
  // a unique secret string carrying the tag
  secret(kind) { return `${TAG}${kind}${(this.n++).toString(36)}q${this.r.u32().toString(36)}` }
  async open(o = {}) {
    this.db = await createNoydb({ store: this.store, user: 'alice', secret: this.pass, ...strategies('all'), ...(this.sync ? { sync: this.remote } : {}), ...o })
    this.v = await this.db.openVault('acme')
    this.bind(this.v)
    return this
  }
  bind(v) {
    this.docs = v.collection('docs', { indexes: ['kind'] })
    this.lazy = v.collection('lazy', { prefetch: false, cache: { maxRecords: 2 }, indexes: ['kind', { fields: ['kind', 'n'] }] })
    this.det = v.collection('det', { deterministicFields: ['email', 'n'], acknowledgeDeterministicRisk: true })
    this.crdt = v.collection('crdt', { crdt: 'lww-map' })
    this.rga = v.collection('rga', { crdt: 'rga' })
    this.refs = v.collection('refs', { refs: { doc: ref('docs', 'warn') } })
    this.tier = v.collection('tier', { tiers: [1, 2], tierMode: 'ghost' })
    this.text = v.collection('text', { i18nFields: { title: i18nText({ languages: ['en', 'th'], required: 'all' }) }, dictKeyFields: { status: dictKey('status') } })
    return this
  }
  record() { const s = this.secret('rec'); const r = this.r; return { kind: s, n: r.int(0, 5), email: s + '@x', list: [s, { deep: s }], sub: { [s]: s, num: r.int(0, 1e6) }, ...(r.chance(0.3) ? { big: s + 'x'.repeat(r.int(1, 3000)) } : {}) } }
  id() { return this.r.pick(['a', 'b', 'c', 'd']) }
  bytes() {
    const r = this.r; const s = this.secret('blob'); this.blobTexts.push(s)
    const n = r.pick([s.length, 200, 5000, 300000])
    if (r.chance(0.5)) return new TextEncoder().encode(s.repeat(Math.ceil(n / s.length)))
    const head = r.pick([[0x89, 0x50, 0x4e, 0x47, 0x0d, 0x0a, 0x1a, 0x0a], [0xff, 0xd8, 0xff, 0xe0], [0x50, 0x4b, 3, 4]]) // never compressed again
    return new Uint8Array([...head, ...new TextEncoder().encode(s.repeat(Math.ceil(Math.min(n, 5000) / s.length)))])
  }
  slot() { return this.r.chance(0.6) ? this.secret('slot') + '.pdf' : 'plain.pdf' }
  ops() {
    const k = this; const r = this.r
    return {
      put: () => r.pick([k.docs, k.lazy, k.det, k.refs]).put(k.id(), k.record()),
      putMany: () => r.pick([k.docs, k.lazy]).putMany([['a', k.record()], ['b', k.record()]], r.chance(0.5) ? { atomic: true } : undefined),
      del: () => r.pick([k.docs, k.lazy, k.det, k.refs]).delete(k.id()),
      tx: () => k.db.transaction(async tx => { const t = tx.vault('acme').collection('docs'); t.put('a', k.record()); t.put('b', k.record()); if (r.chance(0.3)) throw new Error('abort') }),
      revert: async () => { const h = await k.docs.history('a'); if (h.length) await k.docs.revert('a', h[0].version) },
      prune: () => k.docs.pruneRecordHistory('a', { keepVersions: 1 }),
      crdt: () => k.crdt.put(k.id(), { a: k.secret('rec'), [k.secret('rec')]: 1 }),
      rga: () => k.rga.put(k.id(), [k.secret('rec'), k.secret('rec')]),
      find: async () => { await k.det.findByDet('email', k.secret('probe')); await k.det.queryByDet('n', 3) },
      lookup: async () => { await k.lazy.lazyQuery().where('kind', '==', k.secret('probe')).toArray(); await k.docs.query().where('kind', '==', k.secret('probe')).toArray() },
      blob: () => k.docs.blob(k.id()).put(k.slot(), k.bytes(), { ...(r.chance(0.5) ? { mimeType: r.pick(['text/plain', 'image/jpeg', `x/${k.secret('mime')}`]) } : {}), ...(r.chance(0.5) ? { chunkSize: r.pick([64, 1000, 100000]) } : {}), ...(r.chance(0.3) ? { compress: r.chance(0.5) } : {}), ...(r.chance(0.3) ? { uploadedBy: 'alice' } : {}) }),
      publish: async () => { const b = k.docs.blob(k.id()); await b.put('plain.pdf', k.bytes()); await b.publish('plain.pdf', 'v' + k.n++) },
      blobdel: () => k.docs.blob(k.id()).delete('plain.pdf'),
      dict: () => k.v.dictionary('status').put(r.pick(['open', 'done']), { en: k.secret('label'), th: k.secret('label') }),
      text: async () => { const t = { en: k.secret('rec'), th: k.secret('rec') }; await k.v.dictionary('status').put('open', { en: 'Open', th: 'เปิด' }); await k.text.put(k.id(), { title: t, status: 'open' }) },
      rename: async () => { const d = k.v.dictionary('status'); await d.put('tmp', { en: k.secret('label'), th: 'x' }); await d.rename('tmp', 'tmp' + k.n++) },
      consent: () => k.v.withConsent({ purpose: k.secret('purpose'), consentHash: k.secret('hash') }, async () => { await k.docs.put('a', k.record()); await k.docs.get('a') }),
      period: async () => { k.period = (k.period ?? 0) + 1; await k.v.closePeriod({ name: `p${k.period}`, endDate: `200${k.period % 10}-12-31`, dateField: 'date' }) },
      tier: async () => { await k.tier.putAtTier('t1', k.record(), r.pick([1, 2])); await k.tier.getAtTier('t1') },
      tier0: async () => { await k.tier.putAtTier('t0', k.record(), 0); await k.tier.elevate('t0', 1); await k.tier.demote('t0', 0) },
      elevate: async () => { const h = await k.v.elevate(2, { ttlMs: 1e6, reason: k.secret('reason') }); try { await h.collection('tier').put('t2', k.record()) } finally { await h.release() } },
      delegate: async () => { await k.tier.putAtTier('t1', k.record(), 1); await k.v.delegate({ toUser: 'bob', tier: 1, collection: 'tier', until: new Date(k.c.clock.now + 1e7) }) },
      magic: async () => {
        await k.tier.putAtTier('t1', k.record(), 1)
        const ck = await crypto.subtle.generateKey({ name: 'AES-GCM', length: 256 }, false, ['encrypt', 'decrypt']); const kek = await crypto.subtle.generateKey({ name: 'AES-KW', length: 256 }, false, ['wrapKey', 'unwrapKey'])
        await k.v.writeMagicLinkGrant(ck, kek, 'ml' + k.n++, { toUser: 'bob', tier: 1, collection: 'tier', until: new Date(k.c.clock.now + 1e7), note: k.secret('note') })
      },
      cred: async () => {
        k.kr ??= { userId: 'alice', displayName: 'alice', role: 'owner', permissions: {}, deks: new Map(), salt: crypto.getRandomValues(new Uint8Array(32)), kek: await crypto.subtle.generateKey({ name: 'AES-KW', length: 256 }, false, ['wrapKey', 'unwrapKey']) }
        await putCredential(k.store, 'creds', k.kr, { adapterId: 'drive', tokenType: 'Bearer', accessToken: k.secret('token'), refreshToken: k.secret('token'), customData: { x: k.secret('token') } })
        await getCredential(k.store, 'creds', k.kr, 'drive')
      },
      presence: async () => { const p = r.pick([k.docs, k.lazy]).presence(); await p.update({ cursor: k.secret('cursor') }); const off = p.subscribe(() => {}); off(); p.stop() },
      grant: async () => { const u = 'u' + k.n++; const s = k.secret('pass'); k.passphrases.push(s); await k.db.grant('acme', { userId: u, displayName: u, role: r.pick(['admin', 'operator', 'viewer', 'client']), passphrase: s, permissions: { docs: 'rw', lazy: 'ro' } }); k.users.push({ u, s }) },
      revoke: async () => { const x = k.users.pop(); if (x) await k.db.revoke('acme', { userId: x.u, rotateKeys: r.chance(0.5) }) },
      rotate: () => k.db.rotate('acme', ['docs']),
      secret: async () => { const s = k.secret('pass'); k.passphrases.push(s); await k.db.changeSecret('acme', s); k.pass = s },
      badpass: async () => { const s = k.secret('pass'); k.passphrases.push(s); try { const d = await createNoydb({ store: k.store, user: 'alice', secret: s, ...strategies('all') }); await d.openVault('acme') } catch { /* expected */ } },
      user2: async () => { const x = k.users.at(-1); if (!x) return; const d = await createNoydb({ store: k.store, user: x.u, secret: x.s, ...strategies('all') }); const v = await d.openVault('acme'); await v.collection('docs', { indexes: ['kind'] }).put(k.id(), k.record()); d.close() },
      dump: async () => { k.out.push(['dump', await k.v.dump()]) },
      bundle: async () => { const s = k.secret('pass'); k.passphrases.push(s); const b = await writeNoydbBundle(k.v, { compression: r.pick(['none', 'gzip']), ...(r.chance(0.4) ? { exportPassphrase: s } : r.chance(0.4) ? { recipients: [{ id: 'bob', passphrase: s, role: 'viewer', permissions: { docs: 'ro' } }] } : {}) }); k.out.push(['bundle', Buffer.from(b)], ['bundle body', (await readNoydbBundle(b)).dumpJson]) },
      compact: () => k.v.compact(),
      rebuild: async () => { await k.lazy.rebuildIndexes(); await k.lazy.reconcileIndex('kind') },
      reopen: async () => { k.store._st.fault = null; k.db.close(); await k.open(); k.arm() },
      ...(k.sync ? { push: () => k.db.push('acme'), pull: () => k.db.pull('acme'), syncAll: () => k.db.sync('acme') } : {}),
      ledger: async () => { const l = k.v.ledger(); await l.verify(); await l.entries(); await k.v.verifyBackupIntegrity() },
    }
  }
  arm() { if (!this.faults) return; const f = ev => this.r.chance(this.faults) ? this.r.pick(['before', 'after']) : undefined; this.store._st.fault = f; this.remote._st.fault = f }
  async run(names) {
    const ops = this.ops()
    for (const n of names) {
      if (!ops[n]) continue
      this.done.push(n)
      try { await ops[n]() } catch (e) { this.errors++; if (!this.faults && !this.quiet && !okError(e)) throw Object.assign(e, { message: `${n}: ${e.message}` }) }
    }
  }
  opNames() { return Object.keys(this.ops()) }
}
const okError = e => /abort|not found|rotat|no key|Conflict|Tamper|permission/i.test(`${e.name} ${e.message}`)
