// Key-management histories against a model. Several users grant, re-grant, revoke, rotate,
// change passphrases, add collections and reopen; after every step each user's current,
// former and foreign passphrases are tried on fresh instances over the same storage, and what
// each user can read, and each stored role/permission/capability, is compared with the model.
import { createNoydb } from '@noy-db/hub'
import { newRef, instrument, strategies } from '../lib/world.mjs'
import { Sched } from '../lib/sched.mjs'
import { show, deepEq } from '../lib/child.mjs'

export const meta = {
  property: 'C04', level: 'exploration',
  rule: 'distinct by sequence of (operation, actor role, target role); a case counts only if at least one passphrase was refused and one accepted after a change',
  assumptions: ['a keyring that holds no key at all cannot tell passphrases apart (documented); such users are skipped for refusals', 'rotation withdraws the rotated collections from every other user until they are granted again (documented)', 'two sessions do not create the same new collection at the same time'],
  minimums: { opens_accepted: 15000, opens_refused: 40000, reads_compared: 30000, steps: 8000, metadata_compared: 20000, overlapping_batches: 400 },
}
const FEATURES = [['history', 'blob', 'tx'], [], 'all']
const W = ['pässwörd', 'correct horse battery', '密码密码密码', 'x'.repeat(200), 'a b  c', '😀😀😀😀', 'Tr0ub4dor&3']
export function phrase(r) { return `${r.pick(W)}-${r.u32().toString(36)}` }
const twist = (r, p) => r.pick([p + ' ', ' ' + p, p.toUpperCase() === p ? p.toLowerCase() : p.toUpperCase(), p.slice(0, -1), p.slice(1), p + p, p.normalize('NFD') === p ? p + '1' : p.normalize('NFD'), p + '\n', [...p].reverse().join('') + '!'])

export class Team {
  constructor(c, { features, vault = 'acme' } = {}) {
    this.c = c; this.r = c.rng; this.vault = vault; this.features = features ?? c.rng.pick(FEATURES)
    this.ref = newRef(); this.store = instrument(this.ref, { keepLog: false })
    this.users = new Map(); this.gen = new Map(); this.values = new Map(); this.sessions = new Map(); this.n = 0; this.former = []; this.log = []
  }
  async session(u) {
    if (!this.sessions.has(u)) { const db = await this.connect(u, this.users.get(u).pass); this.sessions.set(u, { db, v: await db.openVault(this.vault) }) }
    return this.sessions.get(u)
  }
  drop(u) { const s = this.sessions.get(u); if (s) { s.db.close(); this.sessions.delete(u) } }
  connect(user, secret) { return createNoydb({ store: this.store, user, secret, ...strategies(this.features) }) }
  async start() {
    this.users.set('alice', { role: 'owner', perms: {}, pass: phrase(this.r), keys: new Map(), by: 'alice', former: [], display: 'alice' })
    await this.session('alice')
    return this
  }
  has(u, coll) { const x = this.users.get(u); if (!x) return false; const acc = ['owner', 'admin', 'viewer'].includes(x.role) || coll in x.perms; return acc && this.gen.has(coll) && x.keys.get(coll) === this.gen.get(coll) }
  canWrite(u, coll) { const x = this.users.get(u); return ['owner', 'admin'].includes(x.role) || (x.role === 'operator' && x.perms[coll] === 'rw') }
  // an open of a user who lacks a system key the session needs (ledger) cannot write; keep writers to those with full keys
  storedKeys(u) { const e = this.ref.get(this.vault, '_keyring', u); return e ? Object.keys(JSON.parse(e._data).deks) : [] }
  async write(u, coll) {
    const isNew = !this.gen.has(coll); const s = await this.session(u); const val = { n: this.n++, by: u, coll }
    await s.v.collection(coll).put('r', val); this.values.set(coll, val)
    if (isNew) { this.gen.set(coll, 0); this.users.get(u).keys.set(coll, 0) }
  }
  async grant(by, u, role, perms, cap) {
    const s = await this.session(by); const pass = phrase(this.r); const me = this.users.get(by)
    const full = ['admin', 'viewer', 'owner'].includes(role); const p = full ? {} : perms
    await s.db.grant(this.vault, { userId: u, displayName: 'D' + u + this.n, role, passphrase: pass, permissions: perms, ...(cap ?? {}) })
    const keys = new Map(); for (const [k, g] of me.keys) if (full || k in p) keys.set(k, g)
    const old = this.users.get(u)
    this.users.set(u, { role, perms: p, pass, keys, by, former: old ? [...old.former, old.pass] : [], display: 'D' + u + this.n, cap }); this.n++
    if (by !== u) this.drop(u)
  }
  rotated(by, colls) {
    const me = this.users.get(by)
    for (const k of colls) { if (!me.keys.has(k)) continue; if (me.keys.get(k) !== this.gen.get(k)) { this.stale = true } this.gen.set(k, this.gen.get(k) + 1); me.keys.set(k, this.gen.get(k)); for (const [n, x] of this.users) if (n !== by) { x.keys.delete(k); delete x.perms[k] } }
    for (const n of [...this.sessions.keys()]) if (n !== by) this.drop(n)
  }
  async rotate(by, colls) { const s = await this.session(by); await s.db.rotate(this.vault, colls); this.rotated(by, colls) }
  async revoke(by, u, { rotate, cascade }) {
    const s = await this.session(by); const t = this.users.get(u); const gone = [u]
    if (t.role === 'admin' && cascade !== 'warn') { for (let i = 0; i < gone.length; i++) for (const [n, x] of this.users) if (x.role === 'admin' && x.by === gone[i] && !gone.includes(n)) gone.push(n) }
    const colls = new Set(); for (const g of gone) for (const k of this.users.get(g).keys.keys()) colls.add(k)
    // keys of collections the revoked user no longer validly holds are still withdrawn by name
    await s.db.revoke(this.vault, { userId: u, rotateKeys: rotate, ...(cascade ? { cascade } : {}) })
    for (const g of gone) { this.former.push([g, this.users.get(g).pass]); this.users.delete(g); this.drop(g) }
    if (rotate !== false) this.rotated(by, [...colls])
    return gone
  }
  async changeSecret(u) { const s = await this.session(u); const x = this.users.get(u); const p = phrase(this.r); await s.db.changeSecret(this.vault, p); x.former.push(x.pass); x.pass = p }
  async verify(deep) {
    const { c, r } = this; const names = [...this.users.keys()]
    const infos = await (await this.session(names[0])).db.listUsers(this.vault)
    c.eq(infos.map(x => x.userId).sort(), names.slice().sort(), `after ${this.last}: users of the vault`)
    for (const i of infos) { const x = this.users.get(i.userId); c.count('metadata_compared'); c.ok(i.role === x.role && deepEq(i.permissions, x.perms) && i.grantedBy === x.by && i.displayName === x.display, () => `after ${this.last}: user ${i.userId} is stored as ${show(i)}, expected role ${x.role}, permissions ${show(x.perms)}, granted by ${x.by}`) }
    for (const u of deep ? names : r.sample(names, Math.min(2, names.length))) {
      const x = this.users.get(u); const nkeys = this.storedKeys(u).length
      let db, v
      try { db = await this.connect(u, x.pass); v = await db.openVault(this.vault) } catch (e) { c.fail(`after ${this.last}: ${u} cannot open the vault with the current passphrase: ${e.name}: ${e.message}`, { detail: e.stack }) }
      c.count('opens_accepted')
      for (const coll of this.gen.keys()) {
        c.count('reads_compared'); let got, err = null
        try { got = await v.collection(coll, r.chance(0.3) ? { prefetch: false, cache: { maxRecords: 5 } } : {}).get('r') } catch (e) { err = e }
        if (this.has(u, coll)) c.ok(!err && deepEq(got, this.values.get(coll)), () => `after ${this.last}: ${u} (${x.role}) reads ${coll} as ${err ? err.name + ': ' + err.message : show(got)} instead of ${show(this.values.get(coll))}`)
        else c.ok(err || got === null || got === undefined, () => `after ${this.last}: ${u} (${x.role}, ${show(x.perms)}) read ${coll} without having been given it: ${show(got)}`)
      }
      if (x.cap) { c.ok(v.canExport('plaintext', 'csv') === !!x.cap.exportCapability?.plaintext?.includes('csv') && v.canImport('plaintext', 'csv') === !!x.cap.importCapability?.plaintext?.includes('csv'), `after ${this.last}: the export/import capability of ${u} changed`); c.count('capabilities_compared') }
      db.close()
      if (!nkeys) continue
      const bad = [twist(r, x.pass), ...r.sample(x.former, Math.min(2, x.former.length))]
      const other = r.pick(names); if (other !== u) bad.push(this.users.get(other).pass)
      for (const p of bad) await this.refused(u, p)
    }
    for (const [u, p] of this.former.slice(-2)) if (!this.users.has(u)) await this.refused(u, p)
  }
  async refused(u, p) {
    const { c } = this; if (p === this.users.get(u)?.pass) return
    const before = JSON.stringify(this.ref.snapshot()); let ok = false
    try { const db = await this.connect(u, p); await db.openVault(this.vault); ok = true } catch { /* refused */ }
    c.count('opens_refused'); c.ok(!ok, `after ${this.last}: ${u} opened the vault with a passphrase that is not current (${show(p)}; current ${show(this.users.get(u)?.pass)})`)
    c.ok(JSON.stringify(this.ref.snapshot()) === before, `after ${this.last}: a refused open by ${u} changed storage`)
  }
}
async function history(c) {
  const r = c.rng; const t = new Team(c); await t.start(); const sig = []
  const steps = r.int(6, 16); const colls = ['docs', 'pay', 'hr', 'log']
  await t.write('alice', 'docs'); await t.write('alice', 'pay'); let uid = 0
  for (let i = 0; i < steps; i++) {
    const names = [...t.users.keys()]; const admins = names.filter(n => ['owner', 'admin'].includes(t.users.get(n).role)); const by = r.chance(0.6) ? 'alice' : r.pick(admins)
    const others = names.filter(n => n !== 'alice' && n !== by)
    const op = r.weighted([['grant', 4], ['regrant', others.length ? 2 : 0], ['revoke', others.length ? 2 : 0], ['rotate', 1], ['secret', 3], ['write', 3], ['new', 2], ['reopen', 2]])
    const perms = {}; for (const k of colls) if (r.chance(0.5)) perms[k] = r.pick(['rw', 'ro'])
    const cap = r.chance(0.4) ? { exportCapability: { plaintext: r.pick([['csv'], ['json'], []]) }, importCapability: { plaintext: r.pick([['csv'], []]) } } : undefined
    let desc = op
    if (op === 'grant') { const u = 'u' + uid++; const role = r.pick(['admin', 'operator', 'viewer', 'client']); desc = `grant ${u} as ${role} by ${by}`; t.last = desc; await t.grant(by, u, role, perms, cap) }
    else if (op === 'regrant') { const u = r.pick(others); const role = r.pick(['admin', 'operator', 'viewer', 'client']); desc = `re-grant ${u} as ${role} by ${by}`; t.last = desc; await t.grant(by, u, role, perms, cap) }
    else if (op === 'revoke') { const u = r.pick(others); const o = { rotate: r.chance(0.5), cascade: r.pick([undefined, 'strict', 'warn']) }; desc = `revoke ${u} by ${by} ${JSON.stringify(o)}`; t.last = desc; await t.revoke(by, u, o) }
    else if (op === 'rotate') { const ks = r.sample([...t.gen.keys()], r.int(1, 2)); desc = `rotate ${ks} by ${by}`; t.last = desc; await t.rotate(by, ks) }
    else if (op === 'secret') { const u = r.pick(names); desc = `passphrase change of ${u}`; t.last = desc; await t.changeSecret(u) }
    else if (op === 'write') { const k = r.pick([...t.gen.keys()]); const ws = names.filter(n => t.canWrite(n, k) && t.has(n, k)); if (!ws.length) continue; const u = r.pick(ws); desc = `write to ${k} by ${u}`; t.last = desc; try { await t.write(u, k) } catch (e) { if (e.name !== 'NoAccessError' || u === 'alice') throw e } }
    else if (op === 'new') { const k = colls.find(x => !t.gen.has(x)); if (!k) continue; desc = `new collection ${k}`; t.last = desc; try { await t.write(by, k) } catch (e) { if (e.name !== 'NoAccessError' || by === 'alice') throw e; t.gen.delete(k) } }
    else { const u = r.pick(names); t.drop(u); desc = `reopen by ${u}`; t.last = desc }
    sig.push([op, t.users.get(by)?.role]); t.log.push(desc); c.count('steps')
    await t.verify(i === steps - 1)
  }
  c.sig(sig); c.sample({ history: t.log, users: [...t.users].map(([n, x]) => `${n}:${x.role}`) })
}
// overlapping key-management and writes in one session; afterwards everything is readable
async function overlap(c) {
  const r = c.rng; const t = new Team(c, { features: r.pick([[], ['history']]) }); await t.start(); await t.write('alice', 'docs'); const s = await t.session('alice')
  const sched = new Sched(r.fork('s')); t.store._st.sched = sched
  const ops = []; const x = t.users.get('alice'); const news = r.sample(['pay', 'hr', 'log', 'misc'], r.int(1, 4)); const grants = []
  for (const k of news) ops.push(async () => { await s.v.collection(k).put('r', { k }); t.gen.set(k, 0); x.keys.set(k, 0); t.values.set(k, { k }) })
  if (r.chance(0.7)) ops.push(async () => { const p = phrase(r); await s.db.changeSecret('acme', p); x.former.push(x.pass); x.pass = p })
  if (r.chance(0.6)) { const p = phrase(r); ops.push(async () => { await s.db.grant('acme', { userId: 'u1', displayName: 'Du1', role: 'operator', passphrase: p, permissions: { docs: 'rw' } }); grants.push(p) }) }
  r.shuffle(ops); sched.enabled = true
  await sched.run(ops.map(f => f())); sched.drainOff(); t.store._st.sched = null; c.count('overlapping_batches')
  if (grants.length) t.users.set('u1', { role: 'operator', perms: { docs: 'rw' }, pass: grants[0], keys: new Map([['docs', 0]]), by: 'alice', former: [], display: 'Du1' })
  t.last = 'overlapping key operations'; t.drop('alice'); await t.verify(true); c.sig(['overlap', news.length, ops.length, sched.trace?.length, c.seed])
}
// expiring seats keep their expiry through the seat holder's own operations
async function seat(c) {
  const r = c.rng; const t = new Team(c, { features: r.pick([[], ['history']]) }); await t.start(); await t.write('alice', 'docs'); const s = await t.session('alice')
  const until = c.clock.now + 1e6; const pass = phrase(r); const role = r.pick(['operator', 'viewer', 'admin'])
  const files = await s.v.buildBundleRecipientKeyrings([{ id: 'bob', passphrase: pass, role, permissions: { docs: 'rw' }, expiresAt: new Date(until).toISOString(), exportCapability: { plaintext: ['csv'] } }])
  t.ref.put('acme', '_keyring', 'bob', { _noydb: 1, _v: 1, _ts: new Date(c.clock.now).toISOString(), _iv: '', _data: JSON.stringify(files.bob) })
  t.users.set('bob', { role, perms: role === 'operator' ? { docs: 'rw' } : {}, pass, keys: new Map([['docs', 0]]), by: 'alice', former: [], display: 'bob', cap: { exportCapability: { plaintext: ['csv'] } } })
  const ops = r.sample(['secret', 'write', 'new', 'reopen', 'ownerwrite', 'grantother', 'rotateother', 'selfrotate'], r.int(1, 5))
  for (const op of ops) {
    t.last = op
    if (op === 'secret') await t.changeSecret('bob')
    else if (op === 'write' && role !== 'viewer') { if (t.has('bob', 'docs')) await t.write('bob', 'docs') }
    else if (op === 'new' && role === 'admin') { await t.write('bob', 'bobs') }
    else if (op === 'reopen') t.drop('bob')
    else if (op === 'ownerwrite' && t.has('alice', 'docs')) await t.write('alice', 'docs')
    else if (op === 'grantother') await t.grant('alice', 'carol', 'viewer', {})
    else if (op === 'rotateother') { await t.write('alice', 'misc'); await t.rotate('alice', ['misc']) }
    else if (op === 'selfrotate' && role === 'admin') await t.rotate('bob', ['docs'])
    c.count('steps'); await t.verify(true)
  }
  c.clock.set(until + r.pick([0, 1, 1000])); t.drop('bob'); let ok = false; try { const db = await t.connect('bob', t.users.get('bob').pass); await db.openVault('acme'); ok = true } catch { /* refused */ }
  c.count('opens_refused'); c.ok(!ok, `a seat that expired still opened after: ${ops}`); c.sig(['seat', role, ops])
}
// same user id, two vaults with different passphrases
async function vaults(c) {
  const r = c.rng; const t = new Team(c); await t.start(); await t.write('alice', 'docs'); const p2 = phrase(r); const s = await t.session('alice')
  const db2 = await createNoydb({ store: t.store, user: 'alice', secret: p2, ...strategies(t.features) }); const v2 = await db2.openVault('beta'); await v2.collection('docs').put('r', { other: 1 })
  t.last = 'second vault'; await t.refused('alice', p2); await t.verify(true)
  let ok = false; try { const d = await t.connect('alice', t.users.get('alice').pass); await d.openVault('beta'); ok = true } catch { /* refused */ } c.ok(!ok, 'a passphrase of one vault opened another'); c.count('opens_refused')
  if (r.chance(0.5)) { await t.changeSecret('alice'); t.last = 'passphrase change next to a second vault'; await t.verify(true) }
  const d3 = await createNoydb({ store: t.store, user: 'alice', secret: p2, ...strategies(t.features) }); const v3 = await d3.openVault('beta'); c.eq(await v3.collection('docs').get('r'), { other: 1 }, 'second vault unreadable'); c.count('opens_accepted')
  await s.db.grant('acme', { userId: 'bob', displayName: 'bob', role: 'viewer', passphrase: 'bobs-own-phrase-1' }); let ok2 = false; try { const d = await t.connect('bob', 'bobs-own-phrase-1'); await d.openVault('beta'); ok2 = true } catch { /* refused */ }
  c.ok(!ok2, 'a user of one vault could open another vault'); c.count('opens_refused'); c.sig(['vaults', t.features, c.seed % 97])
}
export const scenarios = [
  { name: 'history', quick: 5000, thorough: 9000, run: history },
  { name: 'overlap', quick: 2500, thorough: 5000, run: overlap },
  { name: 'seat', quick: 1500, thorough: 2500, run: seat },
  { name: 'vaults', quick: 400, thorough: 800, run: vaults },
]
