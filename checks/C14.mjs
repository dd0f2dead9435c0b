// Revocation and rotation on a vault that uses every storage feature. Every reader is run
// before and after; every key the revoked user ever held is tried on every stored item; the
// rotation is failed at each of its storage calls in turn and must leave everything readable.
import { createDecipheriv } from 'node:crypto'
import { readers, runAll, build } from './C03.mjs'
import { Team, phrase } from './C04.mjs'
import { createNoydb } from '@noy-db/hub'
import { strategies } from '../lib/world.mjs'
import { StoreFault } from '../lib/store.mjs'
import { Kitchen } from '../lib/kitchen.mjs'
import { show, deepEq } from '../lib/child.mjs'

export const meta = {
  property: 'C14', level: 'fault_enumeration',
  rule: 'distinct by (scenario, role of the revoked user, features, fault position class); a case counts only if at least one rotated item was found in storage',
  assumptions: ['remaining users have to be granted rotated collections again (documented)', 'a rotation failure is a storage call that reports an error while the backend stays healthy for the calls that follow; loss of the process in the middle of a rotation is outside the claim', 'the stored-hash comparison of the integrity check is not expected to survive re-encryption', 'writes do not overlap the rotation'],
  minimums: { decryptions_tried: 200000, readers_compared: 60000, fault_points: 350, revoked_opens_refused: 800, users_cascaded: 600 },
}
const all = async it => { const o = []; for await (const x of it) o.push(x); return o }
// everything sealed in storage, tried with every key a user ever held
function tryKeys(c, k, held, what) {
  let items = 0
  for (const [vault, vm] of k.ref.data) for (const [coll, m] of vm) for (const [id, e] of m) {
    if (!e._iv || vault !== 'acme') continue; items++
    const parts = [[e._iv, e._data]]; for (const f in e._det ?? {}) parts.push(e._det[f].split(':'))
    for (const [iv, data] of parts) for (const raw of held) {
      c.count('decryptions_tried')
      for (const aad of coll === '_blob_chunks' ? aads(id) : [null]) if (opens(raw, iv, data, aad)) c.fail(`${what}: a key the revoked user held still opens ${coll}/${id}`)
    }
  }
  return items
}
const aads = id => { const i = id.lastIndexOf('_'); const out = []; for (let n = 1; n <= 12; n++) out.push(`${id.slice(0, i)}:${id.slice(i + 1)}:${n}`); return out }
function opens(raw, iv, data, aad) {
  const d = Buffer.from(data, 'base64'); if (d.length < 16 || raw.length !== 32) return false
  try { const x = createDecipheriv('aes-256-gcm', raw, Buffer.from(iv, 'base64')); if (aad) x.setAAD(Buffer.from(aad)); x.setAuthTag(d.subarray(d.length - 16)); x.update(d.subarray(0, d.length - 16)); x.final(); return true } catch { return false }
}
function compare(c, base, out, what) { for (const n in base) { c.count('readers_compared'); if (base[n].err) continue; c.ok(!out[n].err, () => `${what}: "${n}" now fails: ${out[n].err.name}: ${out[n].err.message}`, { detail: out[n].err?.stack }); c.ok(deepEq(out[n].val, base[n].val), () => `${what}: "${n}" returns ${show(out[n].val)} instead of ${show(base[n].val)}`) } }
const live = async (k, R, names) => { const out = {}; for (const n of names) { try { out[n] = { val: plain2(await R[n]({ db: k.db, v: k.v, w: k })) } } catch (e) { out[n] = { err: e } } } return out }
import { plain as plain2 } from './C03.mjs'
const keksOf = (c, n0) => c.mon.wraps.slice(n0)

async function world(c) {
  const { k, marks } = await build(c); const R = readers(k, marks); const names = Object.keys(R); const r = c.rng
  // bob: granted while everything exists, so he holds the keys of his role
  const role = r.pick(['viewer', 'operator', 'admin', 'client']); const w0 = c.mon.wraps.length
  await k.db.grant('acme', { userId: 'bob', displayName: 'bob', role, passphrase: 'bob-first-phrase-77', permissions: { docs: 'rw', det: 'ro', text: 'rw', tier: 'rw' } })
  const heldNames = Object.keys(JSON.parse(k.ref.get('acme', '_keyring', 'bob')._data).deks)
  let secret = 'bob-first-phrase-77'
  if (r.chance(0.3)) { const d = await createNoydb({ store: k.store, user: 'bob', secret, ...strategies('all') }); await d.openVault('acme'); secret = 'bob-second-phrase-78'; await d.changeSecret('acme', secret); d.close() }
  const held = [...new Set(c.mon.wraps.slice(w0).map(x => x.key))].map(f => c.mon.rawKeys.get(f).raw)
  // a third user who stays
  await k.db.grant('acme', { userId: 'carol', displayName: 'carol', role: 'viewer', passphrase: 'carol-phrase-99' })
  const base = await runAll(k, R, names); for (const n of names) c.ok(!base[n].err, () => `before revocation "${n}" failed: ${base[n].err?.message}`)
  return { k, R, names, base, held, heldNames, role, secret }
}
const skip = n => /^response /.test(n)
async function afterwards(c, s, what, { rotated }) {
  const { k, R, names, base } = s
  const l = await live(k, R, names.filter(n => !skip(n) && !/^credential/.test(n))); const lb = Object.fromEntries(Object.keys(l).map(n => [n, base[n]])); compare(c, lb, l, `${what} (same instance)`)
  compare(c, base, await runAll(k, R, names), `${what} (reopened)`)
}
async function refusedOpen(c, k, user, secret, what) { let ok = false; try { const d = await createNoydb({ store: k.store, user, secret, ...strategies('all') }); await d.openVault('acme'); ok = true } catch { /* refused */ } c.count('revoked_opens_refused'); c.ok(!ok, `${what}: the revoked user still opened the vault`) }

async function revoke(c) {
  const r = c.rng; const s = await world(c); const { k, held, heldNames, role, secret } = s
  const before = new Map([...k.ref.data.get('acme')].flatMap(([co, m]) => [...m].map(([id, e]) => [`${co}/${id}`, e])))
  await k.db.revoke('acme', { userId: 'bob', ...(r.chance(0.5) ? { rotateKeys: true } : {}) })
  await refusedOpen(c, k, 'bob', secret, 'after revocation'); if (secret !== 'bob-first-phrase-77') await refusedOpen(c, k, 'bob', 'bob-first-phrase-77', 'after revocation')
  const items = tryKeys(c, k, held, `after revoking a ${role}`)
  // metadata of the re-encrypted records is unchanged
  for (const [co, m] of k.ref.data.get('acme')) for (const [id, e] of m) { const b = before.get(`${co}/${id}`); if (!b || co.startsWith('_') || id.startsWith('_idx/')) continue; c.ok(b._v === e._v && b._ts === e._ts && b._by === e._by && b._tier === e._tier && deepEq(Object.keys(b._det ?? {}), Object.keys(e._det ?? {})), () => `rotation changed the metadata of ${co}/${id}: ${show({ ...b, _data: '', _iv: '' })} became ${show({ ...e, _data: '', _iv: '' })}`) }
  await afterwards(c, s, `after revoking a ${role}`, { rotated: true })
  // new writes are sealed with keys the revoked user never held
  k.bind(k.v); await k.run(['put', 'put', 'putMany', 'blob', 'crdt', 'dict', 'text', 'tier', 'consent', 'tx']); tryKeys(c, k, held, 'after writing again')
  const again = await runAll(k, s.R, s.names); for (const n of s.names) c.ok(!again[n].err, () => `after revoking and writing again "${n}" fails: ${again[n].err?.message}`)
  // re-grant brings the remaining user back to everything
  await k.db.grant('acme', { userId: 'carol', displayName: 'carol', role: 'viewer', passphrase: 'carol-phrase-99' })
  const d = await createNoydb({ store: k.store, user: 'carol', secret: 'carol-phrase-99', ...strategies('all') }); const v = await d.openVault('acme'); const w = Object.create(Kitchen.prototype); w.bind(v)
  for (const n of ['docs', 'lazy', 'det', 'crdt', 'text']) for (const id of ['a', 'b', 'c', 'd']) { const a = await k[n].get(id, n === 'text' ? { locale: 'raw' } : undefined); c.eq(await w[n].get(id, n === 'text' ? { locale: 'raw' } : undefined), a, `a user granted again reads ${n}/${id}`) }
  c.sig(['revoke', role, heldNames.length, items]); c.sample({ revoked: role, keys_held: held.length, items, readers: s.names.length })
}
async function rotate(c) {
  const r = c.rng; const s = await world(c); const { k } = s; const what = r.sample(['docs', 'lazy', 'det', 'crdt', 'rga', 'text', 'refs', '_ledger', '_blob', 'tier', '_dict_status', '_consent_audit', '_periods', 'nosuch'], r.int(1, 4)); const held = new Map()
  await k.db.rotate('acme', what); await afterwards(c, s, `after rotating ${what}`, {}); if (r.chance(0.4)) { await k.db.rotate('acme', what); await afterwards(c, s, `after rotating ${what} twice`, {}) }
  c.sig(['rotate', what]); c.count('rotations')
}
async function faults(c) {
  const r = c.rng; const s = await world(c); const { k, R, names, base, role } = s; const viaRevoke = r.chance(0.4); const colls = r.sample(['docs', 'lazy', 'det', 'crdt', '_ledger', '_blob', 'text'], r.int(1, 3))
  const act = () => viaRevoke ? k.db.revoke('acme', { userId: 'bob' }) : k.db.rotate('acme', colls)
  // count the calls of one clean run on a copy of the storage
  const snap = k.ref.snapshot(); let n = 0; k.store._st.onCall = () => { n++ }
  const probe = await createNoydb({ store: k.store, user: 'alice', secret: k.pass, ...strategies('all') }); await probe.openVault('acme'); n = 0
  await (viaRevoke ? probe.revoke('acme', { userId: 'bob' }) : probe.rotate('acme', colls)); const total = n; k.store._st.onCall = null; k.ref.restore(snap); probe.close()
  for (let j = 0; j < 5; j++) {
    const at = r.int(1, total); const mode = r.pick(['before', 'before', 'after']); let i = 0, hit = null
    const fresh = await createNoydb({ store: k.store, user: 'alice', secret: k.pass, ...strategies('all') }); const v = await fresh.openVault('acme'); const w = Object.assign(Object.create(Kitchen.prototype), { db: fresh, v }); w.bind(v); for (const x of r.sample(names, 6)) { try { await R[x]({ db: fresh, v, w }) } catch { /* warm caches only */ } }
    i = 0; k.store._st.fault = ev => { if (++i === at) { hit = ev; return mode } }
    let err = null; try { await (viaRevoke ? fresh.revoke('acme', { userId: 'bob' }) : fresh.rotate('acme', colls)) } catch (e) { err = e }
    k.store._st.fault = null; c.count('fault_points'); const what = `${viaRevoke ? 'revocation' : `rotation of ${colls}`} with call ${at}/${total} (${hit?.op} ${hit?.coll}/${hit?.id}) failing (${mode})`
    const sub = r.sample(names, 40); const lout = {}; for (const x of sub.filter(y => !skip(y) && !/^credential/.test(y))) { try { lout[x] = { val: plain2(await R[x]({ db: fresh, v, w })) } } catch (e) { lout[x] = { err: e } } }
    compare(c, Object.fromEntries(Object.keys(lout).map(x => [x, base[x]])), lout, what + ' (same instance)')
    const out = await runAll(k, R, sub); compare(c, Object.fromEntries(sub.map(x => [x, base[x]])), out, what + ' (reopened)')
    // a retry completes the job
    if (err && j % 2 === 0) { await fresh.rotate('acme', viaRevoke ? s.heldNames : colls); compare(c, Object.fromEntries(sub.map(x => [x, base[x]])), await runAll(k, R, sub), what + ', then retried') }
    k.ref.restore(snap); fresh.close(); c.sig(['fault', viaRevoke, colls, hit?.op, hit?.coll, mode])
  }
}
async function cascade(c) {
  const r = c.rng; const t = new Team(c, { features: r.pick([[], ['history']]) }); await t.start(); for (const k of ['docs', 'pay']) await t.write('alice', k)
  const n = r.int(3, 8); const admins = ['alice']
  for (let i = 0; i < n; i++) { const by = r.pick(admins); const u = 'u' + i; const role = r.chance(0.65) ? 'admin' : r.pick(['operator', 'viewer']); t.last = `grant ${u} ${role} by ${by}`; await t.grant(by, u, role, { docs: 'rw' }); if (role === 'admin') admins.push(u) }
  const by = r.chance(0.7) ? 'alice' : r.pick(admins); const targets = [...t.users.keys()].filter(u => u !== 'alice' && u !== by); if (!targets.length) return
  const u = r.pick(targets); const mode = r.pick([undefined, 'strict', 'warn'])
  // an admin revoking its own ancestor is part of the revoked branch itself
  let up = by; const anc = []; while (t.users.get(up) && up !== 'alice') { anc.push(up); up = t.users.get(up).by } if (anc.includes(u) && mode !== 'warn') return
  t.last = `revoke ${u} by ${by} cascade=${mode}`; const gone = await t.revoke(by, u, { rotate: r.chance(0.6), cascade: mode }); c.count('users_cascaded', gone.length)
  await t.verify(true); for (const [g, p] of t.former) await t.refused(g, p); c.count('revoked_opens_refused', gone.length)
  c.sig(['cascade', [...t.users].map(([a, x]) => [x.role, x.by]), u, mode])
}
export const scenarios = [
  { name: 'revoke', quick: 48, thorough: 1500, run: revoke },
  { name: 'rotate', quick: 48, thorough: 1200, run: rotate },
  { name: 'faults', quick: 96, thorough: 4000, run: faults, allowStray: true },
  { name: 'cascade', quick: 1500, thorough: 4000, run: cascade },
]
