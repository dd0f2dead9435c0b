// Crypto sanitizer run. Every call into the platform crypto API made while the whole feature
// set is exercised - sequentially, overlapping, with failing stores and retries, across
// reopening - is recorded and judged: nonce uniqueness and freshness per key, key sizes, key
// derivation parameters, separation of collection keys, and no export of key-wrapping keys.
import { Kitchen } from '../lib/kitchen.mjs'
import { fp } from '../lib/cryptomon.mjs'
import { createNoydb } from '@noy-db/hub'
import { createSession, resolveSession } from '@noy-db/hub/session'
import { generateRecoveryCodeSet, parseRecoveryCode, unwrapKEKFromRecovery } from '@noy-db/on-recovery'
import { enrollPin, resumePin } from '@noy-db/on-pin'
import { strategies } from '../lib/world.mjs'

export const meta = {
  property: 'C02', level: 'exploration',
  rule: 'distinct by (scenario, sequence of operations); a case counts only if at least 10 encryptions were recorded',
  assumptions: ['the monitor sees every call through globalThis.crypto.subtle; the library has no other crypto dependency', 'a nonce counts as fresh if at least 8 of its 12 bytes came from the platform random source; deterministic search fields are exempt and must repeat only for the same value', 'a short resume PIN is not a passphrase: its derivation is held to 100000 iterations'],
  minimums: { encryptions: 200000, derivations: 8000, envelopes_traced: 180000, overlapping_batches: 10000, faulted_cases: 600, key_pairs_compared: 20000 },
}
const hexOf = b64 => Buffer.from(b64, 'base64').toString('hex')
const fresh = (mon, h) => { for (let i = 0; i + 16 <= h.length; i += 2) if (mon.rand.has(h.slice(i, i + 16))) return true; return false }
const detValues = k => k.detSeen

function arm(c, k) {
  c.mon.rand = new Set(); c.mon.keep = []
  k.detSeen = new Set(); k.trace = []; k.salts = new Map()
  const watch = ev => {
    const add = (vault, coll, id, e) => {
      if (!e || typeof e !== 'object') return
      if (e._iv) k.trace.push({ vault, coll, id, iv: e._iv, tier: e._tier ?? 0 })
      if (coll === '_keyring') { try { const f = JSON.parse(e._data); if (f.salt) k.salts.set(`${vault}/${id}/${f.salt}`, { who: `${vault}/${id}`, salt: f.salt }) } catch { /* not a keyring file */ } }
    }
    if (ev.op === 'put') add(ev.args[0], ev.args[1], ev.args[2], ev.args[3])
    if (ev.op === 'saveAll') for (const coll in ev.args[1]) for (const id in ev.args[1][coll]) add(ev.args[0], coll, id, ev.args[1][coll][id])
  }
  k.store._st.onArgs = watch
}
const own = coll => coll.startsWith('_') ? null : coll
function judge(c, k, { pinOk = false } = {}) {
  const m = c.mon
  for (const x of m.reuse) {
    const pt = m.keep.find(y => y.key === x.key && y.iv === x.iv)?.pt.toString() ?? ''
    c.ok(x.same, `a nonce was used twice under one key for different plaintexts (key ${x.key}, nonce ${x.iv})`, { detail: x.stack })
    c.ok(isDet(k, pt), `a nonce was used twice under one key outside deterministic fields (key ${x.key}, nonce ${x.iv}, same plaintext)`, { detail: x.stack })
  }
  c.ok(!m.badIv.length, () => `nonce of ${m.badIv[0].len} bytes`); c.ok(!m.badKey.length, () => `weak encryption parameters: ${JSON.stringify(m.badKey[0])}`)
  for (const x of m.keep) if (!isDet(k, x.pt.toString())) c.ok(fresh(m, x.iv), `a nonce (${x.iv}) did not come from the random source`)
  for (const x of m.kdf) {
    c.count('derivations')
    c.ok(x.iterations >= (pinOk ? 100_000 : 600_000), `a passphrase key was derived with ${x.iterations} iterations`); c.ok(x.hash === 'SHA-256' || x.hash === 'SHA-512', `a passphrase key was derived with ${x.hash}`)
    c.ok(x.saltLen >= 16, `key derivation with a ${x.saltLen}-byte salt`); c.ok(fresh(m, x.salt), `key derivation salt ${x.salt} did not come from the random source`)
    if (x.bits) c.ok(x.bits === 256, `derived key of ${x.bits} bits`)
  }
  for (const x of m.gen) c.ok(x.alg === 'HMAC' ? x.bits >= 256 : x.bits === 256, `generated ${x.alg} key of ${x.bits} bits`)
  // a key-wrapping key derived from a passphrase is never exported, wrapped or used to encrypt
  const keks = new Set(m.kdf.filter(x => x.alg === 'AES-KW').map(x => x.derived))
  for (const x of m.exports) c.ok(!keks.has(x.key) && x.alg !== 'AES-KW', `a key-wrapping key was exported (${x.alg})`)
  for (const x of m.wraps) c.ok(!keks.has(x.key), 'a passphrase-derived key was itself wrapped for storage')
  for (const x of keks) c.ok(!m.enc.has(x), 'a passphrase-derived key encrypted data directly')
  for (const x of m.kdf) if (x.alg === 'AES-KW') c.ok(!x.extractable, 'a passphrase-derived key was created extractable')
  // one salt never serves two users, and a passphrase change brings a new one
  const bySalt = new Map()
  for (const { who, salt } of k.salts.values()) { c.ok(!bySalt.has(salt) || bySalt.get(salt) === who, `salt shared by ${bySalt.get(salt)} and ${who}`); bySalt.set(salt, who) }
  // separation: which key sealed the items of which collection
  const ivKey = new Map(); for (const [key, ivs] of m.enc) for (const iv of ivs.keys()) ivKey.set(iv, key)
  const keysOf = new Map()
  for (const t of k.trace) {
    const key = ivKey.get(hexOf(t.iv)); c.count('envelopes_traced')
    c.ok(key, `an item stored in ${t.coll} carries a nonce that was never used to encrypt`)
    const o = own(t.coll); if (!o) continue
    const g = `${t.vault}/${o}#${t.tier}`; if (!keysOf.has(g)) keysOf.set(g, new Set()); keysOf.get(g).add(key)
  }
  const gs = [...keysOf.keys()]
  for (let i = 0; i < gs.length; i++) for (let j = i + 1; j < gs.length; j++) { c.count('key_pairs_compared'); for (const key of keysOf.get(gs[i])) c.ok(!keysOf.get(gs[j]).has(key), `${gs[i]} and ${gs[j]} are sealed with the same key`) }
  c.count('encryptions', m.encCount); c.max('encryptions_in_one_case', m.encCount)
}
const isDet = (k, pt) => k.detSeen.has(pt) || pt.length < 2 && /^\d$/.test(pt)
function trackDet(k) {
  const rec = k.record.bind(k); k.record = () => { const x = rec(); for (const f of ['email', 'n']) { k.detSeen.add(JSON.stringify(x[f])); k.detSeen.add(String(x[f])) } return x }
  const sec = k.secret.bind(k); k.secret = kind => { const s = sec(kind); if (kind === 'probe') { k.detSeen.add(s); k.detSeen.add(JSON.stringify(s)) } return s }
}

async function program(c) {
  const r = c.rng; const faults = r.chance(0.4) ? r.pick([0.01, 0.03, 0.1]) : 0
  const k = new Kitchen(c, { faults, sync: r.chance(0.4), pubsub: r.chance(0.5) }); k.quiet = true
  arm(c, k); trackDet(k); await k.open(); if (faults) c.count('faulted_cases')
  k.arm()
  const names = k.opNames(); const solo = new Set(['reopen', 'secret', 'rotate', 'revoke', 'badpass'])
  const picked = []; const n = r.int(10, 26)
  for (let i = 0; i < n; i++) {
    if (r.chance(0.35)) {
      const batch = [...Array(r.int(2, 5))].map(() => r.pick(names)).filter(x => !solo.has(x)); picked.push(batch.join('+'))
      await Promise.all(batch.map(x => k.run([x]))); c.count('overlapping_batches')
    } else { const x = r.pick(names); picked.push(x); await k.run([x]) }
  }
  k.store._st.fault = null; k.remote._st.fault = null
  judge(c, k)
  if (c.mon.encCount >= 10) c.sig(picked); c.sample({ ops: picked.slice(0, 10), encryptions: c.mon.encCount, keys: c.mon.enc.size, derivations: c.mon.kdf.length, faults })
}
// many writes and many chunks under few keys; identical contents written again and again
async function heavy(c) {
  const r = c.rng; const k = new Kitchen(c); arm(c, k); trackDet(k); await k.open()
  const same = k.record(); const n = r.int(60, 160)
  await Promise.all([...Array(n)].map((_, i) => r.pick([k.docs, k.lazy, k.det]).put('r' + (i % r.int(1, 40)), r.chance(0.5) ? same : k.record()).catch(e => { if (e.name !== 'ConflictError') throw e })))
  const body = r.bytes(3000); for (let i = 0; i < 3; i++) await k.docs.blob('r0').put('s' + i, i === 1 ? body : r.bytes(2000), { chunkSize: 64, compress: false })
  await k.docs.blob('r1').put('s', body, { chunkSize: 64, compress: false }); await k.docs.blob('r1').delete('s'); await k.docs.blob('r1').put('s', body, { chunkSize: 64, compress: false })
  k.db.close(); await k.open(); for (let i = 0; i < 20; i++) await k.docs.put('r' + i, same)
  judge(c, k); c.sig(['heavy', n, c.seed])
}
// passphrase changes and other ways to unlock
async function unlock(c) {
  const r = c.rng; const k = new Kitchen(c); arm(c, k); trackDet(k); await k.open(); await k.docs.put('a', k.record())
  const before = JSON.parse(k.ref.get('acme', '_keyring', 'alice')._data).salt
  await k.run(['secret']); const after = JSON.parse(k.ref.get('acme', '_keyring', 'alice')._data).salt
  c.ok(before !== after, 'changing the passphrase kept the salt')
  for (let i = 0; i < 3; i++) await k.run(['grant']); await k.run(['rotate', 'reopen', 'user2', 'secret'])
  const kek = await crypto.subtle.generateKey({ name: 'AES-KW', length: 256 }, true, ['wrapKey', 'unwrapKey'])
  const count = r.int(1, 8); const set = await generateRecoveryCodeSet({ kek, count })
  c.ok(new Set(set.entries.map(x => x.salt)).size === count && new Set(set.codes).size === count, 'recovery codes share a salt or a code')
  const p = parseRecoveryCode(set.codes[0]); c.ok(p.status === 'valid', 'generated recovery code is not valid')
  const un = await unwrapKEKFromRecovery(p.code, set.entries[0]); c.ok(fp(un) === fp(kek), 'recovery unwraps another key')
  judge(c, k); c.sig(['unlock', count, c.seed])
}
async function pin(c) {
  const r = c.rng; c.mon.rand = new Set(); c.mon.keep = []
  const deks = new Map(); for (let i = r.int(1, 4); i > 0; i--) deks.set('c' + i, await crypto.subtle.generateKey({ name: 'AES-GCM', length: 256 }, true, ['encrypt', 'decrypt']))
  const keyring = { userId: 'alice', displayName: 'alice', role: 'owner', permissions: {}, deks, salt: crypto.getRandomValues(new Uint8Array(32)), kek: await crypto.subtle.generateKey({ name: 'AES-KW', length: 256 }, false, ['wrapKey', 'unwrapKey']) }
  const states = []; for (let i = 0; i < 3; i++) states.push(await enrollPin(keyring, { pin: '1234' }))
  c.ok(new Set(states.map(s => s.salt)).size === 3 && new Set(states.map(s => s.iv)).size === 3, 'two PIN enrolments share a salt or nonce')
  const back = await resumePin(states[0], { pin: '1234' }); for (const [n, d] of deks) c.ok(fp(back.deks.get(n)) === fp(d), 'PIN resume changed a key')
  for (let i = 0; i < 3; i++) { const s = await createSession(keyring, 'acme', { ttlMs: 1000 }); const kr = await resolveSession(s.token, s.sessionKey); for (const [n, d] of deks) c.ok(fp(kr.deks.get(n)) === fp(d), 'session resume changed a key') }
  judge(c, { detSeen: new Set(), trace: [], salts: new Map() }, { pinOk: true }); c.sig(['pin', deks.size, c.seed])
}
export const scenarios = [
  { name: 'program', quick: 3500, thorough: 20000, run: program, allowStray: true },
  { name: 'heavy', quick: 300, thorough: 800, run: heavy },
  { name: 'unlock', quick: 300, thorough: 1000, run: unlock },
  { name: 'pin', quick: 150, thorough: 400, run: pin },
]
