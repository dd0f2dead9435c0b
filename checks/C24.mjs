// C24 - expired, revoked or exhausted credentials never grant access: reference state machines for every
// time- or attempt-limited credential run next to the real one on a virtual clock, with overlapping attempts
import { KeyObject, createDecipheriv } from 'node:crypto'
import * as hub from '@noy-db/hub'
import * as ses from '@noy-db/hub/session'
import * as team from '@noy-db/hub/team'
import * as pin from '@noy-db/on-pin'
import * as otp from '@noy-db/on-email-otp'
import * as ml from '@noy-db/on-magic-link'
import { useCapabilityGrant, CAPABILITY_REQUESTS_COLLECTION } from '@noy-db/in-pinia'
import { effectScope } from 'vue'
import { newRef, open, PASS } from '../lib/world.mjs'
import { instrument } from '../lib/store.mjs'

export const meta = {
  property: 'C24', level: 'exploration',
  rule: 'a case counts as non-trivial when at least one credential was used successfully and at least one use was refused because of a limit; distinct by the sequence of outcomes',
  assumptions: ['the exact millisecond of expiry is not judged, one before and one after are', 'a use already running when the credential is revoked may end either way', 'the expiry instant carried in a client-held session or link token is taken as issued', 'burning a one-time code after success is the caller\'s job, as documented', 'passphrase stretching is computed with one round after recording the requested parameters'],
  minimums: { capability_grants: 1500, capability_ends: 700, capability_remote: 800, session_uses: 5000, session_refusals: 3000, policy_expiries: 2000, policy_checks: 4000, delegation_merges: 2000, delegation_refusals: 2000, link_claims: 1500, link_refusals: 800, elevated_writes: 1500, elevation_refusals: 1500, pin_guesses: 6000, pin_locks: 500, otp_guesses: 6000, otp_locks: 500, seat_opens: 300, seat_refusals: 300, dev_loads: 2000 },
}
const rawOf = k => KeyObject.from(k).export().toString('hex')
const bytes = (r, n) => Uint8Array.from(r.bytes(n))
async function aes(r) { return crypto.subtle.importKey('raw', bytes(r, 32), { name: 'AES-GCM', length: 256 }, true, ['encrypt', 'decrypt']) }
async function kwKey(r) { return crypto.subtle.importKey('raw', bytes(r, 32), 'AES-KW', true, ['wrapKey', 'unwrapKey']) }
let seq = 0
async function keyring(r, userId = 'user' + seq++) {
  const deks = new Map()
  for (let i = r.int(1, 4); i > 0; i--) deks.set(r.pick(['docs', 'docs#1', 'docs#2', 'ledger', 'ü x', 'a:b']) + (r.chance(0.3) ? r.int(0, 3) : ''), await aes(r))
  return { userId, displayName: 'Name of ' + userId, role: r.pick(['owner', 'admin', 'operator', 'viewer', 'client']), permissions: r.chance(0.5) ? { docs: r.pick(['rw', 'ro']) } : {}, deks, kek: await kwKey(r), salt: bytes(r, 32) }
}
const view = k => ({ userId: k.userId, displayName: k.displayName, role: k.role, permissions: k.permissions, salt: Buffer.from(k.salt).toString('hex'), deks: [...k.deks].map(([n, d]) => [n, rawOf(d)]).sort() })
async function outcome(p) { try { return { v: await p } } catch (e) { if (e?.name === 'Violation') throw e; return { e } } }
// move the clock: mostly to just before / just after one of the interesting instants
async function move(c, instants) {
  const r = c.rng, future = instants.filter(t => t > c.clock.now - 1)
  const t = future.length && r.chance(0.7) ? r.pick(future) + r.pick([-1, 1, 1, -1, 0, -r.int(1, 500), r.int(1, 500)]) : c.clock.now + r.int(1, 4000)
  if (t > c.clock.now) await c.clock.tick(t - c.clock.now, { settle: 1 })
}
const verdict = (now, limit) => now < limit ? 'live' : now > limit ? 'dead' : 'either'

// ---------- sessions
async function sessions(c) {
  const r = c.rng, list = []; let used = 0, refused = 0, sig = ''
  ses.revokeAllSessions()
  for (let step = 0; step < 26; step++) {
    const s = list.length ? r.pick(list) : null
    const op = r.weighted([[3, 'new'], [8, 'use'], [5, 'time'], [2, 'revoke'], [0.4, 'all'], [2, 'damage'], [1, 'race'], [1, 'unknown']])
    if (op === 'new' && list.length < 6) {
      const k = await keyring(r), ttl = r.chance(0.2) ? undefined : r.pick([1, 2, 50, 1000, 5000, 60000, 3600e3])
      const { token, sessionId } = await ses.createSession(k, r.pick(['acme', 'other']), ttl === undefined ? {} : { ttlMs: ttl })
      c.eq(token.sessionId, sessionId, 'session id'); c.ok(list.every(x => x.token.sessionId !== sessionId), 'session id reused')
      list.push({ k: view(k), token: JSON.parse(JSON.stringify(token)), at: c.clock.now + (ttl ?? 3600e3), revoked: false })
      const text = JSON.stringify(token)
      for (const d of k.deks.values()) c.ok(!text.includes(Buffer.from(rawOf(d), 'hex').toString('base64')), 'a session token contains a data key')
    } else if (op === 'time') await move(c, list.map(x => x.at))
    else if (op === 'revoke' && s) { ses.revokeSession(s.token.sessionId); s.revoked = true; sig += 'r' }
    else if (op === 'all') { ses.revokeAllSessions(); for (const x of list) x.revoked = true; c.eq(ses.activeSessionCount(), 0, 'sessions left after revoking all'); sig += 'A' }
    else if (op === 'use' && s) {
      const v = s.revoked ? 'dead' : verdict(c.clock.now, s.at)
      const alive = ses.isSessionAlive(s.token)
      if (v !== 'either') c.eq(alive, v === 'live', `session reported alive (${v}, revoked=${s.revoked}, ${s.at - c.clock.now} ms left)`)
      const o = await outcome(ses.resolveSession(s.token))
      if (v === 'live') { c.ok(!o.e, () => `a session with ${s.at - c.clock.now} ms left was refused: ${o.e}`); c.eq(view(o.v), s.k, 'session gave different access than it was created for'); used++; c.count('session_uses'); sig += 'u' }
      else if (v === 'dead') { c.ok(o.e, () => `a ${s.revoked ? 'revoked' : 'expired'} session was accepted ${c.clock.now - s.at} ms after its end`); c.ok(o.e instanceof hub.SessionExpiredError || o.e instanceof hub.SessionNotFoundError, () => `refused with ${o.e?.name}`); s.revoked = true; refused++; c.count('session_refusals'); sig += 'x' }
      else if (o.e) s.revoked = true
    } else if (op === 'damage' && s && !s.revoked && c.clock.now < s.at) {
      const t = { ...s.token }, other = list.find(x => x !== s)
      const how = r.pick(['body', 'iv', 'swapId', 'id'])
      if (how === 'body') { const b = Buffer.from(t.wrappedKek, 'base64'); b[r.int(0, b.length - 1)] ^= 1 << r.int(0, 7); t.wrappedKek = b.toString('base64') }
      else if (how === 'iv') { const b = Buffer.from(t.kekIv, 'base64'); b[r.int(0, 11)] ^= 1 << r.int(0, 7); t.kekIv = b.toString('base64') }
      else if (how === 'swapId') { if (!other) continue; t.sessionId = other.token.sessionId } else t.sessionId = t.sessionId.slice(0, -2) + 'zz'
      const o = await outcome(ses.resolveSession(t)); c.ok(o.e, () => `a session token with a changed ${how} was accepted`); c.count('session_refusals')
      const again = await outcome(ses.resolveSession(s.token)); c.ok(!again.e, () => `a valid session stopped working after a forged token (${how}) was refused: ${again.e}`)
    } else if (op === 'race' && s && !s.revoked && c.clock.now < s.at) {
      const ps = Array.from({ length: 3 }, () => outcome(ses.resolveSession(s.token))); ses.revokeSession(s.token.sessionId); s.revoked = true; ps.push(outcome(ses.resolveSession(s.token)))
      const os = await Promise.all(ps); c.ok(os[3].e, 'a use starting after revocation was accepted'); for (const o of os) if (o.v) c.eq(view(o.v), s.k, 'overlapping use gave different access')
      c.count('session_refusals')
    } else if (op === 'unknown') { const o = await outcome(ses.resolveSession({ _noydb_session: 1, sessionId: 'nope' + step, userId: 'x', vault: 'acme', role: 'owner', expiresAt: new Date(c.clock.now + 1e6).toISOString(), wrappedKek: 'AAAA', kekIv: 'AAAAAAAAAAAAAAAA' })); c.ok(o.e, 'an unknown session was accepted') }
  }
  for (const x of list) if (!x.revoked && c.clock.now < x.at) c.eq(view((await outcome(ses.resolveSession(x.token))).v ?? c.fail('a live session was lost')), x.k, 'session at the end')
  ses.revokeAllSessions()
  if (used && refused) c.sig('s' + sig)
}

// ---------- policy enforcer
const OPS = ['export', 'grant', 'revoke', 'rotate', 'changeSecret']
async function policy(c) {
  const r = c.rng
  const listeners = new Set(), doc = { hidden: false, addEventListener: (n, f) => { if (n === 'visibilitychange') listeners.add(f) }, removeEventListener: (n, f) => { if (n === 'visibilitychange') listeners.delete(f) } }
  globalThis.document = doc; c.cleanup(() => { delete globalThis.document })
  ses.revokeAllSessions()
  const mk = async () => {
    const idle = r.chance(0.75) ? r.pick([5, 1000, 5000, 30000]) : undefined, abs = r.chance(0.7) ? (idle ? idle * r.pick([1.5, 2, 4, 10]) : r.pick([1000, 20000])) : undefined
    const p = { ...(idle && { idleTimeoutMs: idle }), ...(abs && { absoluteTimeoutMs: abs }), ...(r.chance(0.4) && { lockOnBackground: true }), ...(r.chance(0.6) && { requireReAuthFor: r.sample(OPS, r.int(0, 3)) }) }
    ses.validateSessionPolicy(p)
    const { token, sessionId } = await ses.createSession(await keyring(r), 'acme', { ttlMs: 1e9 })
    const m = { p, token, born: c.clock.now, last: c.clock.now, dead: null, ended: false, calls: [] }
    m.e = ses.createEnforcer({ policy: p, sessionId, onRevoke: reason => m.calls.push([reason, c.clock.now]) })
    m.due = () => { const a = []; if (p.idleTimeoutMs) a.push([m.last + p.idleTimeoutMs, 'idle']); if (p.absoluteTimeoutMs) a.push([m.born + p.absoluteTimeoutMs, 'absolute']); return a.sort((x, y) => x[0] - y[0]) }
    return m
  }
  const list = [await mk()]; if (r.chance(0.6)) list.push(await mk()); if (r.chance(0.3)) list.push(await mk())
  let sig = '', expired = 0
  const settle = () => {
    for (const m of list) {
      if (!m.dead && !m.ended) { const d = m.due()[0]; if (d && d[0] <= c.clock.now) { m.dead = { t: d[0], why: m.due().filter(x => x[0] === d[0]).map(x => x[1]) }; expired++; c.count('policy_expiries'); sig += d[1][0] } }
      if (m.dead) {
        c.eq(m.calls.length, 1, () => `a session that ended at ${m.dead.t - m.born} reported ${JSON.stringify(m.calls)} endings`)
        c.ok(m.dead.why.includes(m.calls[0][0]), () => `ended because of ${m.calls[0][0]}, expected ${m.dead.why}`)
        c.eq(m.calls[0][1] - m.born, m.dead.t - m.born, 'time of the automatic lock after the session began')
        c.ok(!ses.isSessionAlive(m.token), 'a timed-out session is still alive')
      } else { c.eq(m.calls.length, 0, () => `a session was locked early: ${JSON.stringify(m.calls.map(([w, t]) => [w, t - m.born]))}, policy ${JSON.stringify(m.p)}, last activity at ${m.last - m.born}`); c.ok(ses.isSessionAlive(m.token), 'a session within its limits is not alive') }
    }
  }
  for (let step = 0; step < 22; step++) {
    const m = r.pick(list), op = r.weighted([[6, 'touch'], [8, 'time'], [6, 'check'], [1.2, 'hide'], [1, 'show'], [0.5, 'destroy'], [0.6, 'sleep']])
    if (op === 'touch') { m.e.touch(); if (!m.dead && !m.ended) m.last = c.clock.now; if (!m.dead && !m.ended) c.eq(m.e.idleMs, 0, 'idle time after activity') }
    else if (op === 'time') { const inst = list.filter(x => !x.dead && !x.ended).flatMap(x => x.due().map(d => d[0])); await move(c, inst) }
    else if (op === 'check') {
      const o = r.pick(OPS), out = await outcome((async () => m.e.checkOperation(o))()); c.count('policy_checks')
      const over = m.p.absoluteTimeoutMs && c.clock.now - m.born >= m.p.absoluteTimeoutMs
      if (over && !m.ended) c.ok(out.e instanceof hub.SessionExpiredError, () => `operation ${o} allowed after the absolute limit (${out.e})`)
      else if ((m.p.requireReAuthFor ?? []).includes(o)) c.ok(out.e instanceof hub.SessionPolicyError || (over && out.e), () => `operation ${o} needs re-authentication but was allowed (${out.e})`)
      else if (!m.dead && !m.ended) c.ok(!out.e, () => `operation ${o} refused within limits: ${out.e}`)
      if (!m.dead) c.eq(m.e.ageMs, c.clock.now - m.born, 'session age')
    } else if (op === 'hide') { doc.hidden = true; for (const f of [...listeners]) f(); for (const x of list) if (x.p.lockOnBackground && !x.dead && !x.ended) { x.dead = { t: c.clock.now, why: ['background'] }; expired++; c.count('policy_expiries'); sig += 'b' } }
    else if (op === 'show') { doc.hidden = false; for (const f of [...listeners]) f() }
    else if (op === 'destroy') { m.e.destroy(); if (!m.dead) m.ended = true; sig += 'd' }
    else if (op === 'sleep' && m.p.absoluteTimeoutMs && !m.dead && !m.ended && list.length === 1) { // machine asleep: timers late
      c.clock.set(m.born + m.p.absoluteTimeoutMs + r.int(0, 1000)); const out = await outcome((async () => m.e.checkOperation('export'))()); c.ok(out.e instanceof hub.SessionExpiredError, () => `operation allowed after the absolute limit passed while timers were late (${out.e})`)
      c.eq(m.calls.map(x => x[0]), ['absolute'], 'late timer'); m.dead = { t: c.clock.now, why: ['absolute'] }; expired++; c.count('policy_expiries'); sig += 'S'
    }
    settle()
    if (m.ended && !m.dead) c.eq(m.calls.length, 0, 'a destroyed enforcer still locked')
  }
  await c.clock.tick(1e6, { settle: 1 }); settle()
  for (const m of list) m.e.destroy()
  c.eq(c.clock.hasTimers(), false, 'timers left after every policy ended')
  if (expired) c.sig('p' + sig + JSON.stringify(list.map(m => Object.keys(m.p))))
}
async function policyInput(c) {
  const r = c.rng, num = () => r.pick([undefined, 0, -1, 1, 1000, 5000, 5000, -0.5, NaN === 0 ? 1 : 20, '5'])
  for (let i = 0; i < 20; i++) {
    const p = { idleTimeoutMs: num(), absoluteTimeoutMs: num() }; for (const k in p) if (p[k] === undefined) delete p[k]
    const bad = v => v !== undefined && (typeof v !== 'number' || v <= 0)
    const want = bad(p.idleTimeoutMs) || bad(p.absoluteTimeoutMs) || (p.idleTimeoutMs !== undefined && p.absoluteTimeoutMs !== undefined && p.idleTimeoutMs >= p.absoluteTimeoutMs)
    const o = await outcome((async () => ses.validateSessionPolicy(p))()); c.eq(!!o.e, want, `policy ${JSON.stringify(p)} refused`)
  }
  c.sig('pi' + c.i)
}

// ---------- delegations
function untilForm(r, t) { // the same instant written in different ways
  const d = new Date(t)
  const off = r.pick([0, 60, 330, 420, -300, -720])
  const local = new Date(t + off * 60000).toISOString().slice(0, -1) + (off < 0 ? '-' : '+') + String(Math.floor(Math.abs(off) / 60)).padStart(2, '0') + ':' + String(Math.abs(off) % 60).padStart(2, '0')
  return r.pick([d, d.toISOString(), d.toISOString(), local])
}
async function delegations(c) {
  const r = c.rng, ref = newRef(), store = instrument(ref)
  const ddek = await aes(r), users = [await keyring(r, 'bob'), await keyring(r, 'carol'), await keyring(r, 'bob2')]
  if (r.chance(0.4)) for (const u of users) u.kek = users[0].kek // only the address on the delegation tells them apart
  const grantors = []
  for (const n of ['olga', 'pete']) { const k = await keyring(r, n); k.deks = new Map(); for (const col of ['docs', 'pay', 'docs2']) for (const t of [0, 1, 2, 12]) if (r.chance(0.8)) k.deks.set(t ? `${col}#${t}` : col, await aes(r)); grantors.push(k) }
  const toks = []; let sig = '', ok = 0, no = 0
  for (let step = 0; step < 22; step++) {
    const op = r.weighted([[5, 'issue'], [6, 'load'], [4, 'time'], [2, 'revoke'], [0.7, 'damage'], [0.5, 'revokeUnknown']])
    if (op === 'issue') {
      const g = r.pick(grantors), to = r.pick(users), tier = r.pick([0, 1, 1, 2, 12]), collection = r.chance(0.9) ? r.pick(['docs', 'pay', 'docs2']) : undefined
      const at = c.clock.now + r.pick([-5000, 1, 100, 5000, 86400e3, 5000]), until = untilForm(r, at), key = collection && (tier ? `${collection}#${tier}` : collection)
      const before = ref.coll('acme', '_delegations')?.size ?? 0
      const o = await outcome(hub.issueDelegation(store, 'acme', g, r.chance(0.1) ? null : to.kek, ddek, { toUser: to.userId, tier, ...(collection && { collection }), ...(r.chance(0.3) && { record: 'r1' }), until }))
      if (o.e) { c.ok(o.e instanceof hub.DelegationTargetMissingError, () => `refused with ${o.e}`); c.eq(ref.coll('acme', '_delegations')?.size ?? 0, before, 'a refused delegation was stored'); if (key && g.deks.has(key)) sig += 'k'; c.count('delegation_refusals') }
      else { c.ok(key && g.deks.has(key), 'a delegation was issued for a key the grantor does not hold'); c.eq([o.v.toUser, o.v.fromUser, o.v.tier, o.v.collection], [to.userId, g.userId, tier, collection], 'delegation contents'); toks.push({ id: o.v.id, to: to.userId, key, raw: rawOf(g.deks.get(key)), at, gone: false }); sig += 'i' }
    } else if (op === 'time') await move(c, toks.map(t => t.at))
    else if (op === 'revoke' && toks.length) { const t = r.pick(toks); await hub.revokeDelegation(store, 'acme', t.id); t.gone = true; sig += 'r' }
    else if (op === 'revokeUnknown') await hub.revokeDelegation(store, 'acme', 'none')
    else if (op === 'damage' && toks.length) { const t = r.pick(toks), m = ref.coll('acme', '_delegations'), e = m?.get(t.id); if (e) { const b = Buffer.from(e._data, 'base64'); b[r.int(0, b.length - 1)] ^= 4; m.set(t.id, { ...e, _data: b.toString('base64') }); t.gone = true } }
    else if (op === 'load') {
      const u = r.pick(users), own = new Map([...u.deks]), me = { ...u, deks: new Map(own) }
      const now = r.chance(0.4) ? new Date(c.clock.now) : undefined
      const got = await hub.loadActiveDelegations(store, 'acme', me, ddek, now)
      const mine = toks.filter(t => t.to === u.userId && !t.gone), live = mine.filter(t => verdict(c.clock.now, t.at) === 'live'), maybe = mine.filter(t => verdict(c.clock.now, t.at) === 'either')
      const ids = new Set(got.map(t => t.id))
      for (const t of live) c.ok(ids.has(t.id), () => `a delegation with ${t.at - c.clock.now} ms left was not honoured`)
      for (const id of ids) c.ok(live.some(t => t.id === id) || maybe.some(t => t.id === id), () => { const t = toks.find(x => x.id === id); return `a delegation ${!t ? 'never issued' : t.gone ? 'already revoked' : t.to !== u.userId ? 'addressed to somebody else' : `expired ${c.clock.now - t.at} ms ago`} was honoured` })
      const allowed = new Map(own); const opts = new Map()
      for (const t of [...live, ...maybe]) opts.set(t.key, [...(opts.get(t.key) ?? []), t.raw])
      for (const [k, d] of me.deks) { const raw = rawOf(d); c.ok((allowed.has(k) && rawOf(allowed.get(k)) === raw) || (opts.get(k) ?? []).includes(raw), () => `loading delegations gave a key for ${k} that no live delegation covers`) }
      for (const k of own.keys()) c.ok(me.deks.has(k), 'a key of the user was lost')
      for (const t of live) c.ok(me.deks.has(t.key), () => `no key for ${t.key}`)
      ok += live.length; no += toks.length - live.length; c.count('delegation_merges', live.length); c.count('delegation_refusals', toks.length - live.length - maybe.length); sig += 'l' + live.length
    }
  }
  if (ok && no) c.sig('d' + sig)
}

// which stored records can this key open
function opens(ref, raw) {
  const out = []
  for (const [col, m] of ref.data.get('acme') ?? []) if (!col.startsWith('_')) for (const [id, e] of m) {
    try { const d = createDecipheriv('aes-256-gcm', Buffer.from(raw, 'hex'), Buffer.from(e._iv, 'base64')), b = Buffer.from(e._data, 'base64'); d.setAuthTag(b.subarray(-16)); Buffer.concat([d.update(b.subarray(0, -16)), d.final()]); out.push(`${col}/${e._tier ?? 0}/${id}`) } catch {}
  }
  return out.sort()
}
// ---------- magic links
async function links(c) {
  const r = c.rng, ref = newRef(), store = instrument(ref)
  const { db, v } = await open(store, { features: [] })
  const cols = ['docs', 'pay']; const placed = []
  for (const n of cols) { const col = v.collection(n, { tiers: [0, 1, 2] }); for (const t of [0, 1, 2]) for (let i = r.int(1, 2); i > 0; i--) { const id = `${n}${t}${i}`; await col.putAtTier(id, { n: r.int(0, 99) }, t); placed.push(`${n}/${t}/${id}`) } }
  const secrets = ['srv-secret-1', bytes(r, 32)], links = []; let sig = '', ok = 0, no = 0
  for (let step = 0; step < 12; step++) {
    const op = r.weighted([[4, 'issue'], [6, 'claim'], [3, 'time'], [1.5, 'revoke'], [2, 'wrong'], [1, 'valid']])
    if (op === 'issue' && links.length < 4) {
      const si = r.int(0, 1), ttlMs = r.pick([undefined, 1000, 60000]), grants = Array.from({ length: r.int(1, 3) }, () => { const at = c.clock.now + r.pick([-1000, 5, 1000, 60000, 86400e3]); return { spec: { toUser: 'aud', tier: r.int(0, 2), collection: r.pick(cols), until: untilForm(r, at), ...(r.chance(0.3) && { note: 'n' }) }, at } })
      const bad = r.chance(0.15); if (bad) grants.push({ spec: { toUser: 'aud', tier: 7, collection: 'docs', until: new Date(c.clock.now + 1e6) }, at: 0 })
      const o = await outcome(ml.issueMagicLinkDelegation(v, { serverSecret: secrets[si], grants: grants.map(g => g.spec), ...(ttlMs && { ttlMs }) }))
      if (bad) { c.ok(o.e, 'a link was issued for a tier key the grantor does not hold'); c.count('link_refusals'); continue }
      c.ok(!o.e, () => `issuing failed: ${o.e}`)
      links.push({ si, link: o.v.link, grants, at: c.clock.now + (ttlMs ?? 86400e3), gone: false }); c.ok(links.filter(l => l.link.token === o.v.link.token).length === 1, 'token reused'); sig += 'i'
    } else if (op === 'time') await move(c, links.flatMap(l => [l.at, ...l.grants.map(g => g.at)]))
    else if (op === 'valid' && links.length) { const l = r.pick(links), w = verdict(c.clock.now, l.at); if (w !== 'either') c.eq(ml.isMagicLinkValid(l.link), w === 'live', 'link freshness') }
    else if (op === 'revoke' && links.length) { const l = r.pick(links); await hub.revokeMagicLinkGrant(store, 'acme', l.link.token); l.gone = true; sig += 'r' }
    else if (op === 'wrong' && links.length) {
      const l = r.pick(links), how = r.pick(['secret', 'token', 'vault', 'otherToken'])
      if (how === 'vault') ref.restore?.(ref.snapshot?.())
      const o = await outcome(ml.claimMagicLinkDelegation({ store, vault: how === 'vault' ? 'acme2' : 'acme', serverSecret: how === 'secret' ? (l.si ? secrets[0] : 'srv-secret-1 ') : secrets[l.si], token: how === 'token' ? l.link.token.slice(0, -1) : how === 'otherToken' ? l.link.token + ':1' : l.link.token }))
      c.ok(o.e || (!o.v.valid && o.v.grants.length === 0), () => `a claim with the wrong ${how} was accepted`); c.count('link_refusals'); no++
    } else if (op === 'claim' && links.length) {
      const l = r.pick(links), o = await outcome(ml.claimMagicLinkDelegation({ store, vault: 'acme', serverSecret: secrets[l.si], token: l.link.token, ...(r.chance(0.3) && { now: new Date(c.clock.now) }) }))
      c.ok(!o.e, () => `claim failed: ${o.e}`)
      if (l.gone) { c.ok(!o.v.valid && o.v.grants.length === 0, 'a revoked link still gave keys'); c.count('link_refusals'); no++; continue }
      c.ok(o.v.valid, 'a valid link was refused'); c.eq(o.v.grants.length, l.grants.length, 'number of grants')
      const left = [...l.grants]
      for (const g of o.v.grants) {
        const i = left.findIndex(x => x.spec.tier === g.payload.tier && x.spec.collection === g.payload.collection && +new Date(x.spec.until) === Date.parse(g.payload.until)); c.ok(i >= 0, 'a grant that was never issued'); const [spec] = left.splice(i, 1)
        const w = verdict(c.clock.now, spec.at); if (w !== 'either') c.eq(!!g.expired, w === 'dead', `grant with ${spec.at - c.clock.now} ms left marked expired`)
        c.eq(opens(ref, rawOf(g.dek)), placed.filter(p => p.startsWith(`${spec.spec.collection}/${spec.spec.tier}/`)).sort(), `records opened by a link for ${spec.spec.collection} tier ${spec.spec.tier}`)
        if (w === 'dead') no++; else ok++; c.count('link_claims')
      }
      sig += 'c' + l.grants.length
    }
  }
  db.close()
  if (ok && no) c.sig('m' + sig)
}

// ---------- elevated handles
async function elevation(c) {
  const r = c.rng, ref = newRef(); let failAudit = false, failPut = false
  const store = instrument(ref)
  const o = await open(store, { features: [] })
  const tiers = { docs: [0, 1, 2], pay: [0, 2], plain: undefined }
  for (const n of ['docs', 'pay']) for (const t of tiers[n]) await o.v.collection(n, { tiers: tiers[n] }).putAtTier('seed' + t, { s: t }, t)
  const who = r.pick(['owner', 'admin', 'operator', 'operator', 'viewer'])
  let v = o.v, db = o.db, user = 'alice'; const has = new Set()
  if (who !== 'owner') {
    const perms = {}; if (who === 'operator') for (const k of ['docs', 'docs#1', 'docs#2', 'pay', 'pay#2']) if (r.chance(0.85)) perms[k] = 'rw'
    user = 'mel'; await o.db.grant('acme', { userId: user, displayName: 'Mel', role: who, passphrase: PASS + 'm', permissions: perms })
    o.db.close(); ({ db, v } = await open(store, { features: [], user, secret: PASS + 'm' }))
    for (const k in perms) has.add(k)
    if (who === 'viewer') for (const k of ['docs', 'docs#1', 'docs#2', 'pay', 'pay#2']) has.add(k) // a viewer reads everything
  }
  for (const n of ['docs', 'pay']) v.collection(n, { tiers: tiers[n] })
  store._st.fault = ev => ev.op === 'put' && ((failAudit && ev.coll === '_elevation_audit') || (failPut && !ev.coll.startsWith('_'))) ? 'before' : undefined
  const boss = who === 'owner' || who === 'admin'
  const reach = t => boss || [...has].some(k => k.endsWith('#' + t))
  const events = []; v.onCrossTierAccess(e => events.push(e))
  const handles = []; let active = null, audits = 0, sig = '', ok = 0, no = 0
  const auditCount = () => ref.coll('acme', '_elevation_audit')?.size ?? 0
  const freeSlot = () => { if (active && (active.released || c.clock.now > active.at)) active = null }
  for (let step = 0; step < 24; step++) {
    const op = r.weighted([[6, 'elevate'], [9, 'put'], [5, 'time'], [3, 'release'], [1, 'both'], [0.7, 'badArgs']])
    freeSlot()
    if (op === 'elevate' || op === 'both') {
      const tier = r.pick([1, 2, 2, 1, 2, 3]), ttlMs = r.pick([1, 50, 1000, 60000, 60000]); failAudit = op === 'elevate' && r.chance(0.15)
      const n = op === 'both' ? 2 : 1, edge = active && c.clock.now === active.at
      const outs = await Promise.all(Array.from({ length: n }, () => outcome(v.elevate(tier, { ttlMs, reason: 'why-' + step }))))
      const wins = outs.filter(x => x.v), f = failAudit; failAudit = false
      if (edge) { for (const w of wins) { active = { h: w.v, tier, at: c.clock.now + ttlMs, released: false, reason: 'why-' + step }; handles.push(active); audits++ } continue }
      if (active) { c.eq(wins.length, 0, 'a second elevation was granted while one is active'); for (const x of outs) c.ok(x.e instanceof hub.AlreadyElevatedError || x.e instanceof hub.TierNotGrantedError, () => `refused with ${x.e}`); no++; c.count('elevation_refusals') }
      else if (!reach(tier)) { c.eq(wins.length, 0, () => `${who} with keys [${[...has]}] was elevated to tier ${tier}`); no++; c.count('elevation_refusals') }
      else if (f) { c.eq(wins.length, 0, 'an elevation succeeded although it could not be recorded'); no++; c.count('elevation_refusals'); sig += 'f' }
      else { c.eq(wins.length, 1, () => `free slot: ${wins.length} of ${n} elevations to tier ${tier} granted: ${outs.map(x => x.e).join('; ')}`); const w = wins[0].v; c.eq([w.tier, w.expiresAt], [tier, c.clock.now + ttlMs], 'elevation limits'); active = { h: w, tier, at: c.clock.now + ttlMs, released: false, reason: 'why-' + step }; handles.push(active); audits++; sig += 'e' }
      c.eq(auditCount(), audits, 'elevation records'); c.eq(c.clock.hasTimers(), false, 'timer')
    } else if (op === 'badArgs') { for (const [t, x] of [[0, { ttlMs: 5, reason: 'x' }], [-1, { ttlMs: 5, reason: 'x' }], [1.5, { ttlMs: 5, reason: 'x' }], [1, { ttlMs: 0, reason: 'x' }], [1, { ttlMs: -5, reason: 'x' }], [1, { ttlMs: 5, reason: '' }]]) c.ok((await outcome(v.elevate(t, x))).e, 'a meaningless elevation was granted'); c.eq(auditCount(), audits, 'elevation records') }
    else if (op === 'time') await move(c, handles.filter(h => !h.released).map(h => h.at))
    else if (op === 'release' && handles.length) { const h = r.pick(handles); await h.h.release(); if (r.chance(0.3)) await h.h.release(); h.released = true; sig += 'r' }
    else if (op === 'put' && handles.length) {
      const h = r.chance(0.6) ? handles.at(-1) : r.pick(handles), col = r.pick(['docs', 'docs', 'pay', 'plain']), id = r.pick(['seed0', 'seed1', 'n1', 'n2']), before = ref.coll('acme', col)?.get(id), evs = events.length
      failPut = r.chance(0.05)
      const out = await outcome(h.h.collection(col).put(id, { x: step })), w = h.released ? 'dead' : verdict(c.clock.now, h.at), fp = failPut; failPut = false
      const may = tiers[col]?.includes(h.tier) && (boss || (who !== 'viewer' && has.has(`${col}#${h.tier}`) && has.has(col)))
      const after = ref.coll('acme', col)?.get(id)
      if (out.e) { c.eq(after, before, 'a refused elevated write changed the store'); c.eq(events.length, evs, 'a refused elevated write was announced') }
      if (w === 'dead') { c.ok(out.e, () => `an elevated write succeeded ${h.released ? 'after release' : `${c.clock.now - h.at} ms after expiry`}`); c.ok(out.e instanceof hub.ElevationExpiredError, () => `refused with ${out.e}`); h.released = true; no++; c.count('elevation_refusals'); sig += 'x' }
      else if (!may) { c.ok(out.e, () => `${who} with keys [${[...has]}] wrote ${col} at tier ${h.tier}`); no++; c.count('elevation_refusals') }
      else if (w === 'live' && !fp) {
        c.ok(!out.e, () => `an elevated write with ${h.at - c.clock.now} ms left was refused: ${out.e}`); c.eq(after._tier, h.tier, 'tier of the record written through the handle'); c.ok(after._data !== before?._data, 'nothing was written')
        const e = events.slice(evs); c.eq(e.map(x => [x.actor, x.collection, x.id, x.tier, x.authorization, x.op, x.reason]), [[user, col, id, h.tier, 'elevation', 'put', h.reason]], 'announcement of the elevated write'); ok++; c.count('elevated_writes'); sig += 'w'
      } else if (w === 'either' && out.e && !fp) h.released = true
    }
  }
  db.close()
  if (ok && no) c.sig('e' + who + sig)
}

// ---------- PIN and e-mail code: overlapping guesses
async function pins(c) {
  const r = c.rng, k = await keyring(r), right = String(r.int(0, 9999)).padStart(4, '0'), max = r.pick([1, 2, 3, 5]), ttlMs = r.pick([1000, 60000])
  const st = await pin.enrollPin(k, { pin: right, maxAttempts: max, ttlMs }), at = c.clock.now + ttlMs
  let wrong = 0, cleared = false, sig = '' + max, ok = 0, no = 0
  for (let step = 0; step < 9 && !(wrong >= max && step > 6); step++) {
    const op = r.weighted([[8, 'guess'], [2, 'time'], [0.3, 'clear']])
    if (op === 'time') { await move(c, [at]); continue }
    if (op === 'clear') { pin.clearPinState(st); cleared = true; sig += 'C'; continue }
    const n = r.weighted([[4, 1], [2, 2], [2, max], [1, max + 1], [1, 12]]), rightAt = r.chance(0.5) ? r.int(0, n - 1) : -1
    const w = cleared ? 'dead' : verdict(c.clock.now, at), startWrong = wrong
    if (w !== 'either') c.eq(pin.isPinStateValid(st), w === 'live' && wrong < max, 'PIN state validity')
    const guesses = Array.from({ length: n }, (_, i) => i === rightAt ? right : String((Number(right) + 1 + r.int(0, 9990)) % 10000).padStart(4, '0').replace(right, 'zzzz'))
    const outs = await Promise.all(guesses.map(g => outcome(pin.resumePin(st, { pin: g })))); c.count('pin_guesses', n)
    let judged = 0
    for (let i = 0; i < n; i++) {
      const x = outs[i]
      if (x.v) { c.eq(guesses[i], right, 'a wrong PIN was accepted'); c.ok(w !== 'dead', () => cleared ? 'a cleared PIN still works' : `a PIN works ${c.clock.now - at} ms after its window`); c.ok(startWrong + judgedWrongBefore(i) < max, () => `the right PIN was accepted after ${startWrong + judgedWrongBefore(i)} wrong attempts (limit ${max}), ${n} overlapping`); c.eq(view(x.v), view(k), 'keyring behind the PIN'); ok++; sig += 'o' }
      else if (x.e instanceof pin.PinInvalidError) { c.ok(guesses[i] !== right, 'the right PIN was called invalid'); judged++; no++ }
      else no++
      if (w === 'live' && startWrong + n <= max) c.eq(!!x.v, guesses[i] === right, `PIN result with ${startWrong} wrong attempts of ${max} so far: ${x.e}`)
      if (w === 'dead') c.ok(x.e, 'a dead PIN was accepted')
    }
    function judgedWrongBefore(i) { let m = 0; for (let j = 0; j < i; j++) if (guesses[j] !== right) m++; return Math.min(m, n) }
    if (w === 'live') { wrong += judged; c.ok(wrong <= max, () => `${wrong} wrong PINs were tested although only ${max} attempts are allowed (${n} overlapping guesses)`); if (wrong >= max) { c.count('pin_locks'); sig += 'L' } }
  }
  if (ok && no) c.sig('n' + sig)
}
async function codes(c) {
  const r = c.rng, max = r.pick([1, 2, 3, 5]), ttl = r.pick([1, 60, 300]), sent = []
  const { record } = await otp.issue({ email: 'a@b.c', ttlSeconds: ttl, maxAttempts: max, ...(r.chance(0.5) && { digits: r.pick([6, 7, 8]) }), transport: async x => { sent.push(x) } })
  c.eq(sent.length, 1, 'codes sent'); c.ok(/^\d{6,8}$/.test(sent[0].code), 'code format'); c.eq(sent[0].expiresAt, record.expiresAt, 'expiry told to the user')
  c.ok(!JSON.stringify({ ...record, issuedAt: '', expiresAt: '', digest: '', salt: '' }).includes(sent[0].code), 'the stored challenge contains the code')
  const rec = r.chance(0.5) ? JSON.parse(JSON.stringify(record)) : record, at = c.clock.now + ttl * 1000; let calls = 0, sig = '' + max, ok = 0, no = 0
  for (let step = 0; step < 8; step++) {
    if (r.chance(0.25)) { await move(c, [at]); continue }
    const n = r.weighted([[4, 1], [2, 2], [2, max], [1, max + 1], [1, 12]]), right = sent[0].code, w = verdict(c.clock.now, at), start = calls
    const guesses = Array.from({ length: n }, () => r.chance(0.4) ? right : r.chance(0.3) ? r.pick([right + '0', right.slice(1), '', ' ' + right, right.slice(0, -1)]) : String((Number(right) + 1 + r.int(0, 1000)) % 10 ** right.length).padStart(right.length, '0'))
    const outs = await Promise.all(guesses.map(g => otp.verify(g, rec))); c.count('otp_guesses', n)
    for (let i = 0; i < n; i++) {
      const x = outs[i], nth = start + i
      if (x.ok) { c.eq(guesses[i], right, 'a wrong code was accepted'); c.ok(w !== 'dead', () => `a code works ${c.clock.now - at} ms after its expiry`); c.ok(nth < max, () => `attempt ${nth + 1} of ${max} was accepted`); ok++ } else { c.ok(['expired', 'mismatch', 'locked'].includes(x.reason), () => `refusal without reason ${JSON.stringify(x)}`); no++ }
      if (nth < max && w === 'live') c.eq(x.ok, guesses[i] === right, `attempt ${nth + 1} of ${max}: ${JSON.stringify(x)}`)
      if (nth >= max) { c.eq(x.ok, false, 'a locked challenge accepted a code'); c.count('otp_locks') }
      calls++
    }
    sig += `${n}${w[0]}`
  }
  if (ok && no) c.sig('o' + sig)
}

// ---------- expiring bundle seats
async function seats(c) {
  const r = c.rng, { db, v } = await open(instrument(newRef()), { features: ['history'] })
  const cols = ['docs', 'pay'], data = {}
  for (const n of cols) { data[n] = {}; for (let i = r.int(1, 3); i > 0; i--) { data[n]['r' + i] = { n: r.int(0, 999) }; await v.collection(n).put('r' + i, data[n]['r' + i]) } }
  const list = Array.from({ length: r.int(1, 3) }, (_, i) => { const at = r.chance(0.2) ? null : c.clock.now + r.pick([-1000, 500, 60000, 86400e3]); const role = r.pick(['viewer', 'operator', 'client', 'admin']); const perms = Object.fromEntries(r.sample(cols, r.int(1, 2)).map(n => [n, 'ro'])); return { at, role, perms, spec: { id: 'seat' + i, passphrase: `seat pass ${i} long enough`, role, ...(['operator', 'client'].includes(role) && { permissions: perms }), ...(at !== null && { expiresAt: String(untilForm(r, at) instanceof Date ? new Date(at).toISOString() : new Date(at).toISOString()) }) } } })
  const bytes = await hub.writeNoydbBundle(v, { compression: 'none', recipients: list.map(s => s.spec) })
  db.close()
  const { dumpJson } = await hub.readNoydbBundle(bytes), dump = JSON.parse(dumpJson)
  let sig = '', ok = 0, no = 0
  for (let step = 0; step < 6; step++) {
    if (r.chance(0.6)) await move(c, list.map(s => s.at).filter(Boolean))
    const s = r.pick(list), w = s.at === null ? 'live' : verdict(c.clock.now, s.at), ref = newRef()
    for (const [u, f] of Object.entries(dump.keyrings)) ref.coll('acme', '_keyring', true).set(u, { _noydb: 1, _v: 1, _ts: '', _iv: '', _data: JSON.stringify(f) })
    for (const [n, m] of Object.entries(dump.collections)) for (const [id, e] of Object.entries(m)) ref.coll('acme', n, true).set(id, e)
    const badPass = r.chance(0.15), o = await outcome(open(instrument(ref), { features: ['history'], user: s.spec.id, secret: badPass ? 'wrong pass entirely 1' : s.spec.passphrase }))
    if (badPass) { c.ok(o.e, 'a seat opened with a wrong passphrase'); continue }
    if (w === 'live') {
      c.ok(!o.e, () => `a seat with ${s.at === null ? 'no limit' : s.at - c.clock.now + ' ms left'} was refused: ${o.e}`)
      for (const n of cols) { const may = ['viewer', 'admin'].includes(s.role) || n in s.perms; for (const id in data[n]) { const g = await outcome(o.v.v.collection(n).get(id)); if (may) c.eq(g.v, data[n][id], `${s.role} seat reads ${n}`); else c.ok(!g.v, () => `${s.role} seat for [${Object.keys(s.perms)}] read ${n}/${id}`) } }
      ok++; c.count('seat_opens'); sig += 'o' + s.role[0]
    } else if (w === 'dead') { c.ok(o.e, () => `a seat opened ${c.clock.now - s.at} ms after its expiry`); c.ok(o.e instanceof hub.KeyringExpiredError, () => `refused with ${o.e}`); no++; c.count('seat_refusals'); sig += 'x' }
    o.v?.db.close()
  }
  if (ok + no) c.sig('b' + sig)
}

// ---------- developer unlock
async function dev(c) {
  const r = c.rng, mkStore = () => { const m = new Map(); return { m, getItem: k => m.get(k) ?? null, setItem: (k, v) => { m.set(k, String(v)) }, removeItem: k => { m.delete(k) } } }
  const win = { sessionStorage: mkStore(), localStorage: mkStore(), location: { hostname: 'localhost' } }, env = process.env.NODE_ENV, warn = console.warn
  console.warn = () => {}; globalThis.window = win; c.cleanup(() => { delete globalThis.window; console.warn = warn; if (env === undefined) delete process.env.NODE_ENV; else process.env.NODE_ENV = env })
  const ACK = 'I-UNDERSTAND-THIS-DISABLES-UNLOCK-SECURITY', names = ['acme', 'acme:x', 'a', 'x:bob', 'bob', 'acme%3Ax', 'acme:', ':x', '%', ''], model = new Map(), key = (v, u, p) => JSON.stringify([v, u, !!p]); let sig = '', ok = 0, no = 0
  for (let step = 0; step < 30; step++) {
    const v = r.pick(names), u = r.pick(names), p = r.chance(0.4), opt = p ? { persistAcrossTabs: true } : r.chance(0.5) ? { persistAcrossTabs: false } : {}
    const op = r.weighted([[5, 'enable'], [6, 'load'], [2, 'clear'], [3, 'refuse']])
    if (op === 'enable') { process.env.NODE_ENV = r.pick(['test', 'development']); win.location.hostname = r.pick(['localhost', '127.0.0.1', '::1', 'box.local']); const k = await keyring(r, u || 'anon'); await ses.enableDevUnlock(v, u, k, { acknowledge: ACK, ...opt }); model.set(key(v, u, p), view(k)); sig += 'e' }
    else if (op === 'refuse') {
      const how = r.pick(['ack', 'prod', 'host']), before = JSON.stringify([[...win.sessionStorage.m], [...win.localStorage.m]])
      process.env.NODE_ENV = how === 'prod' ? 'production' : 'test'; win.location.hostname = how === 'host' ? r.pick(['app.example.com', 'localhost.evil.com', 'evil-local', '10.0.0.1']) : 'localhost'
      const o = await outcome(ses.enableDevUnlock(v, u, await keyring(r), { acknowledge: how === 'ack' ? r.pick(['', 'yes', ACK.toLowerCase(), ACK + ' ']) : ACK, ...opt })); c.ok(o.e, () => `developer unlock was enabled in spite of ${how}`); c.eq(JSON.stringify([[...win.sessionStorage.m], [...win.localStorage.m]]), before, 'a refused developer unlock stored something'); process.env.NODE_ENV = 'test'; no++
    } else if (op === 'clear') { ses.clearDevUnlock(v, u, opt); model.delete(key(v, u, p)); sig += 'c' }
    else { const got = await ses.loadDevUnlock(v, u, opt), want = model.get(key(v, u, p)); c.eq(ses.isDevUnlockActive(v, u, opt), !!want, 'developer unlock active'); c.eq(got ? view(got) : null, want ?? null, `developer unlock of ${JSON.stringify([v, u])}`); c.count('dev_loads'); if (want) ok++; else no++ }
  }
  if (ok && no) c.sig('v' + sig)
}

const clock = { auto: 0, timers: true }
async function configured(c) { // a policy given when the database is created
  const how = c.i % 3, store = instrument(newRef(), {}); const { db } = await open(store, { features: ['session'], sessionPolicy: how === 0 ? { requireReAuthFor: ['grant'] } : how === 1 ? { idleTimeoutMs: 1000 } : { absoluteTimeoutMs: 1000 } })
  let bad
  if (how === 0) { let err; try { await db.grant('acme', { userId: 'bob', displayName: 'b', role: 'viewer', passphrase: 'correct horse bob' }) } catch (e) { err = e } bad = !err && 'granting access did not ask for the passphrase again although the session policy requires it' }
  else { const v1 = await db.openVault('acme'); await c.clock.tick(5000); const v2 = await db.openVault('acme').catch(() => null); bad = v1 === v2 && `the ${how === 1 ? 'idle' : 'absolute'} limit of the session policy passed and the vault stayed open` }
  db.close(); c.sig(['configured', how]); c.ok(!bad, bad, how === 1 ? undefined : { key: 'session-policy-not-applied' })
}
// ── capability requests: granted for a limited time, approved here or by another session ──
async function capability(c) {
  const r = c.rng; const had = 'window' in globalThis; if (!had) { globalThis.window = {}; c.cleanup(() => { delete globalThis.window }) }
  const role = r.pick(['owner', 'owner', 'admin', 'operator', 'viewer']); const store = instrument(newRef(), { keepLog: false }); let w = await open(store, { features: [] }); await w.v.collection(CAPABILITY_REQUESTS_COLLECTION).put('seed', { id: 'seed' })
  if (role !== 'owner') { await w.db.grant('acme', { userId: 'u', displayName: 'u', role, passphrase: 'pass-of-u-1234', ...(role === 'operator' ? { permissions: { [CAPABILITY_REQUESTS_COLLECTION]: 'rw' } } : {}) }); w = await open(store, { features: [], user: 'u', secret: 'pass-of-u-1234' }) }
  const approver = r.pick(['admin', 'owner', 'operator']); const ttlMs = r.pick([1, 500, 1000, 60_000, 86_400_000]); const log = []; let failGrant = false
  const sc = effectScope(); const g = sc.run(() => useCapabilityGrant('canExport', { ttlMs, approver, reason: 'why', vault: w.v, onGrant: async ({ record }) => { log.push(['grant', record.id]); if (failGrant) throw new Error('no') }, onRelease: async ({ record, cause }) => { log.push([cause, record.id]) } }))
  const settle = () => c.clock.tick(0, { settle: 6 }); const coll = w.v.collection(CAPABILITY_REQUESTS_COLLECTION); const current = async () => (await coll.list()).filter(x => x.capability).sort((a, b) => a.requestedAt < b.requestedAt ? -1 : 1)
  let st = 'idle', until = 0, id = null, skipped = false; const expect = []; const seen = new Set(); let trace = role[0] + approver[0]
  const judge = async what => {
    await settle(); c.eq(g.state.value, st, `after ${what} the request is in another state`); const left = g.timeRemaining.value, due = st === 'granted' ? Math.max(0, until - c.clock.now) : 0; c.ok(skipped || left >= due && left <= (st === 'granted' ? due + 1000 : 0), () => `after ${what} ${left} ms are said to remain instead of ${due}`); c.eq(log, expect, `after ${what} other grants and releases were announced`)
  }
  for (let k = 0; k < r.int(6, 16); k++) {
    const op = r.weighted([[4, 'request'], [4, 'approve'], [2, 'release'], [3, 'wait'], [2, 'other'], [1, 'otherRelease'], [2, 'edge']]); trace += op[0] + op[2]
    if (op === 'request') {
      const e = await g.request().then(() => null, x => x); await settle()
      if (st !== 'idle') c.ok(e, `a request is accepted while ${st}`)
      else if (role === 'viewer') { c.ok(e, 'a viewer stores a request'); }
      else { c.ok(!e, () => `a request is refused: ${e}`); const l = (await current()).filter(x => !seen.has(x.id)); c.eq(l.length, 1, 'a request stores another number of records'); id = l[0].id; seen.add(id); c.eq([l[0].status, l[0].capability, l[0].approverRole, l[0].ttlMs, l[0].reason, l[0].requestedBy], ['requested', 'canExport', approver, ttlMs, 'why', role === 'owner' ? 'alice' : 'u'], 'the stored request'); st = 'requested' }
    } else if (op === 'approve') {
      const e = await g.approve().then(() => null, x => x); const may = role === 'owner' || role === approver
      if (st !== 'requested' || !may) { c.ok(e, `approval by ${role} for ${approver} while ${st} is accepted`); c.count('capability_refusals') }
      else { c.ok(!e, () => `approval is refused: ${e}`); st = 'granted'; until = c.clock.now + ttlMs; expect.push(['grant', id]); c.count('capability_grants'); const x = await coll.get(id); c.eq([x.status, x.approvedBy, Date.parse(x.expiresAt)], ['granted', role === 'owner' ? 'alice' : 'u', until], 'the stored grant') }
    } else if (op === 'release') {
      await g.release(); if (st === 'granted') { st = 'idle'; expect.push(['released', id]); c.count('capability_ends'); c.eq((await coll.get(id)).status, 'released', 'the stored release') }
    } else if (op === 'other' && st === 'requested') { // another session approves, seen as a change of the stored request
      const x = await coll.get(id); until = c.clock.now + ttlMs; await coll.put(id, { ...x, status: 'granted', approvedBy: 'boss', approvedAt: new Date().toISOString(), expiresAt: new Date(until).toISOString() }); st = 'granted'; c.count('capability_grants'); c.count('capability_remote')
    } else if (op === 'otherRelease' && st === 'granted') {
      const x = await coll.get(id); await coll.put(id, { ...x, status: 'released' }); st = 'idle'; c.count('capability_remote')
    } else if (op === 'wait' || op === 'edge') {
      const d = st === 'granted' ? until - c.clock.now : ttlMs; const ms = op === 'edge' ? Math.max(0, d - 1) : r.pick([1, d, d + 1, Math.floor(d / 2)]); if (ms > 3_000_000) skipped = true, c.clock.set(c.clock.now + ms - 5000) // skip the seconds in between
      await c.clock.tick(Math.min(ms, ms > 3_000_000 ? 5000 : ms), { settle: 2 }); if (st === 'granted' && c.clock.now >= until) { st = 'idle'; expect.push(['expired', id]); c.count('capability_ends') }
    }
    await judge(op)
  }
  sc.stop(); const n = log.length; await c.clock.tick(ttlMs > 3_000_000 ? 1 : ttlMs + 1, { settle: 2 }); c.eq(log.length, n, 'a request whose owner is gone still announces its end'); c.ok(!c.clock.hasTimers(), 'a request whose owner is gone still has timers')
  c.sig(`cap:${trace}`)
}

export const scenarios = [
  { name: 'configured', quick: 3, run: configured, clock },
  { name: 'sessions', quick: 3200, thorough: 8000, run: sessions, clock },
  { name: 'policy', quick: 1500, thorough: 9000, run: policy, clock },
  { name: 'policyInput', quick: 60, thorough: 300, run: policyInput, clock },
  { name: 'delegations', quick: 2400, thorough: 8000, run: delegations, clock },
  { name: 'links', quick: 700, thorough: 4000, run: links, clock },
  { name: 'elevation', quick: 2400, thorough: 6000, run: elevation, clock },
  { name: 'pins', quick: 1500, thorough: 9000, run: pins, clock },
  { name: 'codes', quick: 1500, thorough: 9000, run: codes, clock },
  { name: 'seats', quick: 400, thorough: 2500, run: seats, clock },
  { name: 'capability', quick: 4000, thorough: 20000, run: capability, clock },
  { name: 'dev', quick: 500, thorough: 3000, run: dev, clock },
]
