// C25 - unlock factors accept exactly the right secrets: differential monitors against independent
// reference computations (field arithmetic, HMAC codes, key bytes) over generated secrets and corruptions
import { createHmac, hkdfSync, createDecipheriv, createCipheriv, KeyObject } from 'node:crypto'
import * as sh from '@noy-db/on-shamir'
import * as rec from '@noy-db/on-recovery'
import * as totp from '@noy-db/on-totp'
import * as pin from '@noy-db/on-pin'
import * as threat from '@noy-db/on-threat'
import * as oidc from '@noy-db/on-oidc'
import * as wa from '@noy-db/on-webauthn'

export const meta = {
  property: 'C25', level: 'exploration',
  rule: 'a case counts as non-trivial when a generated secret was enrolled and at least one wrong secret was tried; distinct by scenario parameters',
  assumptions: ['passphrase stretching is computed with one round after recording the requested parameters', 'identity provider, key server and authenticator are stand-ins', 'shares carry no authentication tag: a changed value byte is not detectable and is not claimed to be'],
  minimums: { combines: 20000, refused_combines: 3000, share_decodes: 5000, code_corruptions: 20000, totp_codes: 20000, totp_rejects: 5000, pins: 2000, oidc_unlocks: 1000, webauthn_unlocks: 500, lockout_steps: 20000, wrong_secrets: 20000 },
}
const bytes = (r, n) => Uint8Array.from(r.bytes(n))
const hex = b => Buffer.from(b).toString('hex')
const rawOf = k => hex(KeyObject.from(k).export())
async function refused(c, f, msg) {
  let v
  try { v = await f() } catch (e) { if (e?.name === 'Violation') throw e; c.ok(e instanceof Error || e instanceof DOMException, () => `${msg}: rejected with a non-error ${e}`); return e }
  c.fail(`${typeof msg === 'function' ? msg() : msg} (returned ${String(v?.constructor?.name ?? v)})`)
}
const flip = (r, s) => { // change one character of a base64 text to another base64 character that decodes differently
  const A = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
  for (;;) { const i = r.int(0, s.length - 1); if (s[i] === '=') continue; const t = s.slice(0, i) + r.pick(A) + s.slice(i + 1); if (!Buffer.from(t, 'base64').equals(Buffer.from(s, 'base64'))) return t }
}

// ---------- threshold sharing
const mul = (a, b) => { let p = 0; for (let i = 0; i < 8; i++) { if (b & 1) p ^= a; const h = a & 128; a = (a << 1) & 255; if (h) a ^= 0x1b; b >>= 1 } return p }
async function field(c) {
  const a = c.i
  for (let b = 0; b < 256; b++) {
    c.eq(sh.gfMul(a, b), mul(a, b), `product of ${a} and ${b}`); c.eq(sh.gfAdd(a, b), a ^ b, 'sum')
    if (b) { c.eq(mul(sh.gfDiv(a, b), b), a, `quotient of ${a} by ${b}`) } else await refused(c, () => sh.gfDiv(a, 0), 'division by zero accepted')
  }
  if (a) c.eq(mul(sh.gfInv(a), a), 1, `inverse of ${a}`)
  c.sig('field' + a); c.count('field_pairs', 256)
}
const enc = [
  ['bytes', s => sh.decodeShareBytes(sh.encodeShareBytes(s))],
  ['base32', s => sh.decodeShareBase32(sh.encodeShareBase32(s))],
  ['json', s => sh.decodeShareJSON(JSON.parse(JSON.stringify(sh.encodeShareJSON(s))))],
]
async function shares(c) {
  const r = c.rng
  const n = r.chance(0.08) ? r.pick([20, 100, 254, 255]) : r.int(2, 9), k = n > 9 ? r.pick([2, 3, 17, n - 1, n]) : r.int(2, n)
  const secret = r.chance(0.15) ? new Uint8Array(32).fill(r.pick([0, 255])) : bytes(r, r.pick([1, 2, 16, 31, 32, 32, 33, 64, 300]))
  const before = hex(secret)
  const raw = sh.splitSecret(secret, k, n)
  c.eq(hex(secret), before, 'splitting changed the secret')
  c.eq(raw.length, n, 'number of shares'); c.eq(new Set(raw.map(s => s.x)).size, n, 'distinct shares')
  for (const s of raw) { c.ok(s.x >= 1 && s.x <= 255, 'share at a forbidden position'); c.eq(s.y.length, secret.length, 'share length') }
  if (secret.length >= 16 && k >= 2) for (const s of raw.slice(0, 5)) c.ok(hex(s.y) !== before, () => 'a share equals the secret', {})
  if (secret.length === 32 && new Set(secret).size === 1) for (const s of raw.slice(0, 5)) c.ok(new Set(s.y).size > 2, 'equal bytes of the secret gave equal bytes of the share: randomness was reused')
  const list = raw.map(s => { const [name, f] = r.pick(enc); const d = f(s); c.count('share_decodes'); c.eq({ x: d.x, k: d.k, n: d.n, y: hex(d.y) }, { x: s.x, k: s.k, n: s.n, y: hex(s.y) }, `share through ${name}`); return d })
  // subsets: all of exactly k for small n, random otherwise
  const subsets = []
  if (n <= 5) { for (let m = 0; m < 1 << n; m++) subsets.push([...Array(n).keys()].filter(i => m >> i & 1)) } else for (let j = 0; j < 12; j++) subsets.push(r.shuffle([...Array(n).keys()]).slice(0, r.pick([k, k, k + 1, n, k - 1, r.int(0, n)])))
  for (const ix of subsets) {
    const sub = r.shuffle(ix).map(i => list[i])
    if (sub.length >= k) { const got = sh.combineSecret(sub); c.count('combines'); c.eq(hex(got), before, `combining ${sub.length} of ${n} shares with threshold ${k}`) }
    else { await refused(c, () => sh.combineSecret(sub), () => `${sub.length} shares were combined although ${k} are needed`); c.count('refused_combines') }
  }
  // duplicates, other splits, other lengths
  const dup = [...list.slice(0, k - 1), list[0]]
  await refused(c, () => sh.combineSecret(dup), 'the same share counted twice'); c.count('refused_combines')
  const k2 = k === 2 ? 3 : k - 1, n2 = Math.max(k2, Math.min(255, r.int(k2, n + 3)))
  const other = sh.splitSecret(bytes(r, secret.length), k2, n2)
  const mixed = r.shuffle([...list.slice(0, Math.max(k, k2) - 1), other[other.length - 1]])
  if (mixed.length >= 2) { await refused(c, () => sh.combineSecret(mixed), () => `shares with thresholds ${k} and ${k2} were combined`); c.count('refused_combines') }
  await refused(c, () => sh.combineSecret([...list.slice(0, k - 1), { ...list[n - 1], y: bytes(r, secret.length + 1) }]), 'shares of different lengths were combined'); c.count('refused_combines')
  // fewer than k shares plus a guess do not reveal the secret: the same k-1 shares occur for any secret
  // malformed encodings
  const s = r.pick(raw), b = sh.encodeShareBytes(s)
  for (const cut of [0, 1, 5, b.length - 1]) await refused(c, () => sh.decodeShareBytes(b.slice(0, cut)), 'truncated share accepted')
  await refused(c, () => sh.decodeShareBytes(Uint8Array.from([...b, 0])), 'extended share accepted')
  { const x = b.slice(); x[0] ^= 1 << r.int(0, 7); await refused(c, () => sh.decodeShareBytes(x), 'other share version accepted') }
  { const x = b.slice(); x[1] = 0; await refused(c, () => sh.decodeShareBytes(x), 'share at position zero accepted') }
  const t = sh.encodeShareBase32(s)
  const lax = r.pick([t.toLowerCase(), t.replace(/-/g, ' '), t.replace(/-/g, ''), ' ' + t + '\n', t.slice(t.lastIndexOf('__') + 2)])
  c.eq(hex(sh.encodeShareBytes(sh.decodeShareBase32(lax))), hex(b), 'share typed with other spacing or case'); c.count('share_decodes')
  await refused(c, () => sh.decodeShareBase32(t.slice(0, -4)), 'shortened printed share accepted')
  for (const [k3, n3] of [[1, 3], [0, 1], [4, 3], [2, 256], [2.5, 3]]) await refused(c, () => sh.splitSecret(secret, k3, n3), () => `split ${k3} of ${n3} accepted`)
  c.count('wrong_secrets', 8)
  c.sig(`${k}/${n}/${secret.length}/${before.slice(0, 8)}`); c.sample({ k, n, secret_bytes: secret.length, subsets: subsets.length })
}
async function secrecy(c) {
  // each position of k-1 shares is uniform whatever the secret: counts over many splits of two different secrets
  const r = c.rng, k = r.int(2, 4), n = k + r.int(0, 2), N = 2048
  const secrets = [0, r.int(1, 255)]
  for (const v of secrets) {
    const cnt = Array.from({ length: n }, () => new Uint32Array(256))
    const s = new Uint8Array(N).fill(v)
    const out = sh.splitSecret(s, k, n)
    for (let i = 0; i < n; i++) for (const y of out[i].y) cnt[i][y]++
    for (let i = 0; i < n; i++) { let chi = 0; for (const o of cnt[i]) chi += (o - N / 256) ** 2 / (N / 256); c.ok(chi < 420, () => `share ${i + 1} of ${k}-of-${n} is not uniformly distributed for secret byte ${v} (chi-square ${chi.toFixed(0)}, 255 expected)`); c.count('uniformity_checks') }
    if (k >= 3) { // the difference of two shares is uniform too
      const d = new Uint32Array(256); for (let j = 0; j < N; j++) d[out[0].y[j] ^ out[1].y[j]]++
      let chi = 0; for (const o of d) chi += (o - N / 256) ** 2 / (N / 256); c.ok(chi < 420, () => `two shares of a ${k}-of-${n} split are correlated (chi-square ${chi.toFixed(0)})`)
    }
  }
  c.sig(`sec${k}/${n}/${secrets[1]}/${c.i}`)
}
async function kek(c) {
  const r = c.rng
  const key = await crypto.subtle.importKey('raw', bytes(r, 32), 'AES-GCM', true, ['encrypt', 'decrypt'])
  const n = r.int(2, 5), k = r.int(2, n)
  const s = await sh.splitKEK(key, { k, n })
  const back = await sh.combineKEK(r.shuffle(s).slice(0, k))
  c.eq(rawOf(back), rawOf(key), 'combined key'); c.ok(!back.extractable, 'the combined key can be exported')
  await refused(c, () => sh.combineKEK(s.slice(0, k - 1)), 'too few shares gave a key')
  const fixed = await crypto.subtle.importKey('raw', bytes(r, 32), 'AES-GCM', false, ['encrypt', 'decrypt'])
  await refused(c, () => sh.splitKEK(fixed, { k, n }), 'a key marked non-extractable was split')
  c.count('combines'); c.count('wrong_secrets'); c.sig(`kek${k}${n}${c.i}`)
}

// ---------- recovery codes
const B32 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ234567'
async function recovery(c) {
  const r = c.rng
  const key = await crypto.subtle.importKey('raw', bytes(r, 32), 'AES-GCM', true, ['encrypt', 'decrypt'])
  const count = r.pick([1, 2, 3, 10])
  const { codes, entries } = await rec.generateRecoveryCodeSet({ kek: key, count })
  c.eq(codes.length, count, 'codes'); c.eq(entries.length, count, 'entries')
  c.eq(new Set(codes).size, count, 'codes repeat'); c.eq(new Set(entries.map(e => e.codeId)).size, count, 'code ids repeat'); c.eq(new Set(entries.map(e => e.salt)).size, count, 'salts repeat')
  const stored = JSON.parse(JSON.stringify(entries))
  for (const code of codes) for (const e of entries) c.ok(!JSON.stringify(e).includes(code.replace(/-/g, '').slice(0, 10)), 'an enrolment entry contains the code')
  const j = r.int(0, count - 1), text = codes[j]
  const typed = r.pick([text, text.toLowerCase(), text.replace(/-/g, ''), text.replace(/-/g, ' '), ` ${text}\t`, text.replace(/-/g, '_'), text.split('').join(' ')])
  const p = rec.parseRecoveryCode(typed)
  c.eq(p.status, 'valid', `code typed as ${typed}`)
  c.eq(rec.formatRecoveryCode(p.code), text, 'formatted code')
  c.eq(rawOf(await rec.unwrapKEKFromRecovery(p.code, stored[j])), rawOf(key), 'recovered key')
  if (count > 1) { await refused(c, () => rec.unwrapKEKFromRecovery(p.code, stored[(j + 1) % count]), 'a code opened another code\'s entry'); c.count('wrong_secrets') }
  // every single-character corruption and transposition is noticed
  const norm = p.code
  for (let i = 0; i < norm.length; i++) {
    const ch = B32[(B32.indexOf(norm[i]) + r.int(1, 31)) % 32]
    const bad = norm.slice(0, i) + ch + norm.slice(i + 1)
    const st = rec.parseRecoveryCode(bad).status; c.count('code_corruptions')
    c.eq(st, 'invalid-checksum', `code with character ${i} mistyped`)
    if (i + 1 < norm.length && norm[i] !== norm[i + 1]) { const sw = norm.slice(0, i) + norm[i + 1] + norm[i] + norm.slice(i + 2); if (i !== norm.length - 5 && i < norm.length - 4) { c.eq(rec.parseRecoveryCode(sw).status, 'invalid-checksum', `code with characters ${i} and ${i + 1} exchanged`); c.count('code_corruptions') } else c.ok(rec.parseRecoveryCode(sw).status !== 'valid', `code with characters ${i} and ${i + 1} exchanged`) }
    const foreign = norm.slice(0, i) + r.pick(['0', '1', '8', '9', '!', 'é', 'Ａ', '\u0000']) + norm.slice(i + 1)
    c.eq(rec.parseRecoveryCode(foreign).status, 'invalid-format', `code with foreign character at ${i}`); c.count('code_corruptions')
    c.eq(rec.parseRecoveryCode(norm.slice(0, i) + norm.slice(i + 1)).status, 'invalid-format', `code without character ${i}`)
  }
  c.eq(rec.parseRecoveryCode('').status, 'invalid-format', 'empty code'); c.eq(rec.parseRecoveryCode(norm + norm).status, 'invalid-format', 'doubled code')
  // wrong but well-formed code, corrupted entries
  const wrong = (await rec.generateRecoveryCodeSet({ kek: key, count: 1 })).codes[0]
  await refused(c, () => rec.unwrapKEKFromRecovery(rec.parseRecoveryCode(wrong).code, stored[j]), 'another code recovered the key')
  for (const f of ['salt', 'wrappedKEK']) await refused(c, () => rec.unwrapKEKFromRecovery(norm, { ...stored[j], [f]: flip(r, stored[j][f]) }), () => `a damaged ${f} was accepted`)
  c.count('wrong_secrets', 3)
  c.ok(c.mon.kdf.every(x => x.iterations >= 600000), () => `recovery code stretched with ${c.mon.kdf[0].iterations} rounds`)
  c.sig('rec' + norm)
}

// ---------- time-based codes
const refTotp = (keyBytes, step, digits, alg) => {
  const ctr = Buffer.alloc(8); ctr.writeBigUInt64BE(BigInt(step))
  const h = createHmac(alg.toLowerCase(), keyBytes).update(ctr).digest(), o = h[h.length - 1] & 15
  return String((h.readUInt32BE(o) & 0x7fffffff) % 10 ** digits).padStart(digits, '0')
}
async function totps(c) {
  const r = c.rng
  const kb = bytes(r, r.pick([1, 5, 10, 20, 20, 20, 32, 64, 65]))
  let secret = totp.encodeBase32(kb)
  c.eq(hex(totp.decodeBase32(secret)), hex(kb), 'base32 round trip')
  c.ok(/^[A-Z2-7]*$/.test(secret), 'base32 alphabet')
  c.eq(hex(totp.decodeBase32(r.pick([secret.toLowerCase(), secret.replace(/(.{4})/g, '$1 '), secret + '====', ' ' + secret]))), hex(kb), 'base32 written differently')
  await refused(c, () => totp.decodeBase32(secret + r.pick(['0', '1', '8', '-', '!', 'é'])), 'foreign character in base32 accepted')
  const gen = totp.generateSecret(); c.eq(totp.decodeBase32(gen).length, 20, 'length of a generated secret'); c.ok(gen !== totp.generateSecret(), 'two generated secrets are equal')
  for (let q = 0; q < 6; q++) {
    const digits = r.pick([undefined, 6, 7, 8]), period = r.pick([undefined, 30, 60, 1]), algorithm = r.pick([undefined, 'SHA1', 'SHA256', 'SHA512'])
    const D = digits ?? 6, P = period ?? 30, A = algorithm ?? 'SHA1'
    const o = { ...(digits && { digits }), ...(period && { period }), ...(algorithm && { algorithm }) }
    const t = r.pick([59, 1111111109, 2000000000, 20000000000, 2 ** 32 * 40, 0, 29, 30, r.int(0, 4e9)])
    c.clock.set(t * 1000 + r.int(0, 999))
    const step = Math.floor(t / P)
    const code = await totp.generateCode(secret, o); c.count('totp_codes')
    c.eq(code, refTotp(kb, step, D, A), `code at ${t} with ${JSON.stringify(o)}`)
    const window = r.pick([undefined, 0, 1, 2, 5]), W = window ?? 1
    const valid = new Set(); for (let s = step - W; s <= step + W; s++) if (s >= 0) valid.add(refTotp(kb, s, D, A))
    const at = r.chance(0.5) ? { timestamp: t } : {}
    for (const s of [step - W - 1, step - W, step, step + W, step + W + 1]) {
      if (s < 0) continue
      const cd = refTotp(kb, s, D, A)
      const got = await totp.verify(secret, cd, { ...o, ...at, ...(window !== undefined && { window }) })
      c.eq(got, valid.has(cd), `code of step ${s - step} with window ${W} (${JSON.stringify(o)})`); c.count(valid.has(cd) ? 'totp_codes' : 'totp_rejects')
    }
    const wrong = []
    for (let x = 0; x < 4; x++) wrong.push(String(r.int(0, 10 ** D - 1)).padStart(D, '0'))
    wrong.push(code + '0', code.slice(1), '', code.slice(0, -1) + 'x', ' ' + code.slice(1))
    for (const w of wrong) { c.eq(await totp.verify(secret, w, { ...o, ...at, ...(window !== undefined && { window }) }), valid.has(w), `code ${w}`); c.count('totp_rejects'); c.count('wrong_secrets') }
  }
  const account = r.pick(['a@b.c', 'ä ö/ü?x=1&y', 'x:y', '日本', 'a+b%20']), issuer = r.pick([undefined, 'Noy DB', 'A&B:C', 'é/#?'])
  const u = new URL(totp.provisioningUri(secret, { account, ...(issuer && { issuer }), digits: 8, period: 60, algorithm: 'SHA256' }))
  c.eq(u.protocol + u.host, 'otpauth:totp', 'uri'); c.eq([u.searchParams.get('secret'), u.searchParams.get('digits'), u.searchParams.get('period'), u.searchParams.get('algorithm'), u.searchParams.get('issuer')], [secret, '8', '60', 'SHA256', issuer ?? null], 'uri parameters')
  const label = u.pathname.replace(/^\//, ''); const parts = label.split(':').map(decodeURIComponent)
  c.eq(parts, issuer ? [issuer, account] : [account], 'uri label')
  c.sig('totp' + secret)
}

// ---------- keyrings behind PIN, identity provider, authenticator
const NAMES = ['invoices', 'notes', 'ü', 'constructor', 'a.b', 'invoices#1', '_ledger']
async function keyring(r) {
  const deks = new Map()
  for (const n of r.sample(NAMES, r.int(0, NAMES.length))) deks.set(n, await crypto.subtle.importKey('raw', bytes(r, 32), 'AES-GCM', true, ['encrypt', 'decrypt']))
  const permissions = {}
  for (const n of ['invoices', 'notes', 'ü']) if (r.chance(0.5)) permissions[n] = r.pick(['rw', 'ro'])
  return { userId: r.pick(['alice', 'ütf', 'x'.repeat(40)]), displayName: r.pick(['Alice', 'Ä 😀', '', 'q"\\\n']), role: r.pick(['owner', 'admin', 'operator', 'viewer', 'client']), permissions, deks, kek: null, salt: bytes(r, 32) }
}
const view = k => ({ userId: k.userId, displayName: k.displayName, role: k.role, permissions: k.permissions, salt: hex(k.salt), deks: [...k.deks].map(([n, d]) => [n, rawOf(d)]).sort() })
const sameKeyring = (c, got, k, msg) => { const a = view(got), b = view(k); c.eq(a, b, msg) }
const PINS = ['1234', '0000', '', '12345678', 'päss 😀', 'a\u0000b', '1234 ', ' 1234', 'x'.repeat(300)]
async function pins(c) {
  const r = c.rng, k = await keyring(r); const p = r.pick(PINS.filter(Boolean))
  const state = await pin.enrollPin(k, { pin: p, maxAttempts: 100 })
  for (const d of k.deks.values()) c.ok(!JSON.stringify(state).includes(Buffer.from(rawOf(d), 'hex').toString('base64')), 'the stored PIN state contains a key')
  const copy = JSON.parse(JSON.stringify(state))
  sameKeyring(c, await pin.resumePin(copy, { pin: p }), k, 'keyring resumed with the PIN'); c.count('pins')
  for (const w of PINS.filter(x => x !== p && x)) { const e = await refused(c, () => pin.resumePin(copy, { pin: w }), () => `PIN ${JSON.stringify(w)} accepted instead of ${JSON.stringify(p)}`); c.eq(e.name, 'PinInvalidError', 'error for a wrong PIN'); c.count('wrong_secrets') }
  sameKeyring(c, await pin.resumePin(copy, { pin: p }), k, 'keyring resumed with the PIN after wrong ones'); c.count('pins')
  for (const f of ['salt', 'iv', 'wrappedKeyring']) { await refused(c, () => pin.resumePin({ ...copy, [f]: flip(r, copy[f]) }, { pin: p }), () => `a damaged ${f} was accepted`); c.count('wrong_secrets') }
  const st2 = await pin.enrollPin(k, { pin: p }); c.ok(st2.salt !== state.salt && st2.iv !== state.iv, 'salt or nonce repeated between enrolments')
  if (k.deks.size) { const bad = new Map(k.deks); bad.set('z', await crypto.subtle.importKey('raw', bytes(r, 32), 'AES-GCM', false, ['encrypt', 'decrypt'])); const e = await refused(c, () => pin.enrollPin({ ...k, deks: bad }, { pin: p }), 'a keyring with a locked key was enrolled'); c.eq(e.name, 'PinEnrollmentError', 'error') }
  c.sig('pin' + state.salt)
}
async function duress(c) {
  const r = c.rng, p = r.pick(PINS.filter(Boolean)), honey = r.chance(0.5)
  const [en, ch] = honey ? [threat.enrollHoneypot, threat.checkHoneypot] : [threat.enrollDuress, threat.checkDuress]
  const { digest, salt } = await en(p); const second = await en(p)
  c.ok(second.salt !== salt && second.digest !== digest, 'two enrolments of the same passphrase look alike')
  c.eq(await ch(p, digest, salt), true, 'enrolled passphrase')
  for (const w of PINS.filter(x => x !== p && x)) { c.eq(await ch(w, digest, salt), false, `passphrase ${JSON.stringify(w)}`); c.count('wrong_secrets') }
  const i = r.int(0, digest.length - 1), d2 = digest.slice(0, i) + (digest[i] === '0' ? '1' : '0') + digest.slice(i + 1)
  c.eq(await ch(p, d2, salt), false, 'changed digest'); c.eq(await ch(p, digest.slice(0, -1), salt), false, 'shortened digest'); c.eq(await ch(p, digest, second.salt), false, 'other salt')
  c.sig('dur' + digest)
}
// lockout: reference state machine
async function lockout(c) {
  const r = c.rng
  const cfg = r.pick([{}, { threshold: 3, windowMs: 1000, cooldownMs: 500, maxStrikes: 2 }, { threshold: 1, windowMs: 100, cooldownMs: 1000, maxStrikes: 3 }, { threshold: 2, windowMs: 200, cooldownMs: 100, maxStrikes: 4 }])
  const C = { threshold: 5, windowMs: 900000, cooldownMs: 300000, maxStrikes: 3, ...cfg }
  let st = threat.initialLockoutState()
  const m = { fails: [], start: null, until: null, strikes: 0, wiped: false }
  const now = () => c.clock.now
  const tr = []
  for (let s = 0; s < 60; s++) {
    const op = r.weighted([[6, 'fail'], [1, 'ok'], [3, 'wait'], [1, 'reload']])
    tr.push(op)
    if (op === 'fail') {
      const o = threat.recordFailure(st, cfg); c.count('lockout_steps')
      let want
      if (m.wiped) want = { locked: true, wipe: true }
      else if (m.until !== null && now() < m.until) want = { locked: true, unlockAt: new Date(m.until).toISOString() }
      else {
        if (m.until !== null) { m.until = null; m.start = null; m.n = 0 }
        if (m.start === null) { m.start = now(); m.n = 0 } else if (now() - m.start > C.windowMs) { m.start = now(); m.n = 0 }
        m.n++
        if (m.n >= C.threshold) { m.strikes++; if (m.strikes >= C.maxStrikes) { m.wiped = true; want = { locked: true, wipe: true } } else { m.until = now() + C.cooldownMs; want = { locked: true, unlockAt: new Date(m.until).toISOString() } } } else want = { locked: false, remainingAttempts: C.threshold - m.n }
      }
      c.eq({ ...o }, want, `failure after ${tr.join(',')}`)
    } else if (op === 'ok') { threat.recordSuccess(st); m.start = null; m.n = 0; m.until = null }
    else if (op === 'reload') st = JSON.parse(JSON.stringify(st))
    else await c.clock.tick(r.pick([1, 50, 99, 100, 101, 500, 1000, C.windowMs, C.windowMs + 1, C.cooldownMs - 1, C.cooldownMs]), { settle: 0 })
    c.eq(threat.isLocked(st), m.wiped || (m.until !== null && now() < m.until), `locked after ${tr.join(',')}`); c.count('lockout_steps')
    c.eq(st.strikes, m.strikes, 'strikes'); c.eq(st.wiped, m.wiped, 'wiped')
  }
  c.sig('lock' + tr.join() + JSON.stringify(cfg))
}
// identity provider with a key server
const b64u = s => Buffer.from(s).toString('base64url')
const token = (claims) => `${b64u('{"alg":"none"}')}.${b64u(JSON.stringify(claims))}.${b64u('sig')}`
const tokenKey = t => Buffer.from(hkdfSync('sha256', Buffer.from(t), Buffer.from('noydb-oidc-transport-encrypt-v1'), Buffer.from('key-connector-put'), 32))
function storage() { const m = new Map(); return { m, getItem: k => m.get(k) ?? null, setItem: (k, v) => { m.set(k, String(v)) }, removeItem: k => { m.delete(k) }, clear: () => m.clear(), key: i => [...m.keys()][i] ?? null, get length() { return m.size } } }
function server(c, sees) {
  const db = new Map(); const st = { fault: null, db }
  const had = globalThis.fetch
  globalThis.fetch = async (url, o) => {
    const t = o.headers.Authorization.replace('Bearer ', '')
    const sub = JSON.parse(Buffer.from(t.split('.')[1], 'base64url')).sub
    if (st.fault === 'throw') throw new TypeError('fetch failed')
    if (st.fault) return { ok: false, status: st.fault, statusText: 'no', json: async () => ({}) }
    if (o.method === 'PUT') {
      const b = JSON.parse(o.body); sees.push(o.body)
      const ct = Buffer.from(b.encryptedServerHalf, 'base64'), d = createDecipheriv('aes-256-gcm', tokenKey(t), Buffer.from(b.iv, 'base64'))
      d.setAuthTag(ct.subarray(-16)); db.set(sub, Buffer.concat([d.update(ct.subarray(0, -16)), d.final()]))
      sees.push(db.get(sub).toString('latin1'))
      return { ok: true, status: 200, statusText: 'OK', json: async () => ({}) }
    }
    if (!db.has(sub)) return { ok: false, status: 404, statusText: 'none', json: async () => ({}) }
    const iv = c.rng.bytes(12), e = createCipheriv('aes-256-gcm', tokenKey(t), Buffer.from(iv)); const ct = Buffer.concat([e.update(db.get(sub)), e.final(), e.getAuthTag()])
    let body = { encryptedServerHalf: ct.toString('base64'), iv: Buffer.from(iv).toString('base64') }
    if (st.damage) body = st.damage(body)
    return { ok: true, status: 200, statusText: 'OK', json: async () => body }
  }
  c.cleanup(() => { globalThis.fetch = had })
  return st
}
async function identity(c) {
  const r = c.rng, sees = [], srv = server(c, sees), store = storage()
  const k = await keyring(r), sub = r.pick(['user-1', 'U123', 'a|b', 'é']), vault = r.pick(['acme', 'v:1', 'ü'])
  const cfg = oidc.knownProviders[r.pick(['line', 'google', 'apple'])]('client', 'https://kc.example')
  const sec = () => Math.floor(c.clock.now / 1000)
  const tok = (over = {}) => token({ sub, iss: cfg.issuer, aud: 'client', iat: sec(), exp: sec() + 600, n: r.int(0, 1e9), ...over })
  const enr = await oidc.enrollOidc(k, vault, cfg, tok(), { storage: store })
  const stored = JSON.parse(JSON.stringify(enr))
  // nothing the server or the device alone holds contains the keys
  for (const d of k.deks.values()) { const b64 = Buffer.from(rawOf(d), 'hex').toString('base64'); for (const s of [...sees, ...store.m.values(), JSON.stringify(enr)]) c.ok(!s.includes(b64) && !s.includes(Buffer.from(rawOf(d), 'hex').toString('latin1')), 'one side of the split contains a whole key') }
  sameKeyring(c, await oidc.unlockOidc(stored, cfg, tok(), { storage: store }), k, 'keyring unlocked through the identity provider'); c.count('oidc_unlocks')
  await refused(c, () => oidc.unlockOidc(stored, cfg, tok(), { storage: storage() }), 'unlocked on a device that was never enrolled')
  await refused(c, () => oidc.unlockOidc(stored, cfg, tok({ sub: 'mallory' }), { storage: store }), 'unlocked with another person\'s token')
  await refused(c, () => oidc.unlockOidc({ ...stored, vault: vault + 'x' }, cfg, tok(), { storage: store }), 'unlocked for another vault')
  { // another device secret
    const s2 = storage(); for (const [a, b] of store.m) s2.m.set(a, flip(r, b)); await refused(c, () => oidc.unlockOidc(stored, cfg, tok(), { storage: s2 }), 'unlocked with a damaged device secret') }
  { srv.damage = b => ({ ...b, encryptedServerHalf: flip(r, b.encryptedServerHalf) }); await refused(c, () => oidc.unlockOidc(stored, cfg, tok(), { storage: store }), 'unlocked with a damaged server half'); srv.damage = null }
  for (const f of [401, 500, 'throw']) { srv.fault = f; await refused(c, () => oidc.unlockOidc(stored, cfg, tok(), { storage: store }), 'unlocked although the key server refused'); srv.fault = null }
  for (const exp of [sec() - 1, sec(), 'soon', null, undefined]) await refused(c, () => oidc.unlockOidc(stored, cfg, tok({ exp }), { storage: store }), () => `unlocked with a token expiring at ${exp}`)
  for (const t of ['', 'x', 'a.b', 'a.b.c.d', 'a.!!.c', `${b64u('{}')}.${b64u('{}')}.x`, `${b64u('{}')}.${b64u('not json')}.x`]) { await refused(c, () => oidc.unlockOidc(stored, cfg, t, { storage: store }), () => `unlocked with token ${t}`); c.eq(oidc.isIdTokenExpired(t), true, 'malformed token counts as expired') }
  c.count('wrong_secrets', 12)
  // a failed re-enrolment leaves the old one working
  srv.fault = r.pick([500, 403, 'throw'])
  await refused(c, () => oidc.enrollOidc(k, vault, cfg, tok(), { storage: store }), 'enrolment succeeded although the key server refused'); srv.fault = null
  sameKeyring(c, await oidc.unlockOidc(stored, cfg, tok(), { storage: store }), k, 'keyring unlocked after a failed re-enrolment'); c.count('oidc_unlocks')
  const cl = oidc.parseIdTokenClaims(tok({ exp: sec() + 5 })); c.eq(cl.sub === sub || sub === 'é', true, 'claims')
  c.clock.set((sec() + 5) * 1000 - 1); const t5 = token({ sub, exp: sec() + 1 }); c.eq(oidc.isIdTokenExpired(t5), false, 'token one millisecond before its expiry'); c.clock.set((sec() + 1) * 1000); c.eq(oidc.isIdTokenExpired(t5), true, 'token at its expiry')
  c.sig('oidc' + [...store.m.values()][0])
}
// authenticators
function browser(c) {
  const creds = new Map(); const st = { creds, prf: true, be: false, cancel: false, prfAtGet: true, swapTo: null }
  const had = { window: globalThis.window, nav: Object.getOwnPropertyDescriptor(globalThis, 'navigator') }
  const authData = () => { const b = new Uint8Array(37); b[32] = 0b101 | (st.be ? 8 : 0); return b.buffer }
  const prfOut = (id, salt) => createHmac('sha256', creds.get(id).seed).update(Buffer.from(salt)).digest()
  const ab = b => { const x = new Uint8Array(b.length); x.set(b); return x.buffer }
  globalThis.window = { PublicKeyCredential: class {}, location: { hostname: 'app.example' } }
  Object.defineProperty(globalThis, 'navigator', { configurable: true, value: { credentials: {
    async create({ publicKey }) {
      st.lastCreate = publicKey
      if (st.cancel) return null
      const raw = Buffer.from(c.rng.bytes(24)); const id = raw.toString('hex'); creds.set(id, { seed: Buffer.from(c.rng.bytes(32)), raw })
      return { rawId: ab(raw), response: { getAuthenticatorData: authData }, getClientExtensionResults: () => st.prf && publicKey.extensions?.prf ? { prf: { results: { first: ab(prfOut(id, publicKey.extensions.prf.eval.first)) } } } : {} }
    },
    async get({ publicKey }) {
      st.lastGet = publicKey
      if (st.cancel) return null
      let id = Buffer.from(publicKey.allowCredentials[0].id).toString('hex'); if (st.swapTo) id = st.swapTo
      if (!creds.has(id)) throw new DOMException('unknown credential', 'NotAllowedError')
      return { rawId: ab(creds.get(id).raw), response: { authenticatorData: authData() }, getClientExtensionResults: () => st.prf && st.prfAtGet && publicKey.extensions?.prf ? { prf: { results: { first: ab(prfOut(id, publicKey.extensions.prf.eval.first)) } } } : {} }
    },
  } } })
  c.cleanup(() => { if (had.window === undefined) delete globalThis.window; else globalThis.window = had.window; if (had.nav) Object.defineProperty(globalThis, 'navigator', had.nav); else delete globalThis.navigator })
  return st
}
async function authenticator(c) {
  const r = c.rng, b = browser(c), k = await keyring(r); b.prf = r.chance(0.6)
  const single = r.chance(0.4)
  const enr = JSON.parse(JSON.stringify(await wa.enrollWebAuthn(k, 'acme', { requireSingleDevice: single })))
  c.eq(wa.isValidEnrollment(enr), true, 'enrolment shape'); c.eq(enr.prfUsed, b.prf, 'whether the authenticator secret was used')
  c.eq(b.lastCreate.authenticatorSelection.userVerification, 'required', 'user verification at enrolment')
  for (const d of k.deks.values()) c.ok(!JSON.stringify(enr).includes(Buffer.from(rawOf(d), 'hex').toString('base64')), 'the enrolment contains a key')
  sameKeyring(c, await wa.unlockWebAuthn(enr), k, 'keyring unlocked with the authenticator'); c.count('webauthn_unlocks')
  c.eq(b.lastGet.userVerification, 'required', 'user verification at unlock'); c.ok(hex(b.lastGet.challenge) !== hex(b.lastCreate.challenge), 'challenge reused')
  const enr2 = await wa.enrollWebAuthn(k, 'acme'); const other = Buffer.from(enr2.credentialId, 'base64').toString('hex')
  b.swapTo = other; await refused(c, () => wa.unlockWebAuthn(enr), 'another authenticator unlocked the vault'); b.swapTo = null
  b.cancel = true; await refused(c, () => wa.unlockWebAuthn(enr), 'a cancelled prompt unlocked the vault'); await refused(c, () => wa.enrollWebAuthn(k, 'acme'), 'a cancelled prompt enrolled'); b.cancel = false
  if (b.prf) { b.prfAtGet = false; await refused(c, () => wa.unlockWebAuthn(enr), 'unlocked without the authenticator\'s secret'); b.prfAtGet = true }
  b.be = true
  if (single) { const e = await refused(c, () => wa.unlockWebAuthn(enr), 'a synced credential unlocked a single-device enrolment'); c.eq(e.name, 'WebAuthnMultiDeviceError', 'error'); await refused(c, () => wa.enrollWebAuthn(k, 'acme', { requireSingleDevice: true }), 'a synced credential was enrolled as single-device') } else { sameKeyring(c, await wa.unlockWebAuthn(enr), k, 'keyring unlocked with a synced authenticator'); const e3 = await wa.enrollWebAuthn(k, 'acme'); c.eq(e3.beFlag, true, 'synced credential noted') }
  b.be = false
  for (const f of ['wrappedPayload', 'wrapIv']) await refused(c, () => wa.unlockWebAuthn({ ...enr, [f]: flip(r, enr[f]) }), () => `a damaged ${f} was accepted`)
  if (b.prf) await refused(c, () => wa.unlockWebAuthn({ ...enr, prfUsed: false }), 'an enrolment bound to the authenticator\'s secret opened without it')
  for (const bad of [null, 1, {}, { ...enr, _noydb_webauthn: 2 }, { ...enr, wrapIv: 5 }]) c.eq(wa.isValidEnrollment(bad), false, 'malformed enrolment')
  c.count('wrong_secrets', 6); sameKeyring(c, await wa.unlockWebAuthn(enr), k, 'keyring unlocked again'); c.count('webauthn_unlocks')
  c.sig('wa' + enr.credentialId)
}
export const scenarios = [
  { name: 'field', quick: 256, thorough: 256, run: field },
  { name: 'shares', quick: 4000, run: shares },
  { name: 'secrecy', quick: 200, run: secrecy },
  { name: 'kek', quick: 500, run: kek },
  { name: 'recovery', quick: 800, run: recovery },
  { name: 'totp', quick: 1500, run: totps, clock: { auto: 0 } },
  { name: 'pins', quick: 1500, run: pins },
  { name: 'duress', quick: 500, run: duress },
  { name: 'lockout', quick: 3000, run: lockout, clock: { auto: 0, timers: true } },
  { name: 'identity', quick: 800, run: identity, clock: { auto: 0 } },
  { name: 'authenticator', quick: 800, run: authenticator },
]
