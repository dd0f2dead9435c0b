// Crypto sanitizer. Replaces globalThis.crypto.subtle with a synchronous-core
// implementation (node:crypto) that
//   * keeps WebCrypto semantics (usages, extractability, error classes),
//   * settles every promise in one microtask, so schedules depend only on the seed,
//   * computes PBKDF2 with one iteration after recording the requested parameters
//     (the iteration count is mixed into the salt so different counts give different keys),
//   * records every encryption as (key fingerprint, nonce, plaintext digest).
// mode 'real' delegates to the platform implementation and only records.
import * as nc from 'node:crypto'
import { Rng } from './prng.mjs'

const realCrypto = globalThis.crypto
const realSubtle = realCrypto.subtle
const realGRV = realCrypto.getRandomValues.bind(realCrypto)
const { KeyObject, createSecretKey, createCipheriv, createDecipheriv, createHash, createHmac, hkdfSync, pbkdf2Sync } = nc

const u8 = b => b instanceof ArrayBuffer || b instanceof SharedArrayBuffer ? new Uint8Array(b) : new Uint8Array(b.buffer, b.byteOffset, b.byteLength)
const ab = buf => { const c = new Uint8Array(buf.length); c.set(buf); return c.buffer }
const hex = b => Buffer.from(b).toString('hex')
const algName = a => (typeof a === 'string' ? a : a.name).toUpperCase()
const raw = key => KeyObject.from(key).export()
export const fp = key => createHash('sha256').update(raw(key)).digest('hex').slice(0, 24)
export const fpRaw = bytes => createHash('sha256').update(bytes).digest('hex').slice(0, 24)
const H = a => algName(typeof a === 'string' ? a : a).replace('-', '').toLowerCase()
const opErr = m => new DOMException(m, 'OperationError')
const accErr = m => new DOMException(m, 'InvalidAccessError')

export const mon = {
  fast: true, rng: null,
  reset(seed) {
    this.enc = new Map(); this.encCount = 0; this.decCount = 0; this.decFail = 0
    this.kdf = []; this.exports = []; this.gen = []; this.wraps = []; this.unwraps = 0
    this.reuse = []; this.badIv = []; this.badKey = []; this.imports = 0; this.subtleCalls = 0
    this.rng = seed === undefined ? null : new Rng(seed)
    this.rand = null // optional set of all 8-byte windows handed out by the random source
    this.keep = null // optional array to keep full encryption log
    this.rawKeys = new Map() // fp -> raw bytes of all secret keys ever used (for leak scanning)
  },
  noteKey(key) { if (key.type !== 'secret') return; const r = raw(key); const f = fpRaw(r); if (!this.rawKeys.has(f)) this.rawKeys.set(f, { raw: Buffer.from(r), alg: key.algorithm.name, extractable: key.extractable }); return f },
  noteEnc(key, alg, data) {
    const f = this.noteKey(key); const iv = u8(alg.iv)
    const k = f; const ivh = hex(iv); const pt = createHash('sha256').update(data).update('|').update(alg.additionalData ? u8(alg.additionalData) : '').digest('hex').slice(0, 24)
    this.encCount++
    if (iv.length !== 12) this.badIv.push({ key: f, len: iv.length })
    if (raw(key).length !== 32) this.badKey.push({ key: f, bytes: raw(key).length, alg: key.algorithm.name })
    if (alg.tagLength !== undefined && alg.tagLength !== 128) this.badKey.push({ key: f, tagLength: alg.tagLength })
    let m = this.enc.get(k); if (!m) this.enc.set(k, m = new Map())
    if (m.has(ivh)) this.reuse.push({ key: f, iv: ivh, same: m.get(ivh) === pt, stack: new Error().stack.split('\n').slice(3, 9).join('\n') })
    else m.set(ivh, pt)
    if (this.keep) this.keep.push({ key: f, iv: ivh, pt: Buffer.from(data) })
  },
}
mon.reset()

const need = (key, usage) => { if (!key.usages.includes(usage)) throw accErr(`Unable to use this key to ${usage}`) }

function gcmEncrypt(key, alg, data) {
  const k = raw(key); const c = createCipheriv(`aes-${k.length * 8}-gcm`, k, u8(alg.iv), { authTagLength: (alg.tagLength ?? 128) / 8 })
  if (alg.additionalData) c.setAAD(u8(alg.additionalData))
  return ab(Buffer.concat([c.update(data), c.final(), c.getAuthTag()]))
}
function gcmDecrypt(key, alg, data) {
  const tl = (alg.tagLength ?? 128) / 8
  if (data.length < tl) throw opErr('The provided data is too small.')
  const k = raw(key)
  try {
    const d = createDecipheriv(`aes-${k.length * 8}-gcm`, k, u8(alg.iv), { authTagLength: tl })
    if (alg.additionalData) d.setAAD(u8(alg.additionalData))
    d.setAuthTag(data.subarray(data.length - tl))
    return ab(Buffer.concat([d.update(data.subarray(0, data.length - tl)), d.final()]))
  } catch { throw opErr('The operation failed for an operation-specific reason') }
}
const KWIV = Buffer.from('A6A6A6A6A6A6A6A6', 'hex')
function kdfBits(alg, key, bits) {
  const n = algName(alg)
  if (n === 'PBKDF2') {
    const salt = u8(alg.salt)
    mon.kdf.push({ iterations: alg.iterations, hash: algName(alg.hash), saltLen: salt.length, salt: hex(salt), secret: fp(key), at: null })
    if (!(alg.iterations > 0)) throw opErr('iterations cannot be zero')
    const mixed = Buffer.concat([salt, Buffer.from('|' + alg.iterations)])
    return alg.iterations <= 2000 ? pbkdf2Sync(raw(key), salt, alg.iterations, bits / 8, H(alg.hash)) : pbkdf2Sync(raw(key), mixed, 1, bits / 8, H(alg.hash))
  }
  if (n === 'HKDF') return Buffer.from(hkdfSync(H(alg.hash), raw(key), u8(alg.salt), u8(alg.info), bits / 8))
  return null
}
const secretKey = (bytes, alg, ext, usages) => {
  const n = algName(alg)
  const a = n === 'HMAC' ? { name: 'HMAC', hash: typeof alg.hash === 'string' ? { name: alg.hash } : alg.hash } : { name: n }
  const k = createSecretKey(bytes).toCryptoKey(a, ext, usages)
  mon.noteKey(k); return k
}
const fastImpl = {
  encrypt(alg, key, data) {
    need(key, 'encrypt'); data = u8(data)
    if (algName(alg) === 'AES-GCM') { mon.noteEnc(key, alg, data); return gcmEncrypt(key, alg, data) }
    if (algName(alg) === 'AES-CTR') { const k = raw(key); const c = createCipheriv(`aes-${k.length * 8}-ctr`, k, u8(alg.counter)); return ab(Buffer.concat([c.update(data), c.final()])) }
  },
  decrypt(alg, key, data) {
    need(key, 'decrypt'); data = u8(data)
    if (algName(alg) === 'AES-GCM') { mon.decCount++; try { return gcmDecrypt(key, alg, data) } catch (e) { mon.decFail++; throw e } }
    if (algName(alg) === 'AES-CTR') { const k = raw(key); const c = createDecipheriv(`aes-${k.length * 8}-ctr`, k, u8(alg.counter)); return ab(Buffer.concat([c.update(data), c.final()])) }
  },
  digest(alg, data) { return ab(createHash(H(alg)).update(u8(data)).digest()) },
  sign(alg, key, data) { if (algName(alg) !== 'HMAC') return undefined; need(key, 'sign'); return ab(createHmac(H(key.algorithm.hash.name), raw(key)).update(u8(data)).digest()) },
  verify(alg, key, sig, data) { if (algName(alg) !== 'HMAC') return undefined; need(key, 'verify'); const m = createHmac(H(key.algorithm.hash.name), raw(key)).update(u8(data)).digest(); sig = u8(sig); return m.length === sig.length && nc.timingSafeEqual(m, sig) },
  generateKey(alg, ext, usages) {
    const n = algName(alg)
    if (!['AES-GCM', 'AES-KW', 'AES-CTR', 'HMAC'].includes(n)) return undefined
    const len = n === 'HMAC' ? (alg.length ?? 512) : alg.length
    const bytes = Buffer.from(mon.rng ? mon.rng.bytes(len / 8) : nc.randomBytes(len / 8))
    mon.gen.push({ alg: n, bits: len, extractable: ext })
    return secretKey(bytes, alg, ext, usages)
  },
  importKey(fmt, data, alg, ext, usages) {
    const n = algName(alg)
    if (fmt !== 'raw' || !['AES-GCM', 'AES-KW', 'AES-CTR', 'HMAC', 'HKDF', 'PBKDF2'].includes(n)) return undefined
    mon.imports++
    const b = Buffer.from(u8(data))
    if (n.startsWith('AES') && ![16, 24, 32].includes(b.length)) throw new DOMException('Invalid key length', 'DataError')
    if ((n === 'HKDF' || n === 'PBKDF2') && ext) throw new DOMException('KDF keys are not extractable', 'SyntaxError')
    if (!['HKDF', 'PBKDF2'].includes(n) && usages.length === 0) throw new DOMException('Usages cannot be empty', 'SyntaxError')
    if (b.length === 0) return undefined
    return secretKey(b, alg, ext, usages)
  },
  exportKey(fmt, key) {
    if (!key.extractable) throw accErr('key is not extractable')
    if (fmt !== 'raw' || key.type !== 'secret') return undefined
    const r = raw(key); mon.exports.push({ key: fpRaw(r), alg: key.algorithm.name, usages: key.usages.slice() })
    return ab(r)
  },
  deriveBits(alg, key, bits) { if (!['PBKDF2', 'HKDF'].includes(algName(alg))) return undefined; need(key, 'deriveBits'); return ab(kdfBits(alg, key, bits)) },
  deriveKey(alg, key, dk, ext, usages) {
    if (!['PBKDF2', 'HKDF'].includes(algName(alg))) return undefined
    need(key, 'deriveKey')
    const n = algName(dk); const bits = n === 'HMAC' ? (dk.length ?? 512) : dk.length
    const b = kdfBits(alg, key, bits)
    const k = secretKey(b, dk, ext, usages)
    const last = mon.kdf[mon.kdf.length - 1]; if (algName(alg) === 'PBKDF2') { last.derived = fp(k); last.extractable = ext; last.alg = n; last.bits = bits }
    return k
  },
  wrapKey(fmt, key, wk, walg) {
    const n = algName(walg)
    if (fmt !== 'raw' || n !== 'AES-KW') return undefined
    need(wk, 'wrapKey'); if (!key.extractable) throw accErr('key is not extractable')
    mon.wraps.push({ key: fp(key), by: fp(wk) }); mon.noteKey(wk); mon.noteKey(key)
    const k = raw(wk); const c = createCipheriv(`aes${k.length * 8}-wrap`, k, KWIV)
    return ab(Buffer.concat([c.update(raw(key)), c.final()]))
  },
  unwrapKey(fmt, data, wk, walg, kalg, ext, usages) {
    const n = algName(walg)
    if (fmt !== 'raw' || n !== 'AES-KW') return undefined
    need(wk, 'unwrapKey'); mon.unwraps++
    let out
    try { const k = raw(wk); const d = createDecipheriv(`aes${k.length * 8}-wrap`, k, KWIV); out = Buffer.concat([d.update(u8(data)), d.final()]) } catch { throw opErr('The operation failed for an operation-specific reason') }
    return secretKey(out, kalg, ext, usages)
  },
}
const recordReal = {
  encrypt(alg, key, data) { if (algName(alg) === 'AES-GCM') mon.noteEnc(key, alg, u8(data)) },
  deriveKey(alg, key, dk, ext) { if (algName(alg) === 'PBKDF2') mon.kdf.push({ iterations: alg.iterations, hash: algName(alg.hash), saltLen: u8(alg.salt).length, salt: hex(u8(alg.salt)), secret: fp(key), extractable: ext, alg: algName(dk), bits: dk.length }) },
  deriveBits(alg, key) { if (algName(alg) === 'PBKDF2') mon.kdf.push({ iterations: alg.iterations, hash: algName(alg.hash), saltLen: u8(alg.salt).length, salt: hex(u8(alg.salt)), secret: fp(key) }) },
  exportKey(fmt, key) { if (key.extractable && key.type === 'secret') mon.exports.push({ key: fp(key), alg: key.algorithm.name, usages: key.usages.slice() }) },
  wrapKey(fmt, key, wk) { mon.wraps.push({ key: fp(key), by: fp(wk) }) },
  generateKey(alg, ext) { mon.gen.push({ alg: algName(alg), bits: alg.length, extractable: ext }) },
}
const monitored = {}
for (const name of ['encrypt', 'decrypt', 'digest', 'sign', 'verify', 'generateKey', 'importKey', 'exportKey', 'deriveBits', 'deriveKey', 'wrapKey', 'unwrapKey']) {
  monitored[name] = function (...args) {
    mon.subtleCalls++
    if (mon.fast && fastImpl[name]) {
      try {
        const r = fastImpl[name](...args)
        if (r !== undefined) return Promise.resolve(r)
      } catch (e) { return Promise.reject(e) }
    } else { try { recordReal[name]?.(...args) } catch { /* recording only */ } }
    return realSubtle[name](...args)
  }
}
Object.defineProperty(realCrypto, 'subtle', { value: monitored, configurable: true, writable: true })
Object.defineProperty(realCrypto, 'getRandomValues', {
  configurable: true, writable: true,
  value(arr) {
    if (!mon.rng) return realGRV(arr)
    const b = u8(arr); for (let i = 0; i < b.length; i++) b[i] = mon.rng.u32() & 255
    if (mon.rand && b.length <= 256) { const h = hex(b); for (let i = 0; i + 16 <= h.length; i += 2) mon.rand.add(h.slice(i, i + 16)) }
    return arr
  },
})
const realUUID = realCrypto.randomUUID.bind(realCrypto)
Object.defineProperty(realCrypto, 'randomUUID', {
  configurable: true, writable: true,
  value() {
    if (!mon.rng) return realUUID()
    const b = mon.rng.bytes(16); b[6] = (b[6] & 15) | 64; b[8] = (b[8] & 63) | 128
    const h = hex(b); return `${h.slice(0, 8)}-${h.slice(8, 12)}-${h.slice(12, 16)}-${h.slice(16, 20)}-${h.slice(20)}`
  },
})
