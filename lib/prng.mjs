// Seeded PRNG (xoshiro128**) with the helpers the generators need.
export function hash32(s) {
  let h = 2166136261 >>> 0
  s = String(s)
  for (let i = 0; i < s.length; i++) { h ^= s.charCodeAt(i); h = Math.imul(h, 16777619) >>> 0 }
  return h >>> 0
}
function splitmix(a) {
  return () => {
    a |= 0; a = (a + 0x9e3779b9) | 0
    let t = a ^ (a >>> 16); t = Math.imul(t, 0x21f0aaad)
    t ^= t >>> 15; t = Math.imul(t, 0x735a2d97)
    return (t ^= t >>> 15) >>> 0
  }
}
export class Rng {
  constructor(seed) {
    const sm = splitmix(typeof seed === 'number' ? seed : hash32(seed))
    this.s = [sm(), sm(), sm(), sm()]
  }
  u32() {
    const s = this.s
    const rotl = (x, k) => ((x << k) | (x >>> (32 - k))) >>> 0
    const r = Math.imul(rotl(Math.imul(s[1], 5) >>> 0, 7), 9) >>> 0
    const t = (s[1] << 9) >>> 0
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3] >>> 0, 11)
    for (let i = 0; i < 4; i++) s[i] >>>= 0
    return r
  }
  float() { return this.u32() / 4294967296 }
  int(lo, hi) { return lo + Math.floor(this.float() * (hi - lo + 1)) }
  chance(p) { return this.float() < p }
  pick(a) { return a[Math.floor(this.float() * a.length)] }
  weighted(pairs) {
    let tot = 0
    for (const [w] of pairs) tot += w
    let x = this.float() * tot
    for (const [w, v] of pairs) { x -= w; if (x < 0) return v }
    return pairs[pairs.length - 1][1]
  }
  shuffle(a) {
    const r = a.slice()
    for (let i = r.length - 1; i > 0; i--) { const j = this.int(0, i); [r[i], r[j]] = [r[j], r[i]] }
    return r
  }
  sample(a, k) { return this.shuffle(a).slice(0, k) }
  bytes(n) { const b = new Uint8Array(n); for (let i = 0; i < n; i++) b[i] = this.u32() & 255; return b }
  fork(label) { return new Rng((this.u32() ^ hash32(label)) >>> 0) }
}
