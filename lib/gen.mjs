// Value generators. All values are JSON-representable unless stated.
const STR = ['', 'a', 'A', 'résumé', 'บริษัท', '日本', '😀', '0', '42', 'true', 'null', ' pad ', 'x,y', '"q"', "it's", 'line\nbreak', 'tab\t', '__proto__', 'constructor', '../up', 'a:b', 'a/b', '%41', '\u0000nul', '\ud83d', 'Z'.repeat(40)]
export const str = r => r.chance(0.5) ? r.pick(STR) : Array.from({ length: r.int(1, 12) }, () => String.fromCharCode(r.int(97, 122))).join('')
export const num = r => r.pick([0, -0, 1, -1, 42, 3.5, -2.25, 1e21, 1e-7, 2 ** 31, 2 ** 53 - 1, 123456789.125, r.int(-1000, 1000)])
export function json(r, depth = 3) {
  const k = r.int(0, depth > 0 ? 7 : 4)
  switch (k) {
    case 0: return null
    case 1: return r.chance(0.5)
    case 2: { const n = num(r); return Object.is(n, -0) ? 0 : n }
    case 3: case 4: return str(r)
    case 5: return Array.from({ length: r.int(0, 4) }, () => json(r, depth - 1))
    default: { const o = {}; const n = r.int(0, 4); for (let i = 0; i < n; i++) { const key = r.pick(['a', 'b', 'c', 'n', 'é', 'with space', 'a.b', '0', str(r) || 'k']); if (key !== '__proto__') o[key] = json(r, depth - 1) } return o }
  }
}
export function record(r, extra = {}) {
  const o = { ...extra }
  const n = r.int(0, 4)
  for (let i = 0; i < n; i++) o[r.pick(['name', 'amount', 'tags', 'meta', 'note', 'flag', 'ชื่อ'])] = json(r, 2)
  return o
}
export const idGen = r => r.pick(['a', 'b', 'c', 'a1', 'inv-001', 'ab', 'x y', 'บ', 'a.b', 'A'])
