// Linearizability checker for a single register-like object (Wing & Gong with memo).
// ops: [{ inv, res (Infinity if pending/unknown), apply(state) -> [nextState, ok] }]
// A pending op (maybe=true) may take effect or not.
export function linearizable(ops, init, { maxSteps = 400000 } = {}) {
  const n = ops.length
  if (n > 28) throw new Error('history too long for the checker')
  const seen = new Set()
  let steps = 0
  const key = (mask, st) => mask + '|' + JSON.stringify(st)
  function dfs(mask, st) {
    if (++steps > maxSteps) return null
    let remaining = false
    for (let i = 0; i < n; i++) if (!(mask & (1 << i)) && !ops[i].maybe) { remaining = true; break }
    if (!remaining) return true
    const k = key(mask, st); if (seen.has(k)) return false; seen.add(k)
    let minRes = Infinity
    for (let i = 0; i < n; i++) if (!(mask & (1 << i)) && ops[i].res < minRes) minRes = ops[i].res
    for (let i = 0; i < n; i++) {
      if (mask & (1 << i)) continue
      if (ops[i].inv > minRes) continue
      const [nx, ok] = ops[i].apply(st)
      if (ok) { const r = dfs(mask | (1 << i), nx); if (r !== false) return r }
    }
    return false
  }
  return dfs(0, init) // true / false / null (undecided)
}
