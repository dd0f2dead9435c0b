// Controlled scheduler: instrumented store calls park at gates; when the process is
// quiescent one parked call, chosen by the seed, is released. Because the crypto layer
// is synchronous under the monitor, the interleaving is a function of the seed.
const realImmediate = globalThis.setImmediate
const realSetTimeout = globalThis.setTimeout
const realNow = Date.now.bind(Date)
export const turn = () => new Promise(r => realImmediate(r))
export const realSleep = ms => new Promise(r => realSetTimeout(r, ms))

export class HangError extends Error {}

export class Sched {
  constructor(rng, { maxIdleMs = 20000 } = {}) {
    this.rng = rng; this.parked = []; this.trace = []; this.enabled = true; this.maxIdleMs = maxIdleMs
    this.releases = 0
  }
  gate(label) {
    if (!this.enabled) return undefined
    return new Promise(resolve => this.parked.push({ label, resolve }))
  }
  releaseOne() {
    const i = this.parked.length === 1 ? 0 : Math.floor(this.rng.float() * this.parked.length)
    const g = this.parked.splice(i, 1)[0]
    this.trace.push(g.label); this.releases++
    g.resolve()
  }
  // Drive until every given promise settled. Returns allSettled results.
  async run(promises, { clock } = {}) {
    let done = false
    const all = Promise.allSettled(promises).then(r => { done = true; return r })
    let idleSince = 0
    for (;;) {
      await turn()
      if (done) return all
      if (this.parked.length) { this.releaseOne(); idleSince = 0; continue }
      if (clock && clock.hasTimers()) { await clock.runNext(); idleSince = 0; continue }
      const now = realNow()
      if (!idleSince) idleSince = now
      else if (now - idleSince > this.maxIdleMs) throw new HangError('operation never settled: nothing pending at the store, no timers')
      else if (now - idleSince > 5) await realSleep(1)
    }
  }
  async one(p, o) { const [r] = await this.run([p], o); if (r.status === 'rejected') throw r.reason; return r.value }
  // release everything and stop gating
  drainOff() { this.enabled = false; while (this.parked.length) this.releaseOne() }
}
