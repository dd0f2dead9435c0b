// Virtual clock: Date, setTimeout, setInterval. Verdicts never depend on wall time.
const R = { Date: globalThis.Date, setTimeout: globalThis.setTimeout, clearTimeout: globalThis.clearTimeout,
  setInterval: globalThis.setInterval, clearInterval: globalThis.clearInterval, setImmediate: globalThis.setImmediate,
  performance: globalThis.performance }
export const real = R
const turn = () => new Promise(r => R.setImmediate(r))
class VClock {
  constructor() { this.now = Date.UTC(2026, 0, 5, 8, 0, 0); this.timers = new Map(); this.seq = 0; this.auto = 0; this.installed = false; this.fired = 0 }
  install({ start = Date.UTC(2026, 0, 5, 8, 0, 0), auto = 0, timers = true } = {}) {
    const self = this
    this.now = start; this.auto = auto; this.timers.clear(); this.seq = 0; this.fired = 0
    this.installed = true
    const VDate = class Date extends R.Date {
      constructor(...a) { if (a.length === 0) { super(self.read()) } else super(...a) }
      static now() { return self.read() }
    }
    Object.defineProperty(VDate, 'name', { value: 'Date' })
    globalThis.Date = VDate
    if (timers) {
      globalThis.setTimeout = (fn, ms = 0, ...args) => this.add(fn, ms, args, null)
      globalThis.setInterval = (fn, ms = 0, ...args) => this.add(fn, ms, args, Math.max(1, ms))
      globalThis.clearTimeout = t => this.clear(t)
      globalThis.clearInterval = t => this.clear(t)
    }
    return this
  }
  uninstall() {
    globalThis.Date = R.Date; globalThis.setTimeout = R.setTimeout; globalThis.setInterval = R.setInterval
    globalThis.clearTimeout = R.clearTimeout; globalThis.clearInterval = R.clearInterval
    this.timers.clear(); this.installed = false
  }
  read() { const t = this.now; this.now += this.auto; return t }
  add(fn, ms, args, every) {
    const id = ++this.seq
    ms = Number(ms); if (!(ms >= 0)) ms = 0
    const h = { id, at: this.now + ms, fn, args, every, unref() { return h }, ref() { return h }, hasRef() { return true }, refresh() { h.at = self.now + ms; return h }, close() { self.clear(h) }, [Symbol.toPrimitive]() { return id } }
    const self = this
    this.timers.set(id, h)
    return h
  }
  clear(t) { if (t == null) return; const id = typeof t === 'object' ? t.id : Number(t); this.timers.delete(id) }
  hasTimers() { return this.timers.size > 0 }
  next() { let b = null; for (const h of this.timers.values()) if (!b || h.at < b.at || (h.at === b.at && h.id < b.id)) b = h; return b }
  async runNext() {
    const h = this.next(); if (!h) return false
    if (h.at > this.now) this.now = h.at
    if (h.every === null) this.timers.delete(h.id); else h.at = this.now + h.every
    this.fired++
    h.fn(...h.args)
    await turn()
    return true
  }
  // advance by ms, firing due timers in order, letting real async work settle in between
  async tick(ms, { settle = 3 } = {}) {
    const target = this.now + ms
    for (let i = 0; i < settle; i++) await turn()
    for (;;) {
      const h = this.next()
      if (!h || h.at > target) break
      await this.runNext()
      for (let i = 0; i < settle; i++) await turn()
    }
    this.now = Math.max(this.now, target)
    for (let i = 0; i < settle; i++) await turn()
  }
  set(t) { this.now = t }
}
export const clock = new VClock()
