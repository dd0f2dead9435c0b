// Stand-in for the writing half of node:fs. While installed, nothing reaches the real
// filesystem: every path handed over is recorded and kept in memory. `fold` models how the
// destination platform identifies names (case, composition, trailing dots).
import fs from 'node:fs'
import { syncBuiltinESMExports } from 'node:module'
import { resolve, dirname } from 'node:path'

const err = (code, p) => Object.assign(new Error(`${code}: ${p}`), { code })
export class FakeFs {
  constructor({ fold = s => s, nameLimit = 255 } = {}) { this.fold = fold; this.limit = nameLimit; this.files = new Map(); this.dirs = new Set(['/']); this.calls = []; this.overwrites = [] }
  key(p) { return this.fold(resolve(Buffer.from(String(p)).toString())) }
  log(op, p) { this.calls.push([op, resolve(String(p))]) }
  put(p, data, { flag = 'w' } = {}) {
    this.log('write', p)
    const k = this.key(p), abs = resolve(String(p))
    if (String(p).includes('\0')) throw err('ERR_INVALID_ARG_VALUE', p)
    for (const seg of abs.split('/')) if (Buffer.byteLength(seg) > this.limit) throw err('ENAMETOOLONG', p)
    if (this.dirs.has(k)) throw err('EISDIR', p)
    if (!this.dirs.has(this.fold(dirname(abs)))) throw err(this.files.has(this.fold(dirname(abs))) ? 'ENOTDIR' : 'ENOENT', p)
    if (this.files.has(k)) { if (flag.includes('x')) throw err('EEXIST', p); this.overwrites.push(abs) }
    const bytes = typeof data === 'string' ? Buffer.from(data) : Buffer.from(data.buffer, data.byteOffset, data.byteLength)
    const old = this.files.get(k)
    this.files.set(k, { path: abs, bytes: flag.startsWith('a') && old ? Buffer.concat([old.bytes, bytes]) : Buffer.from(bytes) })
  }
  mkdir(p, opts) {
    this.log('mkdir', p)
    const abs = resolve(String(p)), rec = opts === true || opts?.recursive
    const parts = []
    for (let d = abs; d !== '/'; d = dirname(d)) parts.unshift(d)
    for (const d of parts) {
      const k = this.fold(d)
      if (this.files.has(k)) throw err(d === abs ? 'EEXIST' : 'ENOTDIR', d)
      if (this.dirs.has(k)) { if (d === abs && !rec) throw err('EEXIST', d); continue }
      if (!rec && d !== abs) throw err('ENOENT', d)
      this.dirs.add(k)
    }
  }
  rm(p) { this.log('rm', p); this.files.delete(this.key(p)) }
  rename(a, b) { this.log('rename', b); const f = this.files.get(this.key(a)); if (!f) throw err('ENOENT', a); if (this.files.has(this.key(b))) this.overwrites.push(resolve(String(b))); this.files.delete(this.key(a)); this.files.set(this.key(b), { path: resolve(String(b)), bytes: f.bytes }) }
  read(p, enc) { const f = this.files.get(this.key(p)); if (!f) throw err('ENOENT', p); return enc ? f.bytes.toString(typeof enc === 'string' ? enc : enc.encoding) : Buffer.from(f.bytes) }
  stat(p) { const k = this.key(p), d = this.dirs.has(k), f = this.files.get(k); if (!d && !f) throw err('ENOENT', p); return { isFile: () => !!f, isDirectory: () => d, isSymbolicLink: () => false, size: f ? f.bytes.length : 0, mode: 0o644 } }
  list(p) { const k = this.key(p); if (!this.dirs.has(k)) throw err('ENOENT', p); return [...new Set([...[...this.files.values()].map(f => f.path), ...this.dirs].filter(x => this.fold(dirname(x)) === k && x !== '/').map(x => x.slice(x.lastIndexOf('/') + 1)))] }
  handle(p, flag = 'r') {
    const self = this
    if (/[wax]/.test(flag)) this.put(p, '', { flag })
    return { write: async d => { self.put(p, d, { flag: 'a' }); return { bytesWritten: d.length } }, writeFile: async d => self.put(p, d, { flag: 'a' }), readFile: async e => self.read(p, e), sync: async () => {}, datasync: async () => {}, stat: async () => self.stat(p), close: async () => {}, chmod: async () => {}, async [Symbol.asyncDispose]() {} }
  }
  install() {
    const P = {
      writeFile: async (p, d, o) => this.put(p, d, { flag: o?.flag ?? 'w' }), appendFile: async (p, d) => this.put(p, d, { flag: 'a' }),
      mkdir: async (p, o) => this.mkdir(p, o), rm: async p => this.rm(p), unlink: async p => this.rm(p), rmdir: async p => this.rm(p), rename: async (a, b) => this.rename(a, b),
      copyFile: async (a, b, m) => this.put(b, this.read(a), { flag: m & 1 ? 'wx' : 'w' }), link: async (a, b) => this.put(b, this.read(a), { flag: 'wx' }), symlink: async (a, b) => { this.log('symlink', b); throw err('EPERM', b) },
      readFile: async (p, e) => this.read(p, e), stat: async p => this.stat(p), lstat: async p => this.stat(p), access: async p => { this.stat(p) }, readdir: async p => this.list(p),
      realpath: async p => resolve(String(p)), chmod: async () => {}, utimes: async () => {}, open: async (p, f) => this.handle(p, f), mkdtemp: async p => { const d = p + 'x' + this.calls.length; this.mkdir(d, { recursive: true }); return d },
    }
    const S = {
      writeFileSync: (p, d, o) => this.put(p, d, { flag: o?.flag ?? 'w' }), appendFileSync: (p, d) => this.put(p, d, { flag: 'a' }), mkdirSync: (p, o) => this.mkdir(p, o), rmSync: p => this.rm(p), unlinkSync: p => this.rm(p), rmdirSync: p => this.rm(p),
      renameSync: (a, b) => this.rename(a, b), copyFileSync: (a, b) => this.put(b, this.read(a)), existsSync: p => { try { this.stat(p); return true } catch { return false } }, statSync: p => this.stat(p), lstatSync: p => this.stat(p), readFileSync: (p, e) => this.read(p, e), readdirSync: p => this.list(p), accessSync: p => { this.stat(p) }, realpathSync: p => resolve(String(p)),
      symlinkSync: (a, b) => { this.log('symlink', b); throw err('EPERM', b) }, linkSync: (a, b) => this.put(b, this.read(a), { flag: 'wx' }),
      writeFile: (p, d, o, cb = o) => { try { this.put(p, d, { flag: o?.flag ?? 'w' }); process.nextTick(cb, null) } catch (e) { process.nextTick(cb, e) } }, mkdir: (p, o, cb = o) => { try { this.mkdir(p, o); process.nextTick(cb, null) } catch (e) { process.nextTick(cb, e) } },
      createWriteStream: (p, o) => { this.log('write', p); throw err('ENOSYS', p) }, openSync: p => { this.log('write', p); throw err('ENOSYS', p) }, open: (p, ...a) => { this.log('write', p); process.nextTick(a.at(-1), err('ENOSYS', p)) },
    }
    this.saved = { P: {}, S: {} }
    for (const k in P) { this.saved.P[k] = fs.promises[k]; fs.promises[k] = P[k] }
    for (const k in S) { this.saved.S[k] = fs[k]; fs[k] = S[k] }
    syncBuiltinESMExports()
    return this
  }
  uninstall() {
    if (!this.saved) return
    Object.assign(fs.promises, this.saved.P); Object.assign(fs, this.saved.S); this.saved = null
    syncBuiltinESMExports()
  }
}
