// C28: exported file names, directory exports and archives.
import { createCipheriv, pbkdf2Sync, createHmac } from 'node:crypto'
import { crc32 as zcrc } from 'node:zlib'
import { resolve } from 'node:path'
import { PathEscapeError, FilenameSanitizationError } from '@noy-db/hub'
import { sanitizeFilename } from '@noy-db/hub/util'
import { exportBlobsToDirectory } from '@noy-db/to-file'
import { toBytes, writeZip, readZip } from '@noy-db/as-zip'
import { newRef, openExporter, instrument } from '../lib/world.mjs'
import { FakeFs } from '../lib/fakefs.mjs'

export const meta = {
  property: 'C28', level: 'exploration',
  rule: 'One evaluation is one name sanitised, one attachment exported, one archive entry read back or one corrupted archive judged; distinct_nontrivial counts distinct signatures (profile, hazard classes in the name, outcome; collision kind; corrupted field).',
  assumptions: [
    'Directory exports run against an in-memory stand-in for the file system that records every path, so an escaping path reaches nothing real; it identifies names the way the destination of the profile does (Windows and SMB shares ignore case and trailing dots).',
    'A name that cannot be made safe (NUL, empty, parent segment) is refused for the whole export, as documented.',
    'The overwrite collision strategy is the caller asking for one file.',
    'Archive entry names are not authenticated against deliberate consistent edits at several places; single changed bytes, truncation and appended bytes are judged.',
  ],
  minimums: { names: 60000, exported: 4000, collided: 400, escapes: 30, zipped: 1500, entries: 600, flips: 30000, truncations: 4000, wrongPasswords: 200 },
}

const PROFILES = ['posix', 'windows', 'macos-smb', 'zip', 'url-path', 's3-key', 'opaque']
const RES = ['CON', 'prn', 'Aux', 'NUL', 'com1', 'LPT9', 'COM0', 'CONX']
const CAP = { posix: 255, windows: 255, 'macos-smb': 240, zip: 255, 'url-path': 1024, 's3-key': 1024 }
const bytes = s => Buffer.byteLength(s)
const BIDI = /[‪-‮⁦-⁩]/
const LONE = s => !s.isWellFormed()

function hostile(rng) {
  const bits = ['a', 'B', 'report', 'x', '0', '.', '..', '...', '/', '\\', ':', '*', '?', '"', '<', '>', '|', ' ', '\t', '\n', '\x01', '\x7f', '%', '+', '~', '-', '_', '#', '&', "'", '$(x)', '`',
    '‮', '⁦', '́', 'é', 'é', 'ก', '\u{1F600}', '\ud83d', '\ude00', '​', '﻿', ' ', ' ', 'ſ', 'K', 'İ', 'ß', '/../', '/./', '//', '..\\', './', 'C:', '~/', '.pdf', '.tar.gz', '.DS_Store', '._', ...RES]
  const n = rng.weighted([[3, rng.int(1, 3)], [4, rng.int(3, 8)], [1, rng.int(8, 20)]])
  let s = ''
  for (let i = 0; i < n; i++) s += rng.pick(bits)
  if (rng.chance(0.12)) { // around the length limits
    const cap = rng.pick([240, 255, 1024]), ch = rng.pick(['a', 'ก', '\u{1F600}', 'é', ' ', '.'])
    const pad = ch.repeat(Math.max(0, Math.ceil((cap + rng.int(-6, 6) - bytes(s)) / (rng.chance(0.5) ? bytes(ch) : ch.length))))
    s = rng.chance(0.5) ? pad + s : s + pad + rng.pick(['', '.pdf', '.', ' ', '/..', '/..x'])
  }
  if (rng.chance(0.03)) s += '\0' + rng.pick(['', '.exe'])
  if (rng.chance(0.02)) s = rng.pick(['', ' ', '.', '..', '/', '\t\n', '‮', '. .', '../', './'])
  return s
}
const hazards = s => [/\0/.test(s) && 'nul', /\.\./.test(s) && 'up', /[/]/.test(s) && 'sl', /\\/.test(s) && 'bs', BIDI.test(s) && 'bidi', LONE(s) && 'lone', /[. ]$/.test(s) && 'tail', s.normalize('NFC') !== s && 'nfd', bytes(s) > 230 && 'long', /[<>:"|?*]/.test(s) && 'res', /[\x01-\x1f\x7f]/.test(s) && 'ctl', RES.some(r => s.toLowerCase().startsWith(r.toLowerCase())) && 'dev', /^\./.test(s) && 'dot'].filter(Boolean).join('+')

// independent statement of what each destination accepts
function flaw(profile, out, max) {
  if (typeof out !== 'string' || out === '') return 'empty'
  if (out === '.' || out === '..') return 'a dot segment'
  if (/\0/.test(out)) return 'with a NUL byte'
  if (BIDI.test(out)) return 'with a direction override'
  if (LONE(out)) return 'with half a character'
  if (profile !== 'url-path' && profile !== 's3-key' && out.normalize('NFC') !== out) return 'not composed'
  if (profile === 'windows' ? out.length > max : bytes(out) > max) return `longer than ${max}`
  if (profile === 'posix' && out.includes('/')) return 'with a separator'
  if (profile === 'windows' || profile === 'macos-smb') {
    if (/[<>:"/\\|?*\x00-\x1f\x7f]/.test(out)) return 'with a reserved character'
    if (/[. ]$/.test(out)) return 'with a trailing dot or space'
    if (/^(con|prn|aux|nul|com[1-9]|lpt[1-9])(\.|$)/i.test(out)) return 'a device name'
    if (profile === 'macos-smb' && /^(\.ds_store|\.localized|\.fseventsd|\._.+)$/i.test(out)) return 'a hidden system file'
  }
  if (profile === 'zip') {
    if (/\\/.test(out) || /^[a-z]:/i.test(out)) return 'a drive or backslash path'
    if (out.split('/').some(x => x === '' || x === '.' || x === '..')) return 'with an empty or dot segment'
    if (/[\x00-\x1f\x7f]/.test(out)) return 'with a control character'
  }
  if ((profile === 'url-path' || profile === 's3-key') && !/^(?:[A-Za-z0-9\-._~]|%[0-9A-F]{2})+$/.test(out)) return 'not percent-encoded'
  return null
}

async function names(c) {
  const { rng } = c
  for (let i = 0; i < 40; i++) {
    const benign = rng.chance(0.1)
    const name = benign ? rng.pick(['report', 'Scan', 'invoice_2026', 'a-b', 'Ünïcode', 'ใบแจ้งหนี้']) + rng.int(0, 999) + rng.pick(['', '.pdf', '.tar.gz']) : hostile(rng)
    const profile = rng.pick(PROFILES)
    const id = '01HABCXYZ' + rng.int(0, 9)
    const custom = profile !== 'opaque' && rng.chance(0.15) ? rng.pick([1, 2, 3, 4, 5, 8, 12, 40]) : undefined
    const opts = { profile, ...(profile === 'opaque' ? { opaqueId: id } : {}), ...(custom ? { maxBytes: custom } : {}) }
    let out = null
    try { out = sanitizeFilename(name, opts) } catch (e) {
      c.ok(e instanceof FilenameSanitizationError, `sanitising ${JSON.stringify(name)} for ${profile} failed with ${e?.name}: ${e?.message}`, { key: 'error' })
    }
    if (out === null) {
      const hopeless = /\0/.test(name) || name.split(/[/\\]/).some(x => x.replace(BIDI, '').trim() === '..') || !/[A-Za-z0-9]/.test(name) || custom || bytes(name) > 200 || /\.\./.test(name)
      c.ok(hopeless, `the harmless name ${JSON.stringify(name)} was refused for ${profile}`, { key: 'refused' })
    } else {
      c.ok(!name.includes('\0'), `a name with a NUL byte was accepted for ${profile} as ${JSON.stringify(out)}`, { key: 'nul' })
      if (profile === 'opaque') {
        const ext = /^.+\.([A-Za-z0-9]{1,16})$/s.exec(name.replace(/[‪-‮⁦-⁩]/g, '').normalize('NFC'))
        c.eq(out, ext ? `${id}.${ext[1].toLowerCase()}` : id, `opaque name for ${JSON.stringify(name)}`)
      } else {
        const f = flaw(profile, out, custom ?? CAP[profile])
        c.ok(f === null, `${JSON.stringify(name)} sanitised for ${profile}${custom ? ' with limit ' + custom : ''} gives ${JSON.stringify(out.slice(0, 80))}: ${f}`, { key: 'flaw-' + profile })
        c.eq(sanitizeFilename(name, opts), out, 'repeated sanitising')
        if (benign && !custom && profile !== 'url-path' && profile !== 's3-key') c.eq(out, name.normalize('NFC'), `harmless name for ${profile}`)
        if (profile === 'url-path' || profile === 's3-key') {
          let src = name.replace(/[‪-‮⁦-⁩]/g, '').toWellFormed().normalize('NFC')
          let back; try { back = decodeURIComponent(out) } catch { c.fail(`${JSON.stringify(out)} does not decode`, { key: 'decode' }) }
          c.ok(src.includes(back), `${JSON.stringify(out)} decodes to something that is not part of ${JSON.stringify(name)}`, { key: 'decode' })
          if (benign && !custom) c.eq(back, src, 'decoded harmless name')
        }
      }
    }
    c.count('names'); c.sig([profile, hazards(name), out === null ? 'refused' : out === name ? 'same' : 'changed', custom ? 'cap' : ''].join('|'))
  }
  c.seen(40)
}

// how the destination of a profile tells names apart
const folds = {
  windows: p => p.split('/').map(s => s.normalize('NFC').toUpperCase().replace(/[. ]+$/, '')).join('/'),
  'macos-smb': p => p.split('/').map(s => s.normalize('NFC').toUpperCase().replace(/[. ]+$/, '')).join('/'),
}
async function vaultWith(c, files) {
  const { db, v } = await openExporter(instrument(newRef()), { features: ['blob'] })
  const truth = []
  for (const f of files) {
    const col = v.collection(f.coll)
    if (!(await col.get(f.id))) await col.put(f.id, { id: f.id })
    await col.blob(f.id).put(f.slot, f.bytes, { mimeType: 'application/octet-stream' })
    const was = truth.findIndex(t => t.coll === f.coll && t.id === f.id && t.slot === f.slot)
    if (was >= 0) truth.splice(was, 1, f); else truth.push(f)
  }
  return { db, v, truth }
}
async function directory(c) {
  const { rng } = c
  const profile = rng.pick(PROFILES), base = rng.pick(['/box/out', '/box/out/', '/box/./deep/../out', '/box/öut'])
  const root = resolve(base)
  const nFiles = rng.int(2, 7)
  const nasty = rng.chance(0.55)
  const stems = ['scan', 'Scan', 'SCAN', 'scan ', 'scan.', 'scan-1', 'é', 'é', 'a/b', 'a/./b', 'a//b', 'a:b', 'a_b', 'K', 'k', '\ud800x', '\udc00x', 'x'.repeat(251), 'x'.repeat(255), 'x'.repeat(260), 'ก'.repeat(90)]
  const files = []
  const pool = rng.sample(stems, 3)
  for (let i = 0; i < nFiles; i++) {
    let filename = nasty && rng.chance(0.4) ? hostile(rng).replace(/\0/g, '') : rng.pick(pool) + rng.pick(['', '', '.pdf', '.PDF', '-1'])
    if (rng.chance(0.01)) filename += '\0'
    files.push({ coll: rng.pick(['docs', 'scans']), id: rng.pick(['r1', 'r2', 'r3', 'r4', 'r5']), slot: filename, filename, bytes: rng.chance(0.2) && i ? files[0].bytes : rng.bytes(rng.int(0, 40)) })
  }
  const { db, v, truth } = await vaultWith(c, files)
  const strat = rng.weighted([[6, 'suffix'], [1, 'overwrite'], [1, 'fail'], [1, 'evil'], [1, 'fn'], [0.3, 'stuck']])
  const evil = rng.pick(['../x', '/etc/x', 'a/../../x', '..', '/box/outside/x', '../out-2/x'])
  const onCollision = strat === 'evil' ? () => evil : strat === 'fn' ? (n, k) => `${k}_${n}` : strat === 'stuck' ? n => n : strat
  const ffs = new FakeFs({ fold: folds[profile], nameLimit: 1100 })
  ffs.mkdir('/box', { recursive: true })
  const pre = new Set(ffs.dirs)
  let res, error
  ffs.install()
  try { res = await exportBlobsToDirectory(v, base, { filenameProfile: profile, onCollision }) } catch (e) { error = e } finally { ffs.uninstall() }
  const inside = p => p === root || p.startsWith(root + '/')
  const out = ffs.calls.filter(([op, p]) => !(inside(p) || (op === 'mkdir' && root.startsWith(p + '/'))))
  c.ok(out.length === 0, `the export touched ${out[0]?.[1]} outside ${root}`, { key: 'escape', detail: JSON.stringify({ profile, strat, names: truth.map(t => t.filename) }) })
  void pre
  const wrote = [...ffs.files.values()]
  const label = () => `profile ${profile}, strategy ${strat}, names ${JSON.stringify(truth.map(t => t.filename.slice(0, 60)))}`
  if (strat !== 'overwrite') c.ok(ffs.overwrites.length === 0, `two attachments went to ${JSON.stringify(ffs.overwrites[0]?.slice(-60))} (${label()})`, { key: 'collide' })
  if (error) {
    const why = error.code ?? error.name
    const expectEvil = strat === 'evil' && error instanceof PathEscapeError
    const badName = error instanceof FilenameSanitizationError
    const clash = /collision/.test(error.message) && (strat === 'fail' || strat === 'stuck' || strat === 'evil')
    const fileDir = profile === 'zip' && ['EEXIST', 'ENOTDIR', 'EISDIR'].includes(why) // "a" and "a/b"
    c.ok(expectEvil || badName || clash || fileDir || (strat === 'evil' && why === 'EISDIR'), `the export failed with ${why}: ${error.message} (${label()})`, { key: 'failed' })
    if (badName) c.ok(truth.some(t => { try { sanitizeFilename(t.filename, { profile, opaqueId: 'x' }); return false } catch { return true } }), `the export was refused although every name can be made safe (${label()})`, { key: 'failed' })
    if (expectEvil) c.count('escapes')
    for (const f of wrote) c.ok(truth.some(t => Buffer.compare(f.bytes, Buffer.from(t.bytes)) === 0), 'a file with contents of no attachment was left', { key: 'content' })
  } else {
    c.eq(res.written, truth.length, `attachments written (${label()})`)
    c.eq(res.bytes, truth.reduce((a, t) => a + t.bytes.length, 0), 'bytes written')
    c.eq(res.entries.length, truth.length, 'entries reported')
    if (strat !== 'overwrite') c.eq(wrote.length, truth.length + (res.manifestPath ? 1 : 0), `files on disk (${label()})`)
    for (const e of res.entries) {
      const f = ffs.files.get(ffs.key(e.path))
      c.ok(!!f, `reported path ${e.path} was not written`, { key: 'content' })
      const name = e.path.slice(root.length + 1)
      if (profile !== 'opaque' && strat !== 'evil' && strat !== 'fn') { const fl = flaw(profile, name, profile === 'url-path' || profile === 's3-key' ? 1100 : CAP[profile]); c.ok(fl === null, `exported file name ${JSON.stringify(name.slice(0, 80))} is ${fl} (${label()})`, { key: 'flaw-' + profile }) }
    }
    if (strat !== 'overwrite') { // bytes land one to one
      const a = truth.map(t => Buffer.from(t.bytes).toString('hex')).sort(), b = res.entries.map(e => ffs.read(e.path).toString('hex')).sort()
      c.eq(b, a, 'contents of the exported files')
    }
    if (profile === 'opaque') {
      const man = JSON.parse(ffs.read(res.manifestPath).toString())
      c.eq(man.entries.length, truth.length, 'manifest entries')
      if (strat !== 'overwrite') for (const m of man.entries) {
        const t = truth.find(x => x.coll === m.collection && x.id === m.recordId && x.slot === m.slot)
        c.ok(!!t, 'manifest names an unknown attachment', { key: 'manifest' })
        c.eq(m.originalName, t.filename, 'original name in the manifest')
        c.ok(Buffer.compare(ffs.read(`${root}/${m.opaqueName}`), Buffer.from(t.bytes)) === 0, `manifest maps ${m.opaqueName} to the wrong attachment`, { key: 'manifest' })
      }
    } else c.eq(res.manifestPath, null, 'manifest path')
    c.count('exported', truth.length)
    const plainNames = new Set(truth.map(t => t.filename)); if (plainNames.size < truth.length || strat !== 'suffix') c.count('collided')
  }
  c.seen(truth.length)
  c.sig(['dir', profile, strat, error ? error.name : 'ok', new Set(truth.map(t => hazards(t.filename))).size, plain(truth)].join('|'))
  db.close()
}
const plain = t => new Set(t.map(x => x.filename.toLowerCase())).size < t.length ? 'clash' : ''

// ---- archives: an independent reader --------------------------------------------------------
function parse(b, password) {
  const u16 = o => b.readUInt16LE(o), u32 = o => b.readUInt32LE(o)
  const e = b.length - 22
  if (u32(e) !== 0x06054b50 || u16(e + 20) !== 0) throw new Error('no end record')
  const n = u16(e + 10), out = []
  let p = u32(e + 16)
  if (p + u32(e + 12) !== e || u16(e + 8) !== n) throw new Error('directory size')
  let prev = 0
  for (let i = 0; i < n; i++) {
    if (u32(p) !== 0x02014b50) throw new Error('central header')
    const flags = u16(p + 8), method = u16(p + 10), crc = u32(p + 16), csz = u32(p + 20), usz = u32(p + 24), nl = u16(p + 28), xl = u16(p + 30), lo = u32(p + 42)
    const name = b.subarray(p + 46, p + 46 + nl), extra = b.subarray(p + 46 + nl, p + 46 + nl + xl)
    if (lo !== prev) throw new Error('gap between entries')
    if (u32(lo) !== 0x04034b50 || u16(lo + 6) !== flags || u16(lo + 8) !== method || u32(lo + 14) !== crc || u32(lo + 18) !== csz || u32(lo + 22) !== usz || u16(lo + 26) !== nl) throw new Error('local header')
    if (!(flags & 0x800)) throw new Error('names not marked UTF-8')
    const ds = lo + 30 + nl + u16(lo + 28), data = b.subarray(ds, ds + csz)
    prev = ds + csz
    let plainBytes
    if (method === 99) {
      if (!(flags & 1) || extra.readUInt16LE(0) !== 0x9901 || extra[8] !== 3 || extra.toString('latin1', 6, 8) !== 'AE') throw new Error('AES marker')
      const salt = data.subarray(0, 16), k = pbkdf2Sync(password, salt, ITER, 66, 'sha1')
      if (Buffer.compare(data.subarray(16, 18), k.subarray(64)) !== 0) throw new Error('verifier')
      const ct = data.subarray(18, -10)
      if (Buffer.compare(createHmac('sha1', k.subarray(32, 64)).update(ct).digest().subarray(0, 10), data.subarray(-10)) !== 0) throw new Error('authentication code')
      plainBytes = Buffer.alloc(ct.length)
      for (let j = 0, blk = 1; j < ct.length; j += 16, blk++) {
        const ctr = Buffer.alloc(16); ctr.writeUInt32LE(blk, 0)
        const s = aesBlock(k.subarray(0, 32), ctr)
        for (let q = 0; q < 16 && j + q < ct.length; q++) plainBytes[j + q] = ct[j + q] ^ s[q]
      }
    } else { if (method !== 0 || csz !== usz || zcrc(data) !== crc) throw new Error('stored entry'); plainBytes = data }
    if (plainBytes.length !== usz) throw new Error('size')
    out.push({ path: name.toString('utf8'), bytes: Buffer.from(plainBytes), encrypted: method === 99 })
    p += 46 + nl + xl + u16(p + 32)
  }
  return out
}
const aesBlock = (k, b) => { const x = createCipheriv('aes-256-ecb', k, null).setAutoPadding(false); return Buffer.concat([x.update(b), x.final()]) }
let ITER = 1000
const norm = es => es.map(e => [e.path, Buffer.from(e.bytes).toString('hex'), !!e.encrypted])

async function archives(c) { // formats, round trip, wrong passwords; real key derivation
  const { rng } = c
  ITER = 1000
  const password = rng.chance(0.6) ? rng.pick(['pw', 'correct horse', 'ก🙂', 'x'.repeat(80), 'a\0b']) : undefined
  const entries = Array.from({ length: rng.int(0, 5) }, (_, i) => ({ path: (rng.chance(0.3) ? hostile(rng).toWellFormed() : rng.pick(['a', 'dir/b', 'ü', 'x.json'])) + i, bytes: rng.bytes(rng.pick([0, 1, 15, 16, 17, 31, 32, 33, rng.int(0, 300), rng.chance(0.05) ? 5000 : 3])), ...(rng.chance(0.3) ? { mtime: new Date(rng.pick([0, Date.UTC(1979, 1, 1), Date.UTC(2026, 5, 5, 23, 59, 59), Date.UTC(2100, 0, 1)])) } : {}) }))
  const zip = Buffer.from(await writeZip(entries, password ? { password } : {}))
  const want = entries.map(e => [e.path, Buffer.from(e.bytes).toString('hex'), !!password])
  c.eq(norm(parse(zip, password)), want, 'entries found by an independent reader')
  const padded = Buffer.concat([Buffer.from('xx'), zip]).subarray(2) // a view into a larger buffer
  c.eq(norm(await readZip(new Uint8Array(padded.buffer, padded.byteOffset, padded.length), password ? { password } : {})), want, 'entries read back')
  if (password && entries.length) {
    for (const w of [undefined, password + 'x', password.slice(1) || 'q', password.toUpperCase() === password ? 'zz' : password.toUpperCase(), '']) {
      let got = null; try { got = await readZip(zip, w === undefined ? {} : { password: w }) } catch { /* refused */ }
      c.ok(got === null, `an encrypted archive opened with ${w === undefined ? 'no password' : 'a wrong password'}`, { key: 'password' })
      c.count('wrongPasswords')
    }
    const seen = new Set(); for (const e of parseRaw(zip)) { const salt = e.subarray(0, 16).toString('hex'); c.ok(!seen.has(salt), 'two entries share one salt', { key: 'salt' }); seen.add(salt) }
  } else if (!password && entries.length) c.eq(norm(await readZip(zip, { password: 'unneeded' })), want, 'plain entries read with a password')
  c.count('entries', entries.length); c.seen(entries.length + 1); c.sig(['arc', !!password, entries.length, entries.map(e => Math.min(e.bytes.length, 34)).join(',')].join('|'))
}
function parseRaw(b) { const out = []; let p = 0; while (b.readUInt32LE(p) === 0x04034b50) { const csz = b.readUInt32LE(p + 18), ds = p + 30 + b.readUInt16LE(p + 26) + b.readUInt16LE(p + 28); out.push(b.subarray(ds, ds + csz)); p = ds + csz } return out }

async function corrupt(c) {
  const { rng } = c
  const password = rng.chance(0.5) ? 'pw-' + rng.int(0, 99) : undefined, opts = password ? { password } : {}
  const entries = Array.from({ length: rng.int(1, 3) }, (_, i) => ({ path: 'f' + i + rng.pick(['', '.txt', '/x']), bytes: rng.bytes(rng.int(0, 24)) }))
  const zip = Buffer.from(await writeZip(entries, opts)), want = norm(await readZip(zip, opts))
  const regions = parseRaw(zip).map(r => [r.byteOffset - zip.byteOffset, r.byteOffset - zip.byteOffset + r.length])
  const judge = async (b, what) => {
    let got = null; try { got = norm(await readZip(b, opts)) } catch { /* refused */ }
    if (got !== null) c.eq(got, want, `entries read after ${what}`)
    return got === null
  }
  for (let p = 0; p < zip.length; p++) {
    const b = Buffer.from(zip), x = rng.pick([1, 2, 4, 8, 16, 32, 64, 128, 255]); b[p] ^= x
    const refused = await judge(b, `flipping 0x${x.toString(16)} in byte ${p} of ${zip.length}`)
    if (password) c.ok(refused || !regions.some(([a, z]) => p >= a && p < z), `byte ${p} inside an encrypted entry was changed and the archive was still read`, { key: 'auth' })
    c.count('flips'); if (rng.chance(0.02)) c.sig(['flip', !!password, p < 30 ? 'local' + p : zip.length - p <= 22 ? 'end' + (zip.length - p) : 'mid', refused].join('|'))
  }
  for (let n = 0; n < zip.length; n += rng.int(1, 3)) { let got = null; try { got = await readZip(zip.subarray(0, n), opts) } catch { /* refused */ } c.ok(got === null, `an archive cut to ${n} of ${zip.length} bytes was read`, { key: 'truncated' }); c.count('truncations') }
  for (const tail of [Buffer.from([0]), rng.bytes(5), Buffer.concat([zip])]) await judge(Buffer.concat([zip, tail]), `appending ${tail.length} bytes`)
  c.seen(zip.length)
}

async function zipExport(c) {
  const { rng } = c
  const idPool = ['a/b', 'a:b', 'a_b', 'a\\b', '..', '.', 'A_B', 'r1', 'R1', 'con', 'x ', 'x.', 'é', 'é', '../../etc', 'a/../b', '__proto__', 'nul.txt', 'manifest.json', 'q\x01']
  const ids = rng.sample(idPool, rng.int(1, 5)), slots = rng.sample([...idPool, 'raw', 'Raw', 'thumb'], rng.int(1, 4)).filter(s => s !== '__proto__')
  const files = []
  for (const id of ids) for (const slot of slots) if (rng.chance(0.8)) files.push({ coll: 'docs', id, slot, filename: slot, bytes: rng.bytes(rng.int(0, 30)) })
  const { db, v, truth } = await vaultWith(c, files)
  const keep = rng.chance(0.3) ? rng.pick(ids) : null
  const sel = rng.chance(0.3) ? rng.sample(slots, 1) : rng.chance(0.1) ? [] : '*'
  const password = rng.chance(0.3) ? 'zip-pass' : undefined
  ITER = 1
  const zip = Buffer.from(await toBytes(v, { records: { collection: 'docs', ...(keep !== null ? { filter: r => r.id === keep } : {}) }, attachments: { slots: sel }, ...(password ? { password } : {}) }))
  const got = await readZip(zip, password ? { password } : {})
  const chosen = truth.filter(t => (keep === null || t.id === keep) && (sel === '*' || sel.includes(t.slot)))
  const fold = p => p.split('/').map(s => s.normalize('NFC').toUpperCase().replace(/[. ]+$/, '')).join('/')
  const paths = new Set()
  for (const e of got) {
    const segs = e.path.split('/')
    c.ok(segs.every(s => s !== '' && s !== '.' && s !== '..') && !/[\\:*?"<>|\x00-\x1f]/.test(e.path), `archive path ${JSON.stringify(e.path)} is not a plain relative path`, { key: 'zip-path' })
    c.ok(!segs.some(s => /^(con|prn|aux|nul|com[1-9]|lpt[1-9])(\.|$)/i.test(s) || /[. ]$/.test(s)), `archive path ${JSON.stringify(e.path)} cannot be extracted everywhere`, { key: 'zip-path' })
    c.ok(!paths.has(fold(e.path)), `two archive entries extract to ${JSON.stringify(e.path)}`, { key: 'zip-collide' }); paths.add(fold(e.path))
  }
  const man = JSON.parse(Buffer.from(got.find(e => e.path === 'manifest.json').bytes).toString())
  c.eq(man.attachmentCount, chosen.length, 'attachments counted in the manifest'); c.eq(got.length, chosen.length + 2, 'entries of the archive')
  const listed = []
  for (const r of man.records) for (const a of r.attachments) {
    const e = got.find(x => x.path === a.path), t = chosen.find(x => x.id === r.id && x.slot === a.slot)
    c.ok(!!e && !!t, `manifest lists ${JSON.stringify(a.path)} which is not in the archive`, { key: 'zip-manifest' })
    c.ok(Buffer.compare(Buffer.from(e.bytes), Buffer.from(t.bytes)) === 0, `archive entry ${JSON.stringify(a.path)} holds another attachment's bytes`, { key: 'zip-content' })
    c.eq(a.size, t.bytes.length, 'size in the manifest'); listed.push(a.path)
  }
  c.eq(new Set(listed).size, chosen.length, 'distinct attachments in the manifest')
  c.count('zipped', chosen.length); c.seen(chosen.length + 2); c.sig(['zx', ids.length, slots.length, keep !== null, Array.isArray(sel) ? sel.length : '*', !!password].join('|') + ids.map(hazards).join())
  db.close()
}

export const scenarios = [
  { name: 'names', quick: 2200, thorough: 12000, run: names },
  { name: 'directory', quick: 1600, thorough: 8000, run: directory },
  { name: 'archives', quick: 400, thorough: 1500, run: archives, realCrypto: true },
  { name: 'corrupt', quick: 160, thorough: 800, run: corrupt },
  { name: 'zipExport', quick: 700, thorough: 3500, run: zipExport },
]
