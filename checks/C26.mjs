// Every export and import entry point under every role and capability set. Files, downloads,
// sinks, returned values, storage and decryptions are watched; a refused call must leave none.
import { mkdtempSync, rmSync, readdirSync, readFileSync, existsSync } from 'node:fs'
import { tmpdir } from 'node:os'
import { join } from 'node:path'
import { createNoydb, ExportCapabilityError, ImportCapabilityError, evaluateExportCapability, evaluateImportCapability } from '@noy-db/hub'
import * as asBlob from '@noy-db/as-blob'
import * as asCsv from '@noy-db/as-csv'
import * as asJson from '@noy-db/as-json'
import * as asNdjson from '@noy-db/as-ndjson'
import * as asNoydb from '@noy-db/as-noydb'
import * as asSql from '@noy-db/as-sql'
import * as asXml from '@noy-db/as-xml'
import * as asXlsx from '@noy-db/as-xlsx'
import * as asZip from '@noy-db/as-zip'
import { exportBlobsToDirectory } from '@noy-db/to-file'
import { newRef, instrument, strategies, openExporter } from '../lib/world.mjs'
import { show } from '../lib/child.mjs'
import { phrase } from './C04.mjs'
import { unzip } from '../lib/foreign.mjs'

export const meta = {
  property: 'C26', level: 'exploration',
  rule: 'distinct (entry point, role, capability granted or not, acknowledgement given, readability of the target, outcome)',
  assumptions: ['A session keeps the capabilities it was opened with until it is reopened.', 'The record stream and JSON dump of the library itself are building blocks: they are checked for what they contain, not for a capability.', 'Exporting attachments to a directory needs the attachment capability; it takes no acknowledgement.', 'Keys of system collections exist before users are granted.'],
  minimums: { programs: 2400, calls: 45000, refused: 8000, refusedUnacknowledged: 1200, exported: 6000, scanned: 8000, imported: 700, importRefused: 3000, bundles: 2000, verdicts: 20000, capabilityChanges: 900 },
}
const COLLS = ['invoices', 'payroll', 'notes']
const FORMATS = ['csv', 'json', 'ndjson', 'sql', 'xml', 'xlsx', 'zip', 'blob']
const NEAR = ['CSV', 'csv ', 'js', 'on', 'jsonl', 'ndjsonx', 'xls', 'xm', 'blobs', '', 'zip2', '**', 'plaintext', 'bundle', 'pdf']
const MARK = /Mk(invoices|payroll|notes)Q(\d+)/g
const enc = s => new TextEncoder().encode(s)
function text(x, seen = new Set()) {
  if (x === null || x === undefined) return ''
  if (typeof x === 'string') return x + ' '
  if (x instanceof Uint8Array) { if (x[0] === 0x50 && x[1] === 0x4b) return [...unzip(x).values()].map(b => b.toString('utf8')).join(' '); return Buffer.from(x).toString('utf8') + ' ' }
  if (typeof x !== 'object' || seen.has(x)) return ''
  seen.add(x); return (Array.isArray(x) ? x : Object.values(x)).map(y => text(y, seen)).join('')
}
const marks = s => new Set([...s.matchAll(MARK)].map(m => m[0]))
const drain = async it => { const o = []; for await (const x of it) o.push(x); return o }
let files // one importable file per format, made once
async function makeFiles() {
  if (files) return files
  const w = await openExporter(instrument(newRef(), {}), { features: ['tx', 'blob'], vault: 'other' }); await w.v.collection('imp').put('z1', { id: 'z1', tag: 'imported' })
  files = { csv: await asCsv.toString(w.v, { collection: 'imp' }), json: { imp: [{ id: 'z1', tag: 'imported' }] }, ndjson: '{"id":"z1","tag":"imported"}\n', xml: await asXml.toString(w.v, { collection: 'imp' }), xlsx: await asXlsx.toBytesFromCollection(w.v, 'imp'), zip: await asZip.toBytes(w.v, { records: { collection: 'imp' } }) }
  w.db.close(); return files
}

async function run(c) {
  const r = c.rng; c.count('programs'); const F = await makeFiles(); const ref = newRef(); let writes = 0; const st = instrument(ref, { keepLog: false, onCall: ev => { if (['put', 'delete', 'saveAll'].includes(ev.op)) writes++ } })
  const users = new Map(), sessions = new Map(); let n = 0; const stock = {}; for (const k of COLLS) stock[k] = { rec: new Map(), blob: new Map() }
  const caps = (formats) => r.weighted([[2, () => undefined], [1, () => ({})], [2, () => ({ plaintext: r.sample(formats, r.int(1, 4)) })], [2, () => ({ plaintext: [...r.sample(NEAR, r.int(1, 3)), ...r.sample(formats, r.int(0, 2))] })], [3, () => ({ plaintext: ['*'] })], [1, () => ({ plaintext: [] })]])()
  const withBundle = x => { const b = r.pick([undefined, undefined, true, false]); return b === undefined ? x : { ...x, bundle: b } }
  const session = async u => { let s = sessions.get(u); if (!s) { const x = users.get(u); const db = await createNoydb({ store: st, user: u, secret: x.pass, ...strategies('all') }); const v = await db.openVault('acme'); s = { db, v, exp: x.exp, imp: x.imp, role: x.role, perms: x.perms }; sessions.set(u, s) } return s }
  const shut = u => { sessions.get(u)?.db.close(); sessions.delete(u) }
  // the owner fills the vault, and once with full capabilities touches every system collection
  users.set('alice', { role: 'owner', perms: {}, pass: phrase(r), exp: undefined, imp: undefined }); let a = await session('alice')
  const grant = async (u, role, perms, exp, imp, by = 'alice') => { const s = await session(by); const pass = phrase(r); await s.db.grant('acme', { userId: u, displayName: u, role, passphrase: pass, permissions: perms, ...(exp !== undefined ? { exportCapability: exp } : {}), ...(imp !== undefined ? { importCapability: imp } : {}) }); users.set(u, { role, perms, pass, exp, imp }); shut(u); c.count('capabilityChanges') }
  await grant('alice', 'owner', {}, { plaintext: ['*'] }, { plaintext: ['*'] }); a = await session('alice')
  const put = async (s, k, id) => { const m = `Mk${k}Q${n++}`; await s.v.collection(k).put(id, { id, tag: m, more: [m] }); stock[k].rec.set(id, m) }
  for (const k of COLLS) { for (let i = 0, m = r.int(1, 3); i < m; i++) await put(a, k, 'r' + i); const m = `Mk${k}Q${n++}`; await a.v.collection(k).blob('r0').put('raw', enc(m), { mimeType: 'text/plain', compress: false }); stock[k].blob.set('r0', m) }
  await a.v.collection('imp').put('z0', { id: 'z0', tag: 'there' }); await a.v.collection('spare').put('s', { id: 's' }); await a.v.collection('spare').delete('s'); await a.v.collection('imp').blob('z0').put('raw', enc('old'), { compress: false }); await drain(a.v.exportBlobs()); await asNoydb.toBytes(a.v, {}).catch(() => {})
  if (r.chance(0.8)) await grant('alice', 'owner', {}, withBundle(caps(FORMATS)), withBundle(caps(FORMATS)))
  const perms = () => { const p = {}; for (const k of [...COLLS, 'imp']) { const x = r.pick(['rw', 'ro', null]); if (x) p[k] = x } return p }
  for (const [u, role] of [['adam', 'admin'], ['otto', 'operator'], ['vera', 'viewer'], ['cleo', 'client']]) if (r.chance(0.8)) await grant(u, role, role === 'operator' || role === 'client' ? perms() : {}, withBundle(caps(FORMATS)), withBundle(caps(FORMATS)))
  await grant('tmp', 'operator', { spare: 'rw' })
  const dir = mkdtempSync(join(tmpdir(), 'vf-c26-')); c.cleanup(() => rmSync(dir, { recursive: true, force: true })); const downloads = []; const oldDoc = globalThis.document, oldCreate = URL.createObjectURL, oldRevoke = URL.revokeObjectURL
  globalThis.document = { createElement: () => ({ click() {} }) }; URL.createObjectURL = b => { downloads.push(b); return 'blob:x' }; URL.revokeObjectURL = () => {}
  const all = (k, blobs) => new Set([...stock[k].rec.values(), ...(blobs ? stock[k].blob.values() : [])])
  try {
    for (let step = 0, steps = r.int(22, 34); step < steps; step++) {
      const u = r.pick([...users.keys()].filter(x => x !== 'tmp')); const change = r.int(0, 19)
      if (change === 0) { const x = users.get(u); await grant(u, x.role, x.role === 'operator' || x.role === 'client' ? perms() : {}, withBundle(caps(FORMATS)), withBundle(caps(FORMATS))); continue }
      if (change === 1) { const s = await session(u); const x = users.get(u); const pass = phrase(r); await s.db.changeSecret('acme', pass); x.pass = pass; shut(u); c.count('capabilityChanges'); continue }
      if (change === 2) { const s = await session('alice'); await s.db.rotate('acme', ['spare']); for (const x of [...sessions.keys()]) shut(x); continue }
      if (change === 3 && users.has('tmp')) { const s = await session('alice'); await s.db.revoke('acme', { userId: 'tmp' }); users.delete('tmp'); for (const x of [...sessions.keys()]) shut(x); for (const [x, y] of [...users]) if (x !== 'alice') await grant(x, y.role, y.perms, withBundle(caps(FORMATS)), y.imp); continue } // the system keys were rotated: everyone is granted again
      if (change === 4) { shut(u); continue }
      const s = await session(u); const v = s.v; const readable = k => ['owner', 'admin', 'viewer'].includes(s.role) || k in s.perms; const writable = k => s.role === 'owner' || s.role === 'admin' || (s.role === 'operator' && s.perms[k] === 'rw')
      const mayExport = f => (s.exp?.plaintext ?? []).some(x => x === '*' || x === f); const mayImport = f => (s.imp?.plaintext ?? []).some(x => x === '*' || x === f); const mayBundle = s.exp?.bundle ?? (s.role === 'owner' || s.role === 'admin')
      for (const f of r.sample([...FORMATS, ...NEAR], 6)) { c.count('verdicts'); c.ok(v.canExport('plaintext', f) === mayExport(f), () => `${s.role} with ${show(s.exp)}: canExport(${f}) is ${!mayExport(f)}`, { key: 'verdict' }); c.ok(v.canImport('plaintext', f) === mayImport(f), () => `${s.role} with ${show(s.imp)}: canImport(${f}) is ${!mayImport(f)}`, { key: 'verdict' }) }
      for (const f of r.sample([...FORMATS, ...NEAR], 3)) c.ok(evaluateExportCapability(s.exp, s.role, 'plaintext', f) === mayExport(f) && evaluateImportCapability(s.imp, s.role, 'plaintext', f) === mayImport(f) && evaluateExportCapability(s.exp, s.role, 'bundle') === mayBundle && evaluateImportCapability(s.imp, s.role, 'bundle') === (s.imp?.bundle === true), () => `${s.role} with ${show(s.exp)}/${show(s.imp)}: capability evaluation for ${f}`, { key: 'verdict' })
      c.ok(v.canExport('bundle') === mayBundle && v.canImport('bundle') === (s.imp?.bundle === true), () => `${s.role} with ${show(s.exp)}/${show(s.imp)}: bundle verdict`, { key: 'verdict' })
      c.count('calls'); const k = r.pick(COLLS); const ack = r.pick([undefined, true, true, false, 'true', 1]); const some = r.chance(0.4) ? r.sample(COLLS, r.int(1, 2)) : undefined; const path = join(dir, `f${step}`); const sink = []; const A = ack === undefined ? {} : { acknowledgeRisks: ack }
      const kind = r.weighted([[10, 'export'], [4, 'import'], [2, 'bundle'], [1, 'stream']])
      const d0 = c.mon.decCount, w0 = writes; let out, err = null; const attempt = async f => { try { out = await f() } catch (e) { err = e } }
      const produced = async () => { let t = text(out) + sink.join(' '); for (const b of downloads) t += text(new Uint8Array(await b.arrayBuffer())); if (existsSync(path)) t += text(new Uint8Array(readFileSync(path))); if (existsSync(path + 'd')) for (const f of readdirSync(path + 'd')) t += text(new Uint8Array(readFileSync(join(path + 'd', f)))); return t }
      const nothing = why => { c.ok(err !== null, () => `${why}: the call was not refused`, { key: 'not-refused' }); c.ok(out === undefined && sink.length === 0 && downloads.length === 0 && !existsSync(path) && !(existsSync(path + 'd') && readdirSync(path + 'd').length), () => `${why}: the refused call produced output`, { key: 'output' }); c.ok(writes === w0, () => `${why}: the refused call wrote to the store`, { key: 'refused-write' }); c.ok(c.mon.decCount === d0, () => `${why}: records were decrypted before the refusal`, { key: 'decrypted' }) }
      if (kind === 'export') {
        const one = { collection: k }, many = some ? { collections: some } : {}, sheets = some ?? [k], zipOpt = { records: { collection: k }, ...(r.chance(0.5) ? { attachments: { slots: '*' } } : {}) }, blobOpt = { collection: k, id: 'r0' }
        const [f, name, call, cols, what, disk] = r.pick([
          ['csv', 'csv.toString', () => asCsv.toString(v, one), [k], 'rec'], ['csv', 'csv.download', () => asCsv.download(v, one), [k], 'rec'], ['csv', 'csv.write', () => asCsv.write(v, path, { ...one, ...A }), [k], 'rec', 1],
          ['json', 'json.toString', () => asJson.toString(v, many), some, 'rec'], ['json', 'json.toObject', () => asJson.toObject(v, many), some, 'rec'], ['json', 'json.download', () => asJson.download(v, many), some, 'rec'], ['json', 'json.write', () => asJson.write(v, path, { ...many, ...A }), some, 'rec', 1],
          ['ndjson', 'ndjson.toString', () => asNdjson.toString(v, many), some, 'rec'], ['ndjson', 'ndjson.stream', () => drain(asNdjson.stream(v, many)), some, 'rec'], ['ndjson', 'ndjson.download', () => asNdjson.download(v, many), some, 'rec'], ['ndjson', 'ndjson.pipe', () => asNdjson.pipe(v, { write: x => sink.push(x), end: () => {} }, { ...many, ...A }), some, 'rec', 1],
          ['sql', 'sql.toString', () => asSql.toString(v, { dialect: 'sqlite', ...(some ? { include: some } : {}) }), some, 'rec'], ['sql', 'sql.download', () => asSql.download(v, { dialect: 'postgres' }), undefined, 'rec'], ['sql', 'sql.write', () => asSql.write(v, path, { dialect: 'mysql', ...A }), undefined, 'rec', 1],
          ['xml', 'xml.toString', () => asXml.toString(v, one), [k], 'rec'], ['xml', 'xml.download', () => asXml.download(v, one), [k], 'rec'], ['xml', 'xml.write', () => asXml.write(v, path, { ...one, ...A }), [k], 'rec', 1],
          ['xlsx', 'xlsx.toBytes', () => asXlsx.toBytes(v, { sheets: sheets.map(x => ({ name: x, collection: x })) }), sheets, 'rec'], ['xlsx', 'xlsx.toBytesFromCollection', () => asXlsx.toBytesFromCollection(v, k), [k], 'rec'], ['xlsx', 'xlsx.download', () => asXlsx.download(v, { sheets: [{ name: k, collection: k }] }), [k], 'rec'], ['xlsx', 'xlsx.write', () => asXlsx.write(v, path, { sheets: [{ name: k, collection: k }], ...A }), [k], 'rec', 1],
          ['zip', 'zip.toBytes', () => asZip.toBytes(v, zipOpt), [k], 'both'], ['zip', 'zip.download', () => asZip.download(v, zipOpt), [k], 'both'], ['zip', 'zip.write', () => asZip.write(v, path, { ...zipOpt, ...A }), [k], 'both', 1],
          ['blob', 'blob.toBytes', () => asBlob.toBytes(v, blobOpt), [k], 'blob'], ['blob', 'blob.download', () => asBlob.download(v, blobOpt), [k], 'blob'], ['blob', 'blob.write', () => asBlob.write(v, path, { ...blobOpt, ...A }), [k], 'blob', 1],
          ['blob', 'vault.exportBlobs', async () => drain(v.exportBlobs(many)), some, 'blob'], ['blob', 'exportBlobsToDirectory', async () => { await exportBlobsToDirectory(v, path + 'd', { filenameProfile: 'opaque', ...many }) }, some, 'blob'],
        ])
        await attempt(call); const ok = mayExport(f), acked = !disk || ack === true; const label = `${name} by ${s.role} with ${show(s.exp)}${disk ? `, acknowledgement ${show(ack)}` : ''}`
        if (!ok || !acked) { nothing(label); c.count(ok ? 'refusedUnacknowledged' : 'refused'); if (!ok && acked) c.ok(err instanceof ExportCapabilityError, () => `${label}: refused with ${err}`, { key: 'error-type' }) }
        else { const wanted = cols ?? COLLS; const can = wanted.filter(readable); const exp = new Set(can.flatMap(x => [...(what === 'rec' ? all(x, false) : what === 'blob' ? stock[x].blob.values() : all(x, true))])); const got = marks(await produced()); c.count('scanned')
          for (const m of got) c.ok(exp.has(m), () => `${label}: the output holds ${m}, which the user may not read or did not ask for`, { key: 'leak' })
          if (err) c.ok(can.length < wanted.length, () => `${label}: failed with ${err}`, { key: 'failed' }); else if (can.length === wanted.length || !cols) { for (const m of exp) c.ok(got.has(m), () => `${label}: ${m} is missing from the output`, { key: 'missing' }); c.count('exported') } }
        c.sig(`${name}/${s.role}/${ok}/${disk ? show(ack) : ''}/${readable(k)}/${!!err}`)
      } else if (kind === 'import') {
        const f = r.pick(['csv', 'json', 'ndjson', 'xml', 'xlsx', 'zip', 'blob', 'jsonText']); const fmt = f === 'jsonText' ? 'json' : f; const before = JSON.stringify([...ref.data.get('acme')].filter(([x]) => x === 'imp').map(([, m]) => [...m])); const pol = r.pick(['merge', 'replace', 'insert-only'])
        await attempt(async () => { const p = f === 'csv' ? await asCsv.fromString(v, F.csv, { collection: 'imp', policy: pol }) : f === 'json' ? await asJson.fromObject(v, F.json, { collections: ['imp'], policy: pol }) : f === 'jsonText' ? await asJson.fromString(v, JSON.stringify(F.json), { collections: ['imp'], policy: pol }) : f === 'ndjson' ? await asNdjson.fromString(v, F.ndjson, { collection: 'imp', policy: pol }) : f === 'xml' ? await asXml.fromString(v, F.xml, { collection: 'imp', policy: pol }) : f === 'xlsx' ? await asXlsx.fromBytes(v, F.xlsx, { collection: 'imp', policy: pol }) : f === 'zip' ? await asZip.fromBytes(v, F.zip, { collection: 'imp', policy: pol }) : await asBlob.fromBytes(v, enc('new' + step), { collection: 'imp', id: 'z0' }); await p.apply() })
        const label = `import of ${f} by ${s.role} with ${show(s.imp)}`; const same = () => JSON.stringify([...ref.data.get('acme')].filter(([x]) => x === 'imp').map(([, m]) => [...m])) === before
        if (!mayImport(fmt)) { nothing(label); c.ok(err instanceof ImportCapabilityError, () => `${label}: refused with ${err}`, { key: 'error-type' }); c.count('importRefused') }
        else if (!writable('imp')) { if (f === 'blob') c.ok(err !== null, () => `${label}: a user who may not write attached a file`, { key: 'import-write' }); c.ok(same(), () => `${label}: a user who may not write changed records`, { key: 'import-write' }) }
        else if (f !== 'blob') { const o = await session('alice'); if (err) { c.ok(s.role === 'operator', () => `${label}: failed with ${err}`, { key: 'failed' }) } else { c.count('imported'); shut('alice'); const fresh = await session('alice'); c.ok((await fresh.v.collection('imp').get('z1'))?.tag === 'imported', () => `${label}: reported success without the record`, { key: 'import-lost' }); if (!(await fresh.v.collection('imp').get('z0'))) { await fresh.v.collection('imp').put('z0', { id: 'z0', tag: 'there' }) } if (r.chance(0.5)) await fresh.v.collection('imp').delete('z1'); for (const x of [...sessions.keys()]) if (x !== 'alice') shut(x) } }
        c.sig(`import/${f}/${s.role}/${mayImport(fmt)}/${writable('imp')}/${!!err}`)
      } else if (kind === 'bundle') {
        const how = r.pick(['toBytes', 'write', 'download']); await attempt(() => how === 'toBytes' ? asNoydb.toBytes(v, { compression: 'none' }) : how === 'write' ? asNoydb.write(v, path, { compression: 'none' }) : asNoydb.download(v, { compression: 'none' })); const label = `bundle ${how} by ${s.role} with ${show(s.exp)}`
        if (!mayBundle) { nothing(label); c.ok(err instanceof ExportCapabilityError, () => `${label}: refused with ${err}`, { key: 'error-type' }); c.count('refused') } else { c.ok(err === null, () => `${label}: failed with ${err}`, { key: 'failed' }); const t = await produced(); c.ok(t.length > 50 && marks(t).size === 0, () => `${label}: plaintext in the bundle`, { key: 'leak' }); c.count('bundles') } c.sig(`bundle/${how}/${s.role}/${show(s.exp?.bundle)}`)
      } else {
        const how = r.pick(['exportStream', 'exportRecords', 'exportJSON']); await attempt(async () => how === 'exportJSON' ? v.exportJSON() : drain(v.exportStream(how === 'exportRecords' ? { granularity: 'record' } : {}))); if (err) throw err; const got = marks(await produced()); const exp = new Set(COLLS.filter(readable).flatMap(x => [...all(x, false)])); c.ok(got.size === exp.size && [...got].every(m => exp.has(m)), () => `${how} by ${s.role}: holds ${show([...got])}, readable are ${show([...exp])}`, { key: 'leak' }); c.count('scanned'); c.sig(`${how}/${s.role}/${show(COLLS.filter(readable))}`)
      }
      downloads.length = 0
    }
  } finally { globalThis.document = oldDoc; URL.createObjectURL = oldCreate; URL.revokeObjectURL = oldRevoke; if (oldDoc === undefined) delete globalThis.document; for (const u of [...sessions.keys()]) shut(u) }
  if (c.i < 3) c.sample({ users: [...users].map(([u, x]) => [u, x.role, x.exp, x.imp]) })
}

export const scenarios = [{ name: 'capabilities', quick: 2600, thorough: 20000, run }]
