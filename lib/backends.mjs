// Every supplied backend on an in-process stand-in for its service. The stand-ins keep the
// service's own rules (page limits, orderings, column types, collations, conditional writes).
import { DatabaseSync } from 'node:sqlite'
import { mkdtempSync, mkdirSync, rmSync } from 'node:fs'
import { tmpdir } from 'node:os'
import { join, posix } from 'node:path'
import 'fake-indexeddb/auto'
import { IDBFactory } from 'fake-indexeddb'
import { memory } from '@noy-db/to-memory'
import { jsonFile } from '@noy-db/to-file'
import { sqlite } from '@noy-db/to-sqlite'
import { d1 } from '@noy-db/to-cloudflare-d1'
import { turso } from '@noy-db/to-turso'
import { postgres } from '@noy-db/to-postgres'
import { supabase } from '@noy-db/to-supabase'
import { mysql } from '@noy-db/to-mysql'
import { s3 } from '@noy-db/to-aws-s3'
import { r2 } from '@noy-db/to-cloudflare-r2'
import { dynamo } from '@noy-db/to-aws-dynamo'
import { browserIdbStore } from '@noy-db/to-browser-idb'
import { browserLocalStore } from '@noy-db/to-browser-local'
import { webdav } from '@noy-db/to-webdav'
import { ssh } from '@noy-db/to-ssh'
import { smb } from '@noy-db/to-smb'
import { nfs } from '@noy-db/to-nfs'
import { peerStore, servePeerStore, pairInMemory } from '@noy-db/by-peer'

const utf8 = (a, b) => Buffer.compare(Buffer.from(a), Buffer.from(b))
const hopper = c => async what => { const g = c.sched?.gate(what); if (g) await g; else if (c.rng.chance(0.3)) await null }

function sqlDb(c) { const db = new DatabaseSync(':memory:'); c.cleanup(() => db.close()); return db }
const plainRow = r => ({ ...r })
function pgClient(c) {
  const db = sqlDb(c); const hop = hopper(c)
  return {
    async query(sql, params) {
      await hop('q>')
      let rows = []
      if (params === undefined || params.length === 0) {
        if (/^\s*select/i.test(sql)) rows = db.prepare(sql).all(); else db.exec(sql)
      } else rows = db.prepare(sql.replace(/\$(\d+)/g, '?$1').replace(/::\w+/g, '')).all(...params)
      rows = rows.map(r => { const o = plainRow(r); if ('v' in o) o.v = String(o.v); if (typeof o.envelope === 'string') o.envelope = JSON.parse(o.envelope); return o })
      await hop('q<')
      return { rows, rowCount: rows.length }
    },
  }
}
function mysqlClient(c) {
  const db = sqlDb(c); const hop = hopper(c)
  const fix = sql => sql
    .replace(/START TRANSACTION/i, 'BEGIN')
    .replace(/,\s*INDEX \w+ \([^)]*\)/i, '')
    .replace(/VARCHAR\(\d+\)(\s+CHARACTER SET \w+)?(\s+COLLATE\s+(\w+))?/gi, (_, cs, co, name) => `TEXT COLLATE ${name && /bin$/i.test(name) ? 'BINARY' : 'NOCASE'}`)
    .replace(/ON DUPLICATE KEY UPDATE/i, 'ON CONFLICT(vault, collection, id) DO UPDATE SET')
    .replace(/VALUES\((v|envelope)\)/gi, 'excluded.$1').replace(/\bIF\(/g, 'iif(')
  const run = async (sql, params) => {
    await hop('q>')
    let rows
    if (/^\s*select/i.test(sql)) rows = db.prepare(fix(sql)).all(...(params ?? [])).map(r => { const o = plainRow(r); if (typeof o.envelope === 'string') o.envelope = JSON.parse(o.envelope); return o })
    else if (params && params.length) { const r = db.prepare(fix(sql)).run(...params); rows = { affectedRows: Number(r.changes) } }
    else { db.exec(fix(sql)); rows = { affectedRows: 0 } }
    await hop('q<')
    return [rows, []]
  }
  return { execute: run, ...(c.rng.chance(0.5) ? { query: s => run(s) } : {}) }
}
function d1Db(c) {
  const db = sqlDb(c); const hop = hopper(c)
  const st = (sql, args) => ({
    sql, args,
    bind: (...a) => st(sql, a),
    async all() { await hop('q>'); const results = db.prepare(sql).all(...(args ?? [])).map(plainRow); await hop('q<'); return { results, success: true } },
    async run() { return this.all() },
    async first() { return (await this.all()).results[0] ?? null },
  })
  return {
    prepare: sql => st(sql),
    async batch(list) {
      await hop('b>')
      db.exec('BEGIN'); const out = []
      try { for (const s of list) out.push({ results: db.prepare(s.sql).all(...(s.args ?? [])).map(plainRow), success: true }); db.exec('COMMIT') } catch (e) { db.exec('ROLLBACK'); throw e }
      await hop('b<')
      return out
    },
  }
}
function libsql(c) {
  const d = d1Db(c)
  const o = { execute: async a => { const { sql, args } = typeof a === 'string' ? { sql: a } : a; const r = await d.prepare(sql).bind(...(args ?? [])).all(); return { rows: r.results } } }
  c.noBatchApi = !c.rng.chance(0.6)
  if (!c.noBatchApi) o.batch = async list => (await d.batch(list.map(s => d.prepare(s.sql).bind(...(s.args ?? []))))).map(r => ({ rows: r.results }))
  return o
}
function s3Client(c) {
  const objs = new Map(); const hop = hopper(c); const cap = c.rng.pick([2, 3, 7, 1000])
  return {
    async send(cmd) {
      const i = cmd.input; await hop('s>')
      try {
        switch (cmd.constructor.name) {
          case 'GetObjectCommand': { const b = objs.get(i.Key); if (b === undefined) { const e = new Error('missing'); e.name = 'NoSuchKey'; throw e } return { Body: { transformToString: async () => b } } }
          case 'PutObjectCommand': objs.set(i.Key, typeof i.Body === 'string' ? i.Body : Buffer.from(i.Body).toString()); return {}
          case 'DeleteObjectCommand': objs.delete(i.Key); return {}
          case 'DeleteObjectsCommand': for (const o of i.Delete.Objects) objs.delete(o.Key); return {}
          case 'HeadBucketCommand': return {}
          case 'ListObjectsV2Command': {
            const after = i.ContinuationToken ? Buffer.from(i.ContinuationToken, 'base64').toString() : null
            const keys = [...objs.keys()].filter(k => k.startsWith(i.Prefix ?? '')).sort(utf8).filter(k => after === null || utf8(k, after) > 0)
            const n = Math.min(i.MaxKeys ?? 1000, cap); const page = keys.slice(0, n)
            const more = keys.length > n
            return { Contents: page.length ? page.map(Key => ({ Key })) : undefined, KeyCount: page.length, IsTruncated: more, ...(more ? { NextContinuationToken: Buffer.from(page[n - 1]).toString('base64') } : {}) }
          }
          default: throw new Error(`unexpected command ${cmd.constructor.name}`)
        }
      } finally { await hop('s<') }
    },
  }
}
function dynamoClient(c) {
  const tab = new Map(); const hop = hopper(c); const cap = c.rng.pick([2, 5, 100])
  const clone = x => { const walk = y => { if (y === undefined) throw new Error('Pass options.removeUndefinedValues=true to remove undefined values'); if (y && typeof y === 'object') Object.values(y).forEach(walk) }; walk(x); return structuredClone(x) }
  const cond = (i, cur) => {
    if (!i.ConditionExpression) return true
    return i.ConditionExpression.split(/\s+OR\s+/i).some(t => {
      t = t.trim().replace(/^\(|\)$/g, s => (t.startsWith('attribute') ? s : ''))
      let m = /^attribute_not_exists\(([#\w]+)\)?$/.exec(t); if (m) { const f = i.ExpressionAttributeNames?.[m[1]] ?? m[1]; return !cur || cur[f] === undefined }
      m = /^([#\w]+)\s*=\s*(:\w+)$/.exec(t); if (m) { const f = i.ExpressionAttributeNames?.[m[1]] ?? m[1]; return !!cur && cur[f] === i.ExpressionAttributeValues[m[2]] }
      throw new Error(`unexpected condition ${t}`)
    })
  }
  return {
    async send(cmd) {
      const i = cmd.input; await hop('d>')
      try {
        switch (cmd.constructor.name) {
          case 'GetCommand': { const x = tab.get(i.Key.pk)?.get(i.Key.sk); return x ? { Item: structuredClone(x) } : {} }
          case 'PutCommand': {
            const p = tab.get(i.Item.pk) ?? new Map(); const cur = p.get(i.Item.sk)
            if (!cond(i, cur)) { const e = new Error('The conditional request failed'); e.name = 'ConditionalCheckFailedException'; throw e }
            p.set(i.Item.sk, clone(i.Item)); tab.set(i.Item.pk, p); return {}
          }
          case 'DeleteCommand': tab.get(i.Key.pk)?.delete(i.Key.sk); return {}
          case 'QueryCommand': {
            const V = i.ExpressionAttributeValues; const pfx = /begins_with/.test(i.KeyConditionExpression) ? Object.entries(V).find(([k]) => k !== ':pk')[1] : ''
            let rows = [...(tab.get(V[':pk']) ?? new Map())].filter(([k]) => k.startsWith(pfx)).sort((a, b) => utf8(a[0], b[0]))
            if (i.ExclusiveStartKey) rows = rows.filter(([k]) => utf8(k, i.ExclusiveStartKey.sk) > 0)
            const n = Math.min(i.Limit ?? Infinity, cap); const page = rows.slice(0, n)
            // a full page carries a continuation key even when nothing follows
            return { Items: page.map(x => structuredClone(x[1])), Count: page.length, ...(page.length === n && page.length ? { LastEvaluatedKey: { pk: V[':pk'], sk: page[n - 1][0] } } : {}) }
          }
          default: throw new Error(`unexpected command ${cmd.constructor.name}`)
        }
      } finally { await hop('d<') }
    },
  }
}
class FakeStorage {
  constructor() { this.m = new Map() }
  get length() { return this.m.size }
  key(i) { return [...this.m.keys()][i] ?? null }
  getItem(k) { return this.m.get(String(k)) ?? null }
  setItem(k, v) { this.m.set(String(k), String(v)) }
  removeItem(k) { this.m.delete(String(k)) }
  clear() { this.m.clear() }
}
function remoteFs(c, recursive) {
  const files = new Map(); const dirs = new Set(['/']); const hop = hopper(c)
  const n = p => posix.normalize('/' + p).replace(/(.)\/$/, '$1')
  const err = m => { throw new Error(m) }
  const wrap = f => async (...a) => { await hop('f>'); const r = f(...a); await hop('f<'); return r }
  return {
    readFile: wrap(p => (files.has(n(p)) ? Buffer.from(files.get(n(p))) : null)),
    // a write truncates first, so an overlapping reader of the same path sees an empty file
    async writeFile(p, d) { await hop('w>'); p = n(p); if (!dirs.has(posix.dirname(p))) err('no such directory ' + p); files.set(p, ''); await hop('w='); files.set(p, typeof d === 'string' ? d : Buffer.from(d).toString()); await hop('w<') },
    unlink: wrap(p => { if (!files.delete(n(p)) && !recursive) err('no such file') }),
    mkdir: wrap((p, rec) => { p = n(p); if (dirs.has(p)) { if (!rec) err('exists'); return } if (rec) { for (let q = p; q !== '/'; q = posix.dirname(q)) dirs.add(q) } else { if (!dirs.has(posix.dirname(p))) err('no parent'); dirs.add(p) } }),
    rename: wrap((a, b) => { a = n(a); b = n(b); if (!files.has(a)) err(`rename: no such file ${a}`); files.set(b, files.get(a)); files.delete(a) }),
    readdir: wrap(p => { p = n(p); if (!dirs.has(p)) err('no such directory'); const out = []; for (const x of [...files.keys(), ...dirs]) if (x !== p && posix.dirname(x) === p) out.push(posix.basename(x)); return c.rng.shuffle(out) }),
  }
}
function davFetch(c) {
  const files = new Map(); const dirs = new Set(['', 'dav']); const hop = hopper(c)
  const enc = c.rng.chance(0.5) ? encodeURIComponent : s => encodeURIComponent(s).replace(/[!'()*]/g, x => '%' + x.charCodeAt(0).toString(16).toUpperCase())
  const pfx = c.rng.pick(['D:', 'd:', '', 'lp1:'])
  return async (url, init = {}) => {
    await hop('h>')
    const segs = new URL(url).pathname.split('/').filter(Boolean).map(decodeURIComponent)
    const key = segs.join('\u0001'); const parent = segs.slice(0, -1).join('\u0001')
    const R = (status, body = '') => ({ status, ok: status >= 200 && status < 300, text: async () => body, json: async () => JSON.parse(body) })
    const href = (k, dir) => '/' + k.split('\u0001').map(enc).join('/') + (dir ? '/' : '')
    let r
    switch (init.method ?? 'GET') {
      case 'GET': r = files.has(key) ? R(200, files.get(key)) : R(404); break
      case 'PUT': if (!dirs.has(parent)) r = R(409); else { const had = files.has(key); files.set(key, init.body); r = R(had ? 204 : 201) } break
      case 'DELETE': r = files.delete(key) ? R(204) : R(404); break
      case 'MKCOL': r = dirs.has(key) ? R(405) : dirs.has(parent) ? (dirs.add(key), R(201)) : R(409); break
      case 'PROPFIND': {
        if (!dirs.has(key)) { r = R(404); break }
        const kids = []; for (const [k, d] of [...[...files.keys()].map(k => [k, false]), ...[...dirs].map(k => [k, true])]) { if (k === key || !k.startsWith(key === '' ? '' : key + '\u0001')) continue; if (k.slice(key === '' ? 0 : key.length + 1).includes('\u0001')) continue; kids.push([k, d]) }
        const all = [[key, true], ...((init.headers?.Depth ?? '1') === '0' ? [] : kids)]
        r = R(207, `<?xml version="1.0"?><${pfx}multistatus>${all.map(([k, d]) => `<${pfx}response><${pfx}href>${href(k, d).replace(/&/g, '&amp;')}</${pfx}href></${pfx}response>`).join('')}</${pfx}multistatus>`); break
      }
      default: r = R(405)
    }
    await hop('h<')
    return r
  }
}
// the file stores run several directories below a scratch directory, deeper than any name can climb
function scratch(c) { const top = mkdtempSync(join(tmpdir(), 'verif-fs-')); c.cleanup(() => rmSync(top, { recursive: true, force: true })); const d = join(top, 'a/b/c/d/e/f'); mkdirSync(d, { recursive: true }); return d }

/** cas: stale versions refused; atomic: of racing same-version puts at most one succeeds; gated: stand-in honours the scheduler */
export const BACKENDS = {
  memory: { cas: true, atomic: true, make: () => memory() },
  file: { cas: true, fs: true, make: c => jsonFile({ dir: scratch(c) }) },
  nfs: { cas: true, fs: true, make: c => nfs({ mountPath: scratch(c), mountDetector: async () => ({ exists: true, fstype: 'nfs4', options: ['rw', 'noac'] }) }) },
  sqlite: { cas: true, atomic: true, make: c => sqlite({ db: sqlDb(c) }) },
  d1: { cas: true, atomic: true, gated: true, make: c => d1({ db: d1Db(c) }) },
  turso: { cas: true, atomic: true, gated: true, make: c => turso({ client: libsql(c) }) },
  postgres: { cas: true, atomic: true, gated: true, make: c => postgres({ client: pgClient(c) }) },
  supabase: { cas: true, atomic: true, gated: true, make: c => supabase({ client: pgClient(c) }) },
  mysql: { cas: true, atomic: true, gated: true, make: c => mysql({ client: mysqlClient(c) }) },
  s3: { cas: true, gated: true, make: c => s3({ bucket: 'b', client: s3Client(c), ...(c.rng.chance(0.5) ? { prefix: 'p/q' } : {}) }) },
  r2: { cas: true, gated: true, make: c => r2({ bucket: 'b', client: s3Client(c) }) },
  dynamo: { cas: true, atomic: true, gated: true, make: c => dynamo({ table: 't', client: dynamoClient(c) }) },
  idb: { cas: true, atomic: true, fs: true, make: c => { globalThis.indexedDB = new IDBFactory(); return browserIdbStore({ prefix: 'p' }) } },
  'idb-obf': { cas: true, atomic: true, fs: true, obf: true, make: c => { globalThis.indexedDB = new IDBFactory(); return browserIdbStore({ prefix: 'p', obfuscate: true }) } },
  local: { cas: true, atomic: true, make: c => { globalThis.localStorage = new FakeStorage(); return browserLocalStore({ prefix: 'p' }) } },
  'local-obf': { cas: true, atomic: true, obf: true, make: c => { globalThis.localStorage = new FakeStorage(); return browserLocalStore({ prefix: 'p', obfuscate: true }) } },
  webdav: { gated: true, dotless: true, make: c => webdav({ baseUrl: 'http://dav.example/dav', fetch: davFetch(c), ...(c.rng.chance(0.5) ? { prefix: 'p' } : {}), ...(c.rng.chance(0.3) ? { eagerMkcol: true } : {}) }) },
  ssh: { gated: true, make: c => ssh({ sftp: remoteFs(c, true) }) },
  smb: { gated: true, make: c => smb({ smb: remoteFs(c, false) }) },
  peer: { cas: true, atomic: true, make: c => { const [a, b] = pairInMemory(); const stop = servePeerStore({ channel: b, store: memory() }); const s = peerStore({ channel: a, timeoutMs: 2 ** 30 }); c.cleanup(() => { s.dispose(); stop() }); return s } },
}
