// Plaintext exports read back by independent readers; imports against a model of the policies.
import { DatabaseSync } from 'node:sqlite'
import * as asCsv from '@noy-db/as-csv'
import * as asJson from '@noy-db/as-json'
import * as asNdjson from '@noy-db/as-ndjson'
import * as asSql from '@noy-db/as-sql'
import * as asXml from '@noy-db/as-xml'
import * as asXlsx from '@noy-db/as-xlsx'
import * as asZip from '@noy-db/as-zip'
import { z } from 'zod'
import { newRef, open, openExporter, instrument } from '../lib/world.mjs'
import { show, deepEq } from '../lib/child.mjs'
import * as foreign from '../lib/foreign.mjs'

export const meta = {
  property: 'C27', level: 'exploration',
  rule: 'distinct (format, option set, value and hazard classes present, record count class) of exports; (format, policy, shape of the difference, collection kind, fault, outcome) of imports',
  assumptions: ['Every record carries its own id in the field the importer uses.', 'Type limits: CSV and XML carry text (absent and null read as empty or stay absent), spreadsheets carry text, numbers and booleans, nested values as JSON text.', 'Characters that a format cannot carry (NUL in SQL, characters outside XML in XML, unpaired surrogates in files) are left out of the workload or expected to be dropped.', 'Field and collection names are not those of envelope metadata, do not differ only in case, and in XML are valid element names.', 'Foreign XML writes ampersands as the named reference and no-break spaces as themselves (the XML library reads their numeric references differently).', 'Import faults fail before they take effect, once.'],
  minimums: { programs: 9000, exports: 5000, sqlLoads: 350, imports: 4000, failedImports: 600, cells: 60000, bigExports: 150, refusedInputs: 400, foreignFiles: 1500 },
}
const norm = x => JSON.parse(JSON.stringify(x))
const own = (o, k) => Object.hasOwn(o, k) ? o[k] : undefined
const NASTY = ['', ' ', '  lead', 'trail  ', ',', '"', '""', "'", "''", '\\', '\\\'', "\\'; DROP TABLE x; --", '`', ';', '\n', '\r', '\r\n', 'a\nb', 'a\r\nb', 'a\rb', '\t', '\ttab', '=1+1', '+1', '-1', '@SUM(A1)', '<b>', '</Record>', '<![CDATA[x]]>', ']]>', '&', '&amp;', '&#13;', '&lt;', '&#x41;', '<?xml?>', '<!-- c -->', '_x0041_', '_x000D_', '__x0041__', 'NULL', 'null', 'true', 'false', '0123', '1e5', '1.0', 'NaN', '2026-01-01', '2026-01-01T00:00:00.000Z', '2026-13-45T99:99:99Z', '2026-01-01Tgarbage', '2026-05-05T10:00:00+07:00', '{"a":1}', '[]', 'ภาษาไทย "ใบ,แจ้ง"', '😀', 'é', 'e\u0301', '\u2028', '\u2029', '\ufeffbom', '\u00a0', '--', '/*', '$$', '%s', 'x'.repeat(300)]
const CTRL = ['\u0001', 'a\u0008b', '\u000b', '\u001f', '\ufffe', '\uffff', 'a\u007fb', '\u0085']
const NAMES = ['name', 'amount', 'note', 'a,b', 'a"b', "o'k", 'x`y', 'q""q', 'b``b"', 'with space', 'ชื่อ', 'semi;colon', 'new\nline', 'dot.ted', 'constructor', 'toString', 'value', '1st', 'select', 'tab\tbed', '<tag>', '&amp;', ' pad ', "it''s"]
const XNAMES = ['name', 'amount', 'note', 'ชื่อ', 'dot.ted', 'dash-ed', '_under', 'value', 'Ünï', 'a1']
const bad = s => /[\ud800-\udbff](?![\udc00-\udfff])|(?<![\ud800-\udbff])[\udc00-\udfff]/.test(s)

function text(r, ctrl) { const k = r.int(0, 9); if (k < 5) return r.pick(NASTY); if (k < 7) return r.pick(NASTY) + r.pick(NASTY); if (k === 7 && ctrl) return r.pick(CTRL); return Array.from({ length: r.int(1, 9) }, () => r.pick([...'abcXYZ 019,"\'<>&\;_'])).join('') }
function value(r, ctrl) { return r.weighted([[8, () => text(r, ctrl)], [2, () => r.int(-1000, 1000)], [1, () => r.pick([0.5, -2.25, 1e21, 1e-7, 2 ** 31, -(2 ** 31), 2 ** 53 - 1, 1.1, 123456789.125, 3e9])], [1, () => r.chance(0.5)], [1, () => null], [1, () => r.pick([{ a: text(r, false) }, [1, 'x', text(r, false)], [], {}, { n: { m: [null, true] } }])]])() }
function column(r, ctrl) { const k = r.weighted([[4, 'any'], [3, 'text'], [2, 'num'], [1, 'bool'], [1, 'int'], [1, 'date']]); return k === 'any' ? () => value(r, ctrl) : k === 'text' ? () => text(r, ctrl) : k === 'num' ? () => r.pick([0, 1.5, -3, 2 ** 40, 1e-3, 1e21]) : k === 'int' ? () => r.pick([0, 1, -7, 2 ** 31, 2 ** 31 - 1, 3e9]) : k === 'bool' ? () => r.chance(0.5) : () => new Date(r.int(0, 2e9) * 1000 + r.int(0, 999)).toISOString() }

/** n records with heterogeneous fields */
function table(r, names, n, { ctrl = false, nul = 0.12, numeric = false } = {}) {
  const cols = r.sample(names, r.int(0, Math.min(5, names.length))).map(k => [k, column(r, ctrl), r.pick([0, 0.1, 0.5, 0.95])])
  return Array.from({ length: n }, (_, i) => { const id = numeric ? i + 1 : r.pick(['', '', 'x ', 'ก-', 'a/b-']) + 'r' + i; const rec = { id }; for (const [k, g, gap] of cols) if (!r.chance(gap)) rec[k] = r.chance(nul) ? null : g(); return rec })
}
const byId = recs => new Map(recs.map(x => [String(x.id), x]))
const sameMap = (a, b) => a.size === b.size && [...a].every(([k, v]) => b.has(k) && deepEq(norm(v), norm(b.get(k))))
const cellText = v => v === null || v === undefined ? '' : typeof v === 'string' ? v : typeof v === 'object' ? JSON.stringify(v) : String(v)
const xmlText = s => [...s].filter(ch => foreign.xmlChar(ch.codePointAt(0)) && !bad(ch)).join('')
const haz = recs => { const s = JSON.stringify(recs); return [/\\n/.test(s) && 'n', /\\r/.test(s) && 'r', /\\"/.test(s) && 'q', /\\\\/.test(s) && 'b', /'/.test(s) && 'a', /[<&]/.test(s) && 'x', /null/.test(s) && '0', /[^\x20-\x7e]/.test(s) && 'u', /\\u00/.test(s) && 'c'].filter(Boolean).join('') }
const size = n => n === 0 ? '0' : n === 1 ? '1' : n < 10 ? 'few' : n < 100 ? 'many' : 'big'

const FEATURES = ['history', 'tx', 'index', 'blob', 'crdt']
async function seed(c, data, specs = {}) {
  const ref = newRef(); const st = instrument(ref, {}); const w = await openExporter(st, { features: FEATURES })
  for (const [k, recs] of Object.entries(data)) { const col = w.v.collection(k, specs[k] ?? {}); for (const x of recs) await col.put(String(x.id), x) }
  return { ref, st, ...w }
}
const lookup = (c, got, want, what) => { c.ok(got.length === want.length, () => `${what}: ${got.length} rows for ${want.length} records`, { key: 'rows', detail: { got: got.slice(0, 5), want: want.slice(0, 5) } }) }
const same = (c, a, b, what, detail) => { c.count('cells'); if (!Object.is(a, b)) c.fail(`${what}: exported ${show(a)}, stored ${show(b)}`, { key: what.split(':')[0], detail }) }

async function exports(c) {
  const r = c.rng; const kind = r.pick(['csv', 'json', 'ndjson', 'sql', 'sql', 'xml', 'xlsx', 'zip']); const big = r.chance(0.03); const isXml = kind === 'xml'; const ctrl = kind !== 'sql'
  const n = big ? r.int(101, 160) : r.int(0, 9); c.count('programs'); if (big) c.count('bigExports')
  const mk = (m, o) => table(r, isXml ? XNAMES : NAMES, m, { ctrl, ...o })
  const main = mk(n); if (big && kind === 'sql') { for (const x of main.slice(0, 100)) { delete x.late; x.i = 1; x.s = 'x' } for (const x of main.slice(100)) { x.late = text(r, false); x.i = r.pick([1, "1); DROP TABLE y; --", null]); x.s = null } }
  const data = { items: main, ...(r.chance(0.6) ? { others: mk(r.int(0, 4)) } : {}), ...(r.chance(0.2) ? { constructor: mk(r.int(1, 2)) } : {}), ...(r.chance(0.2) ? { 'my things': mk(1) } : {}) }
  const lazy = r.chance(0.25); const w = await seed(c, data, lazy ? { items: { prefetch: false, cache: { maxRecords: 3 } } } : {})
  if (r.chance(0.3)) { const gone = r.sample(main, Math.min(2, main.length)); for (const g of gone) { await w.v.collection('items').delete(String(g.id)); main.splice(main.indexOf(g), 1) } }
  const v = w.v; const target = r.pick(Object.keys(data)); const recs = data[target].map(norm); const want = byId(recs)
  c.count('exports'); let opt = ''
  if (kind === 'json') {
    const pretty = r.pick([undefined, 0, false, 2, 4]); const only = r.chance(0.4) ? [target] : undefined; opt = `${pretty}/${!!only}`
    const doc = JSON.parse(await asJson.toString(v, { ...(pretty !== undefined ? { pretty } : {}), ...(only ? { collections: only } : {}) }))
    for (const [k, rs] of Object.entries(data)) { const got = Object.hasOwn(doc, k) ? doc[k] : undefined; if (only && k !== target) { c.ok(got === undefined, `collection ${k} exported though not selected`, { key: 'selection' }); continue } if (rs.length === 0) { c.ok(got === undefined || got.length === 0, 'records from nowhere'); continue } c.ok(got && got.length === rs.length && sameMap(byId(got), byId(rs)), () => `json export of ${k} differs from the records`, { key: 'json', detail: { got, rs } }); c.count('cells', rs.length) }
  } else if (kind === 'ndjson') {
    const field = r.pick([undefined, '_kind']); const only = r.chance(0.5) ? [target] : undefined; opt = `${field}/${!!only}`
    const txt = await asNdjson.toString(v, { ...(field ? { schemaField: field } : {}), ...(only ? { collections: only } : {}) }); const lines = txt === '' ? [] : txt.split('\n'); const per = {}
    for (const l of lines) { const o = JSON.parse(l); const k = o[field ?? '_schema']; delete o[field ?? '_schema']; (Object.hasOwn(per, k) ? per[k] : (per[k] = [])).push(o) }
    for (const [k, rs] of Object.entries(data)) { const got = Object.hasOwn(per, k) ? per[k] : []; const exp = only && k !== target ? [] : rs; c.ok(got.length === exp.length && sameMap(byId(got), byId(exp)), () => `ndjson export of ${k} differs from the records`, { key: 'ndjson', detail: { got, exp } }); c.count('cells', exp.length) }
  } else if (kind === 'csv') {
    const eol = r.pick([undefined, '\n', '\r\n']); const keys = [...new Set(recs.flatMap(x => Object.keys(x)))]; const columns = r.chance(0.3) && keys.length ? ['id', ...r.sample(keys.filter(k => k !== 'id'), r.int(0, keys.length - 1)), ...(r.chance(0.3) ? ['missing'] : [])] : undefined; opt = `${eol?.length}/${!!columns}`
    const out = await asCsv.toString(v, { collection: target, ...(eol ? { eol } : {}), ...(columns ? { columns } : {}) }); const rows = foreign.csv(out)
    if (recs.length === 0 && !columns) c.ok(rows.length === 0, 'rows from nowhere', { key: 'rows' })
    else { const head = rows[0]; c.ok(columns ? show(head) === show(columns) : show([...head].sort()) === show([...keys].sort()), () => `csv header ${show(head)}`, { key: 'header', detail: { head, keys, columns } }); lookup(c, rows.slice(1), recs, 'csv')
      for (const row of rows.slice(1)) { c.ok(row.length === head.length, () => `csv row of ${row.length} cells under ${head.length} columns`, { key: 'cells', detail: row }); const rec = want.get(row[head.indexOf('id')]); c.ok(rec, () => `csv row for an unknown record ${show(row)}`, { key: 'rows' }); head.forEach((k, i) => same(c, row[i], cellText(own(rec, k)), `csv: ${k}`, { row, rec })) } }
  } else if (kind === 'xml') {
    const o = { collection: target, ...(r.chance(0.3) ? { pretty: false } : {}), ...(r.chance(0.3) ? { xmlDeclaration: false } : {}), ...(r.chance(0.3) ? { namespace: 'urn:x?a=1&b="2"', ...(r.chance(0.5) ? { namespacePrefix: 'n' } : {}) } : {}), ...(r.chance(0.2) ? { rootElement: 'All', recordElement: 'One' } : {}) }; opt = Object.keys(o).join()
    const root = foreign.xml(await asXml.toString(v, o)); if (o.namespace) c.ok(root.attrs[o.namespacePrefix ? 'xmlns:n' : 'xmlns'] === o.namespace, 'the namespace reads back differently', { key: 'namespace' }); lookup(c, root.children, recs, 'xml')
    for (const el of root.children) { const got = {}; for (const f of el.children) { c.ok(!Object.hasOwn(got, f.name) && f.children.length === 0, 'a field element repeats or nests', { key: 'xml' }); got[f.name] = f.text } const rec = want.get(got.id); c.ok(rec, () => `xml element for an unknown record ${show(got)}`, { key: 'rows' }); c.ok(show(Object.keys(got).sort()) === show(Object.keys(rec).sort()), () => `xml fields ${show(Object.keys(got))} of record ${show(rec)}`, { key: 'fields' }); for (const k of Object.keys(rec)) same(c, got[k], xmlText(cellText(rec[k])), `xml: ${k}`, { rec }) }
  } else if (kind === 'xlsx') {
    const targets = r.chance(0.3) ? [target, ...r.sample(Object.keys(data), 1), target] : [target]; const names = targets.map(() => r.pick(['Sheet', 'sheet', 'a very long sheet name that is longer than allowed', 'x/y:[z]', 'A & "B" <c>', ''])); opt = `${targets.length}`
    const bytes = await asXlsx.toBytes(v, { sheets: targets.map((t, i) => ({ name: names[i], collection: t, ...(r.chance(0.2) ? { filter: () => true } : {}) })) }); const sheets = foreign.xlsx(bytes); c.ok(sheets.length === targets.length, 'number of sheets')
    sheets.forEach((sh, si) => { const rs = data[targets[si]].map(norm), wm = byId(rs); if (rs.length === 0) { c.ok(sh.rows.length <= 1, 'rows from nowhere', { key: 'rows' }); return } const head = sh.rows[0]; const keys = [...new Set(rs.flatMap(x => Object.keys(x)))]; c.ok(show(Object.values(head).sort()) === show([...keys].sort()), () => `xlsx header ${show(head)}`, { key: 'header', detail: { keys } }); lookup(c, sh.rows.slice(1), rs, 'xlsx'); const idCol = Object.keys(head).find(k => head[k] === 'id')
      for (const row of sh.rows.slice(1)) { const rec = wm.get(String(row[idCol])); c.ok(rec, () => `xlsx row for an unknown record ${show(row)}`, { key: 'rows' }); for (const [col, k] of Object.entries(head)) { const x = own(rec, k); same(c, row[col], x === null || x === undefined || x === '' ? undefined : typeof x === 'object' ? JSON.stringify(x) : x, `xlsx: ${k}`, { rec }) } } })
  } else if (kind === 'zip') {
    const keep = r.chance(0.3) ? x => String(x.id).endsWith('1') : undefined; opt = `${!!keep}`; const zz = foreign.unzip(await asZip.toBytes(v, { records: { collection: target, ...(keep ? { filter: keep } : {}) } })); const out = JSON.parse(zz.get('records.json').toString('utf8')); const exp = keep ? recs.filter(keep) : recs
    lookup(c, out, exp, 'zip'); for (const o of out) { const { _id, ...rec } = o; c.ok(want.has(_id) && deepEq(rec, norm(want.get(_id))), () => `zip record ${show(o)} differs`, { key: 'zip', detail: want.get(_id) }); c.count('cells') }
    const man = JSON.parse(zz.get('manifest.json').toString('utf8')); c.ok(man.recordCount === exp.length && show(man.records.map(x => x.id).sort()) === show(exp.map(x => String(x.id)).sort()), 'the manifest differs from the archive', { key: 'manifest' })
  } else {
    const dialect = r.pick(['sqlite', 'sqlite', 'postgres', 'mysql']); const mode = r.pick([undefined, undefined, 'schema+data', 'data-only', 'schema-only']); const include = r.chance(0.3) ? [target] : undefined; opt = `${dialect}/${mode}/${!!include}`
    const dump = await asSql.toString(v, { dialect, ...(mode ? { mode } : {}), ...(include ? { include } : {}), ...(r.chance(0.15) ? { tableNames: k => 't_' + k + "'`\"" } : {}) }); const parsed = foreign.sql(dump, dialect); const tn = k => [...new Set([...parsed.tables.keys(), ...parsed.rows.keys()])].find(t => t === k || t === 't_' + k + "'`\"") ?? k
    for (const [k, rs0] of Object.entries(data)) {
      const rs = rs0.map(norm); const on = !include || include.includes(k); const cols = parsed.tables.get(tn(k)); const rows = parsed.rows.get(tn(k)) ?? []
      if (!on || rs.length === 0) { c.ok(rows.length === 0 && (on || !cols), `rows or tables of ${k} from nowhere`, { key: 'rows' }); continue }
      const keys = [...new Set(rs.flatMap(x => Object.keys(x)))].sort()
      if (mode !== 'data-only') { c.ok(cols && show(cols.map(x => x.name).sort()) === show(keys), () => `columns ${show(cols?.map(x => x.name))} for fields ${show(keys)}`, { key: 'columns' }); for (const col of cols) if (col.notNull) c.ok(rs.every(x => own(x, col.name) !== null && own(x, col.name) !== undefined), () => `column ${col.name} is NOT NULL though a record lacks it`, { key: 'not-null' }) } else c.ok(!cols, 'a table in a data-only dump', { key: 'mode' })
      if (mode === 'schema-only') { c.ok(rows.length === 0, 'rows in a schema-only dump', { key: 'mode' }); continue }
      lookup(c, rows, rs, 'sql'); const wm = byId(rs)
      for (const row of rows) { const rec = wm.get(row.id?.s ?? String(row.id?.n)); c.ok(rec, () => `row for an unknown record ${show(row)}`, { key: 'rows' })
        for (const key of keys) { const x = own(rec, key), l = own(row, key), ty = cols?.find(q => q.name === key)?.type ?? ''; c.count('cells')
          if (x === null || x === undefined) c.ok(l === null, `sql: ${key} should be NULL`, { key: 'sql-null' })
          else if (typeof x === 'boolean') c.ok(l === x || l?.n === (x ? 1 : 0) || l?.s === String(x), () => `sql: ${key} is ${show(l)} for ${x}`, { key: 'sql-value' })
          else if (typeof x === 'number') { c.ok(l?.n === x || (l?.s === String(x)), () => `sql: ${key} is ${show(l)} for ${x}`, { key: 'sql-value' }); if (dialect === 'postgres') c.ok(ty !== 'REAL' && (ty !== 'INTEGER' || Math.abs(x) < 2 ** 31) && (ty !== 'BIGINT' || Number.isSafeInteger(x)), () => `sql: ${x} does not fit column ${key} of type ${ty}`, { key: 'sql-range' }); if (dialect === 'mysql') c.ok(ty !== 'BIGINT' || Number.isSafeInteger(x), () => `sql: ${x} does not fit ${ty}`, { key: 'sql-range' }) }
          else if (typeof x === 'object') c.ok(l?.s !== undefined && show(JSON.parse(l.s)) === show(x), () => `sql: ${key} is ${show(l)} for ${show(x)}`, { key: 'sql-value' })
          else if (/TIMESTAMP|DATETIME/.test(ty)) { c.ok(dialect === 'mysql' ? /^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d(\.\d{1,6})?$/.test(l.s) : !Number.isNaN(Date.parse(l.s)), () => `sql: ${show(l.s)} is no ${ty} literal`, { key: 'sql-time' }); c.ok(Date.parse(dialect === 'mysql' ? l.s.replace(' ', 'T') + 'Z' : l.s) === Date.parse(x), () => `sql: ${key} is ${l.s} for ${x}`, { key: 'sql-value' }) }
          else if (!(dialect === 'mysql' && ty === '' && l?.s !== x && Date.parse(l?.s?.replace(' ', 'T') + 'Z') === Date.parse(x))) c.ok(l?.s === x, () => `sql(${dialect}): ${key} is ${show(l)} for ${show(x)}`, { key: 'sql-value' }) } } }
    if (dialect === 'sqlite' && mode !== 'data-only') { const db = new DatabaseSync(':memory:'); try { try { db.exec(dump) } catch (e) { c.fail('sqlite refused the dump: ' + e.message, { key: 'sqlite-load', detail: dump.slice(0, 3000) }) } c.count('sqlLoads')
      for (const [k, rs0] of Object.entries(data)) { if ((include && !include.includes(k)) || rs0.length === 0 || mode === 'schema-only') continue; const rows = db.prepare(`SELECT * FROM "${tn(k).replace(/"/g, '""')}"`).all(); lookup(c, rows, rs0, 'sqlite'); const wm = byId(rs0.map(norm)); for (const row of rows) { const rec = wm.get(String(row.id)); for (const key of Object.keys(rec)) { const x = rec[key], y = row[key]; c.count('cells'); c.ok(x === null ? y === null : typeof x === 'string' ? y === x : typeof x === 'number' ? Number(y) === x : typeof x === 'boolean' ? y === (x ? 1 : 0) || y === String(x) : deepEq(JSON.parse(y), x), () => `sqlite holds ${show(y)} for ${show(x)} in ${key}`, { key: 'sqlite-value' }) } } }
      const tables = db.prepare("SELECT count(*) n FROM sqlite_master WHERE type='table'").get().n; c.ok(tables === parsed.tables.size, 'the dump created other tables', { key: 'sqlite-load' }) } finally { db.close() } }
  }
  c.sig(`${kind}/${opt}/${size(recs.length)}/${haz(recs)}/${lazy}`); if (c.i < 5) c.sample({ kind, opt, records: recs.slice(0, 2) })
}

// what an import of these records by this format should give
const arrive = { json: (recs) => recs.map(norm), ndjson: recs => recs.map(norm), zip: recs => recs.map(norm),
  csv: (recs, types) => { const keys = [...new Set(recs.flatMap(x => Object.keys(x)))]; return recs.map(x => { const o = {}; for (const k of keys) { const t = cellText(own(norm(x), k)); const y = coerce(t, own(types, k)); if (y !== undefined) o[k] = y } return o }) },
  xml: (recs, types) => recs.map(x => { const o = {}; for (const [k, val] of Object.entries(norm(x))) { const y = coerce(xmlText(cellText(val)), own(types, k)); if (y !== undefined) o[k] = y } return o }),
  xlsx: recs => recs.map(x => Object.fromEntries(Object.entries(norm(x)).filter(([, y]) => y !== null && y !== '').map(([k, y]) => [k, typeof y === 'object' ? JSON.stringify(y) : y]))) }
const coerce = (t, type) => type === 'number' ? t === '' ? undefined : Number.isFinite(Number(t)) && t.trim() !== '' ? Number(t) : t : type === 'boolean' ? t === 'true' ? true : t === 'false' ? false : t : t

async function imports(c) {
  const r = c.rng; const kind = r.pick(['csv', 'json', 'ndjson', 'xml', 'xlsx', 'zip']); const policy = r.pick([undefined, 'merge', 'replace', 'insert-only']); const isXml = kind === 'xml'; c.count('programs'); const mode = r.weighted([[5, 'plain'], [2, 'fault'], [1, 'invalid'], [1, 'malformed']])
  const numeric = kind === 'json' && r.chance(0.2); const dense = r.chance(0.02); const n = r.int(0, 7)
  const src = table(r, isXml ? XNAMES : NAMES, n, { ctrl: kind !== 'xml', numeric }); if (dense) for (const x of src) x.note = '<&>"\''.repeat(400)
  const types = {}; if (kind === 'csv' || kind === 'xml') for (const k of new Set(src.flatMap(x => Object.keys(x)))) if (k !== 'id' && r.chance(0.5)) { const vs = src.map(x => x[k]).filter(x => x !== undefined && x !== null); if (vs.length && vs.every(x => typeof x === 'number')) types[k] = 'number'; else if (vs.length && vs.every(x => typeof x === 'boolean')) types[k] = 'boolean' }
  const A = await seed(c, { items: src, ...(r.chance(0.3) ? { noise: table(r, XNAMES, 2) } : {}) })
  let file
  if (kind === 'csv') file = await asCsv.toString(A.v, { collection: 'items', eol: r.pick(['\n', '\r\n']) }); else if (kind === 'json') file = await asJson.toString(A.v, { collections: ['items'] }); else if (kind === 'ndjson') file = await asNdjson.toString(A.v, { collections: ['items'] }); else if (kind === 'xml') file = await asXml.toString(A.v, { collection: 'items', ...(r.chance(0.3) ? { pretty: false } : {}), ...(r.chance(0.3) ? { namespace: 'urn:x', namespacePrefix: 'n' } : {}) }); else if (kind === 'xlsx') file = await asXlsx.toBytes(A.v, { sheets: [{ name: 'S', collection: 'items' }] }); else file = await asZip.toBytes(A.v, { records: { collection: 'items' } })
  if (dense) c.count('bigExports')
  const coming = byId(arrive[kind](src, types))
  // the vault imported into: some records in common (equal or changed), some of its own
  const have = []; for (const [id, x] of coming) { if (r.chance(0.35)) have.push(norm(x)); else if (r.chance(0.3)) { const y = norm(x); y.note = r.pick(['old', 1, null]); have.push(y) } } for (let i = 0, m = r.int(0, 3); i < m; i++) have.push({ id: numeric ? 100 + i : 'own' + i, note: text(r, false) })
  const spec = mode === 'invalid' ? { schema: z.object({ id: z.union([z.string(), z.number()]) }).passthrough().refine(x => x.poison !== true) } : r.pick([{}, {}, { prefetch: false, cache: { maxRecords: 2 } }])
  const B = await seed(c, { items: have, noise: [{ id: 'k', note: 'keep' }] }, { items: spec }); if (mode === 'invalid' && src.length) { /* a record the target's schema refuses */ const last = r.pick([...coming.keys()]); coming.get(last).poison = true }
  const state = async () => { const w = await open(instrument(B.ref, {}), { features: FEATURES }); const out = {}; for (const k of ['items', 'noise']) { const col = w.v.collection(k); out[k] = new Map((await col.list()).map(x => [String(x.id), x])) } w.db.close(); return out }
  const before = await state(); const opts = { ...(policy ? { policy } : {}) }; const label = `${kind}/${policy ?? 'default'}/${mode}`
  const load = f => kind === 'csv' ? asCsv.fromString(B.v, f, { collection: 'items', columnTypes: types, ...opts }) : kind === 'json' ? asJson.fromString(B.v, f, { collections: ['items'], ...opts }) : kind === 'ndjson' ? asNdjson.fromString(B.v, f, { collection: 'items', ...opts }) : kind === 'xml' ? asXml.fromString(B.v, f, { collection: 'items', fieldTypes: types, ...opts }) : kind === 'xlsx' ? asXlsx.fromBytes(B.v, f, { collection: 'items', ...opts }) : asZip.fromBytes(B.v, f, { collection: 'items', ...opts })
  if (mode === 'malformed') { // cut or garbled: refused when planning, or planned without touching anything
    const cut = typeof file === 'string' ? file.slice(0, r.int(0, Math.max(0, file.length - 1))) + r.pick(['', '<', '{', '"']) : file.slice(0, r.int(0, file.length - 1)); let planned = true; try { await load(cut) } catch { planned = false } c.count('refusedInputs')
    const after = await state(); c.ok(sameMap(after.items, before.items) && sameMap(after.noise, before.noise), 'a malformed file changed the vault before it was applied', { key: 'malformed' }); c.sig(`${label}/${planned}`); return
  }
  if (mode === 'invalid' && kind === 'json' && src.length) { const doc = JSON.parse(file); for (const x of doc.items) { const m = coming.get(String(x.id)); if (m.poison) x.poison = true } file = JSON.stringify(doc) } else if (mode === 'invalid') { for (const x of coming.values()) delete x.poison }
  const imp = await load(file); c.count('imports'); c.ok(imp.policy === (policy ?? 'merge'), 'policy reported', { key: 'policy' })
  const exp = { added: [], modified: [], deleted: [] }; const E = before.items
  for (const [id, x] of coming) if (!E.has(id)) exp.added.push(id); else if (!deepEq(norm(E.get(id)), norm(x))) exp.modified.push(id)
  for (const id of E.keys()) if (!coming.has(id)) exp.deleted.push(id)
  for (const k of ['added', 'modified', 'deleted']) { const got = imp.plan[k].map(e => e.id).sort(); c.ok(show(got) === show([...exp[k]].sort()) && imp.plan[k].every(e => e.collection === 'items'), () => `${label}: the plan lists ${show(got)} as ${k}, expected ${show(exp[k])}`, { key: 'plan-' + k, detail: { coming: [...coming], have: [...E], plan: imp.plan.modified.slice(0, 3) } }) }
  const mid = await state(); c.ok(sameMap(mid.items, E), 'planning changed the vault', { key: 'planning' })
  const p = policy ?? 'merge'; const final = new Map(p === 'replace' ? [] : E); for (const [id, x] of coming) if (p !== 'insert-only' || !E.has(id)) final.set(id, x); const writes = exp.added.length + (p !== 'insert-only' ? exp.modified.length : 0) + (p === 'replace' ? exp.deleted.length : 0)
  let hit = 0, at = mode === 'fault' ? r.int(1, Math.max(1, writes)) : 0; if (at) B.st._st.fault = ev => { if ((ev.op === 'put' || ev.op === 'delete') && ev.coll === 'items' && --at === 0) { hit++; return 'before' } }
  let err = null; try { await imp.apply() } catch (e) { err = e } B.st._st.fault = undefined
  const poisoned = mode === 'invalid' && [...coming].some(([id, x]) => x.poison && (p !== 'insert-only' || !E.has(id)) && (exp.added.includes(id) || exp.modified.includes(id)))
  const after = await state()
  if (hit || poisoned) { c.count('failedImports'); c.ok(err !== null, `${label}: a failing import reported success`, { key: 'silent' }); c.ok(sameMap(after.items, E) && sameMap(after.noise, before.noise), () => `${label}: a failed import left changes`, { key: 'partial', detail: { before: [...E], after: [...after.items] } }) }
  else { if (err) throw err; c.ok(sameMap(after.items, final), () => `${label}: the records after the import are not those the policy gives`, { key: 'result', detail: { after: [...after.items], final: [...final] } }); c.ok(sameMap(after.noise, before.noise), 'another collection changed', { key: 'noise' })
    const again = await load(file); const left = again.plan; c.ok(left.added.length === 0 && (p === 'insert-only' || left.modified.length === 0) && (p !== 'replace' || left.deleted.length === 0), () => `${label}: importing the same file again would change ${left.summary.total} records`, { key: 'again' }) }
  c.sig(`${label}/${exp.added.length > 0}/${exp.modified.length > 0}/${exp.deleted.length > 0}/${Object.keys(spec)}/${hit}/${poisoned}/${haz(src)}`); if (c.i < 5) c.sample({ label, plan: imp.plan.summary })
}

// files as other programs write them
async function foreignFiles(c) {
  const r = c.rng; const kind = r.pick(['csv', 'csv', 'xml', 'json', 'ndjson']); const isXml = kind === 'xml'; c.count('programs'); c.count('foreignFiles')
  const src = table(r, isXml ? XNAMES : NAMES, r.int(1, 6), { nul: 0 }).map(x => Object.fromEntries(Object.entries(x).map(([k, y]) => [k, isXml || kind === 'csv' ? cellText(norm(y)) : norm(y)]))); const B = await seed(c, { items: [{ id: 'own', note: 'mine' }] }); let imp, form
  if (kind === 'csv') {
    const keys = r.shuffle([...new Set(src.flatMap(x => Object.keys(x)))]); const eol = r.pick(['\n', '\r\n', '\r']), all = r.chance(0.5), end = r.chance(0.5); form = `${eol.length}${eol === '\r'}/${all}/${end}`; const f = s => all || /[",\r\n]/.test(s) ? '"' + s.replace(/"/g, '""') + '"' : s; for (const x of src) for (const k of keys) x[k] = own(x, k) ?? ''
    imp = await asCsv.fromString(B.v, [keys, ...src.map(x => keys.map(k => x[k]))].map(row => row.map(f).join(',')).join(eol) + (end ? eol : ''), { collection: 'items', policy: 'replace' })
  } else if (kind === 'json') { form = r.pick([undefined, 2, '\t']); imp = await asJson.fromString(B.v, JSON.stringify({ ...(r.chance(0.3) ? { other: [{ id: 'z' }] } : {}), items: src }, null, form), { collections: ['items'], policy: 'replace' }) }
  else if (kind === 'ndjson') { form = r.pick(['\n', '\r\n', '\n\n']); imp = await asNdjson.fromString(B.v, src.map(x => JSON.stringify(x)).join(form) + (r.chance(0.5) ? form : ''), { collection: 'items', policy: 'replace' }) }
  else {
    const how = new Set(); const t = s => { if (!/\r/.test(s) && !s.includes(']]>') && r.chance(0.25)) { how.add('cdata'); return s === '' ? '' : `<![CDATA[${s}]]>` } return [...s].map(ch => { if (ch === '<' || ch === '&' || ch === '>' || ch === '\r' || (ch !== '\u00a0' && r.chance(0.1))) { const k = ch === '&' ? 0 : r.int(0, 2), cp = ch.codePointAt(0); const n = { '<': '&lt;', '&': '&amp;', '>': '&gt;', '"': '&quot;', "'": '&apos;' }[ch]; how.add('ref' + k); return k === 0 && n ? n : k === 1 ? `&#${cp};` : `&#x${cp.toString(16)};` } return ch }).join('') }
    const nl = r.pick(['', '\n', '\r\n  ']); const rec = r.pick(['Item', 'Rec', 'row']); const note = () => r.chance(0.2) ? (how.add('comment'), '<!-- a & b <c> -->') : ''; const doc = `${r.chance(0.5) ? '<?xml version="1.0" encoding="UTF-8"?>' + nl : ''}<All>${nl}${src.map(x => `${note()}<${rec}>${nl}${Object.entries(x).map(([k, y]) => y === '' && r.chance(0.5) ? `<${k}/>` : `<${k}>${t(y)}</${k}>`).join(nl)}${nl}</${rec}>`).join(nl)}${nl}</All>`; form = [...how].sort().join()
    imp = await asXml.fromString(B.v, doc, { collection: 'items', recordElement: rec, policy: 'replace' })
  }
  const want = byId(src); c.ok(show(imp.plan.added.map(e => e.id).sort()) === show([...want.keys()].sort()) && imp.plan.deleted.length === 1, () => `${kind}: the plan adds ${show(imp.plan.added.map(e => e.id))} for ${show([...want.keys()])}`, { key: 'foreign-plan' }); await imp.apply()
  const w = await open(instrument(B.ref, {}), { features: FEATURES }); const got = byId(await w.v.collection('items').list()); c.ok(sameMap(got, want), () => `${kind}: the records differ from those in the file`, { key: 'foreign', detail: { got: [...got], want: [...want] } }); c.count('cells', src.length); c.sig(`foreign/${kind}/${form}/${haz(src)}`)
}

export const scenarios = [
  { name: 'exports', quick: 5600, thorough: 40000, run: exports },
  { name: 'foreignFiles', quick: 1600, thorough: 12000, run: foreignFiles },
  { name: 'imports', quick: 5200, thorough: 40000, run: imports },
]
