// Independent readers of the plaintext export formats, written from their standards.
import { inflateRawSync } from 'node:zlib'

/** RFC 4180, strict: a quote opens only at the start of a field and closes only before a separator. */
export function csv(text) {
  const rows = []; let row = [], i = 0
  if (text === '') return rows
  for (;;) {
    let f = ''
    if (text[i] === '"') {
      i++
      for (;;) { if (i >= text.length) throw new Error('csv: unterminated quote'); if (text[i] !== '"') { f += text[i++]; continue } if (text[i + 1] === '"') { f += '"'; i += 2; continue } i++; break }
      if (i < text.length && text[i] !== ',' && text[i] !== '\n' && text[i] !== '\r') throw new Error('csv: text after a closing quote')
    } else while (i < text.length && text[i] !== ',' && text[i] !== '\n' && text[i] !== '\r') { if (text[i] === '"') throw new Error('csv: bare quote'); f += text[i++] }
    row.push(f)
    if (i >= text.length) { rows.push(row); return rows }
    if (text[i] === ',') { i++; continue }
    if (text[i] === '\r') { if (text[i + 1] !== '\n') throw new Error('csv: bare CR'); i++ }
    i++; rows.push(row); row = []
  }
}

const S = 'A-Za-z_:\\u00C0-\\u00D6\\u00D8-\\u00F6\\u00F8-\\u02FF\\u0370-\\u037D\\u037F-\\u1FFF\\u200C\\u200D\\u2070-\\u218F\\u2C00-\\u2FEF\\u3001-\\uD7FF\\uF900-\\uFDCF\\uFDF0-\\uFFFD\\u{10000}-\\u{EFFFF}'
const NAME = new RegExp(`^[${S}][${S}0-9.\\-\\u00B7\\u0300-\\u036F\\u203F\\u2040]*$`, 'u')
export const xmlChar = cp => cp === 9 || cp === 10 || cp === 13 || (cp >= 0x20 && cp <= 0xD7FF) || (cp >= 0xE000 && cp <= 0xFFFD) || (cp >= 0x10000 && cp <= 0x10FFFF)
const unref = s => s.replace(/&([^;]*);|&/g, (m, e) => {
  if (e === undefined) throw new Error('xml: bare ampersand'); const p = { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'" }[e]; if (p) return p
  const n = /^#x([0-9a-fA-F]+)$/.exec(e) ? parseInt(e.slice(2), 16) : /^#([0-9]+)$/.exec(e) ? parseInt(e.slice(1), 10) : NaN
  if (!xmlChar(n)) throw new Error('xml: bad reference ' + m); return String.fromCodePoint(n)
})
/** XML 1.0 well-formedness for documents without DTD; returns { name, attrs, children, text }. */
export function xml(doc) {
  for (const ch of doc) if (!xmlChar(ch.codePointAt(0)) || (ch.length === 1 && ch >= '\uD800' && ch <= '\uDFFF')) throw new Error('xml: character U+' + ch.codePointAt(0).toString(16))
  const s = doc.replace(/\r\n?/g, '\n'); let i = 0
  const decl = /^<\?xml version="1\.0"( encoding="UTF-8")?( standalone="(yes|no)")?\?>/.exec(s); if (decl) i = decl[0].length
  const ws = () => { while (/[ \t\n]/.test(s[i] ?? '')) i++ }
  const element = () => {
    if (s[i] !== '<') throw new Error('xml: expected an element at ' + i)
    let j = i + 1; while (j < s.length && !/[ \t\n/>]/.test(s[j])) j++
    const name = s.slice(i + 1, j); if (!NAME.test(name)) throw new Error('xml: bad name ' + JSON.stringify(name)); i = j
    const el = { name, attrs: {}, children: [], text: '' }
    for (;;) { const b = i; ws(); if (s[i] === '>' || s.startsWith('/>', i)) break; if (b === i) throw new Error('xml: attribute without space')
      const m = /^([^\s=]+)="([^"<]*)"/.exec(s.slice(i, i + 5000)); if (!m || !NAME.test(m[1]) || m[1] in el.attrs) throw new Error('xml: bad attribute in ' + name); el.attrs[m[1]] = unref(m[2]); i += m[0].length }
    if (s[i] === '/') { i += 2; return el }
    i++
    for (;;) {
      const k = s.indexOf('<', i); if (k < 0) throw new Error('xml: unterminated ' + name)
      const t = s.slice(i, k); if (t.includes(']]>')) throw new Error('xml: ]]> in text'); el.text += unref(t); i = k
      if (s.startsWith('</', i)) { const m = /^<\/([^\s>]+)[ \t\n]*>/.exec(s.slice(i, i + 2000)); if (!m || m[1] !== name) throw new Error(`xml: <${name}> closed by ${m?.[1]}`); i += m[0].length; return el }
      el.children.push(element())
    }
  }
  ws(); const root = element(); ws(); if (i !== s.length) throw new Error('xml: text after the root'); return root
}
export const kids = (el, name) => el.children.filter(c => c.name === name)

/** Central-directory zip reader (stored or deflated). */
export function unzip(bytes) {
  const b = Buffer.from(bytes); const e = b.length - 22; if (b.readUInt32LE(e) !== 0x06054b50) throw new Error('zip: no end record'); const out = new Map(); let p = b.readUInt32LE(e + 16)
  for (let n = b.readUInt16LE(e + 10); n > 0; n--) {
    if (b.readUInt32LE(p) !== 0x02014b50) throw new Error('zip: bad directory'); const method = b.readUInt16LE(p + 10), size = b.readUInt32LE(p + 20), nl = b.readUInt16LE(p + 28), xl = b.readUInt16LE(p + 30), cl = b.readUInt16LE(p + 32), off = b.readUInt32LE(p + 42)
    const name = b.subarray(p + 46, p + 46 + nl).toString('utf8'); const at = off + 30 + b.readUInt16LE(off + 26) + b.readUInt16LE(off + 28); const raw = b.subarray(at, at + size)
    if (out.has(name)) throw new Error('zip: duplicate ' + name); out.set(name, method === 0 ? raw : inflateRawSync(raw)); p += 46 + nl + xl + cl
  }
  return out
}

const unx = s => s.replace(/_x([0-9A-Fa-f]{4})_/g, (_, h) => String.fromCharCode(parseInt(h, 16)))
/** SpreadsheetML: sheets as { name, rows: [[{ t, v }]] } in document order. */
export function xlsx(bytes) {
  const z = unzip(bytes); const part = n => { if (!z.has(n)) throw new Error('xlsx: no ' + n); return xml(z.get(n).toString('utf8')) }
  const sst = kids(part('xl/sharedStrings.xml'), 'si').map(si => unx(kids(si, 't').map(t => t.text).join('')))
  const rels = new Map(kids(part('xl/_rels/workbook.xml.rels'), 'Relationship').map(r => [r.attrs.Id, r.attrs.Target])); part('[Content_Types].xml'); part('_rels/.rels')
  const names = new Set(); const sheets = []
  for (const s of kids(kids(part('xl/workbook.xml'), 'sheets')[0], 'sheet')) {
    const name = s.attrs.name; if (!name || [...name].length > 31 || name.length > 31 || /[:/\\?*[\]]/.test(name) || names.has(name.toLowerCase())) throw new Error('xlsx: sheet name ' + JSON.stringify(name)); names.add(name.toLowerCase())
    const rows = []; let last = 0
    for (const r of kids(kids(part('xl/' + rels.get(s.attrs['r:id'])), 'sheetData')[0], 'row')) {
      const n = Number(r.attrs.r); if (!(n > last)) throw new Error('xlsx: row numbers'); last = n; const cells = {}
      for (const c of kids(r, 'c')) { const m = /^([A-Z]+)([0-9]+)$/.exec(c.attrs.r); if (!m || Number(m[2]) !== n || m[1] in cells) throw new Error('xlsx: cell ' + c.attrs.r)
        const col = [...m[1]].reduce((a, ch) => a * 26 + ch.charCodeAt(0) - 64, 0); const v = kids(c, 'v')[0]?.text; if (v === undefined) continue
        if (c.attrs.t === 's') { if (!(Number(v) < sst.length)) throw new Error('xlsx: string index'); cells[col] = sst[Number(v)] } else if (c.attrs.t === 'b') cells[col] = v === '1'; else cells[col] = Number(v) }
      rows.push(cells)
    }
    sheets.push({ name, rows })
  }
  return sheets
}

/** Statement reader for the dumps: { tables: Map(name -> [{ name, type, notNull }]), rows: Map(name -> [values]) }. */
export function sql(text, dialect) {
  let i = 0; const q = dialect === 'mysql' ? '`' : '"'; const out = { tables: new Map(), rows: new Map(), order: [] }
  const fail = m => { throw new Error(`sql(${dialect}): ${m} at ${JSON.stringify(text.slice(i, i + 40))}`) }
  const ws = () => { for (;;) { while (/\s/.test(text[i] ?? '')) i++; if (text.startsWith('--', i)) { while (i < text.length && text[i] !== '\n') i++; continue } return } }
  const eat = w => { ws(); if (!text.startsWith(w, i)) fail('expected ' + w); i += w.length }
  const at = w => { ws(); return text.startsWith(w, i) }
  const ident = () => { eat(q); let s = ''; for (;;) { if (i >= text.length) fail('unterminated name'); if (text[i] === q) { if (text[i + 1] === q) { s += q; i += 2; continue } i++; break } s += text[i++] } if (s === '') fail('empty name'); return s }
  const string = () => { eat("'"); let s = ''; for (;;) { if (i >= text.length) fail('unterminated string'); const ch = text[i]
    if (ch === '\\' && dialect === 'mysql') { const n = text[i + 1]; s += { 0: '\0', b: '\b', n: '\n', r: '\r', t: '\t', Z: '\x1a' }[n] ?? (n === '%' || n === '_' ? '\\' + n : n); i += 2; continue }
    if (ch === "'") { if (text[i + 1] === "'") { s += "'"; i += 2; continue } i++; return s } s += ch; i++ } }
  const literal = () => { ws(); if (text[i] === "'") return { s: string() }; const m = /^(NULL|TRUE|FALSE|-?\d+(\.\d+)?([eE][+-]?\d+)?)(?=[,)\s])/.exec(text.slice(i, i + 60)); if (!m) fail('not a literal'); i += m[0].length; return m[1] === 'NULL' ? null : m[1] === 'TRUE' ? true : m[1] === 'FALSE' ? false : { n: Number(m[1]) } }
  for (;;) {
    ws(); if (i >= text.length) return out
    if (at('CREATE TABLE')) { eat('CREATE TABLE'); const t = ident(); if (out.tables.has(t)) fail('table twice'); eat('('); const cols = []
      for (;;) { const name = ident(); const m = /^ *([A-Z]+( PRECISION)?(\(\d+\))?)( NOT NULL)?/.exec(text.slice(i, i + 60)); if (!m) fail('no type'); i += m[0].length; if (cols.some(c => c.name === name)) fail('column twice'); cols.push({ name, type: m[1], notNull: !!m[4] }); if (at(',')) { eat(','); continue } break }
      eat(')'); eat(';'); out.tables.set(t, cols) }
    else { eat('INSERT INTO'); const t = ident(); eat('('); const cols = []; for (;;) { cols.push(ident()); if (at(',')) { eat(','); continue } break } eat(')'); eat('VALUES'); eat('('); const vals = []; for (;;) { vals.push(literal()); if (at(',')) { eat(','); continue } break } eat(')'); eat(';')
      if (cols.length !== vals.length) fail('column count'); if (!out.rows.has(t)) out.rows.set(t, []); out.rows.get(t).push(Object.fromEntries(cols.map((k, j) => [k, vals[j]]))) }
  }
}
