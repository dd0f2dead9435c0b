// Localised text and dictionary keys: every read option, every write path, every sequence of dictionary edits.
import { open, openExporter, newRef, instrument } from '../lib/world.mjs'
import { Sched } from '../lib/sched.mjs'
import { dictKey, i18nText, ref as fk, count } from '@noy-db/hub'
import * as asJson from '@noy-db/as-json'
import { show, deepEq } from '../lib/child.mjs'

export const meta = {
  property: 'C29', level: 'exploration',
  rule: 'non-trivial: a localised read whose outcome depended on a translation or label, a write refused for a missing translation, or a dictionary edit touching a key some record uses; signatures = (scenario, read or write path, kind of locale and fallback, outcome).',
  assumptions: ['Dictionary keys are followed in the collections opened in the session with the field declared, as documented.', 'Writing a record with a key the dictionary lacks is allowed; only the records using a renamed key before the rename are followed.', 'Whole-list reads and queries return every translation unless a locale is passed, as documented.', 'Synchronous joins and grouped labels use the dictionary as last listed or edited in the session, as documented.', 'Labels and translations are non-empty when used as labels; empty translations count as missing.'],
  minimums: { programs: 700, localised: 20000, raw: 8000, refused: 3000, renames: 1200, renamedRecords: 2000, inUse: 600, labels: 6000, exports: 1200, faultedRenames: 500, overlaps: 900, translated: 500 },
}
const LANGS = ['en', 'th', 'fr']; const ALL = [...LANGS, 'de']; const IDS = ['1', '2', '3', '4', '5']
const KEYS = ['draft', 'open', 'paid', 'void', 'toString', 'ชำระ']
const text = r => { const o = {}; for (const l of r.shuffle([...ALL])) { const x = r.weighted([[5, 'v'], [2, 'no'], [1, '']]); if (x === 'v') o[l] = l + '-' + r.int(0, 999); else if (x === '') o[l] = '' } return o }
const FIELDS = { // collection -> { dict fields, text fields }
  inv: { dict: { status: 'status', prior: 'status', tag: 'tag' }, lazy: false },
  ord: { dict: { state: 'status' }, lazy: true },
  memo: { dict: {}, lazy: false },
}
const NAMES = Object.keys(FIELDS)
const reqs = r => r.pick(['all', 'any', ['en'], ['th', 'fr'], []])
function valid(val, req) { // what the declared requirement says about one value
  if (val === undefined || val === null) return true
  if (typeof val !== 'object' || Array.isArray(val)) return false
  for (const x of Object.values(val)) if (typeof x !== 'string') return false
  const has = l => Object.hasOwn(val, l) && val[l] !== ''
  return req === 'all' ? LANGS.every(has) : req === 'any' ? LANGS.some(has) : req.every(has)
}
const chainOf = fb => Array.isArray(fb) ? fb : fb ? [fb] : []
// the text shown for a locale, or null when there is none
function shown(map, locale, fb) {
  const ok = x => x !== undefined && x !== ''
  if (Object.hasOwn(map, locale) && ok(map[locale])) return map[locale]
  for (const f of chainOf(fb)) { if (f === 'any') { const a = Object.values(map).filter(ok); if (a.length) return a } else if (Object.hasOwn(map, f) && ok(map[f])) return map[f] }
  return null
}
class Shop {
  constructor(c) { this.c = c; const r = c.rng; this.m = {}; this.req = {}; for (const n of NAMES) { this.m[n] = new Map(); this.req[n] = { name: reqs(r), note: reqs(r) } } this.d = { status: new Map(), tag: new Map() }; this.locale = undefined; this.auto = r.chance(0.4); this.calls = [] }
  async open(store, first) {
    const r = this.c.rng; this.asked = 0
    const opt = { features: ['history', 'tx', 'i18n', 'aggregate', 'index'], ...(this.auto ? { plaintextTranslator: async ({ text, to }) => { this.asked++; return `${to}<${text}` } } : {}) }
    const o = first ? await openExporter(store, opt) : await open(store, opt)
    this.db = o.db; this.v = o.v; this.locale = undefined; this.cols = {}; this.c.cleanup(() => o.db.close())
    if (r.chance(0.4)) { this.locale = r.pick(LANGS); if (r.chance(0.5)) this.v.setLocale(this.locale); else await this.db.openVault('acme', { locale: this.locale }) }
    for (const n of r.shuffle([...NAMES])) {
      const f = FIELDS[n]; const i18nFields = {}; for (const k of ['name', 'note']) i18nFields[k] = i18nText({ languages: LANGS, required: this.req[n][k], ...(k === 'note' && this.auto ? { autoTranslate: true } : {}) })
      const dictKeyFields = {}; for (const [k, d] of Object.entries(f.dict)) dictKeyFields[k] = dictKey(d)
      this.cols[n] = this.v.collection(n, { i18nFields, ...(Object.keys(dictKeyFields).length ? { dictKeyFields } : {}), ...(f.lazy ? { prefetch: false, cache: { maxRecords: 2 } } : {}) })
    }
    this.dict = { status: this.v.dictionary('status'), tag: this.v.dictionary('tag') }
    for (const d of ['status', 'tag']) await this.dict[d].list()
  }
  rec(n, id) {
    const r = this.c.rng; const rec = { id, n: r.int(0, 99) }
    for (const k of ['name', 'note']) { const req = this.req[n][k]; const x = r.weighted([[4, 'good'], [5, 'map'], [1, 'none'], [0.5, 'null'], [0.3, 'string'], [0.3, 'array'], [0.3, 'number']]); if (x === 'good') { let m; do m = text(r); while (!valid(m, req)); rec[k] = m } else if (x === 'map') rec[k] = text(r); else if (x === 'null') rec[k] = null; else if (x === 'string') rec[k] = 'plain'; else if (x === 'array') rec[k] = ['en']; else if (x === 'number') rec[k] = { en: 'x', th: 5, fr: 'y' } }
    for (const [k, d] of Object.entries(FIELDS[n].dict)) { const x = r.weighted([[6, 'key'], [1, 'none'], [1, 'other'], [0.4, 'num']]); if (x === 'key') rec[k] = r.pick([...this.d[d].keys()].length ? [...this.d[d].keys()] : KEYS); else if (x === 'other') rec[k] = r.pick(KEYS); else if (x === 'num') rec[k] = 7 }
    return rec
  }
  // what a write of `rec` stores, or null when it must be refused
  stored(n, rec) {
    const out = { ...rec }
    if (this.auto && out.note && typeof out.note === 'object' && !Array.isArray(out.note)) {
      const req = this.req[n].note; const miss = LANGS.filter(l => !Object.hasOwn(out.note, l) || out.note[l] === ''); const src = LANGS.find(l => Object.hasOwn(out.note, l) && out.note[l] !== '')
      const want = !src ? [] : req === 'any' ? [] : req === 'all' ? miss : miss.filter(l => req.includes(l))
      if (want.length) { out.note = { ...out.note }; for (const l of want) out.note[l] = `${l}<${out.note[src]}`; this.c.count('translated') }
    }
    return valid(out.name, this.req[n].name) && valid(out.note, this.req[n].note) ? JSON.parse(JSON.stringify(out)) : null
  }
  // expected outcome of reading `rec` with these options: {record} or {refused:true}
  look(n, rec, locale, fb) {
    if (locale === 'raw' || !locale) return { rec, any: {} }
    const out = { ...rec }; const any = {}
    for (const k of ['name', 'note']) { const x = rec[k]; if (x === undefined || x === null || typeof x !== 'object' || Array.isArray(x)) continue; const s = shown(x, locale, fb); if (s === null) return { refused: true }; if (Array.isArray(s)) { any[k] = s; delete out[k] } else out[k] = s }
    for (const [k, d] of Object.entries(FIELDS[n].dict)) { const key = rec[k]; if (typeof key !== 'string') continue; const l = this.d[d].get(key); if (!l) continue; const s = shown(l, locale, fb); if (s === null) continue; if (Array.isArray(s)) any[k + 'Label'] = s; else out[k + 'Label'] = s; this.c.count('labels') }
    return { rec: out, any }
  }
  match(got, exp) { const g = { ...got }; for (const [k, opts] of Object.entries(exp.any)) { if (!opts.includes(g[k])) return false; delete g[k] } return deepEq(g, exp.rec) }
  readOpts() { const r = this.c.rng; return r.pick([undefined, undefined, { locale: 'raw' }, { locale: r.pick(ALL) }, { locale: r.pick(ALL), fallback: r.pick(ALL) }, { locale: r.pick(ALL), fallback: r.sample(ALL, r.int(1, 3)) }, { locale: r.pick(ALL), fallback: [...r.sample(ALL, r.int(0, 2)), 'any'] }, { locale: r.pick(ALL), fallback: 'any' }, { fallback: r.pick([...ALL, 'any']) }]) }
  async readAll(at) {
    const c = this.c, r = c.rng
    for (const n of NAMES) {
      for (const id of IDS) {
        const o = this.readOpts(); const loc = o?.locale ?? this.locale; const rec = this.m[n].get(id); let got, err = null
        try { got = await this.cols[n].get(id, o) } catch (e) { err = e }
        const w = `${at}: reading ${n}/${id} with ${show(o)} (vault language ${this.locale})`
        if (!rec) { c.ok(!err && got === null, () => `${w}: there is no record, got ${err ?? show(got)}`); continue }
        const exp = this.look(n, rec, loc, o?.fallback); const kind = !loc ? 'none' : loc === 'raw' ? 'raw' : !o?.locale ? 'vault' : 'call'
        c.count(kind === 'none' || kind === 'raw' ? 'raw' : 'localised'); c.sig(`get|${n}|${kind}|${o?.fallback === undefined ? '-' : Array.isArray(o.fallback) ? (o.fallback.includes('any') ? 'chain-any' : 'chain') : o.fallback === 'any' ? 'any' : 'one'}|${exp.refused ? 'refused' : Object.keys(exp.any).length ? 'any' : 'text'}`)
        if (exp.refused) c.ok(err?.name === 'LocaleNotSpecifiedError', () => `${w}: no translation fits, but the read gave ${err ?? show(got)}`, { key: 'no-translation' })
        else c.ok(!err && this.match(got, exp), () => `${w}: got ${err ?? show(got)}, expected ${show(exp)}`, { key: 'localised-read' })
      }
      const o = r.pick([undefined, { locale: 'raw' }, { locale: r.pick(ALL), fallback: 'any' }, { locale: 'raw' }])
      if (!FIELDS[n].lazy) {
        let got, err = null; try { got = await this.cols[n].list(o) } catch (e) { err = e }
        const loc = o ? o.locale : 'raw'; const exp = [...this.m[n].values()].map(x => this.look(n, x, loc, o?.fallback))
        if (exp.some(e => e.refused)) c.ok(err?.name === 'LocaleNotSpecifiedError', () => `${at}: listing ${n} with ${show(o)} gave ${err ?? show(got)} although a record has no text at all`)
        else { c.ok(!err && got.length === exp.length, () => `${at}: listing ${n}: ${err ?? got.length + ' records'}`); for (const g of got) { const e = exp.find(x => (x.rec.id) === g.id); c.ok(e && this.match(g, e), () => `${at}: listing ${n} with ${show(o)} gave ${show(g)}, expected ${show(e)}`, { key: 'localised-list' }) } }
      } else { const got = []; for await (const x of this.cols[n].scan({ pageSize: 2 })) got.push(x); c.ok(deepEq(got.sort((a, b) => a.id < b.id ? -1 : 1), [...this.m[n].values()].sort((a, b) => a.id < b.id ? -1 : 1)), () => `${at}: scanning ${n} gave ${show(got)}`) }
    }
    for (const d of ['status', 'tag']) {
      const got = Object.fromEntries((await this.dict[d].list()).map(e => [e.key, e.labels])); c.eq(got, Object.fromEntries(this.d[d]), `${at}: the contents of dictionary ${d}`)
      for (const k of r.sample(KEYS, 2)) { const o = this.readOpts() ?? {}; if (!o.locale || o.locale === 'raw') continue; const l = this.d[d].get(k); const s = l ? shown(l, o.locale, o.fallback) : null; const g = await this.dict[d].resolveLabel(k, o.locale, o.fallback); c.ok(s === null ? g === undefined : Array.isArray(s) ? s.includes(g) : g === s, () => `${at}: the label of ${d}/${k} for ${show(o)} is ${show(g)}, the dictionary holds ${show(l)}`, { key: 'label' }); c.eq(await this.dict[d].get(k), l ?? null, `${at}: labels of ${d}/${k}`) }
    }
  }
  async queries(at, held) {
    const c = this.c, r = c.rng; const loc = r.pick(LANGS); const f = r.pick(['status', 'prior', 'tag']); const d = FIELDS.inv.dict[f]
    const q = held ?? this.cols.inv.query().groupBy(f).aggregate({ n: count() })
    const rows = await (q.f ? q.q : q).runAsync({ locale: loc }); const ff = q.f ?? f, dd = FIELDS.inv.dict[ff]
    for (const row of rows) { const k = row[ff]; const n = [...this.m.inv.values()].filter(x => x[ff] === k).length; c.ok(row.n === n, () => `${at}: grouped by ${ff}, ${show(k)} counts ${row.n} records, there are ${n}`); const exp = typeof k === 'string' ? this.d[dd].get(k)?.[loc] : undefined; c.ok(row[ff + 'Label'] === exp, () => `${at}: grouped by ${ff}, the ${loc} label of ${show(k)} is ${show(row[ff + 'Label'])}, the dictionary says ${show(exp)}`, { key: 'group-label' }); c.count('labels') }
    const joined = this.cols.inv.query().join(f, { as: 'x' }).toArray()
    for (const row of joined) { const k = row[f]; const l = typeof k === 'string' ? this.d[d].get(k) : undefined; c.ok(l ? row.x && row.x.key === k && deepEq(row.x.labels, l) : row.x === null || row.x === undefined, () => `${at}: joining ${f}=${show(k)} gave ${show(row.x)}, the dictionary holds ${show(l)}`, { key: 'join-label' }) }
  }
  async exported(at) {
    const c = this.c, r = c.rng; c.count('exports'); const want = {}; for (const n of NAMES) want[n] = Object.fromEntries([...this.m[n]].sort())
    const loc = r.chance(0.5) ? r.pick(LANGS) : undefined
    const j = JSON.parse(await this.v.exportJSON(loc ? { resolveLabels: loc } : {}))
    for (const n of NAMES) {
      if (!this.m[n].size) continue
      const got = Object.fromEntries((j.collections[n]?.records ?? []).map(x => [x.id, x]).sort())
      const exp = {}; for (const [id, x] of Object.entries(want[n])) { exp[id] = { ...x }; if (loc) for (const [k, d] of Object.entries(FIELDS[n].dict)) { const l = typeof x[k] === 'string' ? this.d[d].get(x[k])?.[loc] : undefined; if (l !== undefined) exp[id][k + 'Label'] = l } }
      c.ok(deepEq(got, exp), () => `${at}: the export of ${n} (vault language ${this.locale}, labels ${loc}) holds ${show(got)}, stored are ${show(exp)}`, { key: 'export' })
      if (!loc) for (const [k, d] of Object.entries(FIELDS[n].dict)) { const ds = j._dictionaries?.[n]?.[k] ?? {}; c.ok(deepEq(ds, Object.fromEntries(this.d[d])), () => `${at}: the export carries dictionary ${d} as ${show(ds)}, it holds ${show(Object.fromEntries(this.d[d]))}`, { key: 'export-dict' }) }
    }
  }
  // records pointing at `key` in the declared fields
  uses(d, key) { const out = []; for (const n of NAMES) for (const [id, rec] of this.m[n]) if (Object.entries(FIELDS[n].dict).some(([k, x]) => x === d && rec[k] === key)) out.push(n + '/' + id); return out }
  rename(d, a, b) { for (const n of NAMES) for (const [id, rec] of this.m[n]) { let next = null; for (const [k, x] of Object.entries(FIELDS[n].dict)) if (x === d && rec[k] === a) { next ??= { ...rec }; next[k] = b } if (next) this.m[n].set(id, next) } this.d[d].set(b, this.d[d].get(a)); this.d[d].delete(a) }
}
const labels = r => { const o = {}; for (const l of ALL) if (r.chance(0.6)) o[l] = l + '=' + r.int(0, 999); if (!Object.keys(o).length) o.en = 'en=0'; return o }

async function programs(c) {
  const r = c.rng; const ref = newRef(); const store = instrument(ref, {}); const s = new Shop(c); await s.open(store, true); c.count('programs')
  const versions = new Map(); let held = null; let loud = 0
  s.db.on('change', e => { if (e.collection.startsWith('_dict_')) loud++ })
  for (const k of r.sample(KEYS, 3)) { const l = labels(r); await s.dict.status.put(k, l); s.d.status.set(k, l) }
  for (const n of NAMES) for (const id of IDS) if (r.chance(0.6)) { const rec = s.rec(n, id); const st = s.stored(n, rec); if (st) { await s.cols[n].put(id, rec); s.m[n].set(id, st) } }
  for (let step = 0; step < 26; step++) {
    const n = r.pick(NAMES), id = r.pick(IDS), col = s.cols[n]; const at = `step ${step}`
    const kind = r.weighted([[6, 'put'], [1.5, 'putMany'], [1, 'atomic'], [1, 'tx'], [FIELDS[n].lazy ? 0 : 1, 'import'], [1, 'revert'], [1.5, 'delete'], [3, 'dput'], [1, 'dputAll'], [2.5, 'ddel'], [3, 'rename'], [1, 'locale'], [0.5, 'reopen'], [1, 'read'], [1, 'export'], [1.5, 'query']])
    if (kind === 'put' || kind === 'atomic' || kind === 'tx' || kind === 'putMany' || kind === 'import') {
      const items = []; for (let k = 0, q = kind === 'put' ? 1 : r.int(1, 3); k < q; k++) { const i = k ? r.pick(IDS) : id; if (!items.some(x => x[0] === i)) items.push([i, s.rec(n, i)]) }
      const before = JSON.stringify(items); const exp = items.map(([, x]) => s.stored(n, x)); let err = null; let part = null
      try {
        if (kind === 'put') await col.put(id, items[0][1])
        else if (kind === 'putMany') part = (await col.putMany(items)).failures
        else if (kind === 'atomic') await col.putMany(items, { atomic: true })
        else if (kind === 'tx') await s.db.transaction(async tx => { for (const [i, x] of items) tx.vault('acme').collection(n).put(i, x) })
        else await (await asJson.fromObject(s.v, { [n]: JSON.parse(before).map(x => x[1]) }, { policy: 'merge', collections: [n] })).apply()
      } catch (e) { err = e }
      c.ok(JSON.stringify(items) === before, () => `${at}: ${kind} changed the records it was given: ${JSON.stringify(items)} instead of ${before}`, { key: 'argument-changed' })
      const bad = exp.some(x => x === null); const w = `${at}: ${kind} of ${before} into ${n} (required: ${show(s.req[n])})`
      c.sig(`write|${kind}|${n}|${bad ? 'refused' : 'stored'}|${s.auto}`)
      if (part) { c.eq(part.map(f => f.id).sort(), items.filter((_, k) => exp[k] === null).map(x => x[0]).sort(), w + ': the refused items'); items.forEach(([i], k) => { if (exp[k]) s.m[n].set(i, exp[k]); else c.count('refused') }) }
      else if (bad) { // an import leaves records alone that are already as given
        const same = kind === 'import' && items.every(([i, x], k) => exp[k] !== null || deepEq(s.m[n].get(i), x)); if (same) { if (!err) items.forEach(([i], k) => { if (exp[k]) s.m[n].set(i, exp[k]) }) } else { c.ok(err?.name === 'MissingTranslationError', () => `${w}: accepted, or failed with ${err}`, { key: 'accepted' }); c.count('refused') } }
      else { c.ok(!err, () => `${w}: failed with ${err}`, { key: 'refused' }); items.forEach(([i], k) => s.m[n].set(i, exp[k])) }
    } else if (kind === 'revert') {
      const h = await col.history(id); if (!h.length) continue; const e = r.pick(h); const rec = await col.getVersion(id, e.version); const exp = s.stored(n, rec); let err = null
      try { await col.revert(id, e.version) } catch (x) { err = x }
      if (exp === null) { c.ok(err?.name === 'MissingTranslationError', () => `${at}: reverting ${n}/${id} to ${show(rec)} (required: ${show(s.req[n])}) gave ${err}`); c.count('refused') } else { c.ok(!err, () => `${at}: revert failed with ${err}`); s.m[n].set(id, exp) }
    } else if (kind === 'delete') { await col.delete(id); s.m[n].delete(id) }
    else if (kind === 'dput') { const d = r.pick(['status', 'tag']), k = r.pick(KEYS), l = labels(r); const mine = { ...l }; await s.dict[d].put(k, mine); for (const x of Object.keys(mine)) mine[x] = 'changed later'; s.d[d].set(k, l) }
    else if (kind === 'dputAll') { const d = r.pick(['status', 'tag']); const es = Object.fromEntries(r.sample(KEYS, 2).map(k => [k, labels(r)])); await s.dict[d].putAll(es); for (const [k, l] of Object.entries(es)) s.d[d].set(k, l) }
    else if (kind === 'ddel') {
      const d = r.pick(['status', 'tag']), k = r.pick([...KEYS, ...s.d[d].keys(), ...s.d[d].keys()]), warn = r.chance(0.25); const used = s.uses(d, k); let err = null
      try { await s.dict[d].delete(k, warn ? { mode: 'warn' } : undefined) } catch (e) { err = e }
      const w = `${at}: deleting ${d}/${k} ${warn ? '(without the check)' : ''}`
      if (!s.d[d].has(k)) c.ok(err?.name === 'DictKeyMissingError', () => `${w}: no such key, gave ${err}`)
      else if (used.length && !warn) { c.ok(err?.name === 'DictKeyInUseError', () => `${w}: used by ${used}, gave ${err}`, { key: 'in-use' }); c.count('inUse') }
      else { c.ok(!err, () => `${w}: failed with ${err}, used by ${used}`); s.d[d].delete(k) }
      c.sig(`dictdel|${d}|${used.length ? 'used' : 'free'}|${warn}|${err?.name}`)
    } else if (kind === 'rename') {
      const d = r.pick(['status', 'status', 'tag']), a = r.pick([...s.d[d].keys(), ...r.sample(KEYS, 1)]), b = r.pick([...KEYS, 'fresh' + step]); let err = null
      if (b !== a && s.d[d].has(b)) continue // renaming onto another key is not judged
      const used = s.uses(d, a)
      try { await s.dict[d].rename(a, b) } catch (e) { err = e }
      if (!s.d[d].has(a)) { c.ok(err?.name === 'DictKeyMissingError', () => `${at}: renaming the missing ${d}/${a} gave ${err}`); continue }
      c.ok(!err, () => `${at}: renaming ${d}/${a} to ${b} failed with ${err}`, { key: 'rename' }); if (a !== b) s.rename(d, a, b); c.count('renames'); c.count('renamedRecords', used.length); c.sig(`rename|${d}|${Math.min(used.length, 3)}|${a === b}`)
    } else if (kind === 'locale') { s.locale = r.pick([undefined, ...LANGS]); s.v.setLocale(s.locale); c.eq(s.v.getLocale(), s.locale, 'the vault language') }
    else if (kind === 'reopen') { s.db.close(); s.req.memo = { name: reqs(r), note: reqs(r) }; await s.open(store); held = null }
    else if (kind === 'export') await s.exported(at)
    else if (kind === 'query') { await s.queries(at, held); const f = r.pick(['status', 'prior', 'tag']); held = r.chance(0.5) ? { f, q: s.cols.inv.query().groupBy(f).aggregate({ n: count() }) } : null }
    if (kind === 'read' || r.chance(0.3)) await s.readAll(at)
    for (const x of Object.values(s.m)) c.max('records', x.size)
  }
  await s.readAll('at the end'); await s.exported('at the end'); await s.queries('at the end')
  s.db.close(); await s.open(store); await s.readAll('reopened'); await s.exported('reopened')
}

// a store failing somewhere inside a rename: whatever happened, every record that used the key finds its label
async function faults(c) {
  const r = c.rng; const ref = newRef(); const store = instrument(ref, {}); const s = new Shop(c); s.auto = false; for (const n of NAMES) s.req[n] = { name: [], note: [] }; await s.open(store, true)
  const labelsOf = {}; for (const d of ['status', 'tag']) for (const k of r.sample(KEYS, 3)) { const l = labels(r); await s.dict[d].put(k, l); s.d[d].set(k, l) }
  for (const n of NAMES) for (const id of IDS) if (r.chance(0.8)) { const rec = s.rec(n, id); const st = s.stored(n, rec); if (st) { await s.cols[n].put(id, rec); s.m[n].set(id, st) } }
  const d = r.pick(['status', 'tag']); const a = r.pick([...s.d[d].keys()]); const b = 'renamed'; const was = s.d[d].get(a); const users = s.uses(d, a)
  let calls = 0; const target = r.int(0, 3 + users.length * 4); const when = r.pick(['before', 'after']); let hit = null
  store._st.fault = ev => { if (ev.op !== 'put' && ev.op !== 'delete') return undefined; if (calls++ === target) { hit = `${ev.op} ${ev.coll}`; return when } return undefined }
  let err = null; try { await s.dict[d].rename(a, b) } catch (e) { err = e }
  store._st.fault = null
  if (hit) { c.count('faultedRenames'); c.sig(`fault|${hit.replace(/_history|_ledger.*/, 'x')}|${when}|${!!err}`) }
  // with or without a retry, in this session and in the next one
  const look = async (at) => {
    const have = new Map((await s.dict[d].list()).map(e => [e.key, e.labels]))
    for (const n of NAMES) for (const [id, rec] of s.m[n]) {
      const got = await s.cols[n].get(id, { locale: 'raw' }); const exp = { ...rec }
      for (const [k, x] of Object.entries(FIELDS[n].dict)) if (x === d && rec[k] === a) { c.ok(got && (got[k] === a || got[k] === b), () => `${at}: ${n}/${id}.${k} is ${show(got?.[k])} after renaming ${a} to ${b} (fault ${when} ${hit})`); c.ok(have.has(got[k]) && deepEq(have.get(got[k]), was), () => `${at}: ${n}/${id}.${k} points at ${show(got[k])}, which the dictionary ${have.has(got[k]) ? 'describes as ' + show(have.get(got[k])) : 'lacks'} (rename ${a} to ${b}, fault ${when} ${hit}, ${err})`, { key: 'dangling' }); exp[k] = got[k] }
      c.ok(deepEq(got, exp), () => `${at}: ${n}/${id} is ${show(got)}, apart from the renamed key it should be ${show(exp)}`)
    }
    return have
  }
  await look('after the failed rename')
  if (!err) c.ok(s.uses(d, a).length === users.length, 'model')
  if (r.chance(0.5)) { s.db.close(); await s.open(store) ; await look('reopened') }
  const have = await look('before the retry')
  if (have.has(a)) { await s.dict[d].rename(a, b); const end = await look('after the retry'); c.ok(end.has(b) && !end.has(a), () => `after the retry the dictionary holds ${[...end.keys()]}`) }
  s.rename(d, a, b); await s.readAll('after the retry')
}

// a rename while records are being written, rewritten and deleted
async function overlap(c) {
  const r = c.rng; const ref = newRef(); const sched = new Sched(r.fork('s')); const store = instrument(ref, { sched }); const s = new Shop(c); s.auto = false; sched.enabled = false
  for (const n of NAMES) s.req[n] = { name: [], note: [] }
  await s.open(store, true); for (const k of ['old', 'other']) { const l = labels(r); await s.dict.status.put(k, l); s.d.status.set(k, l) }
  const ns = ['inv', 'ord']; const fld = { inv: 'status', ord: 'state' }
  for (const n of ns) for (const id of IDS.slice(0, 3)) { const rec = { id, n: 0, [fld[n]]: r.pick(['old', 'old', 'other']) }; await s.cols[n].put(id, rec); s.m[n].set(id, rec) }
  const ops = []; const writes = new Map()
  const add = fn => ops.push(fn); add(() => s.dict.status.rename('old', 'new'))
  const touched = new Set()
  for (let k = 0, q = r.int(2, 4); k < q; k++) { const n = r.pick(ns), id = r.pick(IDS.slice(0, 4)); const key = n + '/' + id; if (touched.has(key)) continue; touched.add(key); if (r.chance(0.25)) { add(() => s.cols[n].delete(id)); writes.set(key, null) } else { const rec = { id, n: k + 1, [fld[n]]: 'other' }; add(() => s.cols[n].put(id, rec)); writes.set(key, rec) } }
  sched.enabled = true; const done = await sched.run(r.shuffle(ops).map(f => f().then(() => null, e => e))); sched.enabled = false
  const errs = (done ?? []).filter(x => x && (x.reason ?? x.value ?? x) instanceof Error); c.ok(!errs.length, () => `an overlapping operation failed: ${show(errs)}`)
  c.count('overlaps'); c.sig(`overlap|${ops.length}|${[...writes.values()].filter(x => x === null).length}|${sched.releases % 5}`)
  for (let pass = 0; pass < 2; pass++) {
    const where = pass ? 'reopened' : 'in the session'
    for (const n of ns) for (const id of IDS.slice(0, 4)) { const key = n + '/' + id; const got = await s.cols[n].get(id, { locale: 'raw' }); let exp = writes.has(key) ? writes.get(key) : s.m[n].get(id) ?? null; if (exp && exp[fld[n]] === 'old') exp = { ...exp, [fld[n]]: 'new' }; c.ok(deepEq(got, exp), () => `${where}: after a rename overlapping other writes, ${key} is ${show(got)}, expected ${show(exp)}`, { key: 'overlap' }) }
    c.eq(Object.keys(Object.fromEntries((await s.dict.status.list()).map(e => [e.key, 1]))).sort(), ['new', 'other'], `${where}: the keys after the rename`)
    if (!pass) { s.db.close(); await s.open(store) }
  }
}

// declared references and localised text in the same records, with a vault language set
async function refsInLanguage(c) {
  const r = c.rng; const ref = newRef(); const store = instrument(ref, {}); const { db, v } = await open(store, { features: ['i18n', 'history'] }); c.cleanup(() => db.close())
  const lang = r.pick(LANGS); v.setLocale(lang)
  const parts = v.collection('parts', { i18nFields: { name: i18nText({ languages: LANGS, required: 'any' }) } }); const lines = v.collection('lines', { refs: { part: fk('parts', 'strict') }, i18nFields: { note: i18nText({ languages: LANGS, required: 'any' }) } })
  const other = r.pick(LANGS.filter(l => l !== lang)); await parts.put('p', { id: 'p', name: { [other]: 'x' } })
  await lines.put('l', { id: 'l', part: 'p', note: { [other]: 'y' } }); let err = null; try { await lines.put('m', { id: 'm', part: 'gone' }) } catch (e) { err = e }
  c.ok(err?.name === 'RefIntegrityError' || err?.code === 'REF_INTEGRITY', () => `a reference to a missing record was accepted: ${err}`)
  const res = await v.checkIntegrity(); c.eq(res.violations ?? res, [], 'integrity of a vault whose records lack the vault language'); c.count('localised')
  const all = []; for await (const chunk of v.exportStream()) all.push(...chunk.records); c.ok(all.length === 2, () => `export of records lacking the vault language gave ${show(all)}`)
  c.sig(`refs|${lang}|${other}`)
}

export const scenarios = [
  { name: 'programs', quick: 1800, thorough: 8000, run: programs },
  { name: 'faults', quick: 900, thorough: 4000, run: faults },
  { name: 'overlap', quick: 1200, thorough: 5000, run: overlap },
  { name: 'refsInLanguage', quick: 60, thorough: 200, run: refsInLanguage },
]
