// Attachments: byte-exact round trips, listings, published versions, sharing and reference counts.
import { resolveObjectURL } from 'node:buffer'
import { open, newRef, instrument, PASS } from '../lib/world.mjs'
import { Sched } from '../lib/sched.mjs'
import { linearizable } from '../lib/lin.mjs'
import { show } from '../lib/child.mjs'

export const meta = {
  property: 'C20', level: 'exploration',
  rule: 'non-trivial: contents spanning several chunks or shared by several names, names replaced/deleted/published repeatedly, operations of one or two sessions overlapping at every store call, or an operation cut short by a store fault; signatures = (scenario, size class, option set, operation kinds, overlap pattern).',
  assumptions: ['The number of references is read through the public attachment information of a name holding the content.', 'Sessions that upload the same content at the same moment from different processes use the same chunking options.', 'A version label is published or withdrawn by one session at a time.'],
  minimums: { roundTrips: 600, modelChecks: 4000, refCounts: 1500, overlaps: 300, faults: 300, evictions: 60, versionReads: 400, exported: 200 },
}
const hex = b => Buffer.from(b).toString('hex')
const same = (a, b) => a && b && Buffer.compare(Buffer.from(a), Buffer.from(b)) === 0
const HOSTILE = ['a::b', 'a', 'b', '::', ':', 'a:', ':b', '%3A', '%25', 'constructor', 'toString', 'ใบเสร็จ.pdf', 'a b"c.txt', 'x\ny', 'hasOwnProperty', 'é/ü.png', '😀', ' ', '__proto__']
const MAGIC = [[], [0xff, 0xd8, 0xff, 0xe0], [0x89, 0x50, 0x4e, 0x47, 0x0d, 0x0a, 0x1a, 0x0a], [0x25, 0x50, 0x44, 0x46, 0x2d], [0x50, 0x4b, 3, 4], [0x1f, 0x8b]]
function content(r, n) {
  const kind = r.pick(['random', 'zeros', 'text', 'magic'])
  let b
  if (kind === 'zeros') b = new Uint8Array(n)
  else if (kind === 'text') b = new Uint8Array(Buffer.from('lorem ipsum dolor '.repeat(Math.ceil(n / 18) + 1)).subarray(0, n))
  else { b = new Uint8Array(r.bytes(n)); if (kind === 'magic') { const m = r.pick(MAGIC); b.set(m.slice(0, n)) } }
  return [kind, b]
}

// ── 1. round trips ──────────────────────────────────────────────────────────
async function roundTrip(c) {
  const r = c.rng; const store = instrument(newRef(), { capabilities: {} })
  if (r.chance(0.2)) store.maxBlobBytes = r.pick([50, 300])
  const plain = r.chance(0.2)
  const { db, v } = await open(store, { features: ['blob'], ...(plain ? { encrypt: false } : {}) })
  const names = r.sample(HOSTILE, 5); const rec = r.pick(['r1', 'a::b', 'ระเบียน', 'a']); const coll = v.collection('docs')
  await coll.put(rec, { id: rec })
  const b = coll.blob(rec); const model = new Map()
  for (let k = 0; k < 6; k++) {
    const cs = r.pick([1, 7, 64, 100, 1000, undefined]); const unit = cs ?? 256 * 1024
    const n = cs === 1 ? r.int(0, 40) : unit > 10000 ? r.pick([0, 1, 1000, unit - 1, unit, unit + 1]) : Math.max(0, unit * r.int(0, 4) + r.int(-1, 1))
    const [kind, bytes] = content(r, n); const name = r.pick(names)
    const o = { ...(cs ? { chunkSize: cs } : {}), ...(r.chance(0.6) ? { compress: r.chance(0.5) } : {}), ...(r.chance(0.4) ? { mimeType: r.pick(['text/csv', 'application/pdf', 'image/png']) } : {}), ...(r.chance(0.2) ? { uploadedBy: 'zed' } : {}) }
    // a view with an offset into a larger buffer is as good as any bytes
    const big = new Uint8Array(n + 9); big.set(bytes, 5); const view = r.chance(0.5) ? big.subarray(5, 5 + n) : bytes
    await b.put(name, view, o); model.set(name, { bytes, o }); c.count('roundTrips')
    const got = await coll.blob(rec).get(name)
    c.ok(same(got, bytes), () => `${n} bytes (${kind}) stored under ${show(name)} with ${show(o)} were read back as ${got ? `${got.length} bytes that differ` : got}`, { detail: { first: got && hex(got.subarray(0, 32)), want: hex(bytes.subarray(0, 32)) } })
    const res = await b.response(name, r.chance(0.5) ? { inline: true } : undefined)
    c.ok(res && same(new Uint8Array(await res.arrayBuffer()), bytes), () => `the response for ${show(name)} does not carry the stored bytes`)
    c.ok(res.headers.get('content-length') === String(n), () => `the response for ${show(name)} announces ${res.headers.get('content-length')} of ${n} bytes`)
    if (o.mimeType) c.ok(res.headers.get('content-type') === o.mimeType, () => `the response for ${show(name)} says type ${res.headers.get('content-type')} instead of ${o.mimeType}`)
    const star = /filename\*=UTF-8''([^;]*)/.exec(res.headers.get('content-disposition') ?? '')
    if (star) c.ok(decodeURIComponent(star[1]) === name, () => `the response for ${show(name)} offers the file name ${show(decodeURIComponent(star[1]))}`)
    if (r.chance(0.5)) { // the other ways to the same bytes
      await b.publish(name, 'v'); const rv = await b.responseVersion(name, 'v', r.chance(0.5) ? { inline: true, filename: 'x.bin' } : undefined)
      c.ok(rv && same(new Uint8Array(await rv.arrayBuffer()), bytes), () => `the response for the published version of ${show(name)} does not carry the stored bytes`); c.ok(rv.headers.get('content-length') === String(n), () => `the response for the published version of ${show(name)} announces ${rv.headers.get('content-length')} of ${n} bytes`)
      c.ok(await b.responseVersion(name, 'w') === null, 'a version never published has a response'); await b.deleteVersion(name, 'v'); c.ok(await b.responseVersion(name, 'v') === null, 'a deleted version has a response')
      const u = await b.objectURL(name, r.chance(0.3) ? { mimeType: 'text/x' } : undefined); const held = resolveObjectURL(u.url); c.ok(held && same(new Uint8Array(await held.arrayBuffer()), bytes), () => `the object URL of ${show(name)} does not carry the stored bytes`)
      if (o.mimeType && held.type !== 'text/x') c.ok(held.type === o.mimeType, () => `the object URL of ${show(name)} has type ${held.type} instead of ${o.mimeType}`)
      u.revoke(); c.ok(resolveObjectURL(u.url) === undefined, 'a revoked object URL still works')
      store.presignUrl = async (va, co, id, t) => JSON.stringify([va, co, id, t]); const url = await b.presignedUrl(name, 60); delete store.presignUrl
      if (url) { // fetched from the store by someone who cannot decrypt, then decrypted here
        const [va, co, id, t] = JSON.parse(url); c.ok(t === 60, `a link asked for 60 s was signed for ${t} s`); const raw = await store.get(va, co, id); const pr = await b.decryptResponse(name, new Response(JSON.stringify(raw)))
        c.ok(pr && same(new Uint8Array(await pr.arrayBuffer()), bytes), () => `the presigned link of ${show(name)} decrypts to other bytes`); c.count('presigned')
        if (!plain) { const bad = { ...raw, _data: Buffer.from(r.bytes(40)).toString('base64') }; let err; try { const x = await b.decryptResponse(name, new Response(JSON.stringify(bad))); await x.arrayBuffer() } catch (e) { err = e } c.ok(err, 'foreign bytes behind a presigned link were decrypted') }
      }
    }
    c.sig(`rt|${kind}|${cs}|${Math.sign(n - unit)}|${n % unit === 0}|${o.compress}|${plain}`)
  }
  db.close()
  const again = await open(store, { features: ['blob'], ...(plain ? { encrypt: false } : {}) })
  const b2 = again.v.collection('docs').blob(rec)
  const list = await b2.list()
  c.eq(list.map(s => s.name).sort(), [...model.keys()].sort(), 'the listing of attachment names after reopening')
  for (const s of list) {
    const m = model.get(s.name)
    c.ok(s.size === m.bytes.length, () => `the listing says ${s.size} bytes for ${show(s.name)} holding ${m.bytes.length}`)
    if (m.o.mimeType) c.ok(s.mimeType === m.o.mimeType, () => `the listing says type ${s.mimeType} for ${show(s.name)} stored as ${m.o.mimeType}`)
    c.ok(s.filename === s.name, () => `the listing gives ${show(s.name)} the file name ${show(s.filename)}`)
    c.ok(s.uploadedBy === (m.o.uploadedBy ?? 'alice'), () => `the listing says ${s.uploadedBy} uploaded ${show(s.name)}`)
    c.ok(same(await b2.get(s.name), m.bytes), () => `attachment ${show(s.name)} reads differently after reopening`)
  }
  for (const n of HOSTILE) if (!model.has(n)) { const x = await b2.get(n); c.ok(x === null, () => `a name never stored, ${show(n)}, reads as ${show(x)}`); c.ok(await b2.response(n) === null, () => `a name never stored, ${show(n)}, has a response`); c.ok(await b2.blobInfo(n) === null, () => `a name never stored, ${show(n)}, has information`) }
  again.db.close()
}

// ── shared model ────────────────────────────────────────────────────────────
class Model {
  constructor() { this.slots = new Map(); this.versions = new Map(); this.meta = new Map() }
  key(...a) { return JSON.stringify(a) }
  refs(ci) { let n = 0; for (const x of this.slots.values()) if (x === ci) n++; for (const x of this.versions.values()) if (x === ci) n++; return n }
}
const COLLS = ['docs', 'pics']
function pool(r) {
  const out = []; const n = r.int(2, 4)
  for (let i = 0; i < n; i++) { const b = new Uint8Array(r.pick([0, 1, 63, 64, 65, 200, 700])); for (let k = 0; k < b.length; k++) b[k] = r.u32() & 255; if (b.length) b[0] = i; if (!out.some(x => same(x, b))) out.push(b) }
  return out
}
const OPT = { chunkSize: 64, compress: false }
async function audit(c, v, m, contents, recs, names, { atLeast = false, why = '' } = {}) {
  for (const cn of COLLS) for (const rec of recs) {
    const b = v.collection(cn).blob(rec)
    const want = names.filter(n => m.slots.has(m.key(cn, rec, n)))
    c.eq((await b.list()).map(x => x.name).sort(), [...want].sort(), `${why}the names listed on ${cn}/${rec}`)
    c.count('modelChecks')
    for (const n of names) {
      const ci = m.slots.get(m.key(cn, rec, n)); const got = await b.get(n)
      if (ci === undefined) { c.ok(got === null, () => `${why}${cn}/${rec} still has an attachment ${show(n)}`); continue }
      c.ok(same(got, contents[ci]), () => `${why}${cn}/${rec} attachment ${show(n)} reads as ${got === null ? 'nothing' : `${got.length} other bytes`} instead of content ${ci} (${contents[ci].length} bytes)`)
      const info = await b.blobInfo(n); const refs = m.refs(ci); c.count('refCounts')
      if (atLeast) c.ok(info.refCount >= refs, () => `${why}content ${ci} is referenced ${refs} times but its count says ${info.refCount}`)
      else c.ok(info.refCount === refs, () => `${why}content ${ci} is referenced ${refs} times but its count says ${info.refCount}`)
      c.ok(info.size === contents[ci].length, () => `${why}the information for ${show(n)} says ${info.size} bytes instead of ${contents[ci].length}`)
    }
    for (const n of names) {
      const lab = []
      for (const [k, ci] of m.versions) { const [a, bb, nn, l] = JSON.parse(k); if (a === cn && bb === rec && nn === n) { lab.push(l); const got = await b.getVersion(n, l); c.count('versionReads'); c.ok(same(got, contents[ci]), () => `${why}version ${show(l)} of ${cn}/${rec} ${show(n)} reads as ${got === null ? 'nothing' : 'other bytes'} instead of content ${ci}`) } }
      c.eq((await b.listVersions(n)).map(x => x.label).sort(), lab.sort(), `${why}the versions listed for ${cn}/${rec} ${show(n)}`)
    }
  }
}
// counts of contents no name holds any more, seen by attaching them once more
async function probe(c, v, m, contents, { atLeast = false, why = '' } = {}) {
  const b = v.collection('probe').blob('p')
  for (let ci = 0; ci < contents.length; ci++) {
    await b.put('x', contents[ci], OPT); const info = await b.blobInfo('x'); const refs = m.refs(ci) + 1; c.count('refCounts')
    c.ok(atLeast ? info.refCount >= refs : info.refCount === refs, () => `${why}content ${ci}, attached ${refs - 1} times before and once more now, has the count ${info.refCount}`)
    c.ok(same(await b.get('x'), contents[ci]), () => `${why}content ${ci}, attached again, does not read back`)
    await b.delete('x'); c.ok(await b.get('x') === null, `${why}an attachment just deleted still reads`)
  }
}

// ── 2. programs over shared contents ────────────────────────────────────────
async function programs(c) {
  const r = c.rng; const ref = newRef(); const store = instrument(ref, {})
  const s1 = await open(store, { features: ['blob'] }); await s1.v.collection('docs').put('r', { id: 'r' })
  for (const k of [...COLLS, 'probe']) await s1.v.collection(k).put('seed', { id: 'seed' }); await s1.v.collection('probe').blob('p').put('w', new Uint8Array([9, 9, 9]), OPT); await s1.v.collection('probe').blob('p').delete('w')
  const s2 = await open(instrument(ref, {}), { features: ['blob'] }); const vs = [s1.v, s2.v]
  const contents = pool(r); const m = new Model(); const recs = r.chance(0.5) ? ['a', 'b'] : ['a', 'a::b']; const names = r.sample(['x', 'y', 'b::x', 'a', ':', 'constructor'], 3); const labels = ['v1', 'x::v1', 'b']
  const kinds = []
  for (let k = 0; k < 14; k++) {
    const v = r.pick(vs); const cn = r.pick(COLLS), rec = r.pick(recs), n = r.pick(names), l = r.pick(labels); const b = v.collection(cn).blob(rec); const sk = m.key(cn, rec, n), vk = m.key(cn, rec, n, l)
    const kind = r.weighted([[5, 'put'], [2, 'delete'], [3, 'publish'], [2, 'unpublish'], [1, 'reput']]); kinds.push(kind)
    if (kind === 'put' || kind === 'reput') {
      const ci = kind === 'reput' && m.slots.has(sk) ? m.slots.get(sk) : r.int(0, contents.length - 1)
      const known = m.refs(ci) > 0; let written = 0
      store._st.onCall = ev => { if (ev.op === 'put') written += ev.args[3]._data.length }
      await b.put(n, contents[ci], OPT); store._st.onCall = null; m.slots.set(sk, ci)
      if (known && v === s1.v && contents[ci].length >= 700) c.ok(written < 3 * 1200, () => `storing content already present wrote ${written} characters`)
    } else if (kind === 'delete') { await b.delete(n); m.slots.delete(sk) }
    else if (kind === 'publish') {
      if (!m.slots.has(sk)) { let e; try { await b.publish(n, l) } catch (x) { e = x } c.ok(e, () => `publishing ${show(n)}, which does not exist, succeeded`) }
      else { await b.publish(n, l); m.versions.set(vk, m.slots.get(sk)) }
    } else { await b.deleteVersion(n, l); m.versions.delete(vk) }
    if (k % 4 === 3) await audit(c, r.pick(vs), m, contents, recs, names)
  }
  await audit(c, r.pick(vs), m, contents, recs, names); await probe(c, s1.v, m, contents)
  const s3 = await open(instrument(ref, {}), { features: ['blob'] }); await audit(c, s3.v, m, contents, recs, names, { why: 'after reopening, ' })
  c.sig(`prog|${contents.length}|${kinds.map(x => x[0]).join('')}`)
  s1.db.close(); s2.db.close(); s3.db.close()
}

// ── 3. overlap ──────────────────────────────────────────────────────────────
async function overlap(c) {
  const r = c.rng; const ref = newRef(); const sched = new Sched(r.fork('s')); sched.enabled = false
  const two = r.chance(0.4)
  const mk = async () => open(instrument(ref, { sched }), { features: ['blob'] })
  const s1 = await mk(); for (const k of [...COLLS, 'probe']) await s1.v.collection(k).put('seed', { id: 'seed' }); await s1.v.collection('probe').blob('p').put('w', new Uint8Array([9, 9, 9]), OPT); await s1.v.collection('probe').blob('p').delete('w')
  const s2 = two ? await mk() : s1; const vs = [s1.v, s2.v]
  const contents = pool(r); const m = new Model(); const recs = ['a', 'b']; const names = ['x', 'y']; const labels = ['v1']
  for (let k = 0; k < r.int(0, 4); k++) { const cn = r.pick(COLLS), rec = r.pick(recs), n = r.pick(names), ci = r.int(0, contents.length - 1); await s1.v.collection(cn).blob(rec).put(n, contents[ci], OPT); m.slots.set(m.key(cn, rec, n), ci); if (r.chance(0.4)) { await s1.v.collection(cn).blob(rec).publish(n, 'v1'); m.versions.set(m.key(cn, rec, n, 'v1'), ci) } }
  let time = 0; const hist = []; const track = async (key, kind, d, fn) => { const o = { key, kind, ...d, inv: time++ }; hist.push(o); try { o.out = await fn(); o.ok = true } catch (e) { o.err = e; o.ok = false } o.res = time++; return o }
  sched.enabled = true; const ps = []; const nOps = r.int(2, 6); const hot = r.chance(0.6); const labelUser = new Map(); const shared = new Map()
  for (let k = 0; k < nOps; k++) {
    const si = r.int(0, 1); const v = vs[si]; const cn = hot ? 'docs' : r.pick(COLLS), rec = hot ? 'a' : r.pick(recs), n = r.pick(names), l = r.pick(labels), ci = r.int(0, contents.length - 1)
    const b = shared.get(`${si}${cn}${rec}`) ?? v.collection(cn).blob(rec); if (r.chance(0.5)) shared.set(`${si}${cn}${rec}`, b)
    const sk = m.key(cn, rec, n), vk = m.key(cn, rec, n, l)
    let kind = r.weighted([[5, 'put'], [2, 'delete'], [2, 'publish'], [2, 'unpublish'], [2, 'get'], [1, 'list']])
    if ((kind === 'publish' || kind === 'unpublish') && two) { if (labelUser.has(vk) && labelUser.get(vk) !== si) kind = 'put'; else labelUser.set(vk, si) }
    if (kind === 'put') ps.push(track(sk, 'put', { ci, cn, rec, n }, () => b.put(n, contents[ci], OPT)))
    else if (kind === 'delete') ps.push(track(sk, 'delete', { cn, rec, n }, () => b.delete(n)))
    else if (kind === 'publish') ps.push(track(sk, 'publish', { cn, rec, n, vk }, () => b.publish(n, l)))
    else if (kind === 'unpublish') ps.push(track(sk, 'unpublish', { cn, rec, n, vk }, () => b.deleteVersion(n, l)))
    else if (kind === 'get') ps.push(track(sk, 'get', { cn, rec, n }, () => b.get(n)))
    else ps.push(track(sk, 'list', { cn, rec, n }, () => b.list()))
    if (r.chance(0.2)) await sched.run(ps.splice(0))
  }
  await sched.run(ps); sched.enabled = false; c.count('overlaps')
  for (const o of hist) if (!o.ok) c.ok(o.kind === 'publish' && /not found/i.test(o.err.message), () => `an overlapping ${o.kind} failed: ${o.err?.stack ?? o.err}`)
  // the final state, then per name: some order of the calls explains every answer and the final state
  const at = b => contents.findIndex(x => same(x, b))
  const fin = new Map()
  for (const cn of COLLS) for (const rec of recs) for (const n of names) {
    const sk = m.key(cn, rec, n), vk = m.key(cn, rec, n, 'v1'); const b = s1.v.collection(cn).blob(rec)
    const g = await b.get(n), gv = await b.getVersion(n, 'v1'); const s = g === null ? -1 : at(g), ver = gv === null ? -1 : at(gv)
    c.ok(g === null || s >= 0, () => `${cn}/${rec} ${n} reads as bytes nobody stored`); c.ok(gv === null || ver >= 0, () => `version of ${cn}/${rec} ${n} reads as bytes nobody stored`)
    fin.set(sk, [s, ver])
    const init = { s: m.slots.get(sk) ?? -1, v: m.versions.get(vk) ?? -1 }
    const ops = hist.filter(o => o.key === sk).map(o => ({ inv: o.inv, res: o.res, apply: st => {
      switch (o.kind) {
        case 'put': return [{ ...st, s: o.ci }, true]
        case 'delete': return [{ ...st, s: -1 }, true]
        case 'publish': return o.ok ? [{ ...st, v: st.s }, st.s >= 0] : [st, st.s < 0]
        case 'unpublish': return [{ ...st, v: -1 }, true]
        case 'get': return [st, o.out === null ? st.s < 0 : st.s === at(o.out)]
        case 'list': return [st, o.out.some(x => x.name === o.n) === (st.s >= 0)]
      }
    } }))
    // the label published last and the name are read by separate steps of publish, so the two are judged separately
    const mine = hist.filter(o => o.key === sk)
    const slotOps = ops.filter((_, i) => mine[i].kind !== 'publish' && mine[i].kind !== 'unpublish')
    slotOps.push({ inv: time, res: time + 1, apply: st => [st, st.s === s] })
    c.ok(linearizable(slotOps, init) !== false, () => `no order of the overlapping calls on ${cn}/${rec} ${n} explains what they returned and left behind (content ${s}): ${show(mine.map(o => `${o.kind}${o.ci ?? ''}[${o.inv},${o.res}]`))}`, { detail: { trace: sched.trace } })
    const vOps = mine.filter(o => o.kind === 'publish' || o.kind === 'unpublish')
    if (!vOps.length) c.ok(ver === init.v, () => `a published version of ${cn}/${rec} ${n} changed from content ${init.v} to ${ver} although nobody published or withdrew it`)
    if (vOps.every(o => o.kind === 'unpublish') && vOps.length) c.ok(ver === -1, () => `a withdrawn version of ${cn}/${rec} ${n} is still readable`)
    if (vOps.length && vOps.every(o => o.kind === 'publish' && o.ok)) c.ok(ver >= 0, () => `a version of ${cn}/${rec} ${n} just published is missing`)
  }
  for (const [k, [s, ver]] of fin) { const [a, b, n] = JSON.parse(k); s >= 0 ? m.slots.set(k, s) : m.slots.delete(k); const vk = m.key(a, b, n, 'v1'); ver >= 0 ? m.versions.set(vk, ver) : m.versions.delete(vk) }
  const L = `after ${hist.map(o => `${o.kind}${o.ci ?? ''}@${o.cn[0]}${o.rec}${o.n}`).join(' ∥ ')}${two ? ' (two sessions)' : ''}: `
  await audit(c, s1.v, m, contents, recs, names, { why: L }); await probe(c, s2.v, m, contents, { why: L })
  c.sig(`ov|${two}|${hot}|${hist.map(o => o.kind[0] + (o.ci ?? '')).join('')}|${sched.releases}`); c.sample({ overlap: hist.map(o => `${o.kind} ${o.cn}/${o.rec}/${o.n}`), releases: sched.releases })
  s1.db.close(); if (two) s2.db.close()
}

// ── 4. faults ───────────────────────────────────────────────────────────────
async function faults(c) {
  const r = c.rng; const ref = newRef(); const store = instrument(ref, {})
  const s = await open(store, { features: ['blob'] }); for (const k of [...COLLS, 'probe']) await s.v.collection(k).put('seed', { id: 'seed' }); await s.v.collection('probe').blob('p').put('w', new Uint8Array([9, 9, 9]), OPT); await s.v.collection('probe').blob('p').delete('w')
  const contents = pool(r); const m = new Model(); const recs = ['a']; const names = ['x', 'y']
  for (const n of names) if (r.chance(0.7)) { const ci = r.int(0, contents.length - 1); await s.v.collection('docs').blob('a').put(n, contents[ci], OPT); m.slots.set(m.key('docs', 'a', n), ci); if (r.chance(0.6)) { await s.v.collection('docs').blob('a').publish(n, 'v1'); m.versions.set(m.key('docs', 'a', n, 'v1'), ci) } }
  const snap = ref.snapshot(); const n = r.pick(names), ci = r.int(0, contents.length - 1); const sk = m.key('docs', 'a', n), vk = m.key('docs', 'a', n, 'v1')
  const kind = r.pick(m.slots.has(sk) ? ['put', 'delete', 'publish', 'unpublish'] : ['put', 'put', 'delete', 'unpublish'])
  const run = v => { const b = v.collection('docs').blob('a'); return kind === 'put' ? b.put(n, contents[ci], OPT) : kind === 'delete' ? b.delete(n) : kind === 'publish' ? b.publish(n, 'v1') : b.deleteVersion(n, 'v1') }
  const after = new Model(); after.slots = new Map(m.slots); after.versions = new Map(m.versions)
  if (kind === 'put') after.slots.set(sk, ci); else if (kind === 'delete') after.slots.delete(sk); else if (kind === 'publish') after.versions.set(vk, m.slots.get(sk)); else after.versions.delete(vk)
  let calls = 0; store._st.fault = () => { calls++ }; await run(s.v); store._st.fault = null; await audit(c, s.v, after, contents, recs, names)
  s.db.close()
  for (let at = 0; at < calls; at++) for (const mode of ['before', 'after']) {
    ref.restore(snap); const st = instrument(ref, {}); const { db, v } = await open(st, { features: ['blob'] })
    let k = 0; let hit = null; st._st.fault = ev => { if (k++ === at) { hit = ev.op; return mode } }
    let err = null; try { await run(v) } catch (e) { err = e } st._st.fault = null
    if (!hit) { db.close(); continue }
    c.count('faults'); const why = `${kind} of ${n} (content ${ci}) with the ${at + 1}th store call (${hit}) failing ${mode} taking effect: `
    const g = await v.collection('docs').blob('a').get(n), gv = await v.collection('docs').blob('a').getVersion(n, 'v1')
    const is = (x, want) => want === undefined ? x === null : same(x, contents[want])
    c.ok(is(g, m.slots.get(sk)) || is(g, after.slots.get(sk)), () => `${why}${n} reads as ${g && hex(g.subarray(0, 8))}, neither the old nor the new content`)
    c.ok(is(gv, m.versions.get(vk)) || is(gv, after.versions.get(vk)), () => `${why}the published version reads as ${gv && hex(gv.subarray(0, 8))}, neither the old nor the new one`)
    if (!err) c.ok(is(g, after.slots.get(sk)) && is(gv, after.versions.get(vk)), () => `${why}it reported success without having its effect`)
    const now = new Model(); now.slots = new Map(is(g, after.slots.get(sk)) ? after.slots : m.slots); now.versions = new Map(is(gv, after.versions.get(vk)) ? after.versions : m.versions)
    await audit(c, v, now, contents, recs, names, { atLeast: true, why })
    const w = r.chance(0.5) ? null : await open(instrument(ref, {}), { features: ['blob'] }); const vv = w?.v ?? v
    await run(vv); await audit(c, vv, after, contents, recs, names, { atLeast: true, why: why + 'after repeating it, ' }); await probe(c, vv, after, contents, { atLeast: true, why })
    c.sig(`fault|${kind}|${hit}|${at}|${mode}|${m.slots.size}|${m.versions.size}`)
    w?.db.close(); db.close()
  }
}

// ── 5. retention ────────────────────────────────────────────────────────────
async function retention(c) {
  const r = c.rng; const ref = newRef(); const s = await open(instrument(ref, {}), { features: ['blob'] })
  for (const k of [...COLLS, 'probe']) if (k !== 'docs') await s.v.collection(k).put('seed', { id: 'seed' })
  const names = ['x', 'y', 'constructor']; const recs = ['a', 'b', 'q']; const contents = pool(r); const m = new Model()
  const policy = {}; for (const n of ['x', 'y']) if (r.chance(0.8)) policy[n] = { ...(r.chance(0.7) ? { retainDays: r.pick([1, 7, 0.5]) } : {}), ...(r.chance(0.6) ? { evictWhen: r.chance(0.15) ? () => { throw new Error('bad rule') } : d => d.done === true } : {}) }
  const docs = s.v.collection('docs', { blobFields: policy }); const pics = s.v.collection('pics'); const doc = {}; const up = {}
  for (const rec of recs) { doc[rec] = { id: rec, done: r.chance(0.4) }; await docs.put(rec, doc[rec]) }
  for (const [cn, col] of [['docs', docs], ['pics', pics]]) for (const rec of recs) for (const n of names) if (r.chance(0.6)) { c.clock.set(c.clock.now + r.int(0, 5) * 3600e3); const ci = r.int(0, contents.length - 1); await col.blob(rec).put(n, contents[ci], OPT); m.slots.set(m.key(cn, rec, n), ci); up[m.key(cn, rec, n)] = Date.parse((await col.blob(rec).list()).find(x => x.name === n).uploadedAt); if (r.chance(0.3)) { await col.blob(rec).publish(n, 'v1'); m.versions.set(m.key(cn, rec, n, 'v1'), ci) } }
  for (let round = 0; round < 3; round++) {
    const keys = Object.keys(up); const base = keys.length ? up[r.pick(keys)] : c.clock.now
    const now = base + r.pick([1, 7, 0.5]) * 86400e3 + r.int(-1, 1) // exactly on, just before or just after a limit
    const due = []
    for (const [k] of m.slots) { const [cn, rec, n] = JSON.parse(k); const p = cn === 'docs' && Object.hasOwn(policy, n) ? policy[n] : null; if (!p) continue; const old = p.retainDays !== undefined && now - up[k] > p.retainDays * 86400e3; let pred = false; try { pred = !!p.evictWhen?.(doc[rec]) } catch { /* a failing rule keeps the attachment */ } if (old || pred) due.push(k) }
    const max = r.chance(0.3) ? r.int(0, 3) : undefined; const dry = r.chance(0.25)
    const out = await s.v.compact({ now: new Date(now), ...(max !== undefined ? { maxEvictions: max } : {}), ...(dry ? { dryRun: true } : {}) })
    const want = max === undefined ? due.length : Math.min(max, due.length)
    c.ok(out.evicted === want, () => `a retention run${dry ? ' (preview)' : ''} at ${new Date(now).toISOString()} with ${due.length} attachments due${max !== undefined ? ` and at most ${max} allowed` : ''} says it evicted ${out.evicted}`, { detail: { policy, due } })
    if (!dry) {
      let gone = 0
      for (const [k] of [...m.slots]) { const [cn, rec, n] = JSON.parse(k); const still = (await s.v.collection(cn).blob(rec).list()).some(x => x.name === n); if (!still) { c.ok(due.includes(k), () => `a retention run removed ${k}, which no rule covers`); m.slots.delete(k); delete up[k]; gone++ } }
      c.ok(gone === want, () => `a retention run with ${want} evictions to make removed ${gone}`); c.count('evictions', gone)
    }
    await audit(c, s.v, m, contents, recs, names, { why: `after a retention run${dry ? ' (preview)' : ''}: ` })
    c.sig(`ret|${due.length}|${max}|${dry}|${Object.keys(policy).length}`)
  }
  await probe(c, s.v, m, contents); s.db.close()
}

// ── 6. export of all attachments ────────────────────────────────────────────
async function exporting(c) {
  const r = c.rng; const ref = newRef(); const { openExporter } = await import('../lib/world.mjs')
  const { db, v } = await openExporter(instrument(ref, {}), { features: ['blob'] })
  const want = new Map(); const colls = ['docs', 'pics', 'memo']; let uniq = 0
  for (const cn of colls) for (let k = 0; k < r.int(0, 4); k++) { const rec = 'r' + k; await v.collection(cn).put(rec, { id: rec, keep: r.chance(0.6) }); for (const n of ['x', 'y']) if (r.chance(0.6)) { const b = new Uint8Array(r.int(4, 200)); for (let i = 0; i < b.length; i++) b[i] = r.u32(); b[0] = uniq++; b[1] = uniq >> 8; await v.collection(cn).blob(rec).put(n, b, OPT); want.set(JSON.stringify([cn, rec, n]), b) } }
  const pick = r.chance(0.5) ? r.sample(colls, r.int(0, 3)) : undefined; const where = r.chance(0.4) ? d => d.keep : undefined
  const keep = new Map(); for (const [k, b] of want) { const [cn, rec] = JSON.parse(k); if (pick && !pick.includes(cn)) continue; if (where && !(await v.collection(cn).get(rec)).keep) continue; keep.set(k, b) }
  const opts = { ...(pick ? { collections: pick } : {}), ...(where ? { where } : {}) }
  const seen = new Map(); const order = []
  for await (const it of v.exportBlobs(opts)) { const k = JSON.stringify([it.recordRef.collection, it.recordRef.id, it.recordRef.slot]); c.ok(!seen.has(k), () => `the export delivered ${k} twice`); seen.set(k, it); order.push([k, it.blobId]); c.ok(keep.has(k), () => `the export delivered ${k}, which was not asked for`); c.ok(same(it.bytes, keep.get(k)), () => `the export delivered other bytes for ${k}`); c.ok(it.meta.size === keep.get(k).length, () => `the export announces ${it.meta.size} bytes for ${k}`); c.count('exported') }
  c.ok(seen.size === keep.size, () => `the export delivered ${seen.size} of ${keep.size} attachments`)
  if (order.length) { const cut = r.int(0, order.length - 1); const rest = []; for await (const it of v.exportBlobs({ ...opts, afterBlobId: order[cut][1] })) rest.push(it.blobId); c.eq(rest, order.slice(cut + 1).map(x => x[1]), 'an export resumed after an attachment delivers exactly the ones after it') }
  c.sig(`exp|${want.size}|${keep.size}`); db.close()
}

export const scenarios = [
  { name: 'roundTrip', quick: 200, thorough: 1000, run: roundTrip },
  { name: 'programs', quick: 220, thorough: 1200, run: programs },
  { name: 'overlap', quick: 1500, thorough: 8000, run: overlap },
  { name: 'faults', quick: 90, thorough: 500, run: faults },
  { name: 'retention', quick: 120, thorough: 600, run: retention, clock: { auto: 0 } },
  { name: 'exporting', quick: 120, thorough: 400, run: exporting },
]
