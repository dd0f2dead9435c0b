// Gateways: the HTTP handler against a session-and-data model, its framework adapters against the handler itself, and the tool gateway against its allow-lists.
import { createRestHandler } from '@noy-db/in-rest'
import { honoAdapter } from '@noy-db/in-rest/hono'
import { nitroAdapter } from '@noy-db/in-rest/nitro'
import { expressAdapter } from '@noy-db/in-rest/express'
import { fastifyPlugin } from '@noy-db/in-rest/fastify'
import express from 'express'
import Fastify from 'fastify'
import { AsyncLocalStorage } from 'node:async_hooks'
import { configureNoydb, cookieSession, withVault, withNoydb, writeSession, clearSession, resetNoydbConfig } from '@noy-db/in-nextjs'
import { createNoydb } from '@noy-db/hub'
import { Sched } from '../lib/sched.mjs'
import { buildToolset, invokeToolCall } from '@noy-db/in-ai'
import { open, newRef, instrument, PASS } from '../lib/world.mjs'
import { show, deepEq } from '../lib/child.mjs'

export const meta = {
  property: 'C30', level: 'exploration',
  rule: 'non-trivial: a request whose outcome depended on its token, its role or its filter, or a tool call decided by an allow-list; signatures = (gateway, kind of token or call, operation, outcome).',
  assumptions: ['Every session has its own cache: a session answers from the collection as it was when the session first used it plus its own writes, as every open database does; stored means stored by then.', 'Filter values that look like numbers or booleans are taken as such, as the query syntax has no types.', 'A session is created before the passphrase is tried; what counts is that no data request succeeds with a wrong one.', 'The exact millisecond of expiry is not judged.'],
  minimums: { pageRequests: 4000, pageFailures: 500, requests: 30000, unauthorised: 8000, expired: 1200, deletedTokens: 800, wrongPassphrase: 1000, lists: 3500, filtered: 2500, fetches: 3000, writes: 1500, forbidden: 800, coldLists: 600, adapterRequests: 1500, storeFailures: 600, toolCalls: 15000, toolDenied: 6000, internalNames: 1500, tools: 3000 },
}
const COLLS = ['open', 'ro', 'secret']; const IDS = ['1', '2', 'a b', 'x%y', 'ü/z', 'q?#&', '..', '🙂']
const enc = encodeURIComponent
const rec = (r, id) => ({ id, n: r.int(-5, 20), s: r.pick(['red', 'green', 'a:b', 'x y', 'é', '']), b: r.chance(0.5), mark: 'zz' + r.u32().toString(36) + 'zz' })
async function stocked(c) {
  const r = c.rng; const ref = newRef(); const store = instrument(ref, {}); const { db, v } = await open(store, { features: [] }); const data = {}
  for (const k of COLLS) { data[k] = new Map(); const col = v.collection(k); await col.put('seed', rec(r, 'seed')); data[k].set('seed', await col.get('seed')); for (const id of r.sample(IDS, r.int(0, 6))) { const x = rec(r, id); await col.put(id, x); data[k].set(id, x) } }
  await db.grant('acme', { userId: 'bob', displayName: 'Bob', role: 'operator', passphrase: 'bobs-own-long-passphrase-7', permissions: { open: 'rw', ro: 'ro' } })
  await db.grant('acme', { userId: 'vic', displayName: 'Vic', role: 'viewer', passphrase: 'vics-own-long-passphrase-8' })
  db.close()
  return { ref, store, data }
}
const USERS = { alice: { pass: PASS, read: COLLS, write: COLLS }, bob: { pass: 'bobs-own-long-passphrase-7', read: ['open', 'ro'], write: ['open'] }, vic: { pass: 'vics-own-long-passphrase-8', read: COLLS, write: [] } }
const CMP = { eq: (a, b) => a === b, neq: (a, b) => a !== b, gt: (a, b) => a > b, gte: (a, b) => a >= b, lt: (a, b) => a < b, lte: (a, b) => a <= b }
function listQuery(r) {
  const q = new URLSearchParams(); const tests = []
  for (let k = r.weighted([[3, 0], [4, 1], [2, 2], [1, 3]]); k > 0; k--) { const f = r.pick(['n', 's', 'b', 'id']); const op = r.pick(f === 'b' ? ['eq', 'neq'] : Object.keys(CMP)); const val = f === 'n' ? r.int(-6, 21) : f === 'b' ? r.chance(0.5) : f === 'id' ? r.pick(['a b', 'x%y', 'seed', 'ü/z']) : r.pick(['red', 'green', 'a:b', 'x y', 'é']); q.append('where', `${f}:${op}:${val}`); tests.push(x => CMP[op](x[f], val)) }
  let order = null; if (r.chance(0.5)) { order = [r.pick(['n', 's']), r.pick(['asc', 'desc', undefined])]; q.set('orderBy', order[1] ? order.join(':') : order[0]) }
  let limit = null; if (r.chance(0.4)) { limit = r.int(0, 6); q.set('limit', String(limit)) }
  return { q, tests, order, limit }
}
function judgeList(c, at, got, all, { tests, order, limit }) {
  const want = [...all.values()].filter(x => tests.every(t => t(x)))
  c.ok(Array.isArray(got), () => `${at}: not a list: ${show(got)}`)
  const n = limit === null ? want.length : Math.min(limit, want.length)
  c.ok(got.length === n, () => `${at}: ${got.length} records instead of ${n}; got ${show(got)}, stored and matching ${show(want)}`, { key: 'list' })
  const seen = new Set(); for (const g of got) { const w = want.find(x => x.id === g.id); c.ok(w && deepEq(w, g) && !seen.has(g.id), () => `${at}: returned ${show(g)}, which is not among the matching records`, { key: 'list' }); seen.add(g.id) }
  if (order) { const [f, d] = order; const key = x => x[f]; const sorted = [...want].sort((a, b) => (key(a) < key(b) ? -1 : key(a) > key(b) ? 1 : 0) * (d === 'desc' ? -1 : 1)).slice(0, n); c.ok(deepEq(sorted.map(key), got.map(key)), () => `${at}: order of ${f} is ${show(got.map(key))}, expected ${show(sorted.map(key))}`, { key: 'order' }) }
}

async function rest(c) {
  const r = c.rng; const { ref, store, data } = await stocked(c); const base = r.pick(['', '', '/api/db']); const ttl = r.pick([60, 900, 5, undefined]); const ttlMs = (ttl ?? 900) * 1000
  const handlers = {}; for (const u of Object.keys(USERS)) handlers[u] = createRestHandler({ store, user: u, ...(ttl === undefined ? {} : { ttlSeconds: ttl }), basePath: base })
  const toks = []; const marks = () => { const s = new Set(); for (const k of COLLS) for (const x of data[k].values()) s.add(x.mark); return s }
  const via = r.pick(['direct', 'direct', 'hono', 'nitro'])
  const send = async (u, method, path, { token, headers, body, q } = {}) => {
    c.count('requests'); const h = { ...(headers ?? {}) }; if (token !== undefined) h[r.pick(['authorization', 'authorization', 'Authorization'])] = token
    const full = base + path; const qs = q ? '?' + q.toString() : ''
    let status, text
    if (via === 'direct') { const res = await handlers[u].handle({ method, pathname: full, searchParams: q ?? new URLSearchParams(), headers: h, json: async () => JSON.parse(body) }); status = res.status; text = res.body === null ? '' : String(res.body) }
    else if (via === 'hono') { const res = await honoAdapter(handlers[u]).request('http://x' + full + qs, { method, headers: h, ...(body !== undefined && method !== 'GET' ? { body } : {}) }); status = res.status; text = await res.text() }
    else { const res = await nitroAdapter(handlers[u])({ method, path: full + qs, headers: r.chance(0.5) ? h : new Headers(h), _body: body === undefined ? undefined : JSON.parse(body) }); status = res.status; text = await res.text() }
    let val = null; try { val = text ? JSON.parse(text) : null } catch { c.fail(`${method} ${full}: the body is not JSON: ${text.slice(0, 200)}`) }
    return { status, text, val }
  }
  const quiet = (at, res) => { for (const m of marks()) c.ok(!res.text.includes(m), () => `${at}: refused (${res.status}) but the answer contains stored data: ${res.text.slice(0, 300)}`, { key: 'leak' }) }
  const snap = () => JSON.stringify(ref.snapshot())
  for (let step = 0; step < 34; step++) {
    const at0 = `step ${step} (${via})`
    const kind = r.weighted([[toks.length < 5 ? 4 : 1, 'unlock'], [1.5, 'time'], [1, 'logout'], [1.5, 'current'], [22, 'data'], [1, 'odd']])
    if (kind === 'unlock') {
      const u = r.pick(Object.keys(USERS)); const good = r.chance(0.75); const pass = good ? USERS[u].pass : r.pick(['a-completely-wrong-passphrase-1', USERS[r.pick(Object.keys(USERS).filter(x => x !== u))].pass, USERS[u].pass + ' ', USERS[u].pass.slice(0, -1), USERS[u].pass.toUpperCase()])
      const res = await send(u, 'POST', '/sessions/unlock/passphrase', { body: JSON.stringify({ passphrase: pass }) })
      if (good) { c.ok(res.status === 200 && typeof res.val?.token === 'string' && res.val.token.length >= 16, () => `${at0}: unlocking with the right passphrase gave ${res.status} ${res.text}`); c.ok(!toks.some(t => t.token === res.val.token), 'token issued twice') }
      if (res.status === 200) toks.push({ u, token: res.val.token, good, at: c.clock.now + ttlMs, dead: false, views: {} })
      continue
    }
    if (kind === 'time') { const fut = toks.filter(t => !t.dead && t.at >= c.clock.now).map(t => t.at); const t = fut.length && r.chance(0.7) ? r.pick(fut) + r.pick([-1, 1, -500, 500]) : c.clock.now + r.int(1, 3000); if (t > c.clock.now) await c.clock.tick(t - c.clock.now, { settle: 1 }); continue }
    const now = c.clock.now; const lively = toks.filter(x => !x.dead && now < x.at); const t = lively.length && r.chance(0.75) ? r.pick(lively) : toks.length && r.chance(0.8) ? r.pick(toks) : null
    if (t && now === t.at) continue
    // how the token is presented
    const form = !t ? r.pick(['none', 'junk', 'empty']) : r.weighted([[14, 'ok'], [0.5, 'bare'], [0.5, 'suffix'], [0.5, 'prefix'], [0.5, 'basic'], [0.5, 'none'], [0.5, 'cut'], [0.5, 'foreign']])
    const header = { none: undefined, junk: 'Bearer ' + r.u32(), empty: 'Bearer ', ok: 'Bearer ' + t?.token, bare: t?.token, suffix: `Bearer ${t?.token}x`, prefix: `Bearer x${t?.token}`, basic: 'Basic ' + t?.token, cut: 'Bearer ' + t?.token.slice(0, -1), foreign: 'Bearer ' + t?.token }[form]
    const u = form === 'foreign' ? r.pick(Object.keys(USERS).filter(x => x !== t.u)) : t ? t.u : r.pick(Object.keys(USERS))
    const live = form === 'ok' && !t.dead && now < t.at; if (t && !t.dead && now > t.at) t.dead = 'expired'
    if (kind === 'current') { const res = await send(u, 'GET', '/sessions/current', { token: header }); c.ok(res.status === 200 && res.val?.active === live, () => `${at0}: session reported ${res.text}, it is ${live ? 'live' : 'not live'} (${form}, ${t?.dead})`); continue }
    if (kind === 'logout') { const res = await send(u, 'DELETE', '/sessions/current', { token: header }); c.ok(res.status === (live ? 204 : 401), () => `${at0}: logging out gave ${res.status} with ${form} token, live: ${live}`); if (live) t.dead = 'deleted'; continue }
    if (kind === 'odd') {
      const path = r.pick(['/', '/vaults/acme', '/vaults/acme/collections', '/vaults/acme/collections/open/1/2', '/vaults/acme/collections/%E0%A4%A/1', '//vaults/acme/collections/open', '/sessions', '/vaults/acme/collections/_keyring', '/vaults/acme/collections/_keyring/alice', '/vaults/acme/collections/_ledger']); const before = snap()
      const res = await send(u, r.pick(['GET', 'GET', 'PUT', 'PATCH', 'DELETE']), path, { token: header }); if (live) t.at = now + ttlMs
      c.ok(res.status >= 400 && (live || res.status === 401), () => `${at0}: ${path} gave ${res.status} ${res.text.slice(0, 200)} (${form}, live ${live})`); quiet(at0, res); c.ok(!/wrapped|deks|salt/.test(res.text), () => `${at0}: ${path} exposes key material: ${res.text.slice(0, 200)}`); c.eq(snap(), before, `${at0}: ${path} changed the store`); continue
    }
    const coll = r.pick(COLLS), id = r.pick([...IDS, 'seed', 'nope']); const op = r.weighted([[3, 'list'], [4, 'get'], [2, 'put'], [1, 'del'], [0.7, 'badlist'], [0.5, 'badbody'], [0.4, 'method']])
    const before = op === 'put' || op === 'del' ? null : snap(); const frozen = !live || !t.good || !USERS[t.u].write.includes(coll); const held = frozen ? snap() : null
    const lq = op === 'list' ? listQuery(r) : null; const body = rec(r, id); let res
    const p = `/vaults/acme/collections/${enc(coll)}`, pr = id === '..' ? p + '/%2E%2E' : `${p}/${enc(id)}`
    if (id === '..' && op !== 'list' && op !== 'badlist') continue // URL parsers normalise dot segments away
    const broken = live && t.good && ['list', 'get', 'put', 'del'].includes(op) && r.chance(0.08) ? snap() : null; if (broken) store._st.fault = () => 'before'
    if (op === 'list') res = await send(u, 'GET', p, { token: header, q: lq.q })
    else if (op === 'get') res = await send(u, 'GET', pr, { token: header })
    else if (op === 'put') res = await send(u, 'POST', pr, { token: header, body: JSON.stringify(body) })
    else if (op === 'del') res = await send(u, 'DELETE', pr, { token: header })
    else if (op === 'badlist') { const q = new URLSearchParams(); const [k, val] = r.pick([['where', 'n:pow:2'], ['where', 'n'], ['where', 'n:constructor:1'], ['where', 'n:toString:1'], ['limit', '-1'], ['limit', 'abc'], ['limit', '1.5']]); q.append(k, val); if (r.chance(0.5)) q.append('where', 'n:gt:-100'); res = await send(u, 'GET', p, { token: header, q }) }
    else if (op === 'badbody') res = await send(u, 'POST', pr, { token: header, body: r.pick(['null', '[1]', '"text"', '5', 'true']) })
    else res = await send(u, r.pick(['PUT', 'PATCH']), pr, { token: header })
    const at = `${at0}: ${op} ${coll}/${id} as ${u} (${form}, ${t?.dead || 'alive'}, passphrase ${t ? t.good : '-'}) -> ${res.status}`
    store._st.fault = null
    if (broken) { t.at = now + ttlMs; c.count('storeFailures'); c.eq(snap(), broken, `${at}: changed a failing store`); if (res.status >= 400) { quiet(at, res); continue } c.ok(op === 'list' || op === 'get', () => `${at}: reported done although the store failed`, { key: 'failure' }) }
    if (live) t.at = now + ttlMs
    c.sig(`rest|${via}|${form}|${t?.dead ?? '-'}|${t ? t.good : '-'}|${op}|${t ? USERS[t.u].read.includes(coll) + '/' + USERS[t.u].write.includes(coll) : '-'}|${res.status}`)
    if (!live) { c.ok(res.status === 401, () => `${at}: answered without a live session: ${res.text.slice(0, 200)}`, { key: 'unauthorised' }); quiet(at, res); c.eq(snap(), held, `${at}: changed the store`); c.count('unauthorised'); if (t?.dead === 'expired') c.count('expired'); if (t?.dead === 'deleted') c.count('deletedTokens'); continue }
    if (!t.good) { c.ok(res.status >= 400, () => `${at}: answered with a wrong passphrase: ${res.text.slice(0, 200)}`, { key: 'passphrase' }); quiet(at, res); c.eq(snap(), held, `${at}: changed the store`); c.count('wrongPassphrase'); continue }
    const canRead = USERS[t.u].read.includes(coll), canWrite = USERS[t.u].write.includes(coll); const cold = !t.views[coll]; const view = t.views[coll] ?? new Map(data[coll])
    if ((op === 'list' || op === 'get') ? canRead : (op === 'put' || op === 'del') && canWrite) t.views[coll] = view // the session has loaded the collection
    if (op === 'badlist' || op === 'badbody') { c.ok(res.status >= 400 && res.status < 500, () => `${at}: a malformed request gave ${res.text.slice(0, 100)}`); quiet(at, res); continue }
    if (op === 'method') { c.ok(res.status === 405, () => at); continue }
    if (op === 'list' || op === 'get') {
      c.eq(snap(), before, `${at}: a read changed the store`)
      if (!canRead) { if (op === 'list' && res.status === 200) c.ok(res.val.length === 0, () => `${at}: ${res.text}`, { key: 'forbidden' }); else c.ok(res.status >= 400, () => `${at}: ${res.text}`, { key: 'forbidden' }); quiet(at, res); c.count('forbidden'); continue }
      if (op === 'list') { c.count('lists'); if (cold) c.count('coldLists'); if (lq.tests.length) c.count('filtered'); c.ok(res.status === 200, () => `${at}: ${res.text}`); judgeList(c, `${at} ?${lq.q}${cold ? ' (first use)' : ''}`, res.val, view, lq) }
      else { c.count('fetches'); const w = view.get(id); if (w) c.ok(res.status === 200 && deepEq(res.val, w), () => `${at}: got ${res.text}, stored ${show(w)}`, { key: 'fetch' }); else c.ok(res.status === 404, () => `${at}: ${res.text}`) }
      continue
    }
    if (!canWrite) { c.ok(res.status >= 400, () => `${at}: a write was accepted`, { key: 'forbidden' }); c.eq(snap(), held, `${at}: changed the store`); c.count('forbidden'); continue }
    c.ok(res.status === 200, () => `${at}: ${res.text}`); c.count('writes'); for (const m of [view, data[coll]]) if (op === 'put') m.set(id, body); else m.delete(id)
  }
  // everything written through the gateway is in the database
  const { db, v } = await open(store, { features: [] }); for (const k of COLLS) { const got = new Map((await v.collection(k).list()).map(x => [x.id, x])); c.ok(deepEq(Object.fromEntries([...got].sort()), Object.fromEntries([...data[k]].sort())), () => `the database holds ${show([...got.values()])}, written through the gateway ${show([...data[k].values()])}`) } db.close()
}

// first requests of a fresh session arriving together
async function together(c) {
  const r = c.rng; const { store, data } = await stocked(c); const h = createRestHandler({ store, user: 'alice' })
  const tok = JSON.parse((await h.handle({ method: 'POST', pathname: '/sessions/unlock/passphrase', searchParams: new URLSearchParams(), headers: {}, json: async () => ({ passphrase: PASS }) })).body).token
  const go = (method, path, body) => { c.count('requests'); return h.handle({ method, pathname: path, searchParams: new URLSearchParams(), headers: { authorization: 'Bearer ' + tok }, json: async () => body }) }
  const jobs = []; const exp = {}; for (const k of COLLS) exp[k] = new Map(data[k])
  for (let k = 0; k < r.int(3, 7); k++) { const coll = r.pick(COLLS); if (r.chance(0.5)) jobs.push(go('GET', `/vaults/acme/collections/${coll}`).then(x => { const got = JSON.parse(x.body); c.ok(x.status === 200, () => `list gave ${x.status}`); for (const [id, w] of data[coll]) c.ok(got.some(g => g.id === id && deepEq(g, w)), () => `a first request arriving with others misses ${coll}/${id}: ${show(got)}`, { key: 'cold' }); c.count('coldLists') })); else { const id = 'new' + k; const b = rec(r, id); exp[coll].set(id, b); jobs.push(go('POST', `/vaults/acme/collections/${coll}/${id}`, b).then(x => c.ok(x.status === 200, () => `write gave ${x.status} ${x.body}`))); c.count('writes') } }
  await Promise.all(jobs)
  for (const coll of COLLS) { const x = await go('GET', `/vaults/acme/collections/${coll}`); judgeList(c, `list of ${coll} after requests arriving together`, JSON.parse(x.body), exp[coll], { tests: [], order: null, limit: null }) }
  c.sig(`together|${jobs.length}`)
}

// every adapter hands the request on and the answer back unchanged
async function adapters(c) {
  const r = c.rng; const { store } = await stocked(c); const h = createRestHandler({ store, user: 'alice', basePath: '/api' })
  const ask = async (method, path, q, headers, body) => { const x = await h.handle({ method, pathname: path, searchParams: q, headers, json: async () => body }); return { status: x.status, type: x.headers['content-type'] ?? null, allow: x.headers.allow ?? null, text: x.body === null ? '' : String(x.body) } }
  const tok = JSON.parse((await ask('POST', '/api/sessions/unlock/passphrase', new URLSearchParams(), {}, { passphrase: PASS })).text).token
  const f = Fastify(); await f.register(fastifyPlugin(h)); await f.ready(); c.cleanup(() => f.close())
  const app = express(); app.use(express.json()); app.use(expressAdapter(h)); const srv = await new Promise(res => { const s = app.listen(0, '127.0.0.1', () => res(s)) }); c.cleanup(() => { srv.closeAllConnections?.(); srv.close() }); const port = srv.address().port
  const hono = honoAdapter(h); const nitro = nitroAdapter(h)
  const pick = (status, get, text) => ({ status, type: get('content-type')?.replace(/;.*$/, '') ?? null, allow: get('allow') ?? null, text })
  for (let k = 0; k < 10; k++) {
    const kind = r.weighted([[5, 'list'], [3, 'get'], [2, 'put'], [1, 'del'], [1, 'method'], [1, 'current'], [1, 'none']]); const id = r.pick(IDS.filter(x => x !== '..')); const lq = listQuery(r); const coll = r.pick(COLLS)
    const path = kind === 'list' || kind === 'none' ? `/api/vaults/acme/collections/${coll}` : kind === 'current' ? '/api/sessions/current' : `/api/vaults/acme/collections/${coll}/${enc(id)}`
    const method = { list: 'GET', get: 'GET', put: 'POST', del: 'DELETE', method: 'PUT', current: 'GET', none: 'GET' }[kind]; const q = kind === 'list' ? lq.q : new URLSearchParams(); const headers = kind === 'none' ? {} : { authorization: 'Bearer ' + tok }
    const body = kind === 'put' ? rec(r, id) : undefined; const qs = q.toString() ? '?' + q : ''; const jh = body ? { ...headers, 'content-type': 'application/json' } : headers
    const exp = await ask(method, path, q, headers, body); const url = path + qs; const out = {}
    { const x = await f.inject({ method, url, headers: jh, ...(body ? { payload: JSON.stringify(body) } : {}) }); out.fastify = pick(x.statusCode, n => x.headers[n], x.body) }
    { const x = await fetch(`http://127.0.0.1:${port}${url}`, { method, headers: { ...jh, connection: 'close' }, ...(body ? { body: JSON.stringify(body) } : {}) }); out.express = pick(x.status, n => x.headers.get(n), await x.text()) }
    { const x = await hono.request('http://x' + url, { method, headers: jh, ...(body ? { body: JSON.stringify(body) } : {}) }); out.hono = pick(x.status, n => x.headers.get(n), await x.text()) }
    { const x = await nitro({ method, path: url, headers: jh, _body: body }); out.nitro = pick(x.status, n => x.headers.get(n), await x.text()) }
    for (const [n, got] of Object.entries(out)) { c.count('adapterRequests'); if (got.type === 'text/plain' && exp.type === null) got.type = null; c.ok(deepEq(got, exp), () => `${method} ${url} through ${n} gave ${show(got)}, the handler itself ${show(exp)}`, { key: 'adapter-' + n }) }
    c.sig(`adapter|${kind}|${exp.status}|${lq.tests.length}`)
  }
}

const OPS = ['list', 'get', 'put', 'delete', 'count']
async function tools(c) {
  const r = c.rng; const { ref, store, data } = await stocked(c); const u = r.pick(Object.keys(USERS)); const { db, v } = await open(store, { user: u, secret: USERS[u].pass, features: [] }); c.cleanup(() => db.close())
  const may = USERS[u]; const allowedCollections = r.chance(0.5) ? undefined : r.sample([...COLLS, '_keyring', '_secret', 'other'], r.int(0, 4)); const allowedOperations = r.chance(0.2) ? undefined : r.sample(OPS, r.int(0, 5))
  const ops = allowedOperations ?? ['list', 'get']; const format = r.pick([undefined, 'json-schema', 'openai', 'anthropic'])
  const set = buildToolset(v, { ...(allowedCollections ? { collections: allowedCollections } : {}), ...(allowedOperations ? { operations: allowedOperations } : {}), ...(format ? { format } : {}) }); const names = set.map(t => t.name ?? t.function.name)
  const exp = []; for (const k of COLLS) if (may.read.includes(k) && (!allowedCollections || allowedCollections.includes(k))) for (const o of ops) if (!['put', 'delete'].includes(o) || may.write.includes(k)) exp.push(`${k}_${o}`)
  c.eq([...names].sort(), exp.sort(), `tools offered to ${u} (collections ${show(allowedCollections)}, operations ${show(ops)})`); c.count('tools', names.length)
  const m = {}; for (const k of COLLS) m[k] = new Map(data[k])
  for (let k = 0; k < 18; k++) {
    const coll = r.weighted([[6, r.pick(COLLS)], [1, '_keyring'], [1, '_ledger'], [1, '_dict_x'], [1, '_' + r.pick(COLLS)], [0.5, '__proto__'], [0.5, '']]); const op = r.weighted([[5, r.pick(OPS)], [0.5, 'drop'], [0.5, 'list_all'], [0.4, 'LIST']]); const name = r.chance(0.05) ? r.pick(['', '_', 'list', 'hacked', 'open.list', 'constructor']) : `${coll}_${op}`
    const id = r.pick([...IDS, 'seed', 'nope']); const record = rec(r, id); const args = r.weighted([[8, { id, record }], [0.5, {}], [0.5, { id: '' , record }], [0.5, { id, record: null }], [0.5, { id, record: 'x' }], [0.3, { id: ['1'], record }]])
    const before = JSON.stringify(ref.snapshot()); store._st.log.length = 0; let err = null, out; c.count('toolCalls')
    try { out = await invokeToolCall(v, { name, args }, { ...(allowedOperations ? { allowedOperations } : {}), ...(allowedCollections ? { allowedCollections } : {}) }) } catch (e) { if (e?.name === 'Violation') throw e; err = e }
    const known = OPS.find(o => name.endsWith('_' + o)); const target = known ? name.slice(0, -known.length - 1) : null
    const at = `${u} calls ${name}(${show(args)}) with collections ${show(allowedCollections)} and operations ${show(ops)}`
    const touched = new Set(store._st.log.map(e => e.coll).filter(Boolean))
    const internal = target !== null && target.startsWith('_')
    const allowed = known && target && !internal && ops.includes(known) && (!allowedCollections || allowedCollections.includes(target))
    if (internal) c.count('internalNames')
    if (!allowed) { c.ok(err && ['ToolDeniedError', 'ToolNotFoundError'].includes(err.name), () => `${at}: gave ${err ?? show(out)}`, { key: 'not-allowed' }); c.ok(touched.size === 0, () => `${at}: refused, but the store was asked for ${[...touched]}`, { key: 'not-allowed' }); c.eq(JSON.stringify(ref.snapshot()), before, `${at}: changed the store`); c.count('toolDenied'); c.sig(`tool|${u}|denied|${internal}|${known}`); continue }
    const writes = known === 'put' || known === 'delete'; const badArgs = (known !== 'list' && known !== 'count' && (typeof args.id !== 'string' || args.id === '')) || (known === 'put' && (typeof args.record !== 'object' || args.record === null))
    if (badArgs) { c.ok(err, () => `${at}: gave ${show(out)}`); c.eq(JSON.stringify(ref.snapshot()), before, `${at}: changed the store`); continue }
    if (!COLLS.includes(target)) continue // a collection that does not exist yet
    if (!(writes ? may.write : may.read).includes(target)) { const empty = !writes && !err && (out === null || out === 0 || (Array.isArray(out) && out.length === 0)); c.ok(err || empty, () => `${at}: gave ${show(out)}`, { key: 'forbidden' }); c.ok(!store._st.log.some(e => (e.op === 'put' || e.op === 'delete') && e.coll === target), () => `${at}: wrote to ${target}`); c.count('forbidden'); continue }
    c.ok(!err, () => `${at}: failed with ${err}`); c.sig(`tool|${u}|${known}|${target}`)
    if (known === 'list') c.ok(deepEq(Object.fromEntries(out.map(x => [x.id, x]).sort()), Object.fromEntries([...m[target]].sort())), () => `${at}: ${show(out)}`)
    else if (known === 'count') c.eq(out, m[target].size, at)
    else if (known === 'get') c.ok(deepEq(out ?? null, m[target].get(args.id) ?? null), () => `${at}: ${show(out)}`)
    else if (known === 'put') m[target].set(args.id, args.record)
    else m[target].delete(args.id)
    if (!writes) c.eq(JSON.stringify(ref.snapshot()), before, `${at}: a read changed the store`)
    for (const t of touched) c.ok(t === target || t.startsWith('_'), () => `${at}: touched ${t}`)
  }
  db.close(); const o = await open(store, { features: [] }); for (const k of COLLS) { const got = Object.fromEntries((await o.v.collection(k).list()).map(x => [x.id, x]).sort()); c.ok(deepEq(got, Object.fromEntries([...m[k]].sort())), () => `after the tool calls ${k} holds ${show(got)}`) } o.db.close()
}

// ── server helpers: overlapping requests, each with its own cookies ──
async function pages(c) {
  const r = c.rng; const { ref, data } = await stocked(c); const sched = new Sched(r.fork('p')); sched.enabled = false; const store = instrument(ref, { sched, keepLog: false })
  const jars = new AsyncLocalStorage(); const tokens = new Map(); const live = new Map(); let made = 0
  const names = r.chance(0.5) ? { cookieName: 'sess', userCookieName: 'usr' } : {}; const session = cookieSession({ cookies: () => jars.getStore(), ...names, ...(r.chance(0.5) ? { maxAgeSeconds: 77 } : {}) })
  const jar = () => { const m = new Map(); return { m, get: n => m.has(n) ? { name: n, value: m.get(n).value } : undefined, set: (n, value, o) => m.set(n, { value, o }), delete: n => m.delete(n) } }
  configureNoydb({ session, factory: async s => { const u = s && tokens.get(s.sessionToken); if (!u || u !== s.userId) throw new Error('not signed in'); const db = await createNoydb({ store, user: u, secret: USERS[u].pass }); const id = ++made; live.set(id, 0); const close = db.close.bind(db); db.close = () => { live.set(id, live.get(id) + 1); return close() }; db.opened = id; return db } }); c.cleanup(resetNoydbConfig)
  const one = async r2 => {
    const u = r2.pick(Object.keys(USERS)); const j = jar(); const token = 't' + r2.u32(); const how = r2.weighted([[8, 'in'], [1, 'none'], [1, 'forged'], [1, 'swapped'], [1, 'out']]); const k = r2.pick(COLLS); const boom = r2.chance(0.25); const db0 = r2.chance(0.3)
    await jars.run(j, async () => {
      tokens.set(token, u); if (how !== 'none') { await writeSession({ userId: u, sessionToken: token }); for (const x of j.m.values()) c.ok(x.o.httpOnly && x.o.secure && x.o.path === '/' && x.o.maxAge > 0, 'a session cookie is readable by scripts or sent in clear') }
      if (how === 'forged') j.set(names.cookieName ?? 'noydb_session', 'zzz'); if (how === 'swapped') j.set(names.userCookieName ?? 'noydb_user', Object.keys(USERS).find(x => x !== u)); if (how === 'out') { await clearSession(); c.eq(j.m.size, 0, 'signing out left cookies') }
      let inside = null; const body = async v => { const l = await v.collection(k).list(); if (boom) throw new Error('boom'); return [v.userId, l] }
      const h = db0 ? withNoydb(async (db, q) => { inside = db.opened; c.eq(live.get(inside), 0, 'a database is closed while its request runs'); return [q.n, ...(await body(await db.openVault('acme')))] }) : withVault('acme', async (v, q) => { inside = 'v'; return [q.n, ...(await body(v))] })
      const n = r2.int(0, 1e6); const res = await h({ n }).then(value => ({ value }), error => ({ error })); c.count('pageRequests')
      if (how !== 'in') { c.ok(res.error && inside === null, `a request with ${how} cookies reached its handler`); return }
      const may = USERS[u].read.includes(k)
      if (boom || !may) { c.count('pageFailures'); if (boom && may) c.eq(res.error?.message, 'boom', 'the failure of a handler is not passed on'); else if (res.value) c.eq(res.value[2], [], `${u} is shown records of "${k}"`) }
      else { c.ok(!res.error, () => `the request of ${u} failed: ${res.error}`); c.eq(res.value.slice(0, 2), [n, u], 'a request was answered for another request or user'); const by = l => l.slice().sort((a, b) => a.id < b.id ? -1 : 1); c.eq(by(res.value[2]), by([...data[k].values()]), 'a request shows other records') }
      if (db0) c.eq(live.get(inside), 1, 'the database of a finished request was not closed exactly once')
    })
  }
  sched.enabled = true; const rs = await sched.run(Array.from({ length: r.int(2, 5) }, (_, k) => one(r.fork('q' + k)))); sched.drainOff(); for (const x of rs) if (x.status === 'rejected') throw x.reason
  for (const n of live.values()) c.eq(n, 1, 'the database of a finished request was not closed exactly once')
  c.sig(['pages', sched.trace.join()])
}

export const scenarios = [
  { name: 'rest', quick: 2400, thorough: 9000, run: rest, clock: { auto: 0, timers: true } },
  { name: 'pages', quick: 2000, thorough: 9000, run: pages },
  { name: 'together', quick: 250, thorough: 1000, run: together },
  { name: 'adapters', quick: 120, thorough: 400, run: adapters, allowStray: true },
  { name: 'tools', quick: 1200, thorough: 5000, run: tools },
]
