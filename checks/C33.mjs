// Maintenance commands: rotate, add user, backup, bundle verification and collection scaffolding.
import { tmpdir } from 'node:os'
import { join, dirname, relative, isAbsolute } from 'node:path'
import { mkdtempSync, rmSync, readdirSync, readFileSync, writeFileSync, mkdirSync, existsSync, statSync, utimesSync } from 'node:fs'
import { open, newRef, instrument, PASS } from '../lib/world.mjs'
import { createNoydb } from '@noy-db/hub'
import { writeNoydbBundle, readNoydbBundle } from '@noy-db/hub/bundle'
import { jsonFile } from '@noy-db/to-file'
import { rotate } from '@noy-db/create-noy-db/commands/rotate'
import { addUser } from '@noy-db/create-noy-db/commands/add-user'
import { backup, resolveBackupTarget } from '@noy-db/create-noy-db/commands/backup'
import { addCollection } from '@noy-db/create-noy-db/commands/add'
import { verifyIntegrity } from '@noy-db/create-noy-db/commands/verify'
import { verify, inspect, runVerify, runInspect } from '@noy-db/cli'
import { validateOptions, scaffold, loadOptionsFromFile } from '@noy-db/cli/commands/config'
import * as hubNs from '@noy-db/hub'
import * as fileNs from '@noy-db/to-file'
import * as idbNs from '@noy-db/to-browser-idb'
import * as dynamoNs from '@noy-db/to-aws-dynamo'
import * as s3Ns from '@noy-db/to-aws-s3'
import { stripTypeScriptTypes } from 'node:module'
import { show } from '../lib/child.mjs'

export const meta = {
  property: 'C33', level: 'exploration',
  rule: 'non-trivial: a command run on a vault holding several collections with versions, deletions, attachments and other users, or refused for one of the listed reasons, or cut short by a storage fault; signatures = (scenario, backend, command outcome, caller role, reason).',
  assumptions: ['Commands are driven through their exported functions with a scripted passphrase prompt; the terminal prompt itself is not exercised.', 'Rotation removes the keys of the other users until they are granted again, as documented.'],
  minimums: { rotations: 100, grants: 150, backups: 120, restores: 120, refused: 400, faults: 200, bundles_checked: 800, scaffolds: 150, profiles: 300, configs: 1500, config_files: 40 },
}

function scratch(c) { const d = mkdtempSync(join(tmpdir(), 'vf-c33-')); c.cleanup(() => rmSync(d, { recursive: true, force: true })); return d }
function tree(dir) {
  const out = {}
  const walk = d => { for (const e of readdirSync(d, { withFileTypes: true })) { const p = join(d, e.name); if (e.isDirectory()) { out[relative(dir, p) + '/'] = 'dir'; walk(p) } else out[relative(dir, p)] = readFileSync(p).toString('base64') } }
  if (existsSync(dir)) walk(dir)
  return out
}
function diff(a, b) { const k = new Set([...Object.keys(a), ...Object.keys(b)]); return [...k].filter(x => a[x] !== b[x]) }
const asks = (...answers) => { const q = [...answers]; return async () => { if (!q.length) throw new Error('asked for too many passphrases'); return q.shift() } }
const attempt = async f => { try { return { value: await f() } } catch (e) { return { error: e } } }

// A vault with several collections, versions, deletions, attachments and users.
const USERS = { bob: 'admin', col: 'operator', vic: 'viewer', kim: 'client' }
async function world(c, { file }) {
  const r = c.rng; const dir = scratch(c); const data = join(dir, 'data'); mkdirSync(data)
  const ref = file ? null : newRef()
  const make = () => file ? jsonFile({ dir: data }) : instrument(ref, { capabilities: {} })
  const state = () => file ? tree(data) : Object.fromEntries([...ref.data].flatMap(([v, cs]) => [...cs].flatMap(([n, m]) => [...m].map(([id, e]) => [`${v}/${n}/${id}`, JSON.stringify(e)]))))
  const vault = r.pick(['acme', 'demo-co', 'v 1']); const colls = r.sample(['invoices', 'clients', 'notes', 'x-ray'], r.int(1, 3))
  const { db, v } = await open(make(), { features: ['history', 'blob'], vault })
  for (const n of colls) {
    const co = v.collection(n)
    for (let k = 0; k < r.int(2, 6); k++) { const id = `r${r.int(0, 4)}`; if (r.chance(0.15)) await co.delete(id); else await co.put(id, { id, n: r.int(0, 1e6), t: r.pick(['a', 'ไทย', 'x\ny', '']) }) }
    const last = `r${r.int(0, 4)}`; await co.put(last, { id: last, n: 0 })
    if (r.chance(0.5)) { await co.put('b1', { id: 'b1', n: 1 }); await co.blob('b1').put('f.bin', new Uint8Array(r.bytes(r.int(0, 300))), { compress: false, ...(r.chance(0.5) ? { chunkSize: 100 } : {}) }) }
  }
  const users = r.chance(0.6) ? r.sample(Object.keys(USERS), r.int(1, 3)) : []
  for (const u of users) await db.grant(vault, { userId: u, displayName: u, role: USERS[u], passphrase: `pass-of-${u}-123`, ...(USERS[u] === 'operator' || USERS[u] === 'client' ? { permissions: Object.fromEntries(colls.map((n, i) => [n, i % 2 ? 'ro' : 'rw'])) } : {}) })
  db.close()
  return { dir, data, make, state, vault, colls, users, ref, buildAdapter: file ? undefined : () => make() }
}
async function view(w, { store = w.make(), user = 'alice', secret = PASS, vault = w.vault, colls = w.colls, withBlobs = true, withVersions = true } = {}) {
  const { db, v } = await open(store, { features: ['history', 'blob'], vault, user, secret })
  const out = { colls: (await v.collections()).sort() }
  for (const n of colls) {
    const co = v.collection(n); const recs = (await co.list()).sort((a, b) => a.id < b.id ? -1 : 1); out[n] = recs
    for (const k of ['r0', 'r1', 'r2', 'r3', 'r4', 'b1']) {
      if (withVersions) out[`${n}/${k}/h`] = (await co.history(k)).map(h => [h.version, h.timestamp, h.userId, h.record])
      out[`${n}/${k}`] = await co.get(k)
    }
    if (withBlobs && out[`${n}/b1`]) { const b = await co.blob('b1').get('f.bin'); out[`${n}/blob`] = b ? Buffer.from(b).toString('hex') : null }
  }
  const L = await v.ledger(); const ver = await L.verify(); out.ledger = ver.ok ? await L.entries() : ver
  db.close()
  return out
}
const common = (w, o) => ({ dir: w.data, vault: w.vault, user: 'alice', ...(w.buildAdapter ? { buildAdapter: w.buildAdapter } : {}), ...o })

// ── 1. rotate ───────────────────────────────────────────────────────────────
async function rotates(c) {
  const r = c.rng; const file = c.i % 2 === 0; const w = await world(c, { file }); const before = await view(w); const s0 = w.state()
  const some = r.chance(0.4) ? r.sample(w.colls, r.int(1, w.colls.length)) : undefined
  const res = await rotate(common(w, { readPassphrase: asks(PASS), ...(some ? { collections: some } : {}) }))
  const wanted = (some ?? before.colls).slice().sort()
  c.eq(res.rotated.slice().sort(), wanted, 'the command reports other collections as rotated than were asked for')
  const s1 = w.state(); const touched = new Set(diff(s0, s1))
  const path = (n, id) => file ? Object.keys(s0).find(k => k.startsWith(`${w.vault}/`) && k.includes(n) && k.endsWith(`${id}.json`) && !k.includes('_history')) : `${w.vault}/${n}/${id}`
  for (const n of w.colls) for (const rec of before[n]) {
    const p = path(n, rec.id); if (!p || !(p in s0)) continue
    if (wanted.includes(n)) c.ok(touched.has(p), `record "${rec.id}" of rotated collection "${n}" is still stored under the old key`)
    else c.ok(!touched.has(p), `record "${rec.id}" of "${n}" was rewritten although "${n}" was not to be rotated`)
    c.count('envelopes')
  }
  const after = await view(w)
  for (const k of Object.keys(before)) c.eq(after[k], before[k], `"${k}" reads differently after the rotate command`)
  const bad = await attempt(() => view(w, { secret: 'not the passphrase 77' })); c.ok(bad.error, 'a wrong passphrase opens the vault after the rotate command')
  c.count('rotations'); c.sig(`rotate:${file}:${wanted.length}:${w.users.length}:${!!some}`)
}

// ── 2. add user ─────────────────────────────────────────────────────────────
async function adds(c) {
  const r = c.rng; const file = c.i % 3 === 0; const w = await world(c, { file }); const before = await view(w)
  const role = r.pick(['owner', 'admin', 'operator', 'viewer', 'client']); const caller = w.users.includes('bob') && r.chance(0.4) && ['operator', 'viewer', 'client'].includes(role) ? 'bob' : 'alice'
  const perms = role === 'operator' || role === 'client' ? Object.fromEntries(r.sample(w.colls, r.int(1, w.colls.length)).map(n => [n, r.pick(['rw', 'ro'])])) : undefined
  const pass = `new pass ${r.int(0, 1e9)}`
  const res = await addUser({ ...common(w, {}), callerUser: caller, newUserId: 'newbie', role, readPassphrase: asks(caller === 'alice' ? PASS : 'pass-of-bob-123', pass, pass), ...(perms ? { permissions: perms } : {}), ...(r.chance(0.3) ? { newUserDisplayName: 'New Bie' } : {}) })
  c.eq([res.userId, res.role], ['newbie', role], 'the command reports another user or role')
  const after = await view(w); for (const k of Object.keys(before)) c.eq(after[k], before[k], `"${k}" reads differently after adding a user`)
  const { db, v } = await open(w.make(), { features: ['history', 'blob'], vault: w.vault, user: 'newbie', secret: pass })
  const listed = (await db.listUsers(w.vault)).find(u => u.userId === 'newbie')
  c.eq(listed?.role, role, 'the added user is listed with another role')
  for (const n of w.colls) {
    const may = perms ? (perms[n] && role === 'client' ? 'ro' : perms[n]) : role === 'viewer' ? 'ro' : 'rw'
    const got = await attempt(() => v.collection(n).list())
    const secret = before[n].length > 0
    if (may && secret) { c.ok(!got.error, () => `the added ${role} cannot read "${n}": ${got.error}`); c.eq(got.value.slice().sort((a, b) => a.id < b.id ? -1 : 1), before[n], `the added ${role} reads other records of "${n}"`) }
    else if (!may && secret) c.ok(got.error || got.value.length === 0, `the added ${role} reads "${n}", which was not granted`)
    const put = await attempt(() => v.collection(n).put('by-newbie', { id: 'by-newbie', n: 1 }))
    if (may === 'rw') c.ok(!put.error, () => `the added ${role} cannot write "${n}": ${put.error}`); else c.ok(put.error, `the added ${role} writes "${n}" although ${may ? 'it is read-only' : 'it was not granted'}`)
    c.count('accesses')
  }
  db.close()
  const bad = await attempt(() => view(w, { user: 'newbie', secret: pass + 'x' })); c.ok(bad.error || Object.keys(perms ?? { a: 1 }).length === 0, 'the added user opens the vault with another passphrase')
  c.count('grants'); c.sig(`add:${role}:${caller}:${file}:${perms ? Object.values(perms).join() : ''}`)
}

// ── 3. backup ───────────────────────────────────────────────────────────────
async function backups(c) {
  const r = c.rng; const file = c.i % 2 === 0; const w = await world(c, { file }); const before = await view(w); const s0 = w.state()
  const rel = r.pick(['b.json', 'deep/er/b.json', 'a b/ก.json']); const abs = join(w.dir, 'out', rel); const target = r.pick([abs, 'file://' + abs])
  if (r.chance(0.4)) { mkdirSync(dirname(abs), { recursive: true }); writeFileSync(abs, 'x'.repeat(r.pick([10, 200000]))) }
  c.eq(resolveBackupTarget(target), abs, 'a target resolves to another path'); c.eq(resolveBackupTarget('file://./q/b.json', '/srv/x'), '/srv/x/q/b.json', 'a relative target resolves elsewhere')
  const res = await backup(common(w, { readPassphrase: asks(PASS), target }))
  c.eq(res.path, abs, 'the command reports another path'); c.eq(res.bytes, statSync(abs).size, 'the command reports another size')
  c.eq(diff(s0, w.state()), [], 'backing up changed the stored vault'); c.eq(Object.keys(tree(join(w.dir, 'out'))).filter(k => !k.endsWith('/')).length, 1, 'backing up left other files next to the backup')
  const text = readFileSync(abs, 'utf8')
  const store = instrument(newRef(), { capabilities: {} }); const { db, v } = await open(store, { features: ['history'], vault: w.vault }); await v.load(text); db.close()
  const after = await view(w, { store, withBlobs: false, withVersions: false })
  for (const k of Object.keys(after)) if (!k.endsWith('/h') && k !== 'colls') c.eq(after[k], before[k], `"${k}" of the restored backup differs from the vault`)
  for (const n of before.colls) c.ok(after.colls.includes(n) || before[n]?.length === 0, `collection "${n}" is missing from the restored backup`)
  for (const u of w.users) { const got = await attempt(async () => { const o = await open(store, { features: [], vault: w.vault, user: u, secret: `pass-of-${u}-123` }); const l = []; for (const n of w.colls) l.push(await o.v.collection(n).get('r1')); o.db.close(); return l }); c.ok(!got.error, () => `user "${u}" cannot use the restored backup: ${got.error}`); c.eq(got.value, w.colls.map(n => before[`${n}/r1`]), `user "${u}" reads other records from the restored backup`) }
  c.count('backups'); c.count('restores'); c.sig(`backup:${file}:${rel}:${w.users.length}:${target.startsWith('file')}`)
}

// ── 4. refusals change nothing ──────────────────────────────────────────────
async function refusals(c) {
  const r = c.rng; const file = c.i % 2 === 0; const w = await world(c, { file }); const s0 = w.state(); const out = join(w.dir, 'out'); mkdirSync(out); const old = join(out, 'old.json'); writeFileSync(old, 'the earlier backup')
  const low = w.users.find(u => ['operator', 'viewer', 'client'].includes(USERS[u]))
  const cases = []
  const add = (label, f) => cases.push([label, f])
  const wrong = r.pick(['', 'x', PASS + ' ', PASS.toUpperCase(), PASS.slice(0, -1)]) || 'y'
  add('rotate:wrong', () => rotate(common(w, { readPassphrase: asks(wrong) })))
  add('rotate:user', () => rotate(common(w, { user: 'nobody', readPassphrase: asks(PASS) })))
  add('rotate:vault', () => rotate(common(w, { vault: 'acmee', readPassphrase: asks(PASS) })))
  add('rotate:cancel', () => rotate(common(w, { readPassphrase: async () => { throw new Error('cancelled') } })))
  add('backup:wrong', () => backup(common(w, { target: old, readPassphrase: asks(wrong) })))
  add('backup:user', () => backup(common(w, { user: 'nobody', target: old, readPassphrase: asks(PASS) })))
  add('backup:vault', () => backup(common(w, { vault: 'acmee', target: old, readPassphrase: asks(PASS) })))
  add('backup:scheme', () => backup(common(w, { target: r.pick(['s3://bucket/x.json', 'http://h/x', 'ftp://x/y']), readPassphrase: asks(PASS) })))
  add('backup:cancel', () => backup(common(w, { target: old, readPassphrase: async () => { throw new Error('cancelled') } })))
  const perms = { permissions: { [w.colls[0]]: 'rw' } }; const base = { ...common(w, {}), callerUser: 'alice', newUserId: 'newbie' }
  add('add:wrong', () => addUser({ ...base, role: 'viewer', readPassphrase: asks(wrong, 'n-pass-1', 'n-pass-1') }))
  add('add:confirm', () => addUser({ ...base, role: 'viewer', readPassphrase: asks(PASS, 'n-pass-1', r.pick(['n-pass-2', 'N-pass-1', 'n-pass-1 ', ''])) }))
  add('add:user', () => addUser({ ...base, callerUser: 'nobody', role: 'viewer', readPassphrase: asks(PASS, 'n-pass-1', 'n-pass-1') }))
  add('add:vault', () => addUser({ ...base, vault: 'acmee', role: 'viewer', readPassphrase: asks(PASS, 'n-pass-1', 'n-pass-1') }))
  add('add:none', () => addUser({ ...base, role: r.pick(['operator', 'client']), ...r.pick([{}, { permissions: {} }]), readPassphrase: asks(PASS, 'n-pass-1', 'n-pass-1') }))
  if (low) {
    add('add:rights', () => addUser({ ...base, callerUser: low, role: r.pick(['viewer', 'operator', 'admin', 'owner']), ...perms, readPassphrase: asks(`pass-of-${low}-123`, 'n-pass-1', 'n-pass-1') }))
    add('rotate:rights', () => rotate(common(w, { user: low, readPassphrase: asks(`pass-of-${low}-123`) })))
  }
  if (w.users.includes('bob')) add('add:escalate', () => addUser({ ...base, callerUser: 'bob', role: 'owner', readPassphrase: asks('pass-of-bob-123', 'n-pass-1', 'n-pass-1') }))
  for (const [label, f] of r.sample(cases, 6)) {
    const res = await attempt(f)
    c.ok(res.error instanceof Error, () => `${label}: the command succeeds: ${show(res.value)}`, { key: `refuse-${label}` })
    const d = diff(s0, w.state()); c.eq(d, [], `${label}: the refused command changed the stored vault`)
    c.eq(tree(out), { 'old.json': Buffer.from('the earlier backup').toString('base64') }, `${label}: the refused command changed the backup files`)
    c.count('refused'); c.sig(`refuse:${label}:${file}:${low ?? ''}`)
  }
}

// ── 5. a failing store ──────────────────────────────────────────────────────
async function faults(c) {
  const r = c.rng; const w = await world(c, { file: false }); const before = await view(w); const s0 = w.state(); const snap = w.ref.snapshot()
  const out = join(w.dir, 'out'); mkdirSync(out); const target = join(out, 'b.json'); const kind = r.pick(['rotate', 'add', 'backup'])
  const run = store => { const o = { ...common(w, {}), buildAdapter: () => store }
    return kind === 'rotate' ? rotate({ ...o, readPassphrase: asks(PASS) }) : kind === 'backup' ? backup({ ...o, target, readPassphrase: asks(PASS) }) : addUser({ ...o, callerUser: 'alice', newUserId: 'newbie', role: 'viewer', readPassphrase: asks(PASS, 'n-pass-1', 'n-pass-1') }) }
  let calls = 0; { const st = w.make(); st._st.fault = () => { calls++ }; await run(st) }
  for (const at of r.sample([...Array(calls).keys()], 6)) {
    w.ref.restore(snap); writeFileSync(target, 'the earlier backup'); const st = w.make(); let n = 0; let hit = false
    st._st.fault = () => { if (n++ === at) { hit = true; return 'before' } }
    const res = await attempt(() => run(st)); if (!hit) continue
    if (kind === 'backup') { c.ok(res.error || readFileSync(target, 'utf8').length > 30, 'a backup whose store failed wrote nothing but reported success'); if (res.error) c.eq(readFileSync(target, 'utf8'), 'the earlier backup', 'a failed backup replaced the earlier one'); c.eq(diff(s0, w.state()), [], 'a failed backup changed the vault'); if (!res.error) { const o = await open(instrument(newRef(), { capabilities: {} }), { features: ['history'], vault: w.vault }); await o.v.load(readFileSync(target, 'utf8')); for (const k of w.colls) c.eq((await o.v.collection(k).list()).sort((a, b) => a.id < b.id ? -1 : 1), before[k], 'a backup taken from a failing store reports success but misses records'); o.db.close() } }
    if (kind === 'add' && res.error) c.eq(diff(s0, w.state()).filter(k => !k.includes('newbie') && !k.includes('_ledger')), [], 'a failed grant changed other parts of the vault')
    const after = await view(w); for (const k of Object.keys(before)) if (!(kind === 'rotate' && k === 'colls')) c.eq(after[k], before[k], `"${k}" reads differently after the ${kind} command failed at store call ${at}`)
    c.count('faults'); c.sig(`fault:${kind}:${at}:${!!res.error}`)
  }
}

// ── 6. bundle files ─────────────────────────────────────────────────────────
async function quiet(f) { const o = process.stdout.write, e = process.stderr.write; let text = ''; process.stdout.write = s => { text += s; return true }; process.stderr.write = () => true; try { return [await f(), text] } finally { process.stdout.write = o; process.stderr.write = e } }
async function bundles(c) {
  const r = c.rng; const w = await world(c, { file: false }); const { db, v } = await open(w.make(), { features: ['history'], vault: w.vault })
  const bytes = await writeNoydbBundle(v, r.chance(0.5) ? { compression: r.pick(['gzip', 'none', 'auto']) } : {}); db.close(); const f = join(w.dir, 'x.noydb'); const good = Buffer.from(bytes)
  const judge = async (buf, label, mustFail) => {
    writeFileSync(f, buf); const lib = await attempt(() => readNoydbBundle(new Uint8Array(buf))); const rep = await verify(f)
    c.eq(rep.ok, !lib.error, `${label}: verify ${rep.ok ? 'accepts' : 'rejects'} a file that ${lib.error ? 'cannot' : 'can'} be read`)
    if (mustFail) c.ok(!rep.ok, `${label}: verify accepts a damaged file`)
    const [code] = await quiet(() => runVerify([f])); c.eq(code, rep.ok ? 0 : 1, `${label}: exit status differs from the report`)
    if (rep.ok) { const info = await inspect(f); c.eq([info.handle, info.bodyBytes], [rep.handle, rep.bodyBytes], 'inspect and verify disagree'); const [ic, text] = await quiet(() => runInspect([f])); c.eq(ic, 0, 'inspect fails on an intact file'); c.eq(JSON.parse(text), info, 'inspect prints something else than the header'); for (const n of w.colls) c.ok(!text.includes(n), 'inspect shows a collection name') }
    c.ok(Buffer.compare(readFileSync(f), buf) === 0, 'checking a file changed it'); c.count('bundles_checked')
  }
  await judge(good, 'intact', false); const rep = await verify(f); c.ok(rep.ok, () => `verify rejects an intact bundle: ${rep.error}`)
  const body = good.length - rep.bodyBytes
  for (let k = 0; k < 5; k++) {
    const b = Buffer.from(good); const at = r.pick([r.int(0, b.length - 1), r.int(body, b.length - 1), b.length - 1, body]); b[at] ^= 1 << r.int(0, 7)
    await judge(b, `bit flipped at ${at < body ? 'the header' : 'the body'}`, at >= body)
    await judge(good.subarray(0, r.int(0, good.length - 1)), 'cut short', true)
    await judge(Buffer.concat([good, Buffer.from(r.bytes(r.int(1, 9)))]), 'extended', true)
  }
  c.sig(`bundle:${w.colls.length}:${rep.bodyBytes >> 9}`)
}

// ── 7. scaffolding ──────────────────────────────────────────────────────────
async function scaffolds(c) {
  const r = c.rng; const top = scratch(c); const cwd = join(top, 'p/q/proj'); mkdirSync(cwd, { recursive: true })
  const valid = /^[a-z][a-z0-9-]*$/
  for (let k = 0; k < 8; k++) {
    const name = r.pick(['invoices', 'a', 'a1', 'x-y', 'clients', 'a-b-c', 'Invoices', '../up', '../../../up', 'a/b', 'a.b', '', '1a', '-a', 'a b', '/abs', 'a\0b', 'ก', 'a\n', '..', '.', 'a_b', "a'b"])
    const pre = r.chance(0.3) && valid.test(name); let only = null
    if (pre) { only = join(cwd, 'app', r.pick(['stores', 'pages']), name + (r.chance(0.5) ? '.ts' : '.vue')); mkdirSync(dirname(only), { recursive: true }); writeFileSync(only, 'mine') }
    const t0 = tree(top); const res = await attempt(() => addCollection({ name, cwd })); const t1 = tree(top)
    const store = `p/q/proj/app/stores/${name}.ts`, page = `p/q/proj/app/pages/${name}.vue`
    const changed = diff(t0, t1).filter(x => !x.endsWith('/'))
    if (!valid.test(name)) { c.ok(res.error, `the collection name ${show(name)} is accepted`); c.eq(diff(t0, t1), [], `a refused name ${show(name)} wrote files`) }
    else if (store in t0 || page in t0) { c.ok(res.error, `generating "${name}" again succeeds`); c.eq(changed, [], 'an existing file was replaced or a single file was written') }
    else { c.ok(!res.error, () => `generating "${name}" fails: ${res.error}`); c.eq(changed.sort(), [page, store].sort(), 'generating a collection wrote other files'); c.eq(res.value.files.map(x => relative(top, x)).sort(), [page, store].sort(), 'other files are reported than were written'); c.ok(Buffer.from(t1[store], 'base64').toString().includes(`'${name}'`), 'the generated store names another collection') }
    c.count('scaffolds'); c.sig(`scaffold:${name}:${!!res.error}:${pre}`)
  }
  const ver = await verifyIntegrity(); c.ok(ver.ok, () => `the integrity command fails: ${ver.message}`)
}

// Configuration: every generated profile loads with the packages it names and passes the validator
// and the library; the validator's verdict follows the documented rules on generated options.
const MODULES = { '@noy-db/hub': hubNs, '@noy-db/to-file': fileNs, '@noy-db/to-browser-idb': idbNs, '@noy-db/to-aws-dynamo': dynamoNs, '@noy-db/to-aws-s3': s3Ns }
async function config(c) {
  const r = c.rng
  if (c.i % 4 === 0) {
    const profile = 'ABCDEFGHIJ'[(c.i / 4) % 10]; const out = scaffold(profile); const dir = scratch(c)
    const vars = Object.fromEntries(out.env.split('\n').filter(Boolean).map(l => [l.slice(0, l.indexOf('=')), l.slice(l.indexOf('=') + 1)])); vars.NOYDB_USER ||= 'owner'; if ('NOYDB_SECRET' in vars) vars.NOYDB_SECRET = PASS; if ('NOYDB_DATA_DIR' in vars) vars.NOYDB_DATA_DIR = dir
    for (const m of out.code.matchAll(/process\.env\.(\w+)!/g)) c.ok(m[1] in vars, () => `profile ${profile} needs ${m[1]}, which its environment template does not name`)
    let js = stripTypeScriptTypes(out.code, { mode: 'strip' })
    js = js.replace(/^import\s*\{([^}]*)\}\s*from\s*['"]([^'"]+)['"];?/gm, (_, names, from) => {
      c.ok(MODULES[from], () => `profile ${profile} imports from ${from}`)
      for (const n of names.split(',').map(x => x.trim().split(/\s+as\s+/)[0]).filter(Boolean)) c.ok(n in MODULES[from], () => `profile ${profile} imports ${n}, which ${from} does not offer`)
      return `const {${names.replace(/\s+as\s+/g, ': ')}} = M[${JSON.stringify(from)}];`
    }).replace(/^export default/m, 'return')
    const opts = await attempt(() => new Function('M', 'process', js)(MODULES, { env: vars })); c.ok(!opts.error, () => `profile ${profile} does not load: ${opts.error?.message}`)
    const rep = validateOptions(opts.value); c.ok(rep.ok, () => `profile ${profile} is not valid: ${show(rep.issues)}`); c.eq(rep.issues.map(x => x.code), profile === 'J' ? ['no-secret'] : [], `issues of profile ${profile}`)
    const db = await attempt(() => createNoydb({ ...opts.value, ...(profile === 'J' ? { secret: PASS } : {}) })); c.ok(!db.error, () => `profile ${profile} is refused: ${db.error?.message}`); db.value.close()
    c.count('profiles'); c.sig(['profile', profile]); return
  }
  const store = () => ({ ...instrument(newRef(), { extras: [] }) }); const broken = () => { const s = store(); delete s[r.pick(['get', 'put', 'delete', 'list', 'loadAll', 'saveAll'])]; return s }
  const want = []; const opts = {}
  const st = r.weighted([[6, 'ok'], [1, 'none'], [1, 'broken'], [0.5, 'odd']]); if (st === 'ok') opts.store = store(); else if (st === 'broken') { opts.store = broken(); want.push('error bad-store-shape store') } else if (st === 'odd') { opts.store = r.pick([1, 'x', [], () => 1]); want.push('error bad-store-shape store') } else { if (r.chance(0.5)) opts.store = r.pick([null, undefined]); want.push('error missing-store store') }
  const target = i => {
    const k = r.weighted([[4, 'ok'], [1, 'bare'], [1, 'barebroken'], [1, 'role'], [1, 'store'], [1, 'pull'], [0.7, 'odd']]); const p = `sync[${i}]`
    if (k === 'bare') return store(); if (k === 'barebroken') { want.push(`error bad-store-shape ${p}`); return broken() }
    if (k === 'odd') { want.push(`error bad-target ${p}`); return r.pick([3, 'peer', null, ['x']]) }
    if (k === 'role') { want.push(`error bad-role ${p}.role`); return { store: store(), role: r.pick(['primary', '', 7, null, { a: 1 }]) } }
    if (k === 'store') { want.push(`error bad-store-shape ${p}.store`); return { ...(r.chance(0.5) ? { store: broken() } : {}), role: 'backup' } }
    if (k === 'pull') { const archive = r.chance(0.6); if (archive) want.push(`error archive-pull-configured ${p}.policy.pull`); return { store: store(), role: archive ? 'archive' : 'sync-peer', policy: { pull: { mode: 'interval', intervalMs: 1000 } } } }
    return { store: store(), role: r.pick(['sync-peer', 'backup', 'archive']), ...(r.chance(0.3) ? { policy: { push: { mode: 'manual' } } } : {}) }
  }
  const sy = r.weighted([[3, 'none'], [2, 'one'], [4, 'many']]); if (sy === 'one') { let t; do { want.splice(want.findIndex(x => x.includes('sync[')) >>> 0, 9); t = target(0) } while (Array.isArray(t)); opts.sync = t } else if (sy === 'many') opts.sync = Array.from({ length: r.int(0, 4) }, (_, i) => target(i))
  if (r.chance(0.3)) { opts.syncPolicy = { push: { mode: 'manual' } }; if (opts.sync === undefined) want.push('warn policy-without-sync syncPolicy') }
  if (r.chance(0.7)) opts.user = r.pick(['alice', 'ไทย']); else { if (r.chance(0.5)) opts.user = r.pick(['', 7, null]); want.push('warn missing-user user') }
  const se = r.pick(['secret', 'passphrase', 'plain', 'none']); if (se === 'plain') opts.encrypt = false; else if (se === 'none') { if (r.chance(0.5)) opts.encrypt = true; want.push('warn no-secret secret') } else opts[se] = 'x'
  const rep = validateOptions(opts); const key = x => `${x.severity} ${x.code} ${x.path}`
  c.eq(rep.issues.map(key).sort(), [...want].sort(), 'issues reported for a configuration'); c.ok(rep.ok === !want.some(x => x.startsWith('error')), () => `verdict ${rep.ok} with ${show(want)}`); for (const x of rep.issues) c.ok(typeof x.message === 'string' && x.message && !x.message.includes('[object'), () => `message ${x.message}`)
  const odd = r.pick([null, 3, 'x', [opts]]); c.ok(validateOptions(odd).ok === false, 'something that is not a configuration was accepted')
  if (c.i % 40 === 1) { // loading from a file: the object itself, a function or an asynchronous function
    const dir = scratch(c); const f = join(dir, r.pick(['c.mjs', 'c d.mjs', 'ไทย.mjs', 'c#1.mjs'])); const body = `{ user: ${JSON.stringify(`u${c.i}`)} }`
    writeFileSync(f, `export default ${r.pick([body, `() => (${body})`, `async () => (${body})`])}\n`); c.eq(await loadOptionsFromFile(f), { user: `u${c.i}` }, 'configuration loaded from a file')
    for (const bad of [join(dir, 'missing.mjs'), join(dir, 'x.ts')]) { const e = await attempt(() => loadOptionsFromFile(bad)); c.ok(e.error instanceof Error, `loaded ${bad}`) }
    c.count('config_files')
  }
  c.count('configs'); c.sig([want.sort(), sy, se])
}
export const scenarios = [
  { name: 'config', quick: 3000, thorough: 12000, run: config },
  { name: 'rotate', quick: 260, thorough: 2600, run: rotates },
  { name: 'add', quick: 360, thorough: 3600, run: adds },
  { name: 'backup', quick: 300, thorough: 3000, run: backups },
  { name: 'refusals', quick: 300, thorough: 3000, run: refusals },
  { name: 'faults', quick: 120, thorough: 1200, run: faults },
  { name: 'bundles', quick: 160, thorough: 1600, run: bundles },
  { name: 'scaffold', quick: 120, thorough: 1200, run: scaffolds },
]
