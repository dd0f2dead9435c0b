// Writes MANIFEST.json from the checks that exist and the table below.
import { readFileSync, writeFileSync, existsSync } from 'node:fs'
const ROOT = new URL('..', import.meta.url).pathname
const T = {
  C01: ['canary-scanning monitor on every value crossing the storage, sync and export seams during feature workloads with faults', 'exploration'],
  C02: ['crypto sanitizer recording every key, nonce and derivation of the run', 'exploration'],
  C03: ['ciphertext mutation with a never-return-unwritten-data monitor on every read path', 'exploration'],
  C04: ['key-management histories with reopen after each step against an access model', 'exploration'],
  C05: ['linearizability checking of recorded operation histories under controlled schedules, plus a reference model over read paths', 'exploration'],
  C06: ['fault injection at every storage call with state comparison against an independent instance', 'fault_enumeration'],
  C07: ['differential monitor: every query form against a naive evaluator over generated mutation histories', 'exploration'],
  C08: ['differential monitor: aggregates, live aggregates and joins against recomputation after every change', 'exploration'],
  C09: ['event-log checker (exactly-once, order, visibility) and convergence of live views under controlled schedules', 'exploration'],
  C10: ['fault injection at every storage call of a commit, conservation oracle under overlapping commits', 'fault_enumeration'],
  C11: ['conformance trace checker comparing each backend with an in-memory model, with fake remote services', 'exploration'],
  C12: ['differential monitor through each wrapper with faults, delays and overlapping calls; linearizability per key', 'exploration'],
  C13: ['access monitor: every public operation under every role against a permission model, with storage diff', 'exploration'],
  C14: ['fault injection at every storage call of a rotation and key-reuse monitor over captured keys', 'fault_enumeration'],
  C15: ['offline log checker over the audit chain and exhaustive tampering of stored entries', 'exploration'],
  C16: ['history replay against a recorded timeline under a virtual clock', 'exploration'],
  C17: ['round-trip monitor plus corruption of every byte class of containers', 'exploration'],
  C18: ['convergence and conservation checker over multi-replica histories with injected remote faults', 'exploration'],
  C19: ['algebraic monitor: merges in every order over generated edit histories', 'exploration'],
  C20: ['byte-exact round-trip and reference-count conservation monitor with overlapping operations', 'exploration'],
  C21: ['write-path monitor against a reference graph model', 'exploration'],
  C22: ['write-path monitor against a period model, tampering of period records', 'exploration'],
  C23: ['exactly-once audit log checker under overlapping accesses', 'exploration'],
  C24: ['credential lifecycle model under a virtual clock with overlapping attempts', 'exploration'],
  C25: ['round-trip and rejection monitor over generated secrets and corruptions', 'exploration'],
  C26: ['capability monitor: every export/import entry point under every capability set', 'exploration'],
  C27: ['round-trip monitor with independent parsers, fault injection during import', 'exploration'],
  C28: ['path monitor with recording stand-ins, archive read-back', 'exploration'],
  C29: ['reference model of localised text and dictionaries over generated programs', 'exploration'],
  C30: ['request-trace checker against a session model', 'exploration'],
  C31: ['trace-spec checker over push events under a virtual clock', 'exploration'],
  C33: ['before/after state monitor around each command on real and model stores, with refusals, injected store faults and damaged files', 'exploration'],
  C34: ['independent call recorder against the reported numbers on virtual time, with online status-history model and injected faults and throwing observers', 'exploration'],
  C32: ['invariant monitor against an LRU model and id-sequence checker', 'exploration'],
}
const NA = JSON.parse(existsSync(ROOT + 'tools/not-applicable.json') ? readFileSync(ROOT + 'tools/not-applicable.json', 'utf8') : '{}')
const props = readFileSync(ROOT + 'properties.jsonl', 'utf8').trim().split('\n').map(l => JSON.parse(l))
const checks = []; const na = []
for (const p of props) {
  if (!existsSync(`${ROOT}checks/${p.id}.mjs`)) { na.push({ property: p.id, reason: NA[p.id] ?? 'The check for this property is not built yet.' }); continue }
  const src = readFileSync(`${ROOT}checks/${p.id}.mjs`, 'utf8')
  const level = /level: '([a-z_]+)'/.exec(src)[1]
  checks.push({
    property: p.id, quick_cmd: `node lib/main.mjs ${p.id}`, thorough_cmd: `node lib/main.mjs ${p.id}`, evidence_file: `evidence/${p.id}.json`,
    technique: T[p.id][0], level,
    level_note: level === 'fault_enumeration'
      ? 'Every storage call of the listed operations is failed in turn; programs, modes and overlaps around them are sampled by seed. Bounds are in DESIGN.md.'
      : 'Seeded sampling of programs, inputs and schedules of the real code with online and offline monitors; no claim beyond the executions observed. Bounds are in DESIGN.md.',
  })
}
writeFileSync(ROOT + 'MANIFEST.json', JSON.stringify({
  version: 1, setup_cmd: 'node tools/setup.mjs',
  hooks: { guard: 'none', enable: 'No hooks were added to /repo; all monitors attach at the public API, the store contract and the platform crypto, clock and network APIs.', source_commits: [] },
  checks, not_applicable: na,
  notes: 'Checks bundle /repo/packages/*/src with esbuild on every run (no dependence on dist/). Replay files are written under evidence/replay; run `node lib/main.mjs <id> --replay <file>`.',
}, null, 1) + '\n')
console.log(`${checks.length} checks, ${na.length} not applicable`)
