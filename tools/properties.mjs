// Source of /verif/properties.jsonl. Run: node tools/properties.mjs
import { writeFileSync } from 'node:fs'
const H = 'packages/hub/src/'
const P = []
const p = (id, title, statement, over, qtext, why, files, mechanism, extra = {}) =>
  P.push({ id, title, statement, quantifier: { over, text: qtext }, why_tests_cant: why,
    anchors: { files, mechanism: mechanism.map(([name, where]) => ({ name, where })), ...extra } })

p('C01', 'Storage backends never receive plaintext, passphrases or raw keys',
  'In an encrypted vault, nothing handed to a storage backend, sync target, presence channel, bundle or backup contains record contents, attachment bytes, attachment names inside record data, passphrases or raw key material, in clear or in a trivially reversible encoding, nor an unkeyed fingerprint of attachment contents. Only record ids, collection names, version numbers, timestamps, user ids and documented access metadata are visible. This holds for every feature, including history, audit trail, indexes, deterministic search fields, transactions, sync, failed writes and retries.',
  ['programs', 'configurations', 'inputs', 'fault_sequences'],
  'every sequence of public API calls in every combination of optional features, including calls that fail half-way',
  'Existing tests look at a handful of envelopes after one put; they cannot look at every byte every feature sends to the backend over arbitrary programs and error paths.',
  [H+'collection.ts', H+'crypto.ts', H+'history/', H+'blobs/', H+'indexing/', H+'consent/', H+'periods/', H+'i18n/dictionary.ts', H+'team/', H+'bundle/'],
  [['record encryption before every adapter write', H+'collection.ts encryptRecord / encryptJsonString'], ['blob chunk encryption', H+'blobs/blob-set.ts'], ['ledger entry encryption', H+'history/ledger/store.ts'], ['sidecar encryption for indexes', H+'indexing/persisted-indexes.ts']],
  { observe_at: ['every argument of every storage-backend call'], hook_needed: null })

p('C02', 'No key/nonce pair is ever reused and key derivation is never weakened',
  'Across any run, no two authenticated encryptions under the same key use the same nonce (except documented deterministic fields, where equal nonces imply equal plaintext), all nonces are 96-bit, all symmetric keys are 256-bit and every key derived from a vault passphrase or recovery code uses PBKDF2-SHA-256 with at least 600000 iterations and a fresh random salt. Data-encryption keys are distinct per collection and are only persisted wrapped. The passphrase-derived key-encryption key is never exported.',
  ['programs', 'schedules', 'configurations', 'fault_sequences'],
  'all sequences of encrypting operations, all concurrent schedules and all retries after injected failures, over the whole process lifetime',
  'A unit test compares two nonces; nonce uniqueness is a property of the whole history of a key, across retries, rollbacks, rotations and features sharing a key.',
  [H+'crypto.ts', H+'team/keyring.ts', H+'blobs/blob-set.ts', H+'bundle/', 'packages/on-pin/src', 'packages/on-recovery/src', 'packages/as-zip/src'],
  [['random IV per encrypt call', H+'crypto.ts encrypt/encryptBytes'], ['PBKDF2 parameters', H+'crypto.ts deriveKey'], ['AES-KW wrapping of collection keys', H+'crypto.ts wrapKey'], ['deterministic fields derive nonce from plaintext', H+'crypto.ts encryptDeterministic']],
  { observe_at: ['every call into the platform crypto API'] })

p('C03', 'Tampered ciphertext is always detected and never returned as data',
  'If any byte of an encrypted payload or nonce held by the backend is altered, truncated or replaced with ciphertext made under another key, then reading it fails with an error; no read path (record, list, query, history, attachment, audit entry, dictionary, keyring) ever returns a value that was not written, and only unreadable index entries may be skipped. Attachment chunks cannot be reordered, truncated or moved between attachments. Restoring the original bytes restores readability.',
  ['inputs', 'programs', 'fault_sequences'],
  'every stored item of every kind, every byte position class, every kind of alteration, and every read path that consumes it',
  'Tests flip one byte of one record; the claim is about every item kind, every position and every reader including cached, paged and indexed ones.',
  [H+'crypto.ts', H+'collection.ts', H+'blobs/blob-set.ts', H+'history/', H+'i18n/dictionary.ts', H+'team/keyring.ts'],
  [['AES-GCM authentication mapped to a typed error', H+'crypto.ts decrypt'], ['chunk binding via additional data', H+'blobs/blob-set.ts'], ['key unwrap integrity', H+'crypto.ts unwrapKey']])

p('C04', 'Only the current passphrase opens a vault, and it always does',
  'After any history of creating, granting, revoking, changing passphrases, adding collections, rotating keys and reopening, each live user can open the vault with that user\'s most recent passphrase and reads exactly the collections they were given. Any other passphrase - wrong, former, another user\'s or from another vault - is refused and yields no data (a user who holds no key at all excepted). A user\'s granted role, permissions, capabilities, expiry and granter survive unrelated operations.',
  ['histories', 'configurations', 'inputs'],
  'all interleavings of key-management operations by several users with reopening from storage after each step',
  'Tests exercise one operation at a time from a fresh vault; losing a passphrase change, a permission or an expiry only shows after a later unrelated operation rewrites the stored keyring.',
  [H+'team/keyring.ts', H+'noydb.ts', H+'vault.ts', H+'crypto.ts'],
  [['keyring load by unwrapping every key', H+'team/keyring.ts loadKeyring'], ['keyring rewrite on new collection', H+'team/keyring.ts ensureCollectionDEK/persistKeyring'], ['passphrase change', H+'team/keyring.ts changeSecret']],
  { state: [{ name: 'keyring file', meaning: 'role, permissions, wrapped keys, capabilities, expiry, granter', where: '_keyring collection' }] })

p('C05', 'Reads always reflect the acknowledged writes, in every mode and after reopen',
  'For any program of puts, updates, deletes and bulk writes, every read path - get, list, count, query, scan, paging - returns exactly the records last acknowledged, with deep-equal contents, in both fully-cached and lazy cached modes, and a second instance opened on the same backend sees the same. Each put of a record raises its version by exactly one and concurrent operations on different records never affect each other. A read overlapping a write returns the value before or after it, and never keeps returning the older value once the write has been acknowledged.',
  ['programs', 'schedules', 'configurations', 'inputs'],
  'all programs over a few hot ids, all backend latencies/settle orders, all cache sizes, all JSON-representable values',
  'Tests run one operation at a time against an instantaneous backend, so cache fill racing with writes, eviction and cold-start orders are not reached.',
  [H+'collection.ts', H+'cache/lru.ts', H+'vault.ts'],
  [['eager hydration', H+'collection.ts ensureHydrated'], ['lazy LRU fill', H+'collection.ts get'], ['version increment', H+'collection.ts put'], ['cache update after adapter write', H+'collection.ts put/delete']])

p('C06', 'A failed write changes nothing that readers can see',
  'When a put, delete or bulk write reports failure because the backend rejected one of its storage calls before applying it, subsequent reads through the same instance agree with what the backend holds, and the record is either entirely the old or entirely the new value. A write rejected by validation, permission, reference, period or conflict checks performs no storage mutation of user records at all. A later retry succeeds and leaves the requested contents.',
  ['fault_sequences', 'programs', 'configurations'],
  'a fault injected at every individual storage call of every kind of write, with every feature combination, followed by reads and retry',
  'Tests inject at most one fault in one place; the guarantee ranges over each storage call issued by each write in each configuration.',
  [H+'collection.ts', H+'vault.ts', H+'refs.ts', H+'schema.ts', H+'periods/periods.ts'],
  [['checks ordered before adapter writes', H+'collection.ts put'], ['cache updated only after adapter put', H+'collection.ts put']])

p('C07', 'Queries return exactly what a naive scan of the data would return',
  'For every collection content and every combination of filters, ordering, limit and offset, the result equals evaluating the same conditions over all records one by one. Declaring single-field or composite indexes, using lazy mode, streaming the data, or going through the filter, sort and page state of a table never changes the result, at any point of any sequence of inserts, updates and deletes. Results never include deleted records, internal bookkeeping entries or duplicates.',
  ['inputs', 'programs', 'configurations'],
  'all field value types including null, missing, numeric strings, dates and nested paths; all operators; all index declarations; all mutation histories',
  'Index tests use a few well-typed rows; index divergence depends on value types and on the history of updates and deletes that maintained the index.',
  [H+'query/builder.ts', H+'query/predicate.ts', H+'query/scan-builder.ts', H+'indexing/', H+'collection.ts'],
  [['clause evaluation', H+'query/predicate.ts'], ['index-driven candidate sets', H+'indexing/eager-indexes.ts, '+H+'indexing/lazy-builder.ts'], ['index maintenance on write', H+'collection.ts, '+H+'indexing/persisted-indexes.ts']])

p('C08', 'Aggregates, groupings and joins agree with recomputation from the records',
  'Counts, sums, averages, minima, maxima and groupings equal the value recomputed from the matching records, streaming and in-memory forms agree, and incrementally maintained live aggregates equal a full recomputation after every change. A joined row carries exactly the referenced record, or null/an error according to the declared reference mode, whichever join strategy is used. Size limits are enforced by an error rather than by silently dropping rows.',
  ['inputs', 'programs', 'configurations'],
  'all record sets with missing/odd values, all mutation histories under live aggregates, all reference modes and join strategies',
  'Tests check a few fixed tables; live maintenance depends on the order of changes and join correctness on the history of referenced records.',
  [H+'aggregate/', H+'query/join.ts', H+'query/builder.ts', H+'query/scan-builder.ts'],
  [['reducers', H+'aggregate/reducers.ts'], ['live aggregation', H+'aggregate/aggregation.ts'], ['group by', H+'aggregate/groupby.ts'], ['join planner', H+'query/join.ts']])

p('C09', 'Change notifications and live views converge to the true state',
  'Every acknowledged mutation is announced to subscribers exactly once, with the right vault, collection, id and action, after the mutation is readable; mutations that failed before reaching the backend are never announced (rolled-back transactions aside). A live query, live aggregate or UI-framework view always ends up showing exactly the current data for what it was last asked to show once activity stops (attachment addresses and opened vaults included), shows a sync as running exactly while one is, and never again calls back or holds resources after it is stopped. A throwing subscriber does not lose other subscribers\' notifications or fail the write.',
  ['schedules', 'programs', 'configurations'],
  'all interleavings of writes, slow reads and (un)subscriptions, across the event API, live queries and framework bindings',
  'Tests await each step, so refreshes never overlap; stale-view bugs need refreshes that complete out of order.',
  [H+'events.ts', H+'collection.ts', H+'query/live.ts', 'packages/in-svelte/src', 'packages/in-react/src', 'packages/in-vue/src', 'packages/in-zustand/src', 'packages/in-solid/src'],
  [['emitter', H+'events.ts'], ['live query invalidation', H+'query/live.ts'], ['framework refresh on change', 'packages/in-*/src']])

p('C10', 'Multi-record transactions and atomic batches apply all-or-nothing',
  'A transaction or atomic batch that resolves has applied every staged put and delete in order; one that rejects - body error, failed pre-condition, validation error or a backend failure at any point with the backend otherwise healthy - leaves every touched record exactly as before, both in storage and for all readers of the same instance. Version pre-conditions are honoured against the committed state. Staged changes are not visible outside before commit and are visible inside.',
  ['fault_sequences', 'programs', 'configurations'],
  'every operation mix across collections and vaults, with a fault at every storage call of the commit',
  'Tests fail one chosen operation and check storage; they do not check readers after rollback or every failing call position.',
  [H+'tx/transaction.ts', H+'collection.ts', H+'noydb.ts'],
  [['pre-flight version check', H+'tx/transaction.ts runTransaction'], ['revert of executed operations', H+'tx/transaction.ts, '+H+'collection.ts putManyAtomic']])

p('C11', 'Every storage backend implements one and the same store contract',
  'For any sequence of get/put/delete/list/bulk-load/bulk-save/paging calls, each supplied backend returns the same results as a simple in-memory map: envelopes come back byte-identical, vaults and collections are isolated whatever characters their names contain, listing and paging return every id exactly once however many there are, and bulk load excludes internal collections. A bulk save replaces the user collections with exactly the given snapshot and leaves internal collections (keys, audit trail) untouched. A put, or a batch of several writes, with a stale expected version is refused and changes nothing on backends that support version checks, and of concurrent puts with the same expected version at most one succeeds on backends that declare atomic version checks.',
  ['programs', 'inputs', 'configurations', 'schedules'],
  'all operation sequences and names, on all backends (memory, file, browser storage, SQL family, object stores, WebDAV, SFTP/SMB, remote peer), with backend page limits and latencies',
  'The shared conformance suite runs on four backends with a fixed script; most backends are tested only with mocks and never with paging limits, internal collections in bulk save, or concurrent writers.',
  ['packages/to-*/src', 'packages/by-peer/src', H+'types.ts'],
  [['six-method contract', H+'types.ts NoydbStore'], ['version check on put', 'packages/to-*/src put'], ['internal collection filter in loadAll', 'packages/to-*/src loadAll']])

p('C12', 'Store wrappers and remote transports are transparent',
  'Caching, retrying, circuit-breaking, logging, metering, routing, bundle-backed and remote-peer stores answer every sequence of operations exactly as the wrapped store would: an acknowledged write is what later reads return, deletes stay deleted, version conflicts surface as conflicts, and each request gets exactly one outcome. Under overlapping operations, delays and wrapped-store failures they never serve a value older than an acknowledged write, never report success for something not stored, and never hang; only an open circuit or suspended store answers with the documented empty values, touching nothing, and it recovers (replaying queued writes in order) when the wrapped store does. Stores that keep a whole vault in one file accept a write only on top of the revision the writer last saw, and list, read and delete exactly the files that are there.',
  ['programs', 'schedules', 'fault_sequences', 'configurations'],
  'all operation sequences through all wrappers and stacks of wrappers, with overlapping calls, injected failures, dropped/duplicated connections and size/age thresholds',
  'Wrapper tests check one feature per test sequentially; staleness and loss appear only with overlapping calls, failures at particular points, or thresholds crossed both ways.',
  [H+'store/store-middleware.ts', H+'store/route-store.ts', H+'store/bundle-store.ts', 'packages/by-peer/src', 'packages/to-meter/src', 'packages/to-drive/src', 'packages/to-icloud/src'],
  [['cache invalidation', H+'store/store-middleware.ts withCache'], ['circuit breaker state machine', H+'store/store-middleware.ts withCircuitBreaker'], ['route selection', H+'store/route-store.ts'], ['bundle flush with version check', H+'store/bundle-store.ts'], ['request/response correlation', 'packages/by-peer/src']])

p('C13', 'Users can read and write only what their role and permissions allow',
  'Through any public operation a user never obtains contents of a collection they were not granted, and never changes stored user data in a collection where they hold less than read-write permission, whatever the order of operations and however handles were obtained. Nobody can create, replace or remove a user with more power than their own, or grant access to collections they cannot read themselves. Refusals leave stored user data and users unchanged.',
  ['programs', 'configurations', 'histories'],
  'all roles and permission maps crossed with all public operations, directly and via transactions, bulk calls, references, dictionaries, attachments, imports and tiers',
  'Tests check put/get for some roles; the guarantee covers every mutating or revealing entry point for every role and permission combination.',
  [H+'team/keyring.ts', H+'collection.ts', H+'vault.ts', H+'noydb.ts', H+'team/tiers.ts'],
  [['write permission check', H+'team/keyring.ts hasWritePermission'], ['grant/revoke authority checks', H+'team/keyring.ts grant/revoke'], ['key possession gates reads', H+'team/keyring.ts']])

p('C14', 'Revocation and key rotation cut off the revoked user and lose no data',
  'After a user is revoked (with rotation), that user can no longer open the vault, and no key they ever held decrypts any stored item of the rotated collections, old or new. All records, versions and history remain readable with identical content by the users who keep access, also after reopening, and a rotation that fails on a storage error never makes data unreadable for the rotating user. Revoking an administrator also removes the users they granted, under the chosen cascade mode.',
  ['histories', 'fault_sequences', 'configurations'],
  'all grant/revoke/rotate histories over several users and collections with all optional features, with a fault at every storage call during rotation',
  'Tests rotate small healthy vaults; they do not replay the revoked user\'s retained keys against every stored byte, nor interrupt rotation.',
  [H+'team/keyring.ts', H+'noydb.ts', H+'vault.ts'],
  [['rotation re-encrypts and re-wraps', H+'team/keyring.ts rotateKeys'], ['cascade on admin revoke', H+'team/keyring.ts revoke']])

p('C15', 'The audit ledger is complete, chained and tamper-evident',
  'With history enabled, every acknowledged record mutation appends exactly one entry carrying the right operation, collection, id, version and actor, in acknowledgement order per record, and verification succeeds after any sequence and overlap of operations. Altering, inserting or reordering any stored entry, or deleting one that is not the newest, makes verification report a failure at or before the affected entry, removal of the newest entries shows as a different head, and altering or removing a stored record behind the ledger\'s back makes the integrity check fail. Replaying recorded changes reconstructs each past version exactly.',
  ['programs', 'schedules', 'inputs', 'fault_sequences'],
  'all mutation programs including concurrent appends, all placements of tampering, all JSON values for reconstruction',
  'Tests append sequentially and tamper in one place; gaps and forks need overlapping appends, and tamper evidence is universal over positions and kinds.',
  [H+'history/ledger/', H+'collection.ts', H+'vault.ts'],
  [['hash chain', H+'history/ledger/store.ts append/verify'], ['delta patches', H+'history/ledger/patch.ts'], ['backup integrity cross-check', H+'vault.ts verifyBackupIntegrity']],
  { state: [{ name: 'chain head', meaning: 'hash and index of last entry', where: H+'history/ledger/store.ts' }] })

p('C16', 'History and point-in-time views return exactly the past states',
  'Each recorded past version of a record equals what was written at that version, history lists are complete and ordered, reverting restores the chosen content, and pruning removes only what was asked for, for the record asked for. A view of the vault at an instant shows each record exactly as it was at that instant - including records later changed or deleted - and no later write alters that answer, except that versions pruned, or overwritten because the record was deleted and created again, may be reported as absent. Point-in-time and frame views never modify storage.',
  ['histories', 'programs', 'inputs'],
  'all histories of create/update/delete/re-create/revert/prune over several records, all instants between operations, ids that are prefixes of each other',
  'Tests use a short single-record history; wrong answers need delete/re-create sequences, prefix-sharing ids or instants around particular operations.',
  [H+'history/', H+'collection.ts', H+'shadow/vault-frame.ts'],
  [['snapshot on overwrite', H+'history/history.ts'], ['instant resolution', H+'history/time-machine.ts'], ['frozen views', H+'shadow/vault-frame.ts']])

p('C17', 'Backups, bundles and diffs round-trip exactly and reject corruption',
  'A backup or bundle taken at any point restores into an empty backend to a vault with identical records, versions, users, dictionaries, closed periods and verifiable audit trail, openable with the same passphrases and no others; a slice contains exactly the selected records, and a recipient-sealed bundle opens only for its recipients, with their own passphrases and permissions. A container with any altered, truncated or appended byte is rejected on reading or yields exactly the original contents, and restoring a backup with an audit trail in which a record is altered, missing, exchanged or set back, or the trail itself is altered, reports an error. A vault compared with its own restored copy shows no differences, and applying any reported difference set reproduces the other side.',
  ['programs', 'inputs', 'fault_sequences', 'configurations'],
  'all vault contents and features, all slice options and compression settings, all single-byte corruptions and truncation lengths',
  'Tests round-trip small vaults and corrupt one byte; the claim ranges over every mix of features, roles and slice options and over every byte position.',
  [H+'vault.ts', H+'bundle/', H+'vault-diff.ts', 'packages/as-noydb/src'],
  [['dump/load', H+'vault.ts dump/load'], ['integrity verification', H+'vault.ts verifyBackupIntegrity'], ['container format and digest', H+'bundle/format.ts, '+H+'bundle/bundle.ts'], ['diff', H+'vault-diff.ts']])

p('C18', 'Synchronised replicas converge and lose no acknowledged change',
  'After any interleaving of local changes, pushes, pulls and full syncs on several replicas, with any injected remote failures, once edits stop and every replica syncs successfully, all replicas, their open sessions and the remote hold the same value of every edited record, one that some replica wrote or the conflict policy produced. A change made while offline or during a push is never dropped: it is pushed later to every target, superseded by a later edit or through the conflict policy, or still reported as pending. A deletion removes the remote copy, and the record does not come back on the deleting replica or the remote unless a concurrent edit of it wins.',
  ['schedules', 'histories', 'fault_sequences', 'configurations'],
  'all interleavings of edits and sync steps by 2-4 replicas, all conflict policies, remote failures at each call',
  'Tests script a few two-replica scenarios; lost updates need edits during in-flight pushes, particular version coincidences, or failures at particular calls.',
  [H+'team/sync.ts', H+'team/sync-transaction.ts', H+'noydb.ts'],
  [['dirty log', H+'team/sync.ts trackChange'], ['versioned push', H+'team/sync.ts push'], ['pull merge', H+'team/sync.ts pull'], ['conflict strategies', H+'team/sync.ts']],
  { state: [{ name: 'dirty log', meaning: 'local changes not yet pushed', where: '_sync/meta' }] })

p('C19', 'Concurrent collaborative edits converge to the same value everywhere',
  'For field-merged maps and merged lists, merging concurrently edited states gives the same result whichever side merges and however often, the same fields and elements in every order and grouping, and replicas that exchange states until nothing changes (directly or through sync, with skewed clocks) show the same value; no field edit or list insertion is lost unless a later or concurrent edit of the same field, or a removal of the same element, wins. Without a concurrent edit the value after a put is exactly what was put (other fields of a map are preserved), also when an element is removed and added again or occurs twice. Overlapping updates merged into a shared document all take effect.',
  ['histories', 'schedules', 'inputs'],
  'all edit histories of 2-4 replicas, all merge orders, equal timestamps, duplicate values',
  'Tests merge two hand-written states; algebraic laws are universal over states reachable by any edit history.',
  [H+'crdt/crdt.ts', H+'collection.ts', 'packages/in-yjs/src'],
  [['per-field last-writer-wins map', H+'crdt/crdt.ts'], ['list merge', H+'crdt/crdt.ts'], ['document merge', 'packages/in-yjs/src']])

p('C20', 'Attachments round-trip byte-exactly and are stored as long as referenced',
  'Any bytes stored under a record\'s attachment name are read back identically, whatever their size, type, chunking or compression, and the listing reports the right names, sizes and types; published versions stay immutable until deleted. Identical content is stored once and stays readable as long as any attachment or published version in the vault refers to it, through any sequence of puts, replacements, deletions, overlapping operations of several sessions, interrupted operations and retention runs, which remove exactly the attachments their rules cover. The recorded number of references equals the number of attachments and versions referring to the content, and after an interrupted operation is never lower.',
  ['programs', 'schedules', 'inputs', 'fault_sequences'],
  'all programs over few records/names with shared contents, sizes around chunk boundaries, overlapping puts, eviction policies',
  'Tests cover single put/get/delete; reference-count drift needs particular sequences of sharing, replacement, versions and concurrency.',
  [H+'blobs/blob-set.ts', H+'blobs/blob-compaction.ts', H+'blobs/export-blobs.ts'],
  [['content addressing', H+'blobs/blob-set.ts'], ['reference counts', H+'blobs/blob-set.ts'], ['retention-driven compaction', H+'blobs/blob-compaction.ts']],
  { state: [{ name: 'reference count', meaning: 'number of slots and versions referring to content', where: 'blob index' }] })

p('C21', 'Declared references and schemas are enforced on every write path',
  'A record that violates its declared schema, or strictly references a missing record, is never stored by any write path, and data that violates the schema is never returned silently. Deleting a referenced record is refused (strict), cascades to exactly the referencing records (cascade), or is allowed (warn) as declared, including through cycles; the integrity check reports exactly the dangling references. Values transformed by the schema are what is stored and read, and overlapping writes and deletes of one session leave no strict reference dangling.',
  ['programs', 'configurations', 'inputs', 'schedules'],
  'all reference graphs with all modes incl. cycles and chains, all write paths (put, bulk, transaction, import, revert, dictionary rename), all schema outcomes incl. asynchronous validators',
  'Tests check one edge and one write path at a time.',
  [H+'refs.ts', H+'schema.ts', H+'vault.ts', H+'collection.ts'],
  [['strict check on put', H+'vault.ts enforceRefsOnPut'], ['delete enforcement', H+'vault.ts enforceRefsOnDelete'], ['schema validation on input and output', H+'schema.ts, '+H+'collection.ts'], ['integrity check', H+'vault.ts checkIntegrity']])

p('C22', 'Closed accounting periods are immutable and chained',
  'Once a period is closed, no write of that session or of a session opened later creates, changes or deletes a record dated at or before its end, whatever the role, write path (single, bulk, transaction, cascade, import, revert, tier) or restart; records outside stay writable and a refused write changes nothing. Period records form one chain in which each carries the digest of the one before, also when closes overlap, and an altered or missing period record is detected. Opening the next period carries forward exactly the computed balances.',
  ['programs', 'histories', 'configurations'],
  'all sequences of closes/opens and write attempts through every write path with boundary dates',
  'Tests attempt one put into one closed period.',
  [H+'periods/periods.ts', H+'vault.ts', H+'collection.ts'],
  [['period guard on writes', H+'periods/periods.ts, '+H+'collection.ts'], ['period chain', H+'periods/periods.ts']])

p('C23', 'Every consented access is audited exactly once, attributably',
  'While a consent context is active, each completed fetch, write or deletion of a record awaited inside it leaves exactly one audit entry with the right user, purpose, operation, collection and id, also when accesses overlap or contexts are nested; nothing is recorded outside a context, for failed accesses, for fetches of absent records, or for the reads the library makes on its own behalf. Entries never contain record contents and filters by time, collection, user and purpose return exactly the matching entries. Accesses above tier 0 are announced to every listener exactly once, and each elevation leaves one elevation entry.',
  ['schedules', 'programs', 'configurations'],
  'all programs of accesses inside/outside nested or sequential consent contexts, overlapping, with caches warm or cold',
  'Tests perform one access; missing or duplicate entries depend on cache state, overlap and which read path is used.',
  [H+'consent/consent.ts', H+'vault.ts', H+'collection.ts'],
  [['consent hook on access', H+'consent/consent.ts, '+H+'collection.ts']])

p('C24', 'Expired, revoked or exhausted credentials never grant access',
  'A session, delegation, magic-link grant, elevated handle, time-limited capability request, PIN, e-mailed code, developer unlock or expiring bundle seat works until its limit and never afterwards: not past its expiry instant, its attempt limit, or its revocation, whatever the order and overlap of attempts and however the instant is written. Idle and absolute timeouts of a session policy fire exactly once, measured from the last activity and from the start, and a failed or expired elevation never blocks a later one. A valid credential gives exactly the keys, tier and collection it was issued for.',
  ['schedules', 'histories', 'inputs'],
  'all interleavings of issue/use/expire/revoke with a controlled clock, concurrent guesses, boundary instants',
  'Tests step a fake clock past one deadline; boundaries, overlapping attempts and revoke-while-in-use are not reached.',
  [H+'session/', H+'team/delegation.ts', H+'team/magic-link-grant.ts', H+'team/tiers.ts', H+'vault.ts', 'packages/on-pin/src', 'packages/on-email-otp/src', 'packages/on-magic-link/src'],
  [['session expiry', H+'session/session.ts'], ['policy enforcer', H+'session/session-policy.ts'], ['delegation window', H+'team/delegation.ts'], ['elevation TTL', H+'vault.ts elevate'], ['attempt counting', 'packages/on-pin/src, packages/on-email-otp/src']])

p('C25', 'Unlock factors accept exactly the right secrets',
  'Any k shares of a k-of-n split recover the secret in any order and encoding, and too few, repeated or mutually incompatible shares are refused; recovery codes, PINs, duress phrases, time-based codes, authenticators and identity-split keys accept exactly the enrolled secret, within the documented normalisation and time window, and reject every other input or damaged enrolment. Encoded forms round-trip for every value, a failed re-enrolment leaves the previous one usable, and the lockout counter locks, reopens and wipes exactly as configured. Fewer than k shares, or enrolment artefacts without the secret, do not reveal it.',
  ['inputs', 'configurations'],
  'all secrets, all k/n, all subsets and share encodings, all code times, all single-character corruptions',
  'Tests use fixed vectors and a few subsets.',
  ['packages/on-shamir/src', 'packages/on-recovery/src', 'packages/on-totp/src', 'packages/on-pin/src', 'packages/on-oidc/src', 'packages/on-threat/src'],
  [['threshold sharing', 'packages/on-shamir/src'], ['code checksum and unwrap', 'packages/on-recovery/src'], ['RFC 6238 codes', 'packages/on-totp/src'], ['lockout state machine', 'packages/on-threat/src']])

p('C26', 'Plaintext export and import happen only with the matching capability',
  'No plaintext exporter - of records to any file format or of attachments - produces any output, and no importer changes the vault, unless the calling user holds the capability for that exact format (for importers also the right to write), and the exporters that write to disk additionally require explicit risk acknowledgement; encrypted bundle export follows its own default by role. Exports, including the plain record stream, contain only data of collections the user may read, and everything readable that was asked for. Refusal happens before any data is decrypted, produced or written.',
  ['configurations', 'programs', 'inputs'],
  'all roles, capability combinations and formats, all export/import entry points',
  'Tests check a few role/format pairs per package.',
  ['packages/as-*/src', H+'team/keyring.ts', H+'vault.ts'],
  [['capability check', H+'vault.ts assertCanExport/assertCanImport'], ['capability evaluation', H+'team/keyring.ts']])

p('C27', 'Exports round-trip through imports without corrupting or losing records',
  'Exporting a collection whose records carry their id and importing the file reproduces the same records for every format that supports both, up to what the format can carry (only text in CSV and XML; no nulls, empty texts or nested values in spreadsheets; no characters outside the format); every exported value is escaped so that other parsers and databases recover exactly the original values and rows. Import policies do exactly what they state - merge upserts, replace leaves exactly the imported set, insert-only never changes existing records - and the preview plan equals the effect. A failed import changes nothing.',
  ['inputs', 'configurations', 'fault_sequences'],
  'all record shapes and string contents (delimiters, quotes, newlines, control characters, unicode, formula prefixes), heterogeneous rows, all policies, faults during apply',
  'Tests use a handful of tame sample rows; wrong escaping, lost columns and wrong plans need particular characters, mixed shapes, many rows or a failure at a particular write.',
  ['packages/as-csv/src', 'packages/as-json/src', 'packages/as-ndjson/src', 'packages/as-sql/src', 'packages/as-xml/src', 'packages/as-xlsx/src', 'packages/as-zip/src', H+'vault-diff.ts'],
  [['escaping per format', 'packages/as-*/src'], ['diff-driven import plan', H+'vault-diff.ts'], ['atomic apply', H+'tx/transaction.ts']])

p('C28', 'Exported file names and archive paths can never escape or collide',
  'Every file path produced by attachment export, directory export, archive export or filename sanitising stays inside the chosen target, is valid for the chosen platform profile and is never empty or a dot segment, for any attachment or record name. Two different attachments never end up in the same file. Archives can be read back to exactly their entries, also by other readers; a changed, missing or added byte never makes different contents come out, and encrypted archives reject wrong passwords and any change to an entry.',
  ['inputs', 'configurations'],
  'all unicode names incl. traversal segments, reserved names, trailing dots, over-long names, colliding normalisations, all profiles',
  'Tests list known-bad names; the guarantee is universal over names.',
  [H+'util/sanitize-filename.ts', H+'blobs/export-blobs.ts', 'packages/to-file/src', 'packages/as-zip/src', 'packages/as-blob/src'],
  [['sanitiser profiles', H+'util/sanitize-filename.ts'], ['path containment check', 'packages/to-file/src'], ['archive writer/reader', 'packages/as-zip/src']])

p('C29', 'Localised text and dictionary keys stay consistent',
  'Reading with a locale yields the translation for that locale or the declared fallback, required languages are enforced on every write, and raw reads return every translation. A dictionary key used by records of the opened collections is not deleted unless the check is waived, and renaming it changes exactly those records, loses no overlapping write and, even when it fails halfway, leaves none of them pointing at a missing key. Labels in reads, grouped results, joins and exports come from the current dictionary, and exports keep every translation.',
  ['programs', 'configurations', 'inputs'],
  'all locale/fallback combinations, all sequences of dictionary edits and record writes across collections',
  'Tests rename one key over a couple of records.',
  [H+'i18n/', H+'collection.ts', H+'vault.ts'],
  [['locale resolution', H+'i18n/core.ts'], ['dictionary rename', H+'i18n/dictionary.ts']])

p('C30', 'Gateways expose data only to authenticated, allowed requests',
  'The HTTP gateway answers data requests only for a live session token obtained with the right passphrase, returns for list, filter, limit and fetch exactly the records that session can see, whichever framework carries the request, and maps refusals and malformed requests to client error statuses without changing or leaking data. Expired or deleted sessions stop working immediately, and a page helper answers each overlapping request for its own cookies and closes what it opened. The AI tool gateway executes only operations and collections that were allowed for users who may perform them, and never reaches internal collections.',
  ['programs', 'inputs', 'schedules'],
  'all request sequences with valid, stale, forged or missing tokens, all tool names and allow-lists',
  'Tests cover a few requests against a warm vault.',
  ['packages/in-rest/src', 'packages/in-ai/src'],
  [['session store', 'packages/in-rest/src/sessions.ts'], ['router', 'packages/in-rest/src/router.ts'], ['tool dispatch checks', 'packages/in-ai/src/index.ts']])

p('C31', 'Scheduled sync pushes every change and respects its policy',
  'Under every push mode, each change is followed by a push that includes it (immediately, after the debounce, at the interval or on flush), including changes arriving while a push is running; the changes of a failed push are part of the next one. Two pushes never overlap, scheduled pushes respect the minimum interval and the quiet time (explicit requests and the flush on exit do not wait for them), and after the scheduler is stopped nothing runs.',
  ['schedules', 'fault_sequences', 'configurations'],
  'all timings of changes relative to pushes under a controlled clock, all policies, push failures',
  'Tests trigger one change and advance the clock once.',
  [H+'store/sync-policy.ts'],
  [['scheduler state machine', H+'store/sync-policy.ts']])

p('C32', 'Memory budgets and identifiers hold under load',
  'The bounded record cache never exceeds its configured record or byte budget, always evicts least-recently-used entries first, and reports accurate statistics; evicted records remain readable. Generated sortable ids are well-formed, unique and ordered by the millisecond they were made in. Closing a session, ending a subscription or stopping a schedule releases its timers, listeners and memory, and nothing is delivered afterwards.',
  ['programs', 'inputs', 'schedules'],
  'all access sequences and budgets, bursts of id generation within and across milliseconds',
  'Tests fill a cache once.',
  [H+'cache/lru.ts', H+'cache/policy.ts', H+'bundle/ulid.ts', H+'collection.ts'],
  [['LRU eviction', H+'cache/lru.ts'], ['id generation', H+'bundle/ulid.ts']])

p('C33', 'Maintenance commands do exactly what they report, or change nothing',
  'The command-line tools that rotate keys, add a user and write a backup leave every stored record, version, audit entry and attachment readable with the same content; the added user opens the vault with the chosen passphrase, role and collections and nothing more, and the backup restores to the same vault. With a wrong passphrase, an unknown vault or user, a mismatched confirmation or missing rights they report an error and leave the vault and any earlier backup file as they were, and a failing store never costs data or an earlier backup. The bundle file checker accepts exactly the files that can be read, the configuration checker reports exactly the documented problems, every generated configuration loads and is accepted, and generating a collection never replaces a file, writes one of its two files alone, or leaves the project directory.',
  ['inputs', 'configurations', 'fault_sequences'],
  'all vault contents, users, roles, command arguments, refusal reasons, store failures and file corruptions',
  'Tests run each command once on a fixed vault; they do not compare everything stored before and after, nor what a refused or failing command leaves behind.',
  ['packages/create-noy-db/src/commands/', 'packages/cli/src/commands/'],
  [['rotate, add user and backup commands', 'packages/create-noy-db/src/commands/'], ['refusal of unknown vaults', 'packages/create-noy-db/src/commands/shared.ts assertVaultExists'], ['bundle file checks', 'packages/cli/src/commands/verify.ts']])

p('C34', 'Diagnostics report what happened and leave stored data alone',
  'Probing a store or a set of stores leaves everything stored before as it was and removes its own records; the latencies, the number of concurrent writers that won, the risks and the recommended roles it reports are those the store actually showed against the given thresholds and declarations. A metered store passes every call through once with its own outcome, even when an observer of the meter fails; counts, errors, conflicts and percentiles per operation equal the calls made since the last reset. Each change between healthy, slow and unreachable is announced exactly once, slow ends only when writes are fast again, unreachable only when a check succeeds, and nothing runs after closing.',
  ['inputs', 'configurations', 'histories', 'fault_sequences'],
  'all store speeds, concurrency behaviours, declarations, thresholds, liveness histories, failures and throwing observers',
  'Tests probe a fast and a slow store once; whether reports follow from what happened needs the calls recorded independently over many behaviours, thresholds and status histories.',
  ['packages/to-probe/src', 'packages/to-meter/src', H+'store/store-middleware.ts'],
  [['probe axes and risk rules', 'packages/to-probe/src/probe.ts'], ['rules across stores', 'packages/to-probe/src/topology.ts'], ['counters and status changes', 'packages/to-meter/src/index.ts'], ['observer calls', H+'store/store-middleware.ts withMetrics']])

for (const x of P) { if (x.title.length > 80) throw new Error('title too long ' + x.id) }
writeFileSync(new URL('../properties.jsonl', import.meta.url), P.map(x => JSON.stringify(x)).join('\n') + '\n')
console.log(P.length, 'properties')
