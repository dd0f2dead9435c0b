From 1c32c9537c9cd15f204f5c457ca376a8d1497f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:57 +0000
Subject: [PATCH 01/87] fix: keep index side-cars out of count, paging, scan
 and eager hydration

---
 packages/hub/src/collection.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 9c59ac4..9d0c011 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -1752,7 +1752,7 @@ export class Collection<T> {
   async count(): Promise<number> {
     if (this.lazy) {
       const ids = await this.adapter.list(this.vault, this.name)
-      return ids.length
+      return ids.filter(id => !decodeIdxId(id)).length
     }
     await this.ensureHydrated()
     return this.cache.size
@@ -1801,7 +1801,7 @@ export class Collection<T> {
     // native path because every id requires its own round-trip, but
     // correct for adapters that haven't opted in.
     warnOnceFallback(this.adapter.name ?? 'unknown')
-    const ids = (await this.adapter.list(this.vault, this.name)).slice().sort()
+    const ids = (await this.adapter.list(this.vault, this.name)).filter(id => !decodeIdxId(id)).sort()
     const start = opts.cursor ? parseInt(opts.cursor, 10) : 0
     const end = Math.min(start + limit, ids.length)
     const items: T[] = []
@@ -1899,6 +1899,7 @@ export class Collection<T> {
   ): Promise<Array<{ id: string; record: T; version: number }>> {
     const out: Array<{ id: string; record: T; version: number }> = []
     for (const { id, envelope } of items) {
+      if (decodeIdxId(id)) continue
       const record = await this.decryptRecord(envelope)
       out.push({ id, record, version: envelope._v })
     }
@@ -1913,6 +1914,7 @@ export class Collection<T> {
 
     const ids = await this.adapter.list(this.vault, this.name)
     for (const id of ids) {
+      if (decodeIdxId(id)) continue
       const envelope = await this.adapter.get(this.vault, this.name, id)
       if (envelope) {
         const record = await this.decryptRecord(envelope)
@@ -1926,6 +1928,7 @@ export class Collection<T> {
   /** Hydrate from a pre-loaded snapshot (used by Vault). */
   async hydrateFromSnapshot(records: Record<string, EncryptedEnvelope>): Promise<void> {
     for (const [id, envelope] of Object.entries(records)) {
+      if (decodeIdxId(id)) continue
       const record = await this.decryptRecord(envelope)
       this.cache.set(id, { record, version: envelope._v })
     }
-- 
2.43.0


From ed754b4182224fd56c1202144e652f3b7788e9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:37 +0000
Subject: [PATCH 02/87] fix: serialise overlapping writes to one record and
 keep caches in step with the store

---
 packages/hub/src/collection.ts | 73 ++++++++++++++++++++++++++--------
 1 file changed, 56 insertions(+), 17 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 9d0c011..92de075 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -129,6 +129,11 @@ export class Collection<T> {
   // doesn't need a runtime branch on every cache access.
   private readonly cache = new Map<string, { record: T; version: number }>()
   private hydrated = false
+  private hydrating: Promise<void> | null = null
+  /** Bumped whenever a write changes the LRU, so a slower overlapping read does not re-cache what it saw before. */
+  private writeGeneration = 0
+  /** Tail of the in-flight write chain per record id. */
+  private readonly writeTails = new Map<string, Promise<unknown>>()
 
   /**
    * Lazy mode flag. `true` when constructed with `prefetch: false`.
@@ -819,10 +824,13 @@ export class Collection<T> {
         record = cached.record
       } else {
         // Cache miss: hit the adapter, decrypt, populate the LRU.
+        const generation = this.writeGeneration
         const envelope = await this.adapter.get(this.vault, this.name, id)
         if (!envelope) return null
         record = await this.decryptRecord(envelope)
-        this.lru.set(id, { record, version: envelope._v }, estimateRecordBytes(record))
+        if (generation === this.writeGeneration) {
+          this.lru.set(id, { record, version: envelope._v }, estimateRecordBytes(record))
+        }
       }
     } else {
       // Eager mode: load everything once, then serve from the in-memory map.
@@ -985,6 +993,27 @@ export class Collection<T> {
       await this.refEnforcer.enforceRefsOnPut(this.name, record)
     }
 
+    await this.serializeWrite(id, () => this.commitPut(id, record))
+  }
+
+  /**
+   * Run `write` after every earlier write to the same record has settled.
+   * Overlapping writes would otherwise read the same prior version and
+   * could leave the cache and the store holding different values.
+   */
+  private serializeWrite(id: string, write: () => Promise<void>): Promise<void> {
+    const tail = this.writeTails.get(id)
+    const run = tail ? tail.then(write, write) : write()
+    this.writeTails.set(id, run)
+    const release = (): void => {
+      if (this.writeTails.get(id) === run) this.writeTails.delete(id)
+    }
+    run.then(release, release)
+    return run
+  }
+
+  /** Storage half of {@link put}: everything after the checks passed. */
+  private async commitPut(id: string, record: T): Promise<void> {
     // ─── CRDT mode ─────────────────────────────────────────
     // In CRDT mode we always read the raw envelope from the adapter to get
     // the existing CRDT state, merge the incoming record into it, then
@@ -1051,6 +1080,7 @@ export class Collection<T> {
       }
 
       if (this.lazy && this.lru) {
+        this.writeGeneration++
         this.lru.set(id, { record: resolvedRecord, version }, estimateRecordBytes(resolvedRecord))
         await this.maintainPersistedIndexesOnPut(
           id,
@@ -1151,6 +1181,7 @@ export class Collection<T> {
     }
 
     if (this.lazy && this.lru) {
+      this.writeGeneration++
       this.lru.set(id, { record, version }, estimateRecordBytes(record))
       // Maintain persisted-index side-cars. Lazy mode is the
       // only place `persistedIndexes` is populated; eager mode uses the
@@ -1211,6 +1242,11 @@ export class Collection<T> {
       await this.refEnforcer.enforceRefsOnDelete(this.name, id)
     }
 
+    await this.serializeWrite(id, () => this.commitDelete(id))
+  }
+
+  /** Storage half of {@link delete}: everything after the checks passed. */
+  private async commitDelete(id: string): Promise<void> {
     // In lazy mode the record may not be cached; ask the adapter so we
     // can still write a history snapshot if history is enabled.
     let existing: { record: T; version: number } | undefined
@@ -1224,6 +1260,9 @@ export class Collection<T> {
         }
       }
     } else {
+      // A record that cannot be decrypted must stay deletable, so a failed
+      // load is not an error here.
+      await this.ensureHydrated().catch(() => {})
       existing = this.cache.get(id)
     }
 
@@ -1259,6 +1298,7 @@ export class Collection<T> {
     }
 
     if (this.lazy && this.lru) {
+      this.writeGeneration++
       this.lru.remove(id)
       // Tear down persisted-index side-cars for any declared fields on
       // this record. No-op when no fields are declared or the record
@@ -1782,16 +1822,12 @@ export class Collection<T> {
     if (this.adapter.listPage) {
       const result = await this.adapter.listPage(this.vault, this.name, opts.cursor, limit)
       const decrypted: T[] = []
-      for (const { record, version, id } of await this.decryptPage(result.items)) {
-        // Update cache opportunistically — if the page-fetched record isn't
-        // in cache yet, populate it. This makes a subsequent .get(id) free.
-        // In LAZY mode we deliberately do NOT populate the LRU here:
-        // streaming a 100K-record collection should not turn the LRU into
-        // a giant write-once buffer that immediately evicts everything.
-        // Random-access workloads via .get() are what the LRU is for.
-        if (!this.lazy && !this.cache.has(id)) {
-          this.cache.set(id, { record, version })
-        }
+      // Pages never populate the caches. In LAZY mode, streaming a
+      // 100K-record collection should not turn the LRU into a giant
+      // write-once buffer that immediately evicts everything. In eager
+      // mode the page may be older than a write or delete that overlapped
+      // the fetch, and caching it would bring the old record back.
+      for (const { record } of await this.decryptPage(result.items)) {
         decrypted.push(record)
       }
       return { items: decrypted, nextCursor: result.nextCursor }
@@ -1811,11 +1847,6 @@ export class Collection<T> {
       if (envelope) {
         const record = await this.decryptRecord(envelope)
         items.push(record)
-        // Same lazy-mode skip as the native path: don't pollute the LRU
-        // with sequential scan results.
-        if (!this.lazy && !this.cache.has(id)) {
-          this.cache.set(id, { record, version: envelope._v })
-        }
       }
     }
     return {
@@ -1908,10 +1939,18 @@ export class Collection<T> {
 
   // ─── Internal ──────────────────────────────────────────────────
 
-  /** Load all records from adapter into memory cache. */
+  /**
+   * Load all records from adapter into memory cache. Single-flighted:
+   * callers that arrive while a load is running wait for that same load,
+   * so a slow second load can never overwrite a newer cached write.
+   */
   private async ensureHydrated(): Promise<void> {
     if (this.hydrated) return
+    this.hydrating ??= this.hydrate().finally(() => { this.hydrating = null })
+    await this.hydrating
+  }
 
+  private async hydrate(): Promise<void> {
     const ids = await this.adapter.list(this.vault, this.name)
     for (const id of ids) {
       if (decodeIdxId(id)) continue
-- 
2.43.0


From c2e5e2406ae6b788f88fb7332f7e87957f6b16f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:49 +0000
Subject: [PATCH 03/87] fix: never drop, overwrite or prematurely use
 collection keys when a keyring file is updated

---
 packages/hub/src/noydb.ts        |   4 +-
 packages/hub/src/team/keyring.ts | 137 +++++++++++++++++++++++--------
 2 files changed, 104 insertions(+), 37 deletions(-)

diff --git a/packages/hub/src/noydb.ts b/packages/hub/src/noydb.ts
index 378b930..3a6640d 100644
--- a/packages/hub/src/noydb.ts
+++ b/packages/hub/src/noydb.ts
@@ -654,7 +654,9 @@ export class Noydb {
       keyring,
       newPassphrase,
     )
-    this.keyringCache.set(vault, updated)
+    // Open vaults and collections hold this same keyring object. Update it in
+    // place, otherwise the next key they add is wrapped for the old passphrase.
+    this.keyringCache.set(vault, Object.assign(keyring, updated))
   }
 
   // ─── Sync ──────────────────────────────────────────────────────
diff --git a/packages/hub/src/team/keyring.ts b/packages/hub/src/team/keyring.ts
index 0e16892..092f5f4 100644
--- a/packages/hub/src/team/keyring.ts
+++ b/packages/hub/src/team/keyring.ts
@@ -536,35 +536,39 @@ export async function changeSecret(
   const newSalt = generateSalt()
   const newKek = await deriveKey(newPassphrase, newSalt)
 
-  // Re-wrap all DEKs with the new KEK
-  const wrappedDeks: Record<string, string> = {}
-  for (const [collName, dek] of keyring.deks) {
-    wrappedDeks[collName] = await wrapKey(dek, newKek)
-  }
+  return withKeyringLock(keyring, async () => {
+    // Re-wrap all DEKs with the new KEK
+    const wrappedDeks: Record<string, string> = {}
+    for (const [collName, dek] of keyring.deks) {
+      wrappedDeks[collName] = await wrapKey(dek, newKek)
+    }
 
-  const keyringFile: KeyringFile = {
-    _noydb_keyring: NOYDB_KEYRING_VERSION,
-    user_id: keyring.userId,
-    display_name: keyring.displayName,
-    role: keyring.role,
-    permissions: keyring.permissions,
-    deks: wrappedDeks,
-    salt: bufferToBase64(newSalt),
-    created_at: new Date().toISOString(),
-    granted_by: keyring.userId,
-  }
+    const stored = await readKeyringFile(adapter, vault, keyring.userId)
+    const keyringFile: KeyringFile = {
+      _noydb_keyring: NOYDB_KEYRING_VERSION,
+      user_id: keyring.userId,
+      display_name: keyring.displayName,
+      role: keyring.role,
+      permissions: keyring.permissions,
+      created_at: new Date().toISOString(),
+      granted_by: keyring.userId,
+      ...(keyring.exportCapability !== undefined && { export_capability: keyring.exportCapability }),
+      ...(keyring.importCapability !== undefined && { import_capability: keyring.importCapability }),
+      // Everything that is not key material survives a passphrase change.
+      ...stored,
+      deks: wrappedDeks,
+      salt: bufferToBase64(newSalt),
+    }
 
-  await writeKeyringFile(adapter, vault, keyring.userId, keyringFile)
+    await writeKeyringFile(adapter, vault, keyring.userId, keyringFile)
 
-  return {
-    userId: keyring.userId,
-    displayName: keyring.displayName,
-    role: keyring.role,
-    permissions: keyring.permissions,
-    deks: keyring.deks, // Same DEKs, different wrapping
-    kek: newKek,
-    salt: newSalt,
-  }
+    return {
+      ...keyring,
+      deks: keyring.deks, // Same DEKs, different wrapping
+      kek: newKek,
+      salt: newSalt,
+    }
+  })
 }
 
 // ─── Bundle recipients (#301) ──────────────────────────────────────────
@@ -732,28 +736,77 @@ export async function ensureCollectionDEK(
   // `set` overwrites the first — making any envelope encrypted with
   // the discarded DEK fail to decrypt later (TamperedError on read).
   // Pre-existing race exposed by the multi-writer ledger work in #296.
-  const inFlight = new Map<string, Promise<CryptoKey>>()
+  //
+  // Shared per keyring, because several resolvers can be built for the
+  // same unlocked keyring.
+  let inFlight = pendingDEKs.get(keyring)
+  if (!inFlight) pendingDEKs.set(keyring, inFlight = new Map<string, Promise<CryptoKey>>())
+  const pendingByName = inFlight
   return async (collectionName: string): Promise<CryptoKey> => {
     const existing = keyring.deks.get(collectionName)
     if (existing) return existing
-    const pending = inFlight.get(collectionName)
+    const pending = pendingByName.get(collectionName)
     if (pending) return pending
 
-    const promise = (async () => {
-      const dek = await generateDEK()
+    // The key becomes usable only once it is in the stored keyring file:
+    // a record encrypted under a key that was never persisted would be
+    // unreadable after the next open.
+    const promise = withKeyringLock(keyring, async () => {
+      const dek = await publishDEK(adapter, vault, keyring, collectionName)
       keyring.deks.set(collectionName, dek)
-      await persistKeyring(adapter, vault, keyring)
       return dek
-    })()
-    inFlight.set(collectionName, promise)
+    })
+    pendingByName.set(collectionName, promise)
     try {
       return await promise
     } finally {
-      inFlight.delete(collectionName)
+      pendingByName.delete(collectionName)
     }
   }
 }
 
+const pendingDEKs = new WeakMap<UnlockedKeyring, Map<string, Promise<CryptoKey>>>()
+const keyringTails = new WeakMap<UnlockedKeyring, Promise<unknown>>()
+
+/** Run keyring-file updates made through one unlocked keyring one at a time. */
+function withKeyringLock<R>(keyring: UnlockedKeyring, update: () => Promise<R>): Promise<R> {
+  const run = (keyringTails.get(keyring) ?? Promise.resolve()).then(update, update)
+  keyringTails.set(keyring, run.catch(() => {}))
+  return run
+}
+
+/**
+ * Add a DEK for `collectionName` to the stored keyring file, leaving every
+ * other field of the file as it is. If another instance of the same user
+ * has already published one, that key is returned instead.
+ */
+async function publishDEK(
+  adapter: NoydbStore,
+  vault: string,
+  keyring: UnlockedKeyring,
+  collectionName: string,
+): Promise<CryptoKey> {
+  const file = await readKeyringFile(adapter, vault, keyring.userId)
+  if (!file) {
+    // No stored keyring to extend (e.g. an in-memory session keyring).
+    const dek = await generateDEK()
+    await persistKeyring(adapter, vault, { ...keyring, deks: new Map(keyring.deks).set(collectionName, dek) })
+    return dek
+  }
+  if (file.salt !== bufferToBase64(keyring.salt)) {
+    throw new NoAccessError(
+      `The keyring of user "${keyring.userId}" in vault "${vault}" was changed by another session. Open the vault again.`,
+    )
+  }
+  const published = file.deks[collectionName]
+  if (published !== undefined) return unwrapKey(published, keyring.kek)
+
+  const dek = await generateDEK()
+  const deks = { ...file.deks, [collectionName]: await wrapKey(dek, keyring.kek) }
+  await writeKeyringFile(adapter, vault, keyring.userId, { ...file, deks })
+  return dek
+}
+
 // ─── Permission Checks ─────────────────────────────────────────────────
 
 /** Check if a user has write permission for a collection. */
@@ -782,6 +835,8 @@ export async function persistKeyring(
     wrappedDeks[collName] = await wrapKey(dek, keyring.kek)
   }
 
+  const stored = await readKeyringFile(adapter, vault, keyring.userId)
+
   const keyringFile: KeyringFile = {
     _noydb_keyring: NOYDB_KEYRING_VERSION,
     user_id: keyring.userId,
@@ -790,8 +845,9 @@ export async function persistKeyring(
     permissions: keyring.permissions,
     deks: wrappedDeks,
     salt: bufferToBase64(keyring.salt),
-    created_at: new Date().toISOString(),
-    granted_by: keyring.userId,
+    created_at: stored?.created_at ?? new Date().toISOString(),
+    granted_by: stored?.granted_by ?? keyring.userId,
+    ...(stored?.expires_at !== undefined && { expires_at: stored.expires_at }),
     ...(keyring.exportCapability !== undefined && { export_capability: keyring.exportCapability }),
     ...(keyring.importCapability !== undefined && { import_capability: keyring.importCapability }),
   }
@@ -962,6 +1018,15 @@ function resolvePermissions(role: Role, explicit?: Permissions): Permissions {
   return explicit ?? {}
 }
 
+async function readKeyringFile(
+  adapter: NoydbStore,
+  vault: string,
+  userId: string,
+): Promise<KeyringFile | null> {
+  const envelope = await adapter.get(vault, '_keyring', userId)
+  return envelope ? JSON.parse(envelope._data) as KeyringFile : null
+}
+
 async function writeKeyringFile(
   adapter: NoydbStore,
   vault: string,
-- 
2.43.0


From 3eed9479ea65ad1b29e4744c28966b59bfd4e3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:49 +0000
Subject: [PATCH 04/87] fix: share one vault between overlapping first opens

---
 packages/hub/src/noydb.ts | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/packages/hub/src/noydb.ts b/packages/hub/src/noydb.ts
index 3a6640d..b4b3791 100644
--- a/packages/hub/src/noydb.ts
+++ b/packages/hub/src/noydb.ts
@@ -75,6 +75,7 @@ export class Noydb {
   private readonly options: NoydbOptions
   private readonly emitter = new NoydbEventEmitter()
   private readonly vaultCache = new Map<string, Vault>()
+  private readonly openingVaults = new Map<string, Promise<Vault>>()
   private readonly keyringCache = new Map<string, UnlockedKeyring>()
   private readonly syncEngines = new Map<string, SyncEngine>()
   private closed = false
@@ -179,7 +180,7 @@ export class Noydb {
     if (this.closed) throw new ValidationError('Instance is closed')
     this.touchPolicy(name)
 
-    let comp = this.vaultCache.get(name)
+    const comp = this.vaultCache.get(name)
     if (comp) {
       // Update locale on existing cached vault if specified
       if (opts?.locale !== undefined) {
@@ -188,6 +189,27 @@ export class Noydb {
       return comp
     }
 
+    // Overlapping first opens share one vault: two of them would each
+    // create a keyring for a new vault and only one could survive.
+    const pending = this.openingVaults.get(name)
+    if (pending) {
+      const opened = await pending
+      if (opts?.locale !== undefined) opened.setLocale(opts.locale)
+      return opened
+    }
+    const opening = this.openVaultOnce(name, opts)
+    this.openingVaults.set(name, opening)
+    try {
+      return await opening
+    } finally {
+      this.openingVaults.delete(name)
+    }
+  }
+
+  private async openVaultOnce(
+    name: string,
+    opts?: { locale?: string },
+  ): Promise<Vault> {
     const keyring = await this.getKeyring(name)
 
     // Set up sync engine(s) — handles bare NoydbStore, SyncTarget, or SyncTarget[]
@@ -228,7 +250,7 @@ export class Noydb {
       }
     }
 
-    comp = new Vault({
+    const comp = new Vault({
       adapter: this.options.store,
       name,
       noydb: this,
-- 
2.43.0


From 559feea7cb054ef2af3f6185ccaa0960429039e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:08 +0000
Subject: [PATCH 05/87] fix: do not make an unknown user owner of a vault that
 already has users

---
 packages/hub/src/noydb.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/hub/src/noydb.ts b/packages/hub/src/noydb.ts
index b4b3791..02dc3bb 100644
--- a/packages/hub/src/noydb.ts
+++ b/packages/hub/src/noydb.ts
@@ -911,7 +911,9 @@ export class Noydb {
     } catch (err) {
       // Only create a new keyring if no keyring exists (NoAccessError).
       // If the keyring exists but the passphrase is wrong (InvalidKeyError), propagate the error.
-      if (err instanceof NoAccessError) {
+      // A vault that already has users is not new: making an unknown (or
+      // revoked) user its owner would hand out write access to it.
+      if (err instanceof NoAccessError && (await this.options.store.list(vault, '_keyring')).length === 0) {
         keyring = await createOwnerKeyring(this.options.store, vault, this.options.user, this.options.secret)
       } else {
         throw err
-- 
2.43.0


From 86f21b8282ecf4c5bfac4abf339396dea0a7b7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:41 +0000
Subject: [PATCH 06/87] fix: show readers what the store holds when a step
 after the store write fails

---
 packages/hub/src/collection.ts | 95 ++++++++++++++++++----------------
 1 file changed, 50 insertions(+), 45 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 92de075..1424159 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -1019,6 +1019,8 @@ export class Collection<T> {
     // the existing CRDT state, merge the incoming record into it, then
     // encrypt the merged CRDT state — bypassing the normal version path.
     if (this.crdtMode) {
+      // A hydration still in flight would overwrite the cache entry set below.
+      if (!this.lazy) await this.ensureHydrated()
       const existingEnvelope = await this.adapter.get(this.vault, this.name, id)
       const existingVersion = existingEnvelope?._v ?? 0
       const now = new Date().toISOString()
@@ -1053,7 +1055,6 @@ export class Collection<T> {
 
       const version = existingVersion + 1
       const envelope = await this.encryptJsonString(JSON.stringify(crdtState), version)
-      await this.adapter.put(this.vault, this.name, id, envelope)
 
       // Resolve snapshot for cache and history
       const resolvedRecord = this.crdtStrategy.resolveCrdtSnapshot(crdtState) as T
@@ -1061,6 +1062,22 @@ export class Collection<T> {
         ? { record: await this.decryptRecord(existingEnvelope, { skipValidation: true }), version: existingVersion }
         : undefined
 
+      await this.adapter.put(this.vault, this.name, id, envelope)
+
+      if (this.lazy && this.lru) {
+        this.writeGeneration++
+        this.lru.set(id, { record: resolvedRecord, version }, estimateRecordBytes(resolvedRecord))
+        await this.maintainPersistedIndexesOnPut(
+          id,
+          resolvedRecord,
+          existingResolved ? existingResolved.record : null,
+          version,
+        )
+      } else {
+        this.cache.set(id, { record: resolvedRecord, version })
+        this.indexes?.upsert(id, resolvedRecord, existingResolved ? existingResolved.record : null)
+      }
+
       if (existingResolved && this.historyConfig.enabled !== false) {
         const histEnvelope = await this.encryptRecord(existingResolved.record, existingResolved.version)
         await this.historyStrategy.saveHistory(this.adapter, this.vault, this.name, id, histEnvelope)
@@ -1079,20 +1096,6 @@ export class Collection<T> {
         await this.ledger.append(appendInput)
       }
 
-      if (this.lazy && this.lru) {
-        this.writeGeneration++
-        this.lru.set(id, { record: resolvedRecord, version }, estimateRecordBytes(resolvedRecord))
-        await this.maintainPersistedIndexesOnPut(
-          id,
-          resolvedRecord,
-          existingResolved ? existingResolved.record : null,
-          version,
-        )
-      } else {
-        this.cache.set(id, { record: resolvedRecord, version })
-        this.indexes?.upsert(id, resolvedRecord, existingResolved ? existingResolved.record : null)
-      }
-
       await this.onDirty?.(this.name, id, 'put', version)
       this.emitter.emit('change', { vault: this.vault, collection: this.name, id, action: 'put' } satisfies ChangeEvent)
       await this.onAccess?.('put', id)
@@ -1143,6 +1146,23 @@ export class Collection<T> {
     const envelope = await this.encryptRecord(record, version)
     await this.adapter.put(this.vault, this.name, id, envelope)
 
+    // The store holds the new record from here on, so readers must see it
+    // even if a later step (ledger, sync bookkeeping) fails.
+    if (this.lazy && this.lru) {
+      this.writeGeneration++
+      this.lru.set(id, { record, version }, estimateRecordBytes(record))
+      // Maintain persisted-index side-cars. Lazy mode is the
+      // only place `persistedIndexes` is populated; eager mode uses the
+      // in-memory `CollectionIndexes` above.
+      await this.maintainPersistedIndexesOnPut(id, record, existing ? existing.record : null, version)
+    } else {
+      this.cache.set(id, { record, version })
+      // Update secondary indexes incrementally — no-op if no indexes are
+      // declared. Pass the previous record (if any) so old buckets are
+      // cleaned up before the new value is added.
+      this.indexes?.upsert(id, record, existing ? existing.record : null)
+    }
+
     // Ledger append — AFTER the adapter write succeeds so a failed
     // write never produces an orphan ledger entry. Computing the
     // payloadHash here uses the envelope we just wrote, which is the
@@ -1180,21 +1200,6 @@ export class Collection<T> {
       await this.ledger.append(appendInput)
     }
 
-    if (this.lazy && this.lru) {
-      this.writeGeneration++
-      this.lru.set(id, { record, version }, estimateRecordBytes(record))
-      // Maintain persisted-index side-cars. Lazy mode is the
-      // only place `persistedIndexes` is populated; eager mode uses the
-      // in-memory `CollectionIndexes` above.
-      await this.maintainPersistedIndexesOnPut(id, record, existing ? existing.record : null, version)
-    } else {
-      this.cache.set(id, { record, version })
-      // Update secondary indexes incrementally — no-op if no indexes are
-      // declared. Pass the previous record (if any) so old buckets are
-      // cleaned up before the new value is added.
-      this.indexes?.upsert(id, record, existing ? existing.record : null)
-    }
-
     await this.onDirty?.(this.name, id, 'put', version)
 
     this.emitter.emit('change', {
@@ -1282,21 +1287,6 @@ export class Collection<T> {
 
     await this.adapter.delete(this.vault, this.name, id)
 
-    // Ledger append — same after-write timing as put(). The recorded
-    // version is the version that WAS deleted (existing?.version), not
-    // a successor. A delete of a missing record still appends an
-    // entry with version 0 so the chain captures the intent.
-    if (this.ledger) {
-      await this.ledger.append({
-        op: 'delete',
-        collection: this.name,
-        id,
-        version: existing?.version ?? 0,
-        actor: this.keyring.userId,
-        payloadHash: previousPayloadHash,
-      })
-    }
-
     if (this.lazy && this.lru) {
       this.writeGeneration++
       this.lru.remove(id)
@@ -1315,6 +1305,21 @@ export class Collection<T> {
       }
     }
 
+    // Ledger append — same after-write timing as put(). The recorded
+    // version is the version that WAS deleted (existing?.version), not
+    // a successor. A delete of a missing record still appends an
+    // entry with version 0 so the chain captures the intent.
+    if (this.ledger) {
+      await this.ledger.append({
+        op: 'delete',
+        collection: this.name,
+        id,
+        version: existing?.version ?? 0,
+        actor: this.keyring.userId,
+        payloadHash: previousPayloadHash,
+      })
+    }
+
     await this.onDirty?.(this.name, id, 'delete', existing?.version ?? 0)
 
     this.emitter.emit('change', {
-- 
2.43.0


From 2ac1d8c482336a255c756eccc65477362724466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:19:58 +0000
Subject: [PATCH 07/87] fix: roll failed transactions and atomic batches back
 for readers too, one commit at a time

---
 packages/hub/src/collection.ts     | 52 ++++++++++++++++++++++++------
 packages/hub/src/tx/commit-lock.ts | 22 +++++++++++++
 packages/hub/src/tx/transaction.ts | 33 ++++++++++---------
 3 files changed, 82 insertions(+), 25 deletions(-)
 create mode 100644 packages/hub/src/tx/commit-lock.ts

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 1424159..0b885fa 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -2,6 +2,7 @@ import type { NoydbStore, EncryptedEnvelope, ChangeEvent, HistoryConfig, History
 import { NOYDB_FORMAT_VERSION } from './types.js'
 import type { CrdtMode, CrdtState, LwwMapState, RgaState } from './crdt/crdt.js'
 import { NO_CRDT, type CrdtStrategy } from './crdt/strategy.js'
+import { withCommitLock } from './tx/commit-lock.js'
 import type { I18nTextDescriptor } from './i18n/core.js'
 import type { DictKeyDescriptor } from './i18n/dictionary.js'
 import { NO_I18N, type I18nStrategy } from './i18n/strategy.js'
@@ -1388,7 +1389,7 @@ export class Collection<T> {
     options?: PutManyOptions,
   ): Promise<PutManyResult> {
     if (options?.atomic) {
-      return this.putManyAtomic(entries)
+      return withCommitLock(this.adapter, () => this.putManyAtomic(entries))
     }
     const success: string[] = []
     const failures: Array<{ id: string; error: Error }> = []
@@ -1434,24 +1435,57 @@ export class Collection<T> {
       }
     }
     // Phase 2 — execute; revert on failure.
-    const executed: Array<{ id: string; prior: EncryptedEnvelope | null }> = []
+    const started = new Set<string>()
     try {
       for (const [id, record] of entries) {
+        started.add(id)
         await this.put(id, record)
-        executed.push({ id, prior: priors.get(id) ?? null })
       }
-      return { ok: true, success: executed.map((e) => e.id), failures: [] }
+      return { ok: true, success: entries.map(([id]) => id), failures: [] }
     } catch (err) {
-      for (const { id, prior } of executed.slice().reverse()) {
-        try {
-          if (prior) await this.adapter.put(this.vault, this.name, id, prior)
-          else await this.adapter.delete(this.vault, this.name, id)
-        } catch { /* best-effort */ }
+      for (const id of [...started].reverse()) {
+        await this._restore(id, priors.get(id) ?? null).catch(() => { /* best-effort */ })
       }
       throw err
     }
   }
 
+  /**
+   * Put one record back to a previously captured envelope (`null` = absent)
+   * and bring the cache and indexes back in line with it. Used to roll back
+   * atomic batches and transactions; no events, history or ledger entries.
+   *
+   * @internal
+   */
+  async _restore(id: string, prior: EncryptedEnvelope | null): Promise<void> {
+    await this.serializeWrite(id, async () => {
+      const current = await this.adapter.get(this.vault, this.name, id)
+      if (current?._v === prior?._v && current?._iv === prior?._iv && current?._data === prior?._data) return
+
+      if (prior) await this.adapter.put(this.vault, this.name, id, prior)
+      else await this.adapter.delete(this.vault, this.name, id)
+
+      const priorRecord = prior ? await this.decryptRecord(prior, { skipValidation: true }) : null
+      if (this.lazy && this.lru) {
+        this.writeGeneration++
+        this.lru.remove(id)
+        const currentRecord = current ? await this.decryptRecord(current, { skipValidation: true }) : null
+        if (prior) await this.maintainPersistedIndexesOnPut(id, priorRecord as T, currentRecord, prior._v)
+        else if (currentRecord !== null) await this.maintainPersistedIndexesOnDelete(id, currentRecord)
+        return
+      }
+      await this.ensureHydrated().catch(() => {})
+      const cached = this.cache.get(id)
+      if (prior) {
+        this.cache.set(id, { record: priorRecord as T, version: prior._v })
+        this.indexes?.upsert(id, priorRecord as T, cached ? cached.record : null)
+      } else {
+        this.cache.delete(id)
+        if (cached) this.indexes?.remove(id, cached.record)
+      }
+    })
+  }
+
   /**
    * Get many records in one call. Returns a `Map<id, T | null>` —
    * missing records surface as `null` entries so the caller can
diff --git a/packages/hub/src/tx/commit-lock.ts b/packages/hub/src/tx/commit-lock.ts
new file mode 100644
index 0000000..ad4071c
--- /dev/null
+++ b/packages/hub/src/tx/commit-lock.ts
@@ -0,0 +1,22 @@
+/**
+ * Per-store commit queue shared by `db.transaction()` and
+ * `Collection.putMany({ atomic: true })`.
+ *
+ * Version pre-conditions are checked before the first write, so two
+ * overlapping commits could both pass the check and overwrite each other.
+ * Running the check-and-write part of one commit at a time closes that gap
+ * for commits made in the same process.
+ *
+ * @module
+ */
+
+import type { NoydbStore } from '../types.js'
+
+const commitTails = new WeakMap<NoydbStore, Promise<unknown>>()
+
+/** Run `commit` after every earlier commit against `store` has settled. */
+export function withCommitLock<R>(store: NoydbStore, commit: () => Promise<R>): Promise<R> {
+  const run = (commitTails.get(store) ?? Promise.resolve()).then(commit, commit)
+  commitTails.set(store, run.catch(() => {}))
+  return run
+}
diff --git a/packages/hub/src/tx/transaction.ts b/packages/hub/src/tx/transaction.ts
index e24d6b6..060c323 100644
--- a/packages/hub/src/tx/transaction.ts
+++ b/packages/hub/src/tx/transaction.ts
@@ -26,9 +26,9 @@
  * 2. **Execute** — calls `Collection.put()` / `.delete()` for each
  *    staged op in declaration order. History snapshots, ledger
  *    appends, and change events fire as normal per op.
- * 3. **Unwind on failure** — if step 2 throws mid-batch, each
- *    already-committed op is reverted via the raw store (restoring
- *    the captured prior envelope, or deleting if none existed). The
+ * 3. **Unwind on failure** — if step 2 throws mid-batch, each op
+ *    started so far is reverted (restoring the captured prior envelope,
+ *    or deleting if none existed, in the store and the caches). The
  *    ledger is NOT rewritten — audit history preserves the partial
  *    commit and the revert.
  *
@@ -62,6 +62,7 @@ import type { Vault } from '../vault.js'
 import type { Collection } from '../collection.js'
 import type { EncryptedEnvelope } from '../types.js'
 import { ConflictError } from '../errors.js'
+import { withCommitLock } from './commit-lock.js'
 
 /** One op buffered inside a running `TxContext`. @internal */
 interface StagedOp {
@@ -205,6 +206,12 @@ export async function runTransaction<T>(
 
   if (ctx._ops.length === 0) return bodyResult
 
+  await withCommitLock(db._store, () => commitStaged(db, ctx))
+  return bodyResult
+}
+
+/** Pre-flight, execute and (on failure) revert the staged ops. */
+async function commitStaged(db: Noydb, ctx: TxContext): Promise<void> {
   // Phase 1 — pre-flight: snapshot every touched envelope and enforce
   // any caller-supplied expectedVersion. Same (vault, coll, id) touched
   // more than once in one tx snapshots only the *initial* committed
@@ -233,39 +240,33 @@ export async function runTransaction<T>(
   // Phase 2 — execute via the Collection layer so history snapshots,
   // ledger entries, and change events fire normally. We capture each
   // successful op so a mid-batch throw can revert in Phase 3.
-  const executed: Array<{ op: StagedOp; priorEnvelope: EncryptedEnvelope | null }> = []
+  const started = new Map<string, StagedOp>()
   try {
     for (const op of ctx._ops) {
       const coll = db.vault(op.vaultName).collection(op.collectionName)
-      const key = keyOf(op)
-      const prior = priorEnvelopes.get(key) ?? null
+      started.set(keyOf(op), op)
       if (op.type === 'put') {
         // eslint-disable-next-line @typescript-eslint/no-explicit-any
         await coll.put(op.id, op.record as any)
       } else {
         await coll.delete(op.id)
       }
-      executed.push({ op, priorEnvelope: prior })
     }
-    return bodyResult
   } catch (err) {
     // Phase 3 — best-effort revert. Restore captured prior envelopes
-    // via the raw store to avoid re-firing Collection-level side
+    // below the event layer to avoid re-firing Collection-level side
     // effects (we don't want a cascade of change events undoing
-    // themselves). The ledger is left as-is: each committed op
+    // themselves). The op that failed is included: it may have reached
+    // the store before a later step threw. The ledger is left as-is: each committed op
     // appended an entry; the revert is deliberately not recorded as a
     // compensating entry because #240's contract is "atomic or not at
     // all" from the caller's view, not "every write visible in the
     // audit trail." Auditors who need the intermediate state can still
     // reconstruct it by walking the ledger through the failed-tx
     // timestamp.
-    for (const { op, priorEnvelope } of executed.slice().reverse()) {
+    for (const [key, op] of [...started].reverse()) {
       try {
-        if (priorEnvelope) {
-          await store.put(op.vaultName, op.collectionName, op.id, priorEnvelope)
-        } else {
-          await store.delete(op.vaultName, op.collectionName, op.id)
-        }
+        await db.vault(op.vaultName).collection(op.collectionName)._restore(op.id, priorEnvelopes.get(key) ?? null)
       } catch {
         // swallow — best-effort. Surfacing the revert error would
         // mask the original one that triggered the rollback.
-- 
2.43.0


From d8086bdee5ee545960157f0be56db5a3a5ee865d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:08 +0000
Subject: [PATCH 08/87] fix: make indexed, lazy and scanned queries agree on
 missing values, mixed types and composite indexes

---
 packages/hub/src/collection.ts                | 67 ++++++++++---------
 packages/hub/src/indexing/lazy-builder.ts     | 30 +++++++--
 .../hub/src/indexing/persisted-indexes.ts     |  3 +
 packages/hub/src/query/builder.ts             | 37 +++++-----
 4 files changed, 83 insertions(+), 54 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 0b885fa..7121a78 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -1258,7 +1258,8 @@ export class Collection<T> {
     let existing: { record: T; version: number } | undefined
     if (this.lazy && this.lru) {
       existing = this.lru.get(id)
-      if (!existing && this.historyConfig.enabled !== false) {
+      const indexed = (this.persistedIndexes?.fields().length ?? 0) > 0
+      if (!existing && (this.historyConfig.enabled !== false || indexed)) {
         const previousEnvelope = await this.adapter.get(this.vault, this.name, id)
         if (previousEnvelope) {
           const previousRecord = await this.decryptRecord(previousEnvelope)
@@ -2065,36 +2066,27 @@ export class Collection<T> {
     const fields = persisted.fields()
     if (fields.length === 0) return
 
-    // 1. Collect canonical ids (skip every reserved-namespace id —
-    //    `_idx/`, `_keyring`, `_history/`, `_ledger_deltas/`, `_meta/`,
-    //    `_ledger`, `_blob_`, etc. User records may not start with `_`
-    //    per the monorepo convention used across the hub).
-    const allIds = await this.adapter.list(this.vault, this.name)
-    const canonicalIds: string[] = []
-    const staleIdxIds: string[] = []
-    for (const id of allIds) {
-      if (decodeIdxId(id)) {
-        staleIdxIds.push(id)
-      } else if (!id.startsWith('_')) {
-        canonicalIds.push(id)
-      }
-    }
-
-    // 2. Drop every existing side-car. Errors here are tolerated — the
+    // 1. Drop every existing side-car. Errors here are tolerated — the
     //    next step overwrites any remnants. If a side-car is for a
     //    field that is no longer declared, the delete still removes
-    //    the stale row from storage.
-    for (const id of staleIdxIds) {
+    //    the stale row from storage. The mirror is cleared first so that
+    //    writes made while the rebuild runs keep their entries.
+    persisted.clear()
+    for (const id of await this.adapter.list(this.vault, this.name)) {
+      if (!decodeIdxId(id)) continue
       try { await this.adapter.delete(this.vault, this.name, id) } catch { /* ignore */ }
     }
-    persisted.clear()
+
+    // 2. Collect canonical ids (skip every reserved-namespace id —
+    //    `_idx/`, `_keyring`, `_history/`, `_ledger_deltas/`, `_meta/`,
+    //    `_ledger`, `_blob_`, etc. User records may not start with `_`
+    //    per the monorepo convention used across the hub).
+    const canonicalIds = (await this.adapter.list(this.vault, this.name))
+      .filter(id => !id.startsWith('_'))
 
     // 3. Walk records and write fresh side-cars for every declared field.
     for (const recordId of canonicalIds) {
-      const envelope = await this.adapter.get(this.vault, this.name, recordId)
-      if (!envelope) continue
-      const record = await this.decryptRecord(envelope, { skipValidation: true })
-      await this.maintainPersistedIndexesOnPut(recordId, record, null, envelope._v)
+      await this.reindexRecord(recordId)
     }
 
     this.persistedIndexesLoaded = true
@@ -2135,7 +2127,8 @@ export class Collection<T> {
         `Pass \`withIndexing()\` from "@noy-db/hub/indexing" to \`createNoydb({ indexStrategy })\`.`,
       )
     }
-    if (!persisted.has(field)) {
+    const def = persisted.definitions().find(d => d.key === field)
+    if (!def) {
       throw new Error(
         `Collection "${this.name}": field "${field}" is not declared in indexes. ` +
         `Declare it in the collection options before reconciling.`,
@@ -2167,26 +2160,26 @@ export class Collection<T> {
     // Walk canonical records and compare against side-car state.
     const missing: string[] = []
     const stale: string[] = []
-    const fixesPut: Array<{ recordId: string; record: T; version: number }> = []
+    const fixesPut: string[] = []
     for (const id of allIds) {
       if (decodeIdxId(id)) continue
       if (id.startsWith('_')) continue
       const env = await this.adapter.get(this.vault, this.name, id)
       if (!env) continue
       const record = await this.decryptRecord(env, { skipValidation: true })
-      const live = readPersistedValue(record as unknown as Record<string, unknown>, field)
+      const live = extractIndexValue(record as unknown as Record<string, unknown>, def)
       const stored = sidecar.get(id)
       const hasSidecar = sidecarIds.has(id)
       const indexable = live !== null && live !== undefined
 
       if (indexable && !hasSidecar) {
         missing.push(id)
-        fixesPut.push({ recordId: id, record, version: env._v })
+        fixesPut.push(id)
       } else if (indexable && hasSidecar && !valuesMatch(stored, live)) {
         // Side-car body drifted from live value (e.g. partial write
         // after an update). Rewrite so lookups agree with reality.
         missing.push(id)
-        fixesPut.push({ recordId: id, record, version: env._v })
+        fixesPut.push(id)
       } else if (!indexable && hasSidecar) {
         // Record exists but its value is no longer indexable (null/
         // undefined). The side-car is stale.
@@ -2205,8 +2198,8 @@ export class Collection<T> {
           applied++
         } catch { /* ignore — next reconcile picks it up */ }
       }
-      for (const fix of fixesPut) {
-        await this.maintainPersistedIndexesOnPut(fix.recordId, fix.record, null, fix.version)
+      for (const id of fixesPut) {
+        await this.reindexRecord(id)
         applied++
       }
       // In-memory mirror is authoritative for query dispatch — make
@@ -2345,6 +2338,16 @@ export class Collection<T> {
    * Used by both the normal record path and the CRDT path (which serialises
    * a CrdtState rather than a T).
    */
+  /** Rewrite one record's side-cars from the record as stored right now. */
+  private async reindexRecord(id: string): Promise<void> {
+    await this.serializeWrite(id, async () => {
+      const envelope = await this.adapter.get(this.vault, this.name, id)
+      if (!envelope) return
+      const record = await this.decryptRecord(envelope, { skipValidation: true })
+      await this.maintainPersistedIndexesOnPut(id, record, null, envelope._v)
+    })
+  }
+
   /**
    * Write / update / delete the `_idx/<field>/<recordId>` side-cars for
    * every declared persistence-index field on this collection after a
@@ -2599,6 +2602,8 @@ export class Collection<T> {
       persistedIndexes: persisted,
       ensurePersistedIndexesLoaded: () => this.ensurePersistedIndexesLoaded(),
       getRecord: (id: string) => this.get(id),
+      listIds: async () =>
+        (await this.adapter.list(this.vault, this.name)).filter(id => !decodeIdxId(id)),
     }
     return new LazyQuery<T>(source)
   }
diff --git a/packages/hub/src/indexing/lazy-builder.ts b/packages/hub/src/indexing/lazy-builder.ts
index 334b2d9..2b4f672 100644
--- a/packages/hub/src/indexing/lazy-builder.ts
+++ b/packages/hub/src/indexing/lazy-builder.ts
@@ -44,6 +44,11 @@ export interface LazyQuerySource<T> {
   ensurePersistedIndexesLoaded(): Promise<void>
   /** Decrypt one record by id, or return null if it's gone. */
   getRecord(id: string): Promise<T | null>
+  /**
+   * Ids of every record in the collection. Needed for queries that can match
+   * records without a value for the indexed field — those have no side-car.
+   */
+  listIds?(): Promise<readonly string[]>
 }
 
 interface LazyPlan {
@@ -105,7 +110,7 @@ export class LazyQuery<T> {
       })
     }
 
-    const candidateIds = this.resolveCandidateIds()
+    const candidateIds = await this.resolveCandidateIds()
     if (candidateIds === null) {
       // No usable driver — every touched field is indexed but no clause
       // pins the candidate set. This happens when a query only uses
@@ -155,7 +160,7 @@ export class LazyQuery<T> {
    * clause that can scope the scan. Callers interpret null as
    * IndexRequiredError (see `toArray`).
    */
-  private resolveCandidateIds(): readonly string[] | null {
+  private async resolveCandidateIds(): Promise<readonly string[] | null> {
     const idx = this.source.persistedIndexes
 
     // prefer a composite index when the query's `==`
@@ -169,7 +174,7 @@ export class LazyQuery<T> {
     if (eqMap.size >= 2) {
       for (const def of idx.definitions()) {
         if (def.kind !== 'composite') continue
-        if (def.fields.every(f => eqMap.has(f))) {
+        if (def.fields.every(f => !isNullish(eqMap.get(f)))) {
           const tuple = def.fields.map(f => eqMap.get(f))
           const ids = idx.lookupEqual(def.key, tuple)
           if (ids) return [...ids]
@@ -179,9 +184,11 @@ export class LazyQuery<T> {
 
     for (const clause of this.plan.clauses) {
       if (clause.op === '==') {
+        if (isNullish(clause.value)) continue
         const ids = idx.lookupEqual(clause.field, clause.value)
         if (ids) return [...ids]
       } else if (clause.op === 'in' && Array.isArray(clause.value)) {
+        if ((clause.value as readonly unknown[]).some(isNullish)) continue
         const ids = idx.lookupIn(clause.field, clause.value as readonly unknown[])
         if (ids) return [...ids]
       } else if (isRangeOp(clause.op)) {
@@ -193,11 +200,22 @@ export class LazyQuery<T> {
       }
     }
 
+    // Clauses selecting records that have no value for an indexed field:
+    // the index does not list those records, so start from every id.
+    const selectsMissing = this.plan.clauses.some(c =>
+      (c.op === '==' && isNullish(c.value)) ||
+      (c.op === 'in' && Array.isArray(c.value) && (c.value as readonly unknown[]).some(isNullish)))
+    if (selectsMissing && this.source.listIds) return this.source.listIds()
+
     // No equality/range driver — try to scope via orderBy.
     if (this.plan.orderBy.length > 0) {
       const primary = this.plan.orderBy[0]!
       const entries = idx.orderedBy(primary.field, primary.direction)
-      if (entries) return entries.map(e => e.recordId)
+      if (entries) {
+        const ordered = new Set(entries.map(e => e.recordId))
+        if (this.source.listIds) for (const id of await this.source.listIds()) ordered.add(id)
+        return [...ordered]
+      }
     }
 
     return null
@@ -220,6 +238,10 @@ function isFieldIndexed(field: string, idx: PersistedCollectionIndex): boolean {
   return false
 }
 
+function isNullish(value: unknown): boolean {
+  return value === null || value === undefined
+}
+
 function isRangeOp(op: Operator): op is '<' | '<=' | '>' | '>=' | 'between' {
   return op === '<' || op === '<=' || op === '>' || op === '>=' || op === 'between'
 }
diff --git a/packages/hub/src/indexing/persisted-indexes.ts b/packages/hub/src/indexing/persisted-indexes.ts
index 7cf0f72..92890ad 100644
--- a/packages/hub/src/indexing/persisted-indexes.ts
+++ b/packages/hub/src/indexing/persisted-indexes.ts
@@ -211,6 +211,9 @@ export class PersistedCollectionIndex {
     const state = this.indexes.get(field)
     if (!state) return
     for (const row of rows) {
+      // An entry that is already there came from a write made while the
+      // rows were being read, so it is newer.
+      if (state.values.has(row.recordId)) continue
       addToState(state, row.recordId, row.value)
     }
   }
diff --git a/packages/hub/src/query/builder.ts b/packages/hub/src/query/builder.ts
index 9f631ee..58f0a42 100644
--- a/packages/hub/src/query/builder.ts
+++ b/packages/hub/src/query/builder.ts
@@ -362,8 +362,8 @@ export class Query<T> {
    * intent is purely to count.
    */
   count(): number {
-    // Use the same index-aware candidate machinery as toArray(); skip the
-    // index-driving clause from re-evaluation. The length BEFORE limit/offset
+    // Use the same index-aware candidate machinery as toArray().
+    // The length BEFORE limit/offset
     // is what `count()` documents.
     const { candidates, remainingClauses } = candidateRecords(this.source, this.plan.clauses)
     if (remainingClauses.length === 0) return candidates.length
@@ -670,10 +670,8 @@ export class Query<T> {
  */
 function executePlanWithSource(source: InternalSource, plan: QueryPlan): unknown[] {
   const { candidates, remainingClauses } = candidateRecords(source, plan.clauses)
-  // Only the clauses NOT consumed by the index need re-evaluation. This is
-  // the key optimization that makes indexed queries dominate linear scans:
-  // for a single-clause query against an indexed field, `remainingClauses`
-  // is empty and we skip the per-record predicate evaluation entirely.
+  // An index narrows the candidates to (a superset of) the matches of its
+  // clause, so only that small set is evaluated instead of every record.
   let result = remainingClauses.length === 0
     ? [...candidates]
     : filterRecords(candidates, remainingClauses)
@@ -692,7 +690,7 @@ function executePlanWithSource(source: InternalSource, plan: QueryPlan): unknown
 interface CandidateResult {
   /** The reduced candidate set, materialized to record objects. */
   readonly candidates: readonly unknown[]
-  /** The clauses that the index could not satisfy and must still be evaluated. */
+  /** The clauses that must still be evaluated against the candidates. */
   readonly remainingClauses: readonly Clause[]
 }
 
@@ -701,9 +699,7 @@ interface CandidateResult {
  *
  * Strategy: scan the top-level clauses for the FIRST `==` or `in` clause
  * against an indexed field. If found, use the index to materialize a
- * candidate set and return the OTHER clauses as `remainingClauses`. The
- * caller skips re-evaluating the index-driving clause because the index
- * is authoritative for that field.
+ * candidate set; every clause is then evaluated against that set.
  *
  * This is a deliberately simple planner. A future optimizer could pick
  * the most selective index, intersect multiple indexes, or push composite
@@ -724,22 +720,21 @@ function candidateRecords(source: InternalSource, clauses: readonly Clause[]): C
     if (!indexes.has(clause.field)) continue
 
     let ids: ReadonlySet<string> | null = null
-    if (clause.op === '==') {
+    // Records without a value for the field are not in the index, so
+    // clauses that can match them need the full scan.
+    if (clause.op === '==' && !isNullish(clause.value)) {
       ids = indexes.lookupEqual(clause.field, clause.value)
-    } else if (clause.op === 'in' && Array.isArray(clause.value)) {
+    } else if (clause.op === 'in' && Array.isArray(clause.value) && !clause.value.some(isNullish)) {
       ids = indexes.lookupIn(clause.field, clause.value)
     }
 
     if (ids !== null) {
-      // Found an index-eligible clause: materialize the candidate set and
-      // remove this clause from the remaining list.
-      const remaining: Clause[] = []
-      for (let j = 0; j < clauses.length; j++) {
-        if (j !== i) remaining.push(clauses[j]!)
-      }
+      // Found an index-eligible clause: materialize the candidate set.
+      // The clause itself is still evaluated, because bucket keys are
+      // stringified and can collide across types (42 vs '42').
       return {
         candidates: materializeIds(ids, lookupById),
-        remainingClauses: remaining,
+        remainingClauses: clauses,
       }
     }
     // Not index-eligible — keep scanning in case a later clause is a
@@ -750,6 +745,10 @@ function candidateRecords(source: InternalSource, clauses: readonly Clause[]): C
   return { candidates: source.snapshot(), remainingClauses: clauses }
 }
 
+function isNullish(value: unknown): boolean {
+  return value === null || value === undefined
+}
+
 function materializeIds(
   ids: ReadonlySet<string>,
   lookupById: (id: string) => unknown,
-- 
2.43.0


From eb9b32f794bbbcb11a5654540b98d3f0b373ee4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:59:53 +0000
Subject: [PATCH 09/87] fix: give index buckets a type so plain lookups need no
 second evaluation

---
 packages/hub/src/indexing/eager-indexes.ts |  4 ++--
 packages/hub/src/query/builder.ts          | 22 ++++++++++++++++------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/packages/hub/src/indexing/eager-indexes.ts b/packages/hub/src/indexing/eager-indexes.ts
index 54f3440..7434303 100644
--- a/packages/hub/src/indexing/eager-indexes.ts
+++ b/packages/hub/src/indexing/eager-indexes.ts
@@ -173,9 +173,9 @@ const EMPTY_SET: ReadonlySet<string> = new Set()
  */
 function stringifyKey(value: unknown): string {
   if (value === null || value === undefined) return '\0NULL\0'
-  if (typeof value === 'string') return value
+  if (typeof value === 'string') return `s:${value}`
   if (typeof value === 'number' || typeof value === 'boolean') return String(value)
-  if (value instanceof Date) return value.toISOString()
+  if (value instanceof Date) return `d:${value.toISOString()}`
   return '\0OBJECT\0'
 }
 
diff --git a/packages/hub/src/query/builder.ts b/packages/hub/src/query/builder.ts
index 58f0a42..e003bfa 100644
--- a/packages/hub/src/query/builder.ts
+++ b/packages/hub/src/query/builder.ts
@@ -670,8 +670,10 @@ export class Query<T> {
  */
 function executePlanWithSource(source: InternalSource, plan: QueryPlan): unknown[] {
   const { candidates, remainingClauses } = candidateRecords(source, plan.clauses)
-  // An index narrows the candidates to (a superset of) the matches of its
-  // clause, so only that small set is evaluated instead of every record.
+  // Only the clauses NOT consumed by the index need re-evaluation. This is
+  // the key optimization that makes indexed queries dominate linear scans:
+  // for a single-clause query against an indexed field, `remainingClauses`
+  // is empty and we skip the per-record predicate evaluation entirely.
   let result = remainingClauses.length === 0
     ? [...candidates]
     : filterRecords(candidates, remainingClauses)
@@ -699,7 +701,7 @@ interface CandidateResult {
  *
  * Strategy: scan the top-level clauses for the FIRST `==` or `in` clause
  * against an indexed field. If found, use the index to materialize a
- * candidate set; every clause is then evaluated against that set.
+ * candidate set, and return the clauses still to be evaluated on it.
  *
  * This is a deliberately simple planner. A future optimizer could pick
  * the most selective index, intersect multiple indexes, or push composite
@@ -730,11 +732,15 @@ function candidateRecords(source: InternalSource, clauses: readonly Clause[]): C
 
     if (ids !== null) {
       // Found an index-eligible clause: materialize the candidate set.
-      // The clause itself is still evaluated, because bucket keys are
-      // stringified and can collide across types (42 vs '42').
+      // For plain values the bucket holds exactly the matches and the
+      // clause is done; objects and dates share buckets, so it is still
+      // evaluated for those.
+      const operands = clause.op === 'in' ? (clause.value as readonly unknown[]) : [clause.value]
       return {
         candidates: materializeIds(ids, lookupById),
-        remainingClauses: clauses,
+        remainingClauses: operands.every(isPlainValue)
+          ? clauses.filter((_, j) => j !== i)
+          : clauses,
       }
     }
     // Not index-eligible — keep scanning in case a later clause is a
@@ -749,6 +755,10 @@ function isNullish(value: unknown): boolean {
   return value === null || value === undefined
 }
 
+function isPlainValue(value: unknown): boolean {
+  return typeof value === 'string' || typeof value === 'boolean' || (typeof value === 'number' && !Number.isNaN(value))
+}
+
 function materializeIds(
   ids: ReadonlySet<string>,
   lookupById: (id: string) => unknown,
-- 
2.43.0


From d83d331e5769b9503dd0720f1b8dba6b364173c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:19 +0000
Subject: [PATCH 10/87] fix: plan and check a whole cascading delete first, by
 record key and in lazy collections too

---
 packages/hub/src/collection.ts |  51 ++++++++++++----
 packages/hub/src/vault.ts      | 105 ++++++++++++++-------------------
 2 files changed, 81 insertions(+), 75 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 7121a78..b6b0833 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -1215,6 +1215,29 @@ export class Collection<T> {
 
   /** Delete a record by ID. */
   async delete(id: string): Promise<void> {
+    await this._assertDeletable(id)
+
+    // Foreign-key ref enforcement on delete. Runs BEFORE
+    // the adapter delete so a `strict` inbound ref with existing
+    // references blocks the delete entirely (no partial state, no
+    // history churn, no ledger entry for a rejected op). `cascade`
+    // deletes the referencing records first, then falls
+    // through to the normal delete path below. `warn` is a no-op
+    // here — violations surface through `checkIntegrity()`.
+    if (this.refEnforcer !== undefined) {
+      await this.refEnforcer.enforceRefsOnDelete(this.name, id)
+    }
+
+    await this._deleteChecked(id)
+  }
+
+  /** Remove a record whose checks have all passed. @internal */
+  _deleteChecked(id: string): Promise<void> {
+    return this.serializeWrite(id, () => this.commitDelete(id))
+  }
+
+  /** Throw unless this record may be deleted, references aside. @internal */
+  async _assertDeletable(id: string): Promise<void> {
     if (!hasWritePermission(this.keyring, this.name)) {
       throw new ReadOnlyError()
     }
@@ -1236,19 +1259,6 @@ export class Collection<T> {
         null,
       )
     }
-
-    // Foreign-key ref enforcement on delete. Runs BEFORE
-    // the adapter delete so a `strict` inbound ref with existing
-    // references blocks the delete entirely (no partial state, no
-    // history churn, no ledger entry for a rejected op). `cascade`
-    // recursively deletes the referencing records first, then falls
-    // through to the normal delete path below. `warn` is a no-op
-    // here — violations surface through `checkIntegrity()`.
-    if (this.refEnforcer !== undefined) {
-      await this.refEnforcer.enforceRefsOnDelete(this.name, id)
-    }
-
-    await this.serializeWrite(id, () => this.commitDelete(id))
   }
 
   /** Storage half of {@link delete}: everything after the checks passed. */
@@ -1357,6 +1367,21 @@ export class Collection<T> {
     return Promise.all(records.map(r => this.applyLocaleToRecord(r, locale)))
   }
 
+  /** Every record with its id, in eager and lazy mode alike. @internal */
+  async _entries(): Promise<Array<{ id: string; record: T }>> {
+    if (!this.lazy) {
+      await this.ensureHydrated()
+      return [...this.cache].map(([id, entry]) => ({ id, record: entry.record }))
+    }
+    const out: Array<{ id: string; record: T }> = []
+    for (const id of await this.adapter.list(this.vault, this.name)) {
+      if (decodeIdxId(id)) continue
+      const envelope = await this.adapter.get(this.vault, this.name, id)
+      if (envelope) out.push({ id, record: await this.decryptRecord(envelope) })
+    }
+    return out
+  }
+
   // ─── Bulk operations ─────────────────────────────────────
 
   /**
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index dda8f9c..104a294 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -175,16 +175,6 @@ export class Vault {
    */
   private readonly refRegistry = new RefRegistry()
 
-  /**
-   * Set of collection record-ids currently being deleted as part of
-   * a cascade. Populated on entry to `enforceRefsOnDelete` and
-   * drained on exit. Used to break mutual-cascade cycles: deleting
-   * A → cascade to B → cascade back to A would otherwise recurse
-   * forever, so we short-circuit when we see an already-in-progress
-   * delete on the same (collection, id) pair.
-   */
-  private readonly cascadeInProgress = new Set<string>()
-
   /**
    * Vault-default locale. Set via
    * `openVault(name, { locale })`. Used as the fallback locale
@@ -626,8 +616,7 @@ export class Vault {
             if (fields.length === 0) continue
 
             const coll = this.collection<Record<string, unknown>>(collectionName)
-            const records = await coll.list()
-            for (const record of records) {
+            for (const { id, record } of await coll._entries()) {
               let changed = false
               const updated = { ...record }
               for (const field of fields) {
@@ -636,12 +625,7 @@ export class Vault {
                   changed = true
                 }
               }
-              if (changed) {
-                const id = (record['id'] as string | undefined)
-                if (id !== undefined) {
-                  await coll.put(id, updated)
-                }
-              }
+              if (changed) await coll.put(id, updated)
             }
           }
         },
@@ -1039,60 +1023,59 @@ export class Vault {
    *   - `cascade`: deletes every referencing record
    *   - `warn`:    no-op (checkIntegrity picks it up)
    *
-   * Cascade cycles are broken via `cascadeInProgress` — re-entering
-   * for the same (collection, id) returns immediately so two
-   * mutually-cascading collections don't recurse forever.
+   * The whole cascade is worked out and checked before the first record
+   * is deleted, so a refused delete leaves everything in place. A record
+   * is only ever planned once, which also ends mutual-cascade cycles.
    */
   async enforceRefsOnDelete(collectionName: string, id: string): Promise<void> {
-    const key = `${collectionName}/${id}`
-    if (this.cascadeInProgress.has(key)) return
-    this.cascadeInProgress.add(key)
+    const planned = new Set<string>([JSON.stringify([collectionName, id])])
+    const doomed: Array<{ key: string; collection: Collection<Record<string, unknown>>; id: string }> = []
+    const blockers: Array<{ key: string; error: RefIntegrityError }> = []
 
-    try {
-      const inbound = this.refRegistry.getInbound(collectionName)
-      for (const rule of inbound) {
+    const plan = async (targetCollection: string, targetId: string): Promise<void> => {
+      for (const rule of this.refRegistry.getInbound(targetCollection)) {
+        if (rule.mode === 'warn') continue
         const fromCollection = this.collection<Record<string, unknown>>(rule.collection)
-        // Scan the referencing collection for records whose ref
-        // field matches this id. For eager-mode collections this
-        // is an in-memory filter; for lazy-mode it requires a scan.
-        const allRecords = await fromCollection.list()
-        const matches = allRecords.filter((rec) => {
-          const raw = rec[rule.field]
+        const matches = (await fromCollection._entries()).filter(({ record }) => {
+          const raw = record[rule.field]
           // Same string/number-only restriction as enforceRefsOnPut.
           // Anything else can't have been a valid ref to begin with,
           // so it can't match.
           if (typeof raw !== 'string' && typeof raw !== 'number') return false
-          return String(raw) === id
+          return String(raw) === targetId
         })
-        if (matches.length === 0) continue
-
-        if (rule.mode === 'strict') {
-          const first = matches[0]
-          throw new RefIntegrityError({
-            collection: rule.collection,
-            id: (first?.['id'] as string | undefined) ?? '<unknown>',
-            field: rule.field,
-            refTo: collectionName,
-            refId: id,
-            message:
-              `Cannot delete "${collectionName}"/"${id}": ` +
-              `${matches.length} record(s) in "${rule.collection}" still reference it via strict ref "${rule.field}".`,
-          })
-        }
-        if (rule.mode === 'cascade') {
-          for (const match of matches) {
-            const matchId = (match['id'] as string | undefined) ?? null
-            if (matchId === null) continue
-            // Recursive delete — the cycle breaker above catches
-            // infinite loops.
-            await fromCollection.delete(matchId)
+        for (const match of matches) {
+          const key = JSON.stringify([rule.collection, match.id])
+          if (rule.mode === 'strict') {
+            blockers.push({
+              key,
+              error: new RefIntegrityError({
+                collection: rule.collection,
+                id: match.id,
+                field: rule.field,
+                refTo: targetCollection,
+                refId: targetId,
+                message:
+                  `Cannot delete "${targetCollection}"/"${targetId}": ` +
+                  `${matches.length} record(s) in "${rule.collection}" still reference it via strict ref "${rule.field}".`,
+              }),
+            })
+          } else if (!planned.has(key)) {
+            planned.add(key)
+            await plan(rule.collection, match.id)
+            doomed.push({ key, collection: fromCollection, id: match.id })
           }
         }
-        // warn: no-op
       }
-    } finally {
-      this.cascadeInProgress.delete(key)
     }
+    await plan(collectionName, id)
+
+    for (const { key, error } of blockers) {
+      // A referencing record that goes away with the cascade blocks nothing.
+      if (!doomed.some(d => d.key === key)) throw error
+    }
+    for (const { collection, id: doomedId } of doomed) await collection._assertDeletable(doomedId)
+    for (const { collection, id: doomedId } of doomed) await collection._deleteChecked(doomedId)
   }
 
   // ─── Join resolver) ────────────────────
@@ -1161,9 +1144,7 @@ export class Vault {
     const violations: RefViolation[] = []
     for (const [collectionName, refs] of this.refRegistry.entries()) {
       const coll = this.collection<Record<string, unknown>>(collectionName)
-      const records = await coll.list()
-      for (const record of records) {
-        const recId = (record['id'] as string | undefined) ?? '<unknown>'
+      for (const { id: recId, record } of await coll._entries()) {
         for (const [field, descriptor] of Object.entries(refs)) {
           const rawId = record[field]
           if (rawId === null || rawId === undefined) continue
-- 
2.43.0


From 3484d2f132c8013c6ce16ff024eb19b2a6448cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:01 +0000
Subject: [PATCH 11/87] fix: keep the ledger chain whole under concurrent
 appends

Appends of one process could read the same head and claim the same slot on
stores without compare-and-set. They now queue up. Rebuilding a version
checks every delta against the hash in the ledger, and patches are computed
on the JSON form of the records, which is what storage keeps.
---
 packages/hub/src/history/ledger/patch.ts | 16 +++++++++-------
 packages/hub/src/history/ledger/store.ts | 20 +++++++++++++++++---
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/packages/hub/src/history/ledger/patch.ts b/packages/hub/src/history/ledger/patch.ts
index 90cf91e..451669d 100644
--- a/packages/hub/src/history/ledger/patch.ts
+++ b/packages/hub/src/history/ledger/patch.ts
@@ -76,7 +76,9 @@ export type JsonPatch = readonly JsonPatchOp[]
  */
 export function computePatch(prev: unknown, next: unknown): JsonPatch {
   const ops: JsonPatchOp[] = []
-  diff(prev, next, '', ops)
+  // Compare what would be stored: absent and undefined fields are the same,
+  // dates are strings.
+  diff(clone(prev), clone(next), '', ops)
   return ops
 }
 
@@ -127,7 +129,7 @@ function diff(
     // Handle removes and overlapping recursions in one pass over prev.
     for (const key of prevKeys) {
       const childPath = path + '/' + escapePathSegment(key)
-      if (!(key in nextObj)) {
+      if (!Object.hasOwn(nextObj, key)) {
         out.push({ op: 'remove', path: childPath })
       } else {
         diff(prevObj[key], nextObj[key], childPath, out)
@@ -135,7 +137,7 @@ function diff(
     }
     // Handle adds.
     for (const key of nextKeys) {
-      if (!(key in prevObj)) {
+      if (!Object.hasOwn(prevObj, key)) {
         out.push({
           op: 'add',
           path: path + '/' + escapePathSegment(key),
@@ -173,7 +175,7 @@ function deepEqual(a: unknown, b: unknown): boolean {
   const bKeys = Object.keys(bObj)
   if (aKeys.length !== bKeys.length) return false
   for (const key of aKeys) {
-    if (!(key in bObj)) return false
+    if (!Object.hasOwn(bObj, key)) return false
     if (!deepEqual(aObj[key], bObj[key])) return false
   }
   return true
@@ -249,7 +251,7 @@ function walkAndApply(
   }
   if (doc !== null && typeof doc === 'object') {
     const obj = doc as Record<string, unknown>
-    if (!(head in obj)) {
+    if (!Object.hasOwn(obj, head)) {
       throw new Error(`applyPatch: path segment "${head}" not found in object`)
     }
     const newChild = walkAndApply(obj[head], rest, op)
@@ -290,7 +292,7 @@ function applyAtTerminal(
   if (doc !== null && typeof doc === 'object') {
     const obj = doc as Record<string, unknown>
     if (op.op === 'remove') {
-      if (!(segment in obj)) {
+      if (!Object.hasOwn(obj, segment)) {
         throw new Error(
           `applyPatch: remove on missing key "${segment}"`,
         )
@@ -304,7 +306,7 @@ function applyAtTerminal(
       return { ...obj, [segment]: clone(op.value) }
     }
     if (op.op === 'replace') {
-      if (!(segment in obj)) {
+      if (!Object.hasOwn(obj, segment)) {
         throw new Error(
           `applyPatch: replace on missing key "${segment}"`,
         )
diff --git a/packages/hub/src/history/ledger/store.ts b/packages/hub/src/history/ledger/store.ts
index 0c0d67a..cac53a0 100644
--- a/packages/hub/src/history/ledger/store.ts
+++ b/packages/hub/src/history/ledger/store.ts
@@ -47,7 +47,7 @@
 import type { NoydbStore, EncryptedEnvelope } from '../../types.js'
 import { NOYDB_FORMAT_VERSION } from '../../types.js'
 import { encrypt, decrypt } from '../../crypto.js'
-import { ConflictError, LedgerContentionError } from '../../errors.js'
+import { ConflictError, LedgerContentionError, TamperedError } from '../../errors.js'
 import {
   canonicalJson,
   hashEntry,
@@ -156,6 +156,9 @@ export class LedgerStore {
    */
   private headCache: { entry: LedgerEntry; hash: string } | null | undefined = undefined
 
+  /** Settles when the last queued append of this process has finished. */
+  private appending: Promise<unknown> = Promise.resolve()
+
   constructor(opts: {
     adapter: NoydbStore
     vault: string
@@ -231,6 +234,14 @@ export class LedgerStore {
    * single-writer discipline.
    */
   async append(input: AppendInput): Promise<LedgerEntry> {
+    // Appends of one process queue up behind each other: they share the head
+    // cache, and stores without CAS would let two of them claim one slot.
+    const turn = this.appending.then(() => this.appendNow(input))
+    this.appending = turn.catch(() => {})
+    return turn
+  }
+
+  private async appendNow(input: AppendInput): Promise<LedgerEntry> {
     let lastConflict: ConflictError | undefined
     for (let attempt = 0; attempt < MAX_APPEND_ATTEMPTS; attempt++) {
       // Force a fresh head read on every retry. The first attempt may
@@ -333,13 +344,16 @@ export class LedgerStore {
    * delta — `ledger.reconstruct()` uses it as a "stop walking
    * backward" signal and falls back to the on-disk current value.
    */
-  async loadDelta(index: number): Promise<JsonPatch | null> {
+  async loadDelta(index: number, expectedHash?: string): Promise<JsonPatch | null> {
     const envelope = await this.adapter.get(
       this.vault,
       LEDGER_DELTAS_COLLECTION,
       paddedIndex(index),
     )
     if (!envelope) return null
+    if (expectedHash !== undefined && (await sha256Hex(envelope._data)) !== expectedHash) {
+      throw new TamperedError()
+    }
     if (!this.encrypted) {
       return JSON.parse(envelope._data) as JsonPatch
     }
@@ -529,7 +543,7 @@ export class LedgerStore {
         return null
       }
 
-      const patch = await this.loadDelta(entry.index)
+      const patch = await this.loadDelta(entry.index, entry.deltaHash)
       if (!patch) {
         // Delta row is missing (probably pruned). Stop walking.
         return null
-- 
2.43.0


From 90c1f3ef485c4b1d34ad80a87704539c33c94940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:01 +0000
Subject: [PATCH 12/87] fix: report the history and past state of exactly the
 requested record

History of one record no longer picks up records whose id shares its prefix,
pruning keeps the limit per record and also applies to deletes, differences
between an array and an object are reported, and a past instant given with a
time zone offset or of a merged or re-created record resolves correctly.
---
 packages/hub/src/collection.ts           |  5 +++
 packages/hub/src/history/diff.ts         |  6 +--
 packages/hub/src/history/history.ts      | 25 +++++++----
 packages/hub/src/history/time-machine.ts | 53 +++++++++++++++++-------
 packages/hub/src/vault.ts                |  1 +
 5 files changed, 65 insertions(+), 25 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index b6b0833..f500e85 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -1287,6 +1287,11 @@ export class Collection<T> {
     if (existing && this.historyConfig.enabled !== false) {
       const historyEnvelope = await this.encryptRecord(existing.record, existing.version)
       await this.historyStrategy.saveHistory(this.adapter, this.vault, this.name, id, historyEnvelope)
+      if (this.historyConfig.maxVersions) {
+        await this.historyStrategy.pruneHistory(this.adapter, this.vault, this.name, id, {
+          keepVersions: this.historyConfig.maxVersions,
+        })
+      }
     }
 
     // Capture the previous envelope's payloadHash BEFORE delete so we
diff --git a/packages/hub/src/history/diff.ts b/packages/hub/src/history/diff.ts
index 1d9a8a8..677b390 100644
--- a/packages/hub/src/history/diff.ts
+++ b/packages/hub/src/history/diff.ts
@@ -36,7 +36,7 @@ export function diff(oldObj: unknown, newObj: unknown, basePath = ''): DiffEntry
   }
 
   // Different types
-  if (typeof oldObj !== typeof newObj) {
+  if (typeof oldObj !== typeof newObj || Array.isArray(oldObj) !== Array.isArray(newObj)) {
     return [{ path: basePath || '(root)', type: 'changed', from: oldObj, to: newObj }]
   }
 
@@ -68,9 +68,9 @@ export function diff(oldObj: unknown, newObj: unknown, basePath = ''): DiffEntry
 
   for (const key of allKeys) {
     const p = basePath ? `${basePath}.${key}` : key
-    if (!(key in oldRecord)) {
+    if (!Object.hasOwn(oldRecord, key)) {
       changes.push({ path: p, type: 'added', to: newRecord[key] })
-    } else if (!(key in newRecord)) {
+    } else if (!Object.hasOwn(newRecord, key)) {
       changes.push({ path: p, type: 'removed', from: oldRecord[key] })
     } else {
       changes.push(...diff(oldRecord[key], newRecord[key], p))
diff --git a/packages/hub/src/history/history.ts b/packages/hub/src/history/history.ts
index 0579b31..8d2f281 100644
--- a/packages/hub/src/history/history.ts
+++ b/packages/hub/src/history/history.ts
@@ -31,8 +31,10 @@ function parseHistoryId(id: string): { collection: string; recordId: string; ver
 }
 
 function matchesPrefix(id: string, collection: string, recordId?: string): boolean {
-  if (recordId) {
-    return id.startsWith(`${collection}:${recordId}:`)
+  if (recordId !== undefined) {
+    // Only a version may follow: record "a" must not match record "a:b".
+    const prefix = `${collection}:${recordId}:`
+    return id.startsWith(prefix) && /^\d+$/.test(id.slice(prefix.length))
   }
   return id.startsWith(`${collection}:`)
 }
@@ -103,16 +105,23 @@ export async function pruneHistory(
 ): Promise<number> {
   const allIds = await adapter.list(vault, HISTORY_COLLECTION)
   const matchingIds = allIds
-    .filter(id => recordId ? matchesPrefix(id, collection, recordId) : matchesPrefix(id, collection))
+    .filter(id => matchesPrefix(id, collection, recordId))
     .sort()
 
-  let toDelete: string[] = []
+  const toDelete: string[] = []
 
   if (options.keepVersions !== undefined) {
-    // Keep only the N most recent, delete the rest
+    // Keep only the N most recent of each record, delete the rest
     const keep = options.keepVersions
-    if (matchingIds.length > keep) {
-      toDelete = matchingIds.slice(0, matchingIds.length - keep)
+    const byRecord = new Map<string, string[]>()
+    for (const id of matchingIds) {
+      const record = id.slice(0, id.lastIndexOf(':'))
+      const ids = byRecord.get(record)
+      if (ids) ids.push(id)
+      else byRecord.set(record, [id])
+    }
+    for (const ids of byRecord.values()) {
+      toDelete.push(...ids.slice(0, Math.max(0, ids.length - keep)))
     }
   }
 
@@ -147,7 +156,7 @@ export async function clearHistory(
   const allIds = await adapter.list(vault, HISTORY_COLLECTION)
   let toDelete: string[]
 
-  if (collection && recordId) {
+  if (collection && recordId !== undefined) {
     toDelete = allIds.filter(id => matchesPrefix(id, collection, recordId))
   } else if (collection) {
     toDelete = allIds.filter(id => matchesPrefix(id, collection))
diff --git a/packages/hub/src/history/time-machine.ts b/packages/hub/src/history/time-machine.ts
index fb620da..b9fe83d 100644
--- a/packages/hub/src/history/time-machine.ts
+++ b/packages/hub/src/history/time-machine.ts
@@ -48,6 +48,8 @@
  */
 import type { EncryptedEnvelope, NoydbStore } from '../types.js'
 import type { LedgerStore } from './ledger/store.js'
+import type { CrdtStrategy } from '../crdt/strategy.js'
+import type { CrdtState } from '../crdt/crdt.js'
 import { getHistory } from './history.js'
 import { decrypt } from '../crypto.js'
 import { ReadOnlyAtInstantError } from '../errors.js'
@@ -85,6 +87,8 @@ export interface VaultEngine {
    * reconstruction (which may miss deletes).
    */
   getLedger(): LedgerStore | null
+  /** Resolves merge state of CRDT collections to the record it stands for. */
+  readonly crdtStrategy?: CrdtStrategy
 }
 
 /**
@@ -118,11 +122,20 @@ export class VaultInstant {
  * work tracked under.
  */
 export class CollectionInstant<T = unknown> {
+  /**
+   * Target instant in the form stored timestamps have. They are compared as
+   * text, so an offset or missing milliseconds must not reach the comparison.
+   */
+  private readonly cutoff: string
+
   constructor(
     private readonly engine: VaultEngine,
     private readonly targetTs: string,
     public readonly name: string,
-  ) {}
+  ) {
+    const parsed = new Date(targetTs)
+    this.cutoff = Number.isNaN(parsed.getTime()) ? targetTs : parsed.toISOString()
+  }
 
   /**
    * Return the record as it existed at the target timestamp, or
@@ -135,7 +148,12 @@ export class CollectionInstant<T = unknown> {
     const plaintext = this.engine.encrypted
       ? await decrypt(envelope._iv, envelope._data, await this.engine.getDEK(this.name))
       : envelope._data
-    return JSON.parse(plaintext) as T
+    const parsed: unknown = JSON.parse(plaintext)
+    // The live envelope of a CRDT collection holds merge state, not the record.
+    if (this.engine.crdtStrategy && parsed !== null && typeof parsed === 'object' && '_crdt' in parsed) {
+      return this.engine.crdtStrategy.resolveCrdtSnapshot(parsed as CrdtState) as T
+    }
+    return parsed as T
   }
 
   /**
@@ -212,17 +230,20 @@ export class CollectionInstant<T = unknown> {
   }
 
   private async resolveViaLedger(id: string, ledger: LedgerStore): Promise<EncryptedEnvelope | null> {
-    const entries = await ledger.entries()
     // Entries are already ordered by index which is the mutation order.
-    let latest: { op: 'put' | 'delete'; version: number } | null = null
-    for (const e of entries) {
-      if (e.collection !== this.name || e.id !== id) continue
-      if (e.ts > this.targetTs) break   // entries are time-ordered by index
-      latest = { op: e.op, version: e.version }
-    }
-    if (!latest) return null
-    if (latest.op === 'delete') return null
-    return this.loadVersion(id, latest.version)
+    const timeline = (await ledger.entries()).filter(e => e.collection === this.name && e.id === id)
+    const next = timeline.findIndex(e => e.ts > this.cutoff)
+    const at = (next < 0 ? timeline.length : next) - 1
+    const latest = timeline[at]
+    if (!latest || latest.op === 'delete') return null
+    // A record created again after a delete counts from version 1, so one
+    // version can stand for several states: the live record is the last of
+    // them, and the snapshot in history the last one that was superseded.
+    const isTwin = (e: { op: string; version: number }): boolean =>
+      e.op === 'put' && e.version === latest.version
+    if (!timeline.slice(at + 1).some(isTwin)) return this.loadVersion(id, latest.version)
+    if (timeline.slice(at + 1, -1).some(isTwin)) return null
+    return this.loadSnapshot(id, latest.version)
   }
 
   private async resolveViaEnvelopeTs(id: string): Promise<EncryptedEnvelope | null> {
@@ -236,7 +257,7 @@ export class CollectionInstant<T = unknown> {
     const sorted = [...byVersion.values()].sort((a, b) =>
       a._ts < b._ts ? 1 : a._ts > b._ts ? -1 : 0,
     )
-    return sorted.find((e) => e._ts <= this.targetTs) ?? null
+    return sorted.find((e) => e._ts <= this.cutoff) ?? null
   }
 
   /**
@@ -251,7 +272,11 @@ export class CollectionInstant<T = unknown> {
     const live = await this.engine.adapter.get(this.engine.name, this.name, id)
     if (live && live._v === version) return live
 
-    // Direct lookup by (collection, id, version) — avoids scanning all history.
+    return this.loadSnapshot(id, version)
+  }
+
+  /** Direct lookup by (collection, id, version) — avoids scanning all history. */
+  private async loadSnapshot(id: string, version: number): Promise<EncryptedEnvelope | null> {
     const historyId = `${this.name}:${id}:${String(version).padStart(10, '0')}`
     return await this.engine.adapter.get(this.engine.name, '_history', historyId)
   }
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index 104a294..d513eb5 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -1257,6 +1257,7 @@ export class Vault {
         encrypted: this.encrypted,
         getDEK: this.getDEK,
         getLedger: () => (this.historyConfig.enabled === false ? null : this.getLedgerOrNull()),
+        ...(this.crdtStrategy !== undefined ? { crdtStrategy: this.crdtStrategy } : {}),
       },
       iso,
     )
-- 
2.43.0


From 2b13b4a38074b44af3f0040d584409ff80abeacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:01 +0000
Subject: [PATCH 13/87] fix: deliver change notifications to every subscriber

A throwing handler no longer keeps the others from being told, a
subscription that ended gets nothing more, and live queries over a
collection that was still loading refresh once its records are there.
---
 packages/hub/src/collection.ts | 63 +++++++++++++++++++++-------------
 packages/hub/src/events.ts     |  8 ++++-
 2 files changed, 46 insertions(+), 25 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index f500e85..167301a 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -1594,15 +1594,7 @@ export class Collection<T> {
     // New form: return a chainable builder bound to this collection's cache.
     const source: QuerySource<T> = {
       snapshot: () => [...this.cache.values()].map(e => e.record),
-      subscribe: (cb: () => void) => {
-        const handler = (event: ChangeEvent): void => {
-          if (event.vault === this.vault && event.collection === this.name) {
-            cb()
-          }
-        }
-        this.emitter.on('change', handler)
-        return () => this.emitter.off('change', handler)
-      },
+      subscribe: (cb: () => void) => this.onCacheChange(cb),
       // Index-aware fast path for `==` and `in` operators on indexed
       // fields. The Query builder consults these when present and falls
       // back to a linear scan otherwise.
@@ -1659,24 +1651,34 @@ export class Collection<T> {
    * filters to this collection and hydrates the record.
    */
   subscribe(cb: (event: CollectionChangeEvent<T>) => void): () => void {
+    let active = true
+    // Lookups still in flight when the subscriber leaves are not delivered.
+    const deliver = (event: CollectionChangeEvent<T>): void => {
+      if (!active) return
+      try {
+        cb(event)
+      } catch (err) {
+        console.warn(`[noy-db] subscriber of collection "${this.name}" threw:`, err)
+      }
+    }
     const handler = (event: ChangeEvent): void => {
       if (event.vault !== this.vault || event.collection !== this.name) return
       if (event.action === 'put') {
         // Cache hit in eager mode; get() in lazy mode.
-        void this.get(event.id).then(record => {
-          cb({ type: 'put', id: event.id, record: record ?? null })
-        }).catch(() => {
+        void this.get(event.id).then(
+          record => deliver({ type: 'put', id: event.id, record: record ?? null }),
           // Record vanished between emit + lookup (race). Emit with null
           // so subscribers still see the event they were promised.
-          cb({ type: 'put', id: event.id, record: null })
-        })
+          () => deliver({ type: 'put', id: event.id, record: null }),
+        )
       } else {
         // delete
-        cb({ type: 'delete', id: event.id, record: null })
+        deliver({ type: 'delete', id: event.id, record: null })
       }
     }
     this.emitter.on('change', handler)
     return () => {
+      active = false
       this.emitter.off('change', handler)
     }
   }
@@ -1717,15 +1719,28 @@ export class Collection<T> {
     return {
       snapshot: () => [...this.cache.values()].map(e => e.record),
       lookupById: (id: string) => this.cache.get(id)?.record,
-      subscribe: (cb: () => void) => {
-        const handler = (event: ChangeEvent): void => {
-          if (event.vault === this.vault && event.collection === this.name) {
-            cb()
-          }
-        }
-        this.emitter.on('change', handler)
-        return () => this.emitter.off('change', handler)
-      },
+      subscribe: (cb: () => void) => this.onCacheChange(cb),
+    }
+  }
+
+  /**
+   * Call back whenever the in-memory records changed: after every write, and
+   * once stored records are loaded if they were not when the caller subscribed.
+   */
+  private onCacheChange(cb: () => void): () => void {
+    let active = true
+    const handler = (event: ChangeEvent): void => {
+      if (event.vault === this.vault && event.collection === this.name) {
+        cb()
+      }
+    }
+    this.emitter.on('change', handler)
+    if (!this.hydrated) {
+      void this.ensureHydrated().then(() => { if (active && this.cache.size > 0) cb() }, () => {})
+    }
+    return () => {
+      active = false
+      this.emitter.off('change', handler)
     }
   }
 
diff --git a/packages/hub/src/events.ts b/packages/hub/src/events.ts
index 159f95c..b950210 100644
--- a/packages/hub/src/events.ts
+++ b/packages/hub/src/events.ts
@@ -29,7 +29,13 @@ export class NoydbEventEmitter {
     const set = this.listeners.get(event as string)
     if (set) {
       for (const handler of set) {
-        handler(data)
+        // One throwing listener must neither hide the event from the others
+        // nor fail the write that caused it.
+        try {
+          handler(data)
+        } catch (err) {
+          console.warn(`[noy-db] "${event as string}" listener threw:`, err)
+        }
       }
     }
   }
-- 
2.43.0


From fd64986189ff9d858bfd19db70d22045a19b28a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:01 +0000
Subject: [PATCH 14/87] fix: keep framework bindings on the latest query result

Bindings queried collections that were not loaded yet and let an older,
slower run overwrite a newer one.
---
 packages/in-react/src/index.ts          |  8 ++++++--
 packages/in-solid/src/index.ts          |  7 ++++++-
 packages/in-svelte/src/index.ts         | 24 ++++++++++++++++++------
 packages/in-tanstack-query/src/index.ts |  1 +
 packages/in-vue/src/useCollection.ts    |  1 +
 5 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/packages/in-react/src/index.ts b/packages/in-react/src/index.ts
index 6793f0f..f14a344 100644
--- a/packages/in-react/src/index.ts
+++ b/packages/in-react/src/index.ts
@@ -157,12 +157,16 @@ export function useQuery<T, R>(
   useEffect(() => {
     if (!coll) return
     let cancelled = false
+    let latest = 0
     const run = async (): Promise<void> => {
+      // Only the newest run may publish: an older one can finish later.
+      const mine = ++latest
       try {
+        await coll.count() // query() reads the loaded records
         const result = await Promise.resolve(builder(coll.query() as unknown as Query<T>))
-        if (!cancelled) setState({ data: result, loading: false, error: null })
+        if (!cancelled && mine === latest) setState({ data: result, loading: false, error: null })
       } catch (err) {
-        if (!cancelled) setState({ data: null, loading: false, error: err as Error })
+        if (!cancelled && mine === latest) setState({ data: null, loading: false, error: err as Error })
       }
     }
     void run()
diff --git a/packages/in-solid/src/index.ts b/packages/in-solid/src/index.ts
index 5ba5e4b..6e5a33f 100644
--- a/packages/in-solid/src/index.ts
+++ b/packages/in-solid/src/index.ts
@@ -61,14 +61,19 @@ export function createQuerySignal<T, R>(
   // the subscription is registered before the first async flush can fire events.
   createRenderEffect(() => {
     const coll = vault.collection<T>(collectionName)
+    let latest = 0
 
     async function refresh(): Promise<void> {
+      // Only the newest run may publish: an older one can finish later.
+      const mine = ++latest
       try {
+        await coll.count() // query() reads the loaded records
         const result = await Promise.resolve(builder(coll.query() as unknown as Query<T>))
+        if (mine !== latest) return
         setData(() => result)
         setError(null)
       } catch (err) {
-        setError(err as Error)
+        if (mine === latest) setError(err as Error)
       } finally {
         setLoading(false)
       }
diff --git a/packages/in-svelte/src/index.ts b/packages/in-svelte/src/index.ts
index 1614da0..8de68fa 100644
--- a/packages/in-svelte/src/index.ts
+++ b/packages/in-svelte/src/index.ts
@@ -85,13 +85,14 @@ export function collectionStore<T>(
 ): Readable<CollectionStoreState<T>> & { refresh(): Promise<void>; stop(): void } {
   const inner = writable<CollectionStoreState<T>>({ records: [], loading: true, error: null })
   const coll = vault.collection<T>(collectionName)
+  let stopped = false
 
   async function refresh(): Promise<void> {
     try {
       const records = await coll.list()
-      inner.set({ records, loading: false, error: null })
+      if (!stopped) inner.set({ records, loading: false, error: null })
     } catch (err) {
-      inner.set({ records: [], loading: false, error: err as Error })
+      if (!stopped) inner.set({ records: [], loading: false, error: err as Error })
     }
   }
 
@@ -101,7 +102,10 @@ export function collectionStore<T>(
   return {
     subscribe: (run) => inner.subscribe(run),
     refresh,
-    stop: unsubscribe,
+    stop: () => {
+      stopped = true
+      unsubscribe()
+    },
   }
 }
 
@@ -133,13 +137,18 @@ export function queryStore<T, R>(
 ): Readable<QueryStoreState<R>> & { refresh(): Promise<void>; stop(): void } {
   const inner = writable<QueryStoreState<R>>({ data: null, loading: true, error: null })
   const coll = vault.collection<T>(collectionName)
+  let stopped = false
+  let latest = 0
 
   async function refresh(): Promise<void> {
+    // Only the newest run may publish: an older one can finish later.
+    const mine = ++latest
     try {
+      await coll.count() // query() reads the loaded records
       const result = await Promise.resolve(builder(coll.query() as unknown as Query<T>))
-      inner.set({ data: result, loading: false, error: null })
+      if (!stopped && mine === latest) inner.set({ data: result, loading: false, error: null })
     } catch (err) {
-      inner.set({ data: null, loading: false, error: err as Error })
+      if (!stopped && mine === latest) inner.set({ data: null, loading: false, error: err as Error })
     }
   }
 
@@ -149,7 +158,10 @@ export function queryStore<T, R>(
   return {
     subscribe: (run) => inner.subscribe(run),
     refresh,
-    stop: unsubscribe,
+    stop: () => {
+      stopped = true
+      unsubscribe()
+    },
   }
 }
 
diff --git a/packages/in-tanstack-query/src/index.ts b/packages/in-tanstack-query/src/index.ts
index 163777a..e56a3c3 100644
--- a/packages/in-tanstack-query/src/index.ts
+++ b/packages/in-tanstack-query/src/index.ts
@@ -90,6 +90,7 @@ export function collectionQueryOptions<T, R>(
     queryKey: collectionQueryKey(vault, collectionName, keyTag),
     queryFn: async () => {
       const coll = getCollection()
+      await coll.count() // query() reads the loaded records
       return Promise.resolve(builder(coll.query() as unknown as Query<T>))
     },
   }
diff --git a/packages/in-vue/src/useCollection.ts b/packages/in-vue/src/useCollection.ts
index f8d5f19..4128527 100644
--- a/packages/in-vue/src/useCollection.ts
+++ b/packages/in-vue/src/useCollection.ts
@@ -44,6 +44,7 @@ export function useCollection<T>(
       data.value = await coll.list()
       error.value = null
     } catch (err) {
+      compartmentPromise = null // try to open again on the next refresh
       error.value = err instanceof Error ? err : new Error(String(err))
     } finally {
       loading.value = false
-- 
2.43.0


From d88578a3a08ec46184f74e429235eab62149c012 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:12:00 +0000
Subject: [PATCH 15/87] fix: read compressed attachments larger than 64 KB

Compression and decompression wrote the whole input before reading any
output. The stream's buffer filled up and the call never returned.
---
 packages/hub/src/blobs/attachments.ts | 29 ++++++++++++++-------------
 packages/hub/src/blobs/blob-set.ts    | 27 ++++++++++++++-----------
 2 files changed, 30 insertions(+), 26 deletions(-)

diff --git a/packages/hub/src/blobs/attachments.ts b/packages/hub/src/blobs/attachments.ts
index 665053b..30f37a6 100644
--- a/packages/hub/src/blobs/attachments.ts
+++ b/packages/hub/src/blobs/attachments.ts
@@ -50,20 +50,26 @@ export const DEFAULT_CHUNK_SIZE = 256 * 1024
 
 // ─── Compression helpers ───────────────────────────────────────────────
 
+/**
+ * Run bytes through a transform stream. The output is drained while the input
+ * is written: awaiting the write first never settles once the output exceeds
+ * the stream's buffer.
+ */
+async function pump(
+  data: Uint8Array,
+  transform: CompressionStream | DecompressionStream,
+): Promise<Uint8Array> {
+  const stream = new Blob([data as BlobPart]).stream().pipeThrough(transform)
+  return new Uint8Array(await new Response(stream).arrayBuffer())
+}
+
 async function compressBytes(
   data: Uint8Array,
 ): Promise<{ bytes: Uint8Array; algorithm: 'gzip' | 'none' }> {
   if (typeof CompressionStream === 'undefined') {
     return { bytes: data, algorithm: 'none' }
   }
-  const cs = new CompressionStream('gzip')
-  const writer = cs.writable.getWriter()
-  // Cast needed: TypeScript lib types CompressionStream as accepting Uint8Array
-  // but infers a narrower generic than Uint8Array<ArrayBufferLike>.
-  await writer.write(data as Uint8Array<ArrayBuffer>)
-  await writer.close()
-  const buf = await new Response(cs.readable).arrayBuffer()
-  return { bytes: new Uint8Array(buf), algorithm: 'gzip' }
+  return { bytes: await pump(data, new CompressionStream('gzip')), algorithm: 'gzip' }
 }
 
 async function decompressBytes(data: Uint8Array): Promise<Uint8Array> {
@@ -72,12 +78,7 @@ async function decompressBytes(data: Uint8Array): Promise<Uint8Array> {
       '[noy-db] DecompressionStream not available — cannot decompress blob chunk',
     )
   }
-  const ds = new DecompressionStream('gzip')
-  const writer = ds.writable.getWriter()
-  await writer.write(data as Uint8Array<ArrayBuffer>)
-  await writer.close()
-  const buf = await new Response(ds.readable).arrayBuffer()
-  return new Uint8Array(buf)
+  return pump(data, new DecompressionStream('gzip'))
 }
 
 function concatChunks(chunks: Uint8Array[]): Uint8Array {
diff --git a/packages/hub/src/blobs/blob-set.ts b/packages/hub/src/blobs/blob-set.ts
index 2b529c6..3b45133 100644
--- a/packages/hub/src/blobs/blob-set.ts
+++ b/packages/hub/src/blobs/blob-set.ts
@@ -58,18 +58,26 @@ const MAX_CAS_RETRIES = 5
 
 // ─── Compression helpers ───────────────────────────────────────────────
 
+/**
+ * Run bytes through a transform stream. The output is drained while the input
+ * is written: awaiting the write first never settles once the output exceeds
+ * the stream's buffer.
+ */
+async function pump(
+  data: Uint8Array,
+  transform: CompressionStream | DecompressionStream,
+): Promise<Uint8Array> {
+  const stream = new Blob([data as BlobPart]).stream().pipeThrough(transform)
+  return new Uint8Array(await new Response(stream).arrayBuffer())
+}
+
 async function compressBytes(
   data: Uint8Array,
 ): Promise<{ bytes: Uint8Array; algorithm: 'gzip' | 'none' }> {
   if (typeof CompressionStream === 'undefined') {
     return { bytes: data, algorithm: 'none' }
   }
-  const cs = new CompressionStream('gzip')
-  const writer = cs.writable.getWriter()
-  await writer.write(data as Uint8Array<ArrayBuffer>)
-  await writer.close()
-  const buf = await new Response(cs.readable).arrayBuffer()
-  return { bytes: new Uint8Array(buf), algorithm: 'gzip' }
+  return { bytes: await pump(data, new CompressionStream('gzip')), algorithm: 'gzip' }
 }
 
 async function decompressBytes(data: Uint8Array): Promise<Uint8Array> {
@@ -78,12 +86,7 @@ async function decompressBytes(data: Uint8Array): Promise<Uint8Array> {
       '[noy-db] DecompressionStream not available — cannot decompress blob chunk',
     )
   }
-  const ds = new DecompressionStream('gzip')
-  const writer = ds.writable.getWriter()
-  await writer.write(data as Uint8Array<ArrayBuffer>)
-  await writer.close()
-  const buf = await new Response(ds.readable).arrayBuffer()
-  return new Uint8Array(buf)
+  return pump(data, new DecompressionStream('gzip'))
 }
 
 function concatChunks(chunks: Uint8Array[]): Uint8Array {
-- 
2.43.0


From 65ad3f8b5bb813a0eaa8b5b866d8fe94b29112b3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:12:00 +0000
Subject: [PATCH 16/87] fix: keep ordinary reads working next to higher-tier
 records

Records stored at a higher tier are sealed with another key. Listing,
paging and streaming a collection tried to open them with the ordinary
key and failed for the whole collection.
---
 packages/hub/src/collection.ts | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 167301a..faa14c9 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -36,6 +36,14 @@ import type { BlobSet } from './blobs/blob-set.js'
 import { NO_BLOBS, type BlobStrategy } from './blobs/strategy.js'
 import { NO_AGGREGATE, type AggregateStrategy } from './aggregate/strategy.js'
 
+/**
+ * Ordinary reads happen at tier 0: records stored at a higher tier are sealed
+ * with another key and only reachable through the tier-aware methods.
+ */
+function aboveTierZero(envelope: EncryptedEnvelope): boolean {
+  return (envelope._tier ?? 0) > 0
+}
+
 /** Callback for dirty tracking (sync engine integration). */
 export type OnDirtyCallback = (collection: string, id: string, action: 'put' | 'delete', version: number) => Promise<void>
 
@@ -827,7 +835,7 @@ export class Collection<T> {
         // Cache miss: hit the adapter, decrypt, populate the LRU.
         const generation = this.writeGeneration
         const envelope = await this.adapter.get(this.vault, this.name, id)
-        if (!envelope) return null
+        if (!envelope || aboveTierZero(envelope)) return null
         record = await this.decryptRecord(envelope)
         if (generation === this.writeGeneration) {
           this.lru.set(id, { record, version: envelope._v }, estimateRecordBytes(record))
@@ -1382,7 +1390,7 @@ export class Collection<T> {
     for (const id of await this.adapter.list(this.vault, this.name)) {
       if (decodeIdxId(id)) continue
       const envelope = await this.adapter.get(this.vault, this.name, id)
-      if (envelope) out.push({ id, record: await this.decryptRecord(envelope) })
+      if (envelope && !aboveTierZero(envelope)) out.push({ id, record: await this.decryptRecord(envelope) })
     }
     return out
   }
@@ -1929,7 +1937,7 @@ export class Collection<T> {
     for (let i = start; i < end; i++) {
       const id = ids[i]!
       const envelope = await this.adapter.get(this.vault, this.name, id)
-      if (envelope) {
+      if (envelope && !aboveTierZero(envelope)) {
         const record = await this.decryptRecord(envelope)
         items.push(record)
       }
@@ -2015,7 +2023,7 @@ export class Collection<T> {
   ): Promise<Array<{ id: string; record: T; version: number }>> {
     const out: Array<{ id: string; record: T; version: number }> = []
     for (const { id, envelope } of items) {
-      if (decodeIdxId(id)) continue
+      if (decodeIdxId(id) || aboveTierZero(envelope)) continue
       const record = await this.decryptRecord(envelope)
       out.push({ id, record, version: envelope._v })
     }
@@ -2040,7 +2048,7 @@ export class Collection<T> {
     for (const id of ids) {
       if (decodeIdxId(id)) continue
       const envelope = await this.adapter.get(this.vault, this.name, id)
-      if (envelope) {
+      if (envelope && !aboveTierZero(envelope)) {
         const record = await this.decryptRecord(envelope)
         this.cache.set(id, { record, version: envelope._v })
       }
@@ -2052,7 +2060,7 @@ export class Collection<T> {
   /** Hydrate from a pre-loaded snapshot (used by Vault). */
   async hydrateFromSnapshot(records: Record<string, EncryptedEnvelope>): Promise<void> {
     for (const [id, envelope] of Object.entries(records)) {
-      if (decodeIdxId(id)) continue
+      if (decodeIdxId(id) || aboveTierZero(envelope)) continue
       const record = await this.decryptRecord(envelope)
       this.cache.set(id, { record, version: envelope._v })
     }
-- 
2.43.0


From 13566639e0355c4940850e2d11b7281e3c68e1eb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:12:00 +0000
Subject: [PATCH 17/87] fix: never send presence in clear and store the nonce
 it was sealed with

Presence updates made before the collection key was available went out
unencrypted, and stored ones carried a nonce that did not match.
---
 packages/hub/src/team/presence.ts | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/packages/hub/src/team/presence.ts b/packages/hub/src/team/presence.ts
index ae99b5f..b8c50cf 100644
--- a/packages/hub/src/team/presence.ts
+++ b/packages/hub/src/team/presence.ts
@@ -16,7 +16,7 @@
  */
 
 import type { NoydbStore, PresencePeer } from '../types.js'
-import { encrypt, decrypt, generateIV, bufferToBase64, derivePresenceKey } from '../crypto.js'
+import { encrypt, decrypt, derivePresenceKey } from '../crypto.js'
 
 /** Options for constructing a PresenceHandle. @internal */
 export interface PresenceHandleOpts {
@@ -96,15 +96,15 @@ export class PresenceHandle<P> {
     if (this.stopped) return
 
     const key = await this.getPresenceKey()
+    // Without a key nothing can be announced: the payload must not leave in clear.
+    if (this.encrypted && !key) return
     const now = new Date().toISOString()
     const plaintext = JSON.stringify({ userId: this.userId, lastSeen: now, payload })
     let encryptedPayload: string
 
     if (this.encrypted && key) {
-      const iv = generateIV()
-      const ivB64 = bufferToBase64(iv)
-      const { data } = await encrypt(plaintext, key)
-      encryptedPayload = JSON.stringify({ iv: ivB64, data })
+      const { iv, data } = await encrypt(plaintext, key)
+      encryptedPayload = JSON.stringify({ iv, data })
     } else {
       encryptedPayload = plaintext
     }
@@ -223,7 +223,8 @@ export class PresenceHandle<P> {
   ): Promise<{ userId: string; lastSeen: string; payload: P } | null> {
     const key = await this.getPresenceKey()
 
-    if (!this.encrypted || !key) {
+    if (this.encrypted && !key) return null
+    if (!key) {
       return JSON.parse(encryptedPayload) as { userId: string; lastSeen: string; payload: P }
     }
 
@@ -239,9 +240,8 @@ export class PresenceHandle<P> {
     let data: string
 
     if (this.encrypted && key) {
-      const ivBytes = generateIV()
-      iv = bufferToBase64(ivBytes)
       const result = await encrypt(plaintext, key)
+      iv = result.iv
       data = result.data
     } else {
       data = plaintext
@@ -276,6 +276,7 @@ export class PresenceHandle<P> {
     if (this.stopped || this.subscribers.length === 0) return
 
     try {
+      const key = await this.getPresenceKey()
       const storeAdapter = this.syncAdapter ?? this.adapter
       const ids = await storeAdapter.list(this.vault, this.storageCollection)
       const cutoff = new Date(Date.now() - this.staleMs).toISOString()
@@ -290,9 +291,13 @@ export class PresenceHandle<P> {
         if (record.lastSeen < cutoff) continue
 
         let peerPayload: P
-        if (this.encrypted && this.presenceKey && record.iv) {
-          const plaintext = await decrypt(record.iv, record.data, this.presenceKey)
-          peerPayload = JSON.parse(plaintext) as P
+        if (this.encrypted) {
+          if (!key) continue
+          try {
+            peerPayload = JSON.parse(await decrypt(record.iv, record.data, key)) as P
+          } catch {
+            continue // stale key or tampered record — one peer must not hide the others
+          }
         } else {
           peerPayload = JSON.parse(record.data) as P
         }
-- 
2.43.0


From ecda1700457a1c92f04e3aa3bd0b9aed15f06611 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:12:01 +0000
Subject: [PATCH 18/87] fix: rotate everything sealed with a key and undo a
 failed rotation

Rotation re-encrypted only current records, so past versions, attachments
and ledger deltas became unreadable, and metadata was dropped. It also
replaced keys the caller does not hold, and an interrupted run left
records sealed with a key that was never stored. Only owners and admins
may rotate.
---
 packages/hub/src/team/keyring.ts | 141 ++++++++++++++++++++++++-------
 1 file changed, 110 insertions(+), 31 deletions(-)

diff --git a/packages/hub/src/team/keyring.ts b/packages/hub/src/team/keyring.ts
index 092f5f4..e41d6fe 100644
--- a/packages/hub/src/team/keyring.ts
+++ b/packages/hub/src/team/keyring.ts
@@ -8,6 +8,9 @@ import {
   unwrapKey,
   encrypt,
   decrypt,
+  encryptDeterministic,
+  encryptBytesWithAAD,
+  decryptBytesWithAAD,
   bufferToBase64,
   base64ToBuffer,
 } from '../crypto.js'
@@ -391,53 +394,56 @@ export async function revoke(
 /**
  * Rotate DEKs for specified collections:
  * 1. Generate new DEKs
- * 2. Re-encrypt all records in affected collections
+ * 2. Re-encrypt everything sealed with the affected DEKs
  * 3. Re-wrap new DEKs for all remaining users
+ *
+ * Collections the caller holds no DEK for are left alone: nobody could
+ * read them afterwards. When re-encryption fails the original envelopes
+ * are put back and the old DEKs stay in force.
  */
 export async function rotateKeys(
   adapter: NoydbStore,
   vault: string,
   callerKeyring: UnlockedKeyring,
-  collections: string[],
+  requested: string[],
 ): Promise<void> {
+  if (callerKeyring.role !== 'owner' && callerKeyring.role !== 'admin') {
+    throw new PermissionDeniedError(`Role "${callerKeyring.role}" cannot rotate keys`)
+  }
+  const collections = requested.filter(name => callerKeyring.deks.has(name))
+
   // Generate new DEKs for each affected collection
+  const oldDeks = new Map(callerKeyring.deks)
   const newDeks = new Map<string, CryptoKey>()
   for (const collName of collections) {
     newDeks.set(collName, await generateDEK())
   }
 
-  // Re-encrypt all records in affected collections
-  for (const collName of collections) {
-    const oldDek = callerKeyring.deks.get(collName)
-    const newDek = newDeks.get(collName)!
-    if (!oldDek) continue
-
-    const ids = await adapter.list(vault, collName)
-    for (const id of ids) {
-      const envelope = await adapter.get(vault, collName, id)
-      if (!envelope || !envelope._iv) continue
-
-      // Decrypt with old DEK
-      const plaintext = await decrypt(envelope._iv, envelope._data, oldDek)
-
-      // Re-encrypt with new DEK
-      const { iv, data } = await encrypt(plaintext, newDek)
-      const newEnvelope: EncryptedEnvelope = {
-        _noydb: NOYDB_FORMAT_VERSION,
-        _v: envelope._v,
-        _ts: new Date().toISOString(),
-        _iv: iv,
-        _data: data,
-      }
-      await adapter.put(vault, collName, id, newEnvelope)
-    }
+  // Re-encrypt in memory first; nothing is written if an item is unreadable.
+  const items: SealedItem[] = []
+  for (const [collName, newDek] of newDeks) {
+    items.push(...await resealItems(adapter, vault, collName, oldDeks.get(collName)!, newDek))
   }
 
-  // Update caller's keyring with new DEKs
-  for (const [collName, newDek] of newDeks) {
-    callerKeyring.deks.set(collName, newDek)
+  const written: SealedItem[] = []
+  try {
+    for (const item of items) {
+      written.push(item)
+      await adapter.put(vault, item.collection, item.id, item.after)
+    }
+    // Update caller's keyring with new DEKs
+    for (const [collName, newDek] of newDeks) {
+      callerKeyring.deks.set(collName, newDek)
+    }
+    await withKeyringLock(callerKeyring, () => persistKeyring(adapter, vault, callerKeyring))
+  } catch (err) {
+    for (const [collName, oldDek] of oldDeks) callerKeyring.deks.set(collName, oldDek)
+    for (const item of written) {
+      await adapter.put(vault, item.collection, item.id, item.before)
+    }
+    await withKeyringLock(callerKeyring, () => persistKeyring(adapter, vault, callerKeyring))
+    throw err
   }
-  await persistKeyring(adapter, vault, callerKeyring)
 
   // Update all remaining users' keyrings with re-wrapped new DEKs
   const userIds = await adapter.list(vault, '_keyring')
@@ -524,6 +530,79 @@ export async function rotateKeys(
   }
 }
 
+interface SealedItem {
+  readonly collection: string
+  readonly id: string
+  readonly before: EncryptedEnvelope
+  readonly after: EncryptedEnvelope
+}
+
+/** Every stored item sealed with the DEK `dekName`, re-encrypted with `newDek`. */
+async function resealItems(
+  adapter: NoydbStore,
+  vault: string,
+  dekName: string,
+  oldDek: CryptoKey,
+  newDek: CryptoKey,
+): Promise<SealedItem[]> {
+  const out: SealedItem[] = []
+  // Tier DEKs are named `collection#tier` and seal the records of that tier.
+  const tierMark = /^(.+)#(\d+)$/.exec(dekName)
+  const collection = tierMark ? tierMark[1]! : dekName
+  const tier = tierMark ? Number(tierMark[2]) : 0
+
+  const reseal = async (
+    from: string,
+    id: string,
+    aad?: Uint8Array,
+  ): Promise<EncryptedEnvelope | null> => {
+    const before = await adapter.get(vault, from, id)
+    if (!before || !before._iv || (before._tier ?? 0) !== tier) return null
+    const sealed = aad
+      ? await encryptBytesWithAAD(await decryptBytesWithAAD(before._iv, before._data, oldDek, aad), newDek, aad)
+      : await encrypt(await decrypt(before._iv, before._data, oldDek), newDek)
+    let after: EncryptedEnvelope = { ...before, _iv: sealed.iv, _data: sealed.data }
+    if (before._det) {
+      const det: Record<string, string> = {}
+      for (const [field, stored] of Object.entries(before._det)) {
+        const [iv, data] = stored.split(':') as [string, string]
+        const value = await encryptDeterministic(await decrypt(iv, data, oldDek), newDek, `${collection}/${field}`)
+        det[field] = `${value.iv}:${value.data}`
+      }
+      after = { ...after, _det: det }
+    }
+    out.push({ collection: from, id, before, after })
+    return before
+  }
+
+  if (dekName === '_blob') {
+    for (const eTag of await adapter.list(vault, '_blob_index')) {
+      const before = await reseal('_blob_index', eTag)
+      if (!before) continue
+      const { chunkCount } = JSON.parse(await decrypt(before._iv, before._data, oldDek)) as { chunkCount: number }
+      for (let i = 0; i < chunkCount; i++) {
+        await reseal('_blob_chunks', `${eTag}_${i}`, new TextEncoder().encode(`${eTag}:${i}:${chunkCount}`))
+      }
+    }
+    return out
+  }
+
+  for (const id of await adapter.list(vault, collection)) await reseal(collection, id)
+  if (dekName === '_ledger') {
+    for (const id of await adapter.list(vault, '_ledger_deltas')) await reseal('_ledger_deltas', id)
+  } else if (!dekName.startsWith('_')) {
+    for (const id of await adapter.list(vault, '_history')) {
+      if (id.startsWith(`${collection}:`)) await reseal('_history', id)
+    }
+    if (tier === 0) {
+      for (const side of [`_blob_slots_${collection}`, `_blob_versions_${collection}`]) {
+        for (const id of await adapter.list(vault, side)) await reseal(side, id)
+      }
+    }
+  }
+  return out
+}
+
 // ─── Change Secret ─────────────────────────────────────────────────────
 
 /** Change the user's passphrase. Re-wraps all DEKs with the new KEK. */
-- 
2.43.0


From ee40c252e589a534221de139c1fae53b4a0a59e4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:12:01 +0000
Subject: [PATCH 19/87] fix: only an owner can replace an owner's keyring

Granting to an existing user replaces that user's keyring, which let an
admin lock out or impersonate the owner.
---
 packages/hub/src/team/keyring.ts | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/packages/hub/src/team/keyring.ts b/packages/hub/src/team/keyring.ts
index e41d6fe..80fe735 100644
--- a/packages/hub/src/team/keyring.ts
+++ b/packages/hub/src/team/keyring.ts
@@ -182,6 +182,15 @@ export async function grant(
     )
   }
 
+  // Granting to an existing user replaces that user's keyring, so it takes
+  // the same authority as removing the user.
+  const existing = await readKeyringFile(adapter, vault, options.userId)
+  if (existing?.role === 'owner' && callerKeyring.role !== 'owner') {
+    throw new PermissionDeniedError(
+      `Role "${callerKeyring.role}" cannot replace the keyring of owner "${options.userId}"`,
+    )
+  }
+
   // Determine which collections the new user gets access to
   const permissions = resolvePermissions(options.role, options.permissions)
 
-- 
2.43.0


From f39eae8c3b49fe178df174ec2fa2db600408cc0c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:12:01 +0000
Subject: [PATCH 20/87] fix: do not invent a key for a collection that already
 holds data

A user without the key of a collection got a fresh one. Whatever they
wrote with it was unreadable for everyone else.
---
 packages/hub/src/team/keyring.ts | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/packages/hub/src/team/keyring.ts b/packages/hub/src/team/keyring.ts
index 80fe735..ea2e780 100644
--- a/packages/hub/src/team/keyring.ts
+++ b/packages/hub/src/team/keyring.ts
@@ -889,12 +889,30 @@ async function publishDEK(
   const published = file.deks[collectionName]
   if (published !== undefined) return unwrapKey(published, keyring.kek)
 
+  // Data sealed by someone else stays unreadable with a fresh key, and data
+  // sealed with the fresh key would be unreadable for everyone else.
+  if (await holdsSealedData(adapter, vault, collectionName)) {
+    throw new NoAccessError(
+      `User "${keyring.userId}" holds no key for "${collectionName}" in vault "${vault}". Access has to be granted again.`,
+    )
+  }
+
   const dek = await generateDEK()
   const deks = { ...file.deks, [collectionName]: await wrapKey(dek, keyring.kek) }
   await writeKeyringFile(adapter, vault, keyring.userId, { ...file, deks })
   return dek
 }
 
+async function holdsSealedData(adapter: NoydbStore, vault: string, dekName: string): Promise<boolean> {
+  if (dekName.includes('#')) return false // tier keys are created on first use of the tier
+  const collection = dekName === '_blob' ? '_blob_index' : dekName
+  for (const id of await adapter.list(vault, collection)) {
+    const envelope = await adapter.get(vault, collection, id)
+    if (envelope?._iv) return true
+  }
+  return false
+}
+
 // ─── Permission Checks ─────────────────────────────────────────────────
 
 /** Check if a user has write permission for a collection. */
-- 
2.43.0


From e88c63609516b16ae4ca04624a99914758ec3547 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:29:49 +0000
Subject: [PATCH 21/87] fix: keep ledger deltas verifiable after rotation

---
 packages/hub/src/history/ledger/store.ts | 16 ++++++++++---
 packages/hub/src/team/keyring.ts         | 29 +++++++++++++++++++++++-
 2 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/packages/hub/src/history/ledger/store.ts b/packages/hub/src/history/ledger/store.ts
index cac53a0..38b00cf 100644
--- a/packages/hub/src/history/ledger/store.ts
+++ b/packages/hub/src/history/ledger/store.ts
@@ -47,6 +47,7 @@
 import type { NoydbStore, EncryptedEnvelope } from '../../types.js'
 import { NOYDB_FORMAT_VERSION } from '../../types.js'
 import { encrypt, decrypt } from '../../crypto.js'
+import { openRotatedDelta, type RotatedDelta } from '../../team/keyring.js'
 import { ConflictError, LedgerContentionError, TamperedError } from '../../errors.js'
 import {
   canonicalJson,
@@ -351,15 +352,24 @@ export class LedgerStore {
       paddedIndex(index),
     )
     if (!envelope) return null
-    if (expectedHash !== undefined && (await sha256Hex(envelope._data)) !== expectedHash) {
-      throw new TamperedError()
+    const checkHash = async (data: string): Promise<void> => {
+      if (expectedHash !== undefined && (await sha256Hex(data)) !== expectedHash) {
+        throw new TamperedError()
+      }
     }
     if (!this.encrypted) {
+      await checkHash(envelope._data)
       return JSON.parse(envelope._data) as JsonPatch
     }
     const dek = await this.getDEK(LEDGER_COLLECTION)
     const json = await decrypt(envelope._iv, envelope._data, dek)
-    return JSON.parse(json) as JsonPatch
+    const opened = JSON.parse(json) as JsonPatch | RotatedDelta
+    if (!Array.isArray(opened) && 'rotated' in opened) {
+      await checkHash(opened.rotated.data)
+      return JSON.parse(await openRotatedDelta(opened)) as JsonPatch
+    }
+    await checkHash(envelope._data)
+    return opened as JsonPatch
   }
 
   /** Encrypt a JSON Patch into an envelope for storage. Mirrors encryptEntry. */
diff --git a/packages/hub/src/team/keyring.ts b/packages/hub/src/team/keyring.ts
index ea2e780..abb6381 100644
--- a/packages/hub/src/team/keyring.ts
+++ b/packages/hub/src/team/keyring.ts
@@ -546,6 +546,31 @@ interface SealedItem {
   readonly after: EncryptedEnvelope
 }
 
+/**
+ * A ledger delta after rotation. Ledger entries commit to the ciphertext
+ * of their delta, so rotation keeps that ciphertext and seals it, together
+ * with the key it was made with, under the new DEK.
+ */
+export interface RotatedDelta {
+  readonly rotated: { readonly iv: string; readonly data: string; readonly key: string }
+}
+
+async function rotateDelta(envelope: EncryptedEnvelope, oldDek: CryptoKey): Promise<string> {
+  const json = await decrypt(envelope._iv, envelope._data, oldDek)
+  const opened = JSON.parse(json) as unknown
+  if (!Array.isArray(opened) && (opened as RotatedDelta).rotated) return json
+  const key = bufferToBase64(await globalThis.crypto.subtle.exportKey('raw', oldDek))
+  const delta: RotatedDelta = { rotated: { iv: envelope._iv, data: envelope._data, key } }
+  return JSON.stringify(delta)
+}
+
+export async function openRotatedDelta({ rotated }: RotatedDelta): Promise<string> {
+  const key = await globalThis.crypto.subtle.importKey(
+    'raw', base64ToBuffer(rotated.key) as BufferSource, 'AES-GCM', false, ['decrypt'],
+  )
+  return decrypt(rotated.iv, rotated.data, key)
+}
+
 /** Every stored item sealed with the DEK `dekName`, re-encrypted with `newDek`. */
 async function resealItems(
   adapter: NoydbStore,
@@ -567,7 +592,9 @@ async function resealItems(
   ): Promise<EncryptedEnvelope | null> => {
     const before = await adapter.get(vault, from, id)
     if (!before || !before._iv || (before._tier ?? 0) !== tier) return null
-    const sealed = aad
+    const sealed = from === '_ledger_deltas'
+      ? await encrypt(await rotateDelta(before, oldDek), newDek)
+      : aad
       ? await encryptBytesWithAAD(await decryptBytesWithAAD(before._iv, before._data, oldDek, aad), newDek, aad)
       : await encrypt(await decrypt(before._iv, before._data, oldDek), newDek)
     let after: EncryptedEnvelope = { ...before, _iv: sealed.iv, _data: sealed.data }
-- 
2.43.0


From 655a0f319a4d58ad8e0e82fcf735cb5a20df7d04 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:33:14 +0000
Subject: [PATCH 22/87] fix: require collection access to read ledger deltas
 and an admin role to restore backups

---
 packages/hub/src/history/ledger/store.ts | 18 +++++++++++++++++-
 packages/hub/src/history/strategy.ts     |  1 +
 packages/hub/src/vault.ts                |  6 +++++-
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/packages/hub/src/history/ledger/store.ts b/packages/hub/src/history/ledger/store.ts
index 38b00cf..ac71dae 100644
--- a/packages/hub/src/history/ledger/store.ts
+++ b/packages/hub/src/history/ledger/store.ts
@@ -48,7 +48,7 @@ import type { NoydbStore, EncryptedEnvelope } from '../../types.js'
 import { NOYDB_FORMAT_VERSION } from '../../types.js'
 import { encrypt, decrypt } from '../../crypto.js'
 import { openRotatedDelta, type RotatedDelta } from '../../team/keyring.js'
-import { ConflictError, LedgerContentionError, TamperedError } from '../../errors.js'
+import { ConflictError, LedgerContentionError, NoAccessError, TamperedError } from '../../errors.js'
 import {
   canonicalJson,
   hashEntry,
@@ -134,6 +134,7 @@ export class LedgerStore {
   private readonly encrypted: boolean
   private readonly getDEK: (collectionName: string) => Promise<CryptoKey>
   private readonly actor: string
+  private readonly canRead: ((collectionName: string) => boolean) | undefined
 
   /**
    * In-memory cache of the chain head — the most recently appended
@@ -166,12 +167,14 @@ export class LedgerStore {
     encrypted: boolean
     getDEK: (collectionName: string) => Promise<CryptoKey>
     actor: string
+    canRead?: (collectionName: string) => boolean
   }) {
     this.adapter = opts.adapter
     this.vault = opts.vault
     this.encrypted = opts.encrypted
     this.getDEK = opts.getDEK
     this.actor = opts.actor
+    this.canRead = opts.canRead
   }
 
   /**
@@ -352,6 +355,7 @@ export class LedgerStore {
       paddedIndex(index),
     )
     if (!envelope) return null
+    await this.assertReadable(index)
     const checkHash = async (data: string): Promise<void> => {
       if (expectedHash !== undefined && (await sha256Hex(data)) !== expectedHash) {
         throw new TamperedError()
@@ -671,6 +675,18 @@ export class LedgerStore {
     }
   }
 
+  /**
+   * A delta holds field values, so reading it takes the same access as
+   * reading the collection it belongs to.
+   */
+  private async assertReadable(index: number): Promise<void> {
+    if (!this.canRead) return
+    const envelope = await this.adapter.get(this.vault, LEDGER_COLLECTION, paddedIndex(index))
+    if (!envelope) throw new NoAccessError()
+    const entry = await this.decryptEntry(envelope)
+    if (!this.canRead(entry.collection)) throw new NoAccessError()
+  }
+
   /** Decrypt an envelope into a LedgerEntry. Throws on bad key / tamper. */
   private async decryptEntry(envelope: EncryptedEnvelope): Promise<LedgerEntry> {
     if (!this.encrypted) {
diff --git a/packages/hub/src/history/strategy.ts b/packages/hub/src/history/strategy.ts
index 95d4747..7e0f7a9 100644
--- a/packages/hub/src/history/strategy.ts
+++ b/packages/hub/src/history/strategy.ts
@@ -53,6 +53,7 @@ export interface BuildLedgerOptions {
   encrypted: boolean
   getDEK: (collectionName: string) => Promise<CryptoKey>
   actor: string
+  canRead?: (collectionName: string) => boolean
 }
 
 /**
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index d513eb5..9e4b3b9 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -32,7 +32,7 @@ import {
   TierNotGrantedError,
 } from './errors.js'
 import type { NoydbEventEmitter } from './events.js'
-import { BackupLedgerError, BackupCorruptedError } from './errors.js'
+import { BackupLedgerError, BackupCorruptedError, PermissionDeniedError } from './errors.js'
 import type { StandardSchemaV1 } from './schema.js'
 import type { BlobStrategy } from './blobs/strategy.js'
 import type { IndexStrategy } from './indexing/strategy.js'
@@ -1222,6 +1222,7 @@ export class Vault {
         encrypted: this.encrypted,
         getDEK: this.getDEK,
         actor: this.keyring.userId,
+        canRead: (collectionName) => hasAccess(this.keyring, collectionName),
       })
     }
     return this.ledgerStore
@@ -1972,6 +1973,9 @@ export class Vault {
    * — there's no chain to verify against.
    */
   async load(backupJson: string): Promise<void> {
+    if (this.keyring.role !== 'owner' && this.keyring.role !== 'admin') {
+      throw new PermissionDeniedError('Only an owner or admin can restore a backup')
+    }
     const backup = JSON.parse(backupJson) as VaultBackup
 
     // 1. Restore data collections.
-- 
2.43.0


From 1a1617ef3b4178966e622cca50a8016ccdf0c62e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:33:14 +0000
Subject: [PATCH 23/87] fix: refuse attachment, tier and history changes
 without write permission

---
 packages/hub/src/blobs/blob-set.ts | 13 ++++++++++++-
 packages/hub/src/blobs/strategy.ts |  1 +
 packages/hub/src/collection.ts     | 16 ++++++++++++++++
 3 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/packages/hub/src/blobs/blob-set.ts b/packages/hub/src/blobs/blob-set.ts
index 3b45133..4fd9d3f 100644
--- a/packages/hub/src/blobs/blob-set.ts
+++ b/packages/hub/src/blobs/blob-set.ts
@@ -18,7 +18,7 @@ import {
   bufferToBase64,
   base64ToBuffer,
 } from '../crypto.js'
-import { ConflictError, NotFoundError } from '../errors.js'
+import { ConflictError, NotFoundError, ReadOnlyError } from '../errors.js'
 import { detectMagic, isPreCompressed } from './mime-magic.js'
 
 // ─── Internal collection names ─────────────────────────────────────────
@@ -143,6 +143,7 @@ export class BlobSet {
   private readonly encrypted: boolean
   private readonly userId: string | undefined
   private readonly maxBlobBytes: number | undefined
+  private readonly writable: boolean
 
   constructor(opts: {
     store: NoydbStore
@@ -153,6 +154,7 @@ export class BlobSet {
     encrypted: boolean
     userId?: string
     maxBlobBytes?: number
+    writable?: boolean
   }) {
     this.store = opts.store
     this.vault = opts.vault
@@ -162,6 +164,11 @@ export class BlobSet {
     this.encrypted = opts.encrypted
     this.userId = opts.userId
     this.maxBlobBytes = opts.maxBlobBytes
+    this.writable = opts.writable ?? true
+  }
+
+  private assertWritable(): void {
+    if (!this.writable) throw new ReadOnlyError()
   }
 
   /** The internal collection that holds slot metadata for this collection's blobs. */
@@ -445,6 +452,7 @@ export class BlobSet {
    *    If overwriting an existing slot, decrements the old eTag's refCount.
    */
   async put(slotName: string, data: Uint8Array, opts?: BlobPutOptions): Promise<void> {
+    this.assertWritable()
     // Step 1 — keyed content-hash (plaintext, before compression)
     const blobDEK = this.encrypted ? await this.getDEK(BLOB_COLLECTION) : null
     const eTag = blobDEK
@@ -568,6 +576,7 @@ export class BlobSet {
    * Decrements refCount on the blob. Chunks are GC'd by `vault.blobGC()`.
    */
   async delete(slotName: string): Promise<void> {
+    this.assertWritable()
     let eTagToDecrement: string | undefined
 
     await this.casUpdateSlots((slots) => {
@@ -666,6 +675,7 @@ export class BlobSet {
    * refCounts are adjusted accordingly.
    */
   async publish(slotName: string, label: string): Promise<void> {
+    this.assertWritable()
     const { slots } = await this.loadSlots()
     const slot = slots[slotName]
     if (!slot) throw new NotFoundError(`Slot "${slotName}" not found on record "${this.recordId}"`)
@@ -735,6 +745,7 @@ export class BlobSet {
    * Delete a published version. Decrements refCount on its blob.
    */
   async deleteVersion(slotName: string, label: string): Promise<void> {
+    this.assertWritable()
     const record = await this.loadVersionRecord(slotName, label)
     if (!record) return
 
diff --git a/packages/hub/src/blobs/strategy.ts b/packages/hub/src/blobs/strategy.ts
index 1987bbf..b94a8dd 100644
--- a/packages/hub/src/blobs/strategy.ts
+++ b/packages/hub/src/blobs/strategy.ts
@@ -30,6 +30,7 @@ export interface BlobStrategyOpenArgs {
   readonly getDEK: (collectionName: string) => Promise<CryptoKey>
   readonly encrypted: boolean
   readonly userId: string
+  readonly writable: boolean
 }
 
 /**
diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index faa14c9..8ffe8b3 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -1854,6 +1854,9 @@ export class Collection<T> {
 
   /** Prune history entries for a record (or all records if id is undefined). */
   async pruneRecordHistory(id: string | undefined, options: PruneOptions): Promise<number> {
+    if (!hasWritePermission(this.keyring, this.name)) {
+      throw new ReadOnlyError()
+    }
     const pruned = await this.historyStrategy.pruneHistory(
       this.adapter, this.vault, this.name, id, options,
     )
@@ -1870,6 +1873,9 @@ export class Collection<T> {
 
   /** Clear all history for this collection (or a specific record). */
   async clearHistory(id?: string): Promise<number> {
+    if (!hasWritePermission(this.keyring, this.name)) {
+      throw new ReadOnlyError()
+    }
     return this.historyStrategy.clearHistory(this.adapter, this.vault, this.name, id)
   }
 
@@ -2319,6 +2325,7 @@ export class Collection<T> {
       getDEK: this.getDEK,
       encrypted: this.encrypted,
       userId: this.keyring.userId,
+      writable: hasWritePermission(this.keyring, this.name),
     })
   }
 
@@ -2827,6 +2834,9 @@ export class Collection<T> {
     this.assertTiersEnabled()
     this.assertDeclaredTier(tier)
     assertTierAccess(this.keyring, this.name, tier)
+    if (!hasWritePermission(this.keyring, this.name)) {
+      throw new ReadOnlyError()
+    }
 
     const key = dekKey(this.name, tier)
     const dek = await this.getDEK(key)
@@ -2941,6 +2951,9 @@ export class Collection<T> {
     this.assertTiersEnabled()
     this.assertDeclaredTier(toTier)
     assertTierAccess(this.keyring, this.name, toTier)
+    if (!hasWritePermission(this.keyring, this.name)) {
+      throw new ReadOnlyError()
+    }
 
     const envelope = await this.adapter.get(this.vault, this.name, id)
     if (!envelope) throw new Error(`Record "${id}" not found in collection "${this.name}"`)
@@ -3005,6 +3018,9 @@ export class Collection<T> {
     }
     // Caller must still hold the DEK of the current tier to decrypt.
     assertTierAccess(this.keyring, this.name, fromTier)
+    if (!hasWritePermission(this.keyring, this.name)) {
+      throw new ReadOnlyError()
+    }
     if (toTier > 0) this.assertDeclaredTier(toTier)
 
     const fromDek = await this.getDEK(dekKey(this.name, fromTier))
-- 
2.43.0


From 19be7d35c1c31e45a16a629bbe5ddbba3b2c8577 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:37:19 +0000
Subject: [PATCH 24/87] fix: read ledger deltas only with the collection's key

---
 packages/hub/src/history/active.ts | 1 +
 packages/hub/src/vault.ts          | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/hub/src/history/active.ts b/packages/hub/src/history/active.ts
index e2575fa..0c09be3 100644
--- a/packages/hub/src/history/active.ts
+++ b/packages/hub/src/history/active.ts
@@ -67,6 +67,7 @@ export function withHistory(): HistoryStrategy {
         encrypted: opts.encrypted,
         getDEK: opts.getDEK,
         actor: opts.actor,
+        ...(opts.canRead !== undefined && { canRead: opts.canRead }),
       })
     },
     buildVaultInstant(engine, timestamp): VaultInstant {
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index 9e4b3b9..dae4d4d 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -1222,7 +1222,9 @@ export class Vault {
         encrypted: this.encrypted,
         getDEK: this.getDEK,
         actor: this.keyring.userId,
-        canRead: (collectionName) => hasAccess(this.keyring, collectionName),
+        canRead: (collectionName) =>
+          (!this.encrypted || this.keyring.deks.has(collectionName)) &&
+          (collectionName.startsWith('_') || hasAccess(this.keyring, collectionName)),
       })
     }
     return this.ledgerStore
-- 
2.43.0


From a5997663ecf1981ec72cdcbd0636dd8b4756141a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:37:19 +0000
Subject: [PATCH 25/87] fix: keep index entries when the caller cannot rebuild
 them

---
 packages/hub/src/collection.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 8ffe8b3..b05878a 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -2124,6 +2124,8 @@ export class Collection<T> {
     if (!persisted) return
     const fields = persisted.fields()
     if (fields.length === 0) return
+    // Without the key nothing could be written back.
+    if (this.encrypted) await this.getDEK(this.name)
 
     // 1. Drop every existing side-car. Errors here are tolerated — the
     //    next step overwrites any remnants. If a side-car is for a
-- 
2.43.0


From 4975a970e079b8ff3e8ff35eb5d1da5703853588 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:48:17 +0000
Subject: [PATCH 26/87] fix: keep internal collections out of bulk load and
 bulk save

---
 packages/to-cloudflare-d1/src/index.ts | 3 ++-
 packages/to-mysql/src/index.ts         | 3 ++-
 packages/to-postgres/src/index.ts      | 3 ++-
 packages/to-smb/src/index.ts           | 1 +
 packages/to-sqlite/src/index.ts        | 3 ++-
 packages/to-ssh/src/index.ts           | 1 +
 packages/to-turso/src/index.ts         | 5 +++--
 packages/to-webdav/src/index.ts        | 2 +-
 8 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/packages/to-cloudflare-d1/src/index.ts b/packages/to-cloudflare-d1/src/index.ts
index a7fad65..8cedf09 100644
--- a/packages/to-cloudflare-d1/src/index.ts
+++ b/packages/to-cloudflare-d1/src/index.ts
@@ -195,6 +195,7 @@ export function d1(options: D1StoreOptions): NoydbStore {
       const snap: VaultSnapshot = {}
       for (const row of res.results ?? []) {
         const collection = row.collection as string
+        if (collection.startsWith('_')) continue
         const id = row.id as string
         const bucket = snap[collection] ?? (snap[collection] = {})
         bucket[id] = rowToEnvelope(row)
@@ -205,7 +206,7 @@ export function d1(options: D1StoreOptions): NoydbStore {
     async saveAll(vault, data) {
       await ensureSchema()
       const statements: D1PreparedStatement[] = [
-        db.prepare(`DELETE FROM ${tableName} WHERE vault = ?`).bind(vault),
+        db.prepare(`DELETE FROM ${tableName} WHERE vault = ? AND substr(collection, 1, 1) <> '_'`).bind(vault),
       ]
       for (const [collection, recs] of Object.entries(data)) {
         for (const [id, envelope] of Object.entries(recs)) {
diff --git a/packages/to-mysql/src/index.ts b/packages/to-mysql/src/index.ts
index df81aa3..c5ec08d 100644
--- a/packages/to-mysql/src/index.ts
+++ b/packages/to-mysql/src/index.ts
@@ -143,6 +143,7 @@ export function mysql(options: MysqlStoreOptions): NoydbStore {
       )
       const snap: VaultSnapshot = {}
       for (const row of rows) {
+        if (row.collection.startsWith('_')) continue
         const bucket = snap[row.collection] ?? (snap[row.collection] = {})
         bucket[row.id] = parseEnvelope(row.envelope)
       }
@@ -153,7 +154,7 @@ export function mysql(options: MysqlStoreOptions): NoydbStore {
       await ensureSchema()
       await runDDL('START TRANSACTION')
       try {
-        await client.execute(`DELETE FROM ${tableName} WHERE vault = ?`, [vault])
+        await client.execute(`DELETE FROM ${tableName} WHERE vault = ? AND substr(collection, 1, 1) <> '_'`, [vault])
         for (const [collection, recs] of Object.entries(data)) {
           for (const [id, envelope] of Object.entries(recs)) {
             await upsert(vault, collection, id, envelope)
diff --git a/packages/to-postgres/src/index.ts b/packages/to-postgres/src/index.ts
index c1f66e2..f270851 100644
--- a/packages/to-postgres/src/index.ts
+++ b/packages/to-postgres/src/index.ts
@@ -149,6 +149,7 @@ export function postgres(options: PostgresStoreOptions): NoydbStore {
       )
       const snap: VaultSnapshot = {}
       for (const row of rows) {
+        if (row.collection.startsWith('_')) continue
         const bucket = snap[row.collection] ?? (snap[row.collection] = {})
         const env = typeof row.envelope === 'string'
           ? (JSON.parse(row.envelope) as EncryptedEnvelope)
@@ -162,7 +163,7 @@ export function postgres(options: PostgresStoreOptions): NoydbStore {
       await ensureSchema()
       await client.query('BEGIN')
       try {
-        await client.query(`DELETE FROM ${tableName} WHERE vault = $1`, [vault])
+        await client.query(`DELETE FROM ${tableName} WHERE vault = $1 AND substr(collection, 1, 1) <> '_'`, [vault])
         for (const [collection, recs] of Object.entries(data)) {
           for (const [id, envelope] of Object.entries(recs)) {
             await upsert(vault, collection, id, envelope)
diff --git a/packages/to-smb/src/index.ts b/packages/to-smb/src/index.ts
index 6a6c2d2..8c34e56 100644
--- a/packages/to-smb/src/index.ts
+++ b/packages/to-smb/src/index.ts
@@ -159,6 +159,7 @@ export function smb(options: SmbStoreOptions): NoydbStore {
     async saveAll(vault, data) {
       const existing = await safeReaddir(vaultPath(vault))
       for (const collection of existing) {
+        if (collection.startsWith('_')) continue
         const ids = await safeReaddir(collPath(vault, collection))
         for (const fname of ids) {
           await client.unlink(join(root, vault, collection, fname)).catch(() => undefined)
diff --git a/packages/to-sqlite/src/index.ts b/packages/to-sqlite/src/index.ts
index 4c4e77d..214e488 100644
--- a/packages/to-sqlite/src/index.ts
+++ b/packages/to-sqlite/src/index.ts
@@ -181,6 +181,7 @@ export function sqlite(options: SqliteStoreOptions): NoydbStore {
         .all(vault) as Row[]
       const snap: VaultSnapshot = {}
       for (const row of rows) {
+        if (row.collection.startsWith('_')) continue
         const bucket = snap[row.collection] ?? (snap[row.collection] = {})
         bucket[row.id] = rowToEnvelope(row)
       }
@@ -190,7 +191,7 @@ export function sqlite(options: SqliteStoreOptions): NoydbStore {
     async saveAll(vault, data) {
       db.exec('BEGIN IMMEDIATE')
       try {
-        db.prepare(`DELETE FROM ${tableName} WHERE vault = ?`).run(vault)
+        db.prepare(`DELETE FROM ${tableName} WHERE vault = ? AND substr(collection, 1, 1) <> '_'`).run(vault)
         for (const [collection, recs] of Object.entries(data)) {
           for (const [id, envelope] of Object.entries(recs)) {
             upsert(vault, collection, id, envelope)
diff --git a/packages/to-ssh/src/index.ts b/packages/to-ssh/src/index.ts
index b7a4e4d..ee2bcfc 100644
--- a/packages/to-ssh/src/index.ts
+++ b/packages/to-ssh/src/index.ts
@@ -173,6 +173,7 @@ export function ssh(options: SshStoreOptions): NoydbStore {
       // Delete the vault tree first to mirror the semantics of other stores.
       const existingCollections = await safeReaddir(vaultPath(vault))
       for (const collection of existingCollections) {
+        if (collection.startsWith('_')) continue
         const ids = await safeReaddir(collPath(vault, collection))
         for (const id of ids) {
           await sftp
diff --git a/packages/to-turso/src/index.ts b/packages/to-turso/src/index.ts
index 98c98ff..7bda9cf 100644
--- a/packages/to-turso/src/index.ts
+++ b/packages/to-turso/src/index.ts
@@ -174,6 +174,7 @@ export function turso(options: TursoStoreOptions): NoydbStore {
       const snap: VaultSnapshot = {}
       for (const row of result.rows) {
         const collection = row.collection as string
+        if (collection.startsWith('_')) continue
         const id = row.id as string
         const bucket = snap[collection] ?? (snap[collection] = {})
         bucket[id] = rowToEnvelope(row)
@@ -185,7 +186,7 @@ export function turso(options: TursoStoreOptions): NoydbStore {
       await ensureSchema()
       if (client.batch) {
         const statements: { sql: string; args?: readonly unknown[] }[] = [
-          { sql: `DELETE FROM ${tableName} WHERE vault = ?`, args: [vault] },
+          { sql: `DELETE FROM ${tableName} WHERE vault = ? AND substr(collection, 1, 1) <> '_'`, args: [vault] },
         ]
         for (const [collection, recs] of Object.entries(data)) {
           for (const [id, envelope] of Object.entries(recs)) {
@@ -211,7 +212,7 @@ export function turso(options: TursoStoreOptions): NoydbStore {
         return
       }
       // Fallback: sequential execute when the client lacks batch.
-      await client.execute({ sql: `DELETE FROM ${tableName} WHERE vault = ?`, args: [vault] })
+      await client.execute({ sql: `DELETE FROM ${tableName} WHERE vault = ? AND substr(collection, 1, 1) <> '_'`, args: [vault] })
       for (const [collection, recs] of Object.entries(data)) {
         for (const [id, envelope] of Object.entries(recs)) {
           await upsert(vault, collection, id, envelope)
diff --git a/packages/to-webdav/src/index.ts b/packages/to-webdav/src/index.ts
index 93a747e..de1982f 100644
--- a/packages/to-webdav/src/index.ts
+++ b/packages/to-webdav/src/index.ts
@@ -213,7 +213,7 @@ export function webdav(options: WebDAVStoreOptions): NoydbStore {
         const hrefPath = href.replace(/\/+$/, '')
         if (hrefPath === selfPath) continue
         const segment = hrefPath.slice(selfPath.length + 1).split('/')[0]
-        if (segment) collections.add(decodeURIComponent(segment))
+        if (segment && !segment.startsWith('_')) collections.add(segment)
       }
       const snap: VaultSnapshot = {}
       for (const collection of collections) {
-- 
2.43.0


From 3ddb151f4b5905a676f6bddc369a2d00063f7c6d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:49:12 +0000
Subject: [PATCH 27/87] fix: keep file store names inside their directory,
 replace files atomically and drop records missing from a bulk save

---
 packages/to-file/src/index.ts | 57 +++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/packages/to-file/src/index.ts b/packages/to-file/src/index.ts
index 2626e50..e34d489 100644
--- a/packages/to-file/src/index.ts
+++ b/packages/to-file/src/index.ts
@@ -41,7 +41,7 @@
  * @packageDocumentation
  */
 
-import { readFile, writeFile, mkdir, readdir, unlink, stat } from 'node:fs/promises'
+import { readFile, writeFile, mkdir, readdir, rename, unlink, stat } from 'node:fs/promises'
 import { dirname, join } from 'node:path'
 import type {
   NoydbStore,
@@ -71,6 +71,34 @@ export interface JsonFileOptions {
   pretty?: boolean
 }
 
+/**
+ * Turn a vault, collection or record name into a single path segment.
+ * Path separators would otherwise nest or climb out of the directory.
+ */
+function toFileName(name: string): string {
+  if (name === '.' || name === '..') return name.replaceAll('.', '%2E')
+  // eslint-disable-next-line no-control-regex
+  return name.replace(/[%/\\\0]/g, ch => `%${ch.charCodeAt(0).toString(16).toUpperCase().padStart(2, '0')}`)
+}
+
+function fromFileName(name: string): string {
+  return name.replace(/%(25|2F|5C|00|2E)/g, (_, hex: string) => String.fromCharCode(parseInt(hex, 16)))
+}
+
+let tmpCounter = 0
+
+/** Write to a sibling file and rename, so a reader never sees half a record. */
+async function replaceFile(path: string, content: string): Promise<void> {
+  const tmp = `${path}.${process.pid}-${tmpCounter++}.tmp`
+  try {
+    await writeFile(tmp, content, 'utf-8')
+    await rename(tmp, path)
+  } catch (err) {
+    await unlink(tmp).catch(() => undefined)
+    throw err
+  }
+}
+
 /**
  * Create a JSON file adapter.
  * Maps the NOYDB hierarchy to the filesystem:
@@ -84,11 +112,11 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
   const { dir, pretty = true } = options
 
   function recordPath(vault: string, collection: string, id: string): string {
-    return join(dir, vault, collection, `${id}.json`)
+    return join(collectionDir(vault, collection), `${toFileName(id)}.json`)
   }
 
   function collectionDir(vault: string, collection: string): string {
-    return join(dir, vault, collection)
+    return join(dir, toFileName(vault), toFileName(collection))
   }
 
   async function ensureDir(path: string): Promise<void> {
@@ -132,7 +160,7 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
       }
 
       await ensureDir(collectionDir(vault, collection))
-      await writeFile(path, serialize(envelope), 'utf-8')
+      await replaceFile(path, serialize(envelope))
     },
 
     async delete(vault, collection, id) {
@@ -150,14 +178,14 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
         const entries = await readdir(dirPath)
         return entries
           .filter(f => f.endsWith('.json'))
-          .map(f => f.slice(0, -5)) // remove .json extension
+          .map(f => fromFileName(f.slice(0, -5))) // remove .json extension
       } catch {
         return []
       }
     },
 
     async loadAll(vault) {
-      const compDir = join(dir, vault)
+      const compDir = join(dir, toFileName(vault))
       const snapshot: VaultSnapshot = {}
 
       try {
@@ -172,11 +200,11 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
           const files = await readdir(collPath)
           for (const file of files) {
             if (!file.endsWith('.json')) continue
-            const id = file.slice(0, -5)
+            const id = fromFileName(file.slice(0, -5))
             const content = await readFile(join(collPath, file), 'utf-8')
             records[id] = JSON.parse(content) as EncryptedEnvelope
           }
-          snapshot[collName] = records
+          snapshot[fromFileName(collName)] = records
         }
       } catch {
         // Directory doesn't exist — return empty snapshot
@@ -186,11 +214,16 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
     },
 
     async saveAll(vault, data) {
+      for (const [collName, records] of Object.entries(await this.loadAll(vault))) {
+        for (const id of Object.keys(records)) {
+          if (!Object.hasOwn(data[collName] ?? {}, id)) await this.delete(vault, collName, id)
+        }
+      }
       for (const [collName, records] of Object.entries(data)) {
         const collDir = collectionDir(vault, collName)
         await ensureDir(collDir)
         for (const [id, envelope] of Object.entries(records)) {
-          await writeFile(join(collDir, `${id}.json`), serialize(envelope), 'utf-8')
+          await replaceFile(recordPath(vault, collName, id), serialize(envelope))
         }
       }
     },
@@ -227,7 +260,7 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
       for (const entry of entries) {
         try {
           const entryStat = await stat(join(dir, entry))
-          if (entryStat.isDirectory()) compartments.push(entry)
+          if (entryStat.isDirectory()) compartments.push(fromFileName(entry))
         } catch {
           // Entry vanished between readdir and stat — skip silently.
         }
@@ -255,7 +288,7 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
 
       const ids = files
         .filter(f => f.endsWith('.json'))
-        .map(f => f.slice(0, -5))
+        .map(f => fromFileName(f.slice(0, -5)))
         .sort()
 
       const start = cursor ? parseInt(cursor, 10) : 0
@@ -265,7 +298,7 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
       for (let i = start; i < end; i++) {
         const id = ids[i]!
         try {
-          const content = await readFile(join(dirPath, `${id}.json`), 'utf-8')
+          const content = await readFile(recordPath(vault, collection, id), 'utf-8')
           items.push({ id, envelope: JSON.parse(content) as EncryptedEnvelope })
         } catch {
           // File disappeared between readdir and readFile — skip silently.
-- 
2.43.0


From cd109db54e4e764325044c9c9c8a21716f819bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:53:24 +0000
Subject: [PATCH 28/87] fix: make object, browser and webdav stores page,
 separate and replace like the others

---
 packages/to-aws-dynamo/src/index.ts    | 65 +++++++++++++++++++-------
 packages/to-aws-s3/src/index.ts        | 64 +++++++++++++++----------
 packages/to-browser-idb/src/index.ts   | 25 ++++++++--
 packages/to-browser-local/src/index.ts | 22 +++++++--
 packages/to-webdav/src/index.ts        | 24 ++++++----
 5 files changed, 140 insertions(+), 60 deletions(-)

diff --git a/packages/to-aws-dynamo/src/index.ts b/packages/to-aws-dynamo/src/index.ts
index 141478f..1defb6f 100644
--- a/packages/to-aws-dynamo/src/index.ts
+++ b/packages/to-aws-dynamo/src/index.ts
@@ -120,17 +120,34 @@ export function dynamo(options: DynamoOptions): NoydbStore {
   }
 
   function sk(collection: string, id: string): string {
-    return `${collection}#${id}`
+    return `${escapeName(collection)}#${id}`
   }
 
   function parseSk(sortKey: string): { collection: string; id: string } {
     const idx = sortKey.indexOf('#')
     return {
-      collection: sortKey.slice(0, idx),
+      collection: unescapeName(sortKey.slice(0, idx)),
       id: sortKey.slice(idx + 1),
     }
   }
 
+  // One response holds at most 1 MB of items.
+  async function queryAll(input: QueryCommandInput): Promise<Record<string, unknown>[]> {
+    const client = await getClient()
+    const { QueryCommand } = await import('@aws-sdk/lib-dynamodb') as { QueryCommand: new (input: QueryCommandInput) => unknown }
+    const items: Record<string, unknown>[] = []
+    let startKey: Record<string, unknown> | undefined
+    do {
+      const result = await client.send(new QueryCommand({
+        ...input,
+        ...(startKey && { ExclusiveStartKey: startKey }),
+      })) as { Items?: Record<string, unknown>[]; LastEvaluatedKey?: Record<string, unknown> }
+      items.push(...(result.Items ?? []))
+      startKey = result.LastEvaluatedKey
+    } while (startKey)
+    return items
+  }
+
   function itemToEnvelope(item: Record<string, unknown>): EncryptedEnvelope {
     return {
       _noydb: 1,
@@ -138,6 +155,10 @@ export function dynamo(options: DynamoOptions): NoydbStore {
       _ts: item['_ts'] as string,
       _iv: item['_iv'] as string,
       _data: item['_data'] as string,
+      ...(item['_by'] !== undefined && { _by: item['_by'] as string }),
+      ...(item['_tier'] !== undefined && { _tier: item['_tier'] as number }),
+      ...(item['_elevatedBy'] !== undefined && { _elevatedBy: item['_elevatedBy'] as string }),
+      ...(item['_det'] !== undefined && { _det: item['_det'] as Record<string, string> }),
     }
   }
 
@@ -169,6 +190,10 @@ export function dynamo(options: DynamoOptions): NoydbStore {
         _ts: envelope._ts,
         _iv: envelope._iv,
         _data: envelope._data,
+        ...(envelope._by !== undefined && { _by: envelope._by }),
+        ...(envelope._tier !== undefined && { _tier: envelope._tier }),
+        ...(envelope._elevatedBy !== undefined && { _elevatedBy: envelope._elevatedBy }),
+        ...(envelope._det !== undefined && { _det: envelope._det }),
       }
 
       const input: PutCommandInput = { TableName: table, Item: item }
@@ -205,37 +230,31 @@ export function dynamo(options: DynamoOptions): NoydbStore {
     },
 
     async list(vault, collection) {
-      const client = await getClient()
-      const { QueryCommand } = await import('@aws-sdk/lib-dynamodb') as { QueryCommand: new (input: QueryCommandInput) => unknown }
-
-      const result = await client.send(new QueryCommand({
+      const items = await queryAll({
         TableName: table,
         KeyConditionExpression: 'pk = :pk AND begins_with(sk, :prefix)',
         ExpressionAttributeValues: {
           ':pk': vault,
-          ':prefix': `${collection}#`,
+          ':prefix': `${escapeName(collection)}#`,
         },
-      })) as { Items?: Record<string, unknown>[] }
+      })
 
-      return (result.Items ?? []).map(item => {
+      return items.map(item => {
         const { id } = parseSk(item['sk'] as string)
         return id
       })
     },
 
     async loadAll(vault) {
-      const client = await getClient()
-      const { QueryCommand } = await import('@aws-sdk/lib-dynamodb') as { QueryCommand: new (input: QueryCommandInput) => unknown }
-
-      const result = await client.send(new QueryCommand({
+      const items = await queryAll({
         TableName: table,
         KeyConditionExpression: 'pk = :pk',
         ExpressionAttributeValues: { ':pk': vault },
-      })) as { Items?: Record<string, unknown>[] }
+      })
 
       const snapshot: VaultSnapshot = {}
 
-      for (const item of result.Items ?? []) {
+      for (const item of items) {
         const sortKey = item['sk'] as string
         const { collection, id } = parseSk(sortKey)
 
@@ -251,6 +270,11 @@ export function dynamo(options: DynamoOptions): NoydbStore {
     },
 
     async saveAll(vault, data) {
+      for (const [collection, records] of Object.entries(await this.loadAll(vault))) {
+        for (const id of Object.keys(records)) {
+          if (!Object.hasOwn(data[collection] ?? {}, id)) await this.delete(vault, collection, id)
+        }
+      }
       // Use individual puts (DynamoDB batch write has limitations with conditions)
       for (const [collName, records] of Object.entries(data)) {
         for (const [id, envelope] of Object.entries(records)) {
@@ -292,7 +316,7 @@ export function dynamo(options: DynamoOptions): NoydbStore {
         KeyConditionExpression: 'pk = :pk AND begins_with(sk, :prefix)',
         ExpressionAttributeValues: {
           ':pk': vault,
-          ':prefix': `${collection}#`,
+          ':prefix': `${escapeName(collection)}#`,
         },
         Limit: limit,
       }
@@ -327,6 +351,15 @@ export function dynamo(options: DynamoOptions): NoydbStore {
  * that way — listPage cursors are short JSON blobs so the per-call cost
  * of these helpers is negligible.
  */
+/** A `#` in a collection name must not reach into another collection's sort keys. */
+function escapeName(name: string): string {
+  return name.replace(/[%#]/g, ch => (ch === '%' ? '%25' : '%23'))
+}
+
+function unescapeName(name: string): string {
+  return name.replace(/%(25|23)/g, (_, hex: string) => (hex === '25' ? '%' : '#'))
+}
+
 function b64encode(input: string): string {
   // btoa expects a Latin-1 string; encodeURIComponent + unescape is the
   // canonical trick for utf-8 → btoa-safe payloads.
diff --git a/packages/to-aws-s3/src/index.ts b/packages/to-aws-s3/src/index.ts
index b779a20..65e27a7 100644
--- a/packages/to-aws-s3/src/index.ts
+++ b/packages/to-aws-s3/src/index.ts
@@ -71,6 +71,15 @@ export interface S3Options {
   client?: S3Client
 }
 
+/** A slash in a vault or collection name must not reach into another one's keys. */
+function escapeName(name: string): string {
+  return name.replace(/[%/]/g, ch => (ch === '%' ? '%25' : '%2F'))
+}
+
+function unescapeName(name: string): string {
+  return name.replace(/%(25|2F)/g, (_, hex: string) => (hex === '25' ? '%' : '/'))
+}
+
 /**
  * Create an S3 adapter.
  * Key scheme: `{prefix}/{vault}/{collection}/{id}.json`
@@ -83,17 +92,33 @@ export function s3(options: S3Options): NoydbStore {
   })
 
   function objectKey(vault: string, collection: string, id: string): string {
-    const parts = [vault, collection, `${id}.json`]
+    const parts = [escapeName(vault), escapeName(collection), `${id}.json`]
     return prefix ? `${prefix}/${parts.join('/')}` : parts.join('/')
   }
 
   function collPrefix(vault: string, collection: string): string {
-    const parts = [vault, collection, '']
+    const parts = [escapeName(vault), escapeName(collection), '']
     return prefix ? `${prefix}/${parts.join('/')}` : parts.join('/')
   }
 
   function compPrefix(vault: string): string {
-    return prefix ? `${prefix}/${vault}/` : `${vault}/`
+    return prefix ? `${prefix}/${escapeName(vault)}/` : `${escapeName(vault)}/`
+  }
+
+  // One response holds at most 1000 keys.
+  async function listKeys(pfx: string): Promise<string[]> {
+    const keys: string[] = []
+    let token: string | undefined
+    do {
+      const result = await client.send(new ListObjectsV2Command({
+        Bucket: bucket,
+        Prefix: pfx,
+        ...(token !== undefined ? { ContinuationToken: token } : {}),
+      }))
+      for (const obj of result.Contents ?? []) if (obj.Key?.endsWith('.json')) keys.push(obj.Key)
+      token = result.IsTruncated ? result.NextContinuationToken : undefined
+    } while (token !== undefined)
+    return keys
   }
 
   return {
@@ -142,36 +167,20 @@ export function s3(options: S3Options): NoydbStore {
 
     async list(vault, collection) {
       const pfx = collPrefix(vault, collection)
-      const result = await client.send(new ListObjectsV2Command({
-        Bucket: bucket,
-        Prefix: pfx,
-      }))
-
-      return (result.Contents ?? [])
-        .map(obj => obj.Key ?? '')
-        .filter(k => k.endsWith('.json'))
-        .map(k => k.slice(pfx.length, -5))
+      return (await listKeys(pfx)).map(k => k.slice(pfx.length, -5))
     },
 
     async loadAll(vault) {
       const pfx = compPrefix(vault)
-      const listResult = await client.send(new ListObjectsV2Command({
-        Bucket: bucket,
-        Prefix: pfx,
-      }))
-
       const snapshot: VaultSnapshot = {}
 
-      for (const obj of listResult.Contents ?? []) {
-        const key = obj.Key ?? ''
-        if (!key.endsWith('.json')) continue
-
+      for (const key of await listKeys(pfx)) {
         const relativePath = key.slice(pfx.length)
-        const parts = relativePath.split('/')
-        if (parts.length !== 2) continue
+        const slash = relativePath.indexOf('/')
+        if (slash < 0) continue
 
-        const collection = parts[0]!
-        const id = parts[1]!.slice(0, -5)
+        const collection = unescapeName(relativePath.slice(0, slash))
+        const id = relativePath.slice(slash + 1, -5)
         if (collection.startsWith('_')) continue
 
         const getResult = await client.send(new GetObjectCommand({
@@ -190,6 +199,11 @@ export function s3(options: S3Options): NoydbStore {
     },
 
     async saveAll(vault, data) {
+      for (const [collection, records] of Object.entries(await this.loadAll(vault))) {
+        for (const id of Object.keys(records)) {
+          if (!Object.hasOwn(data[collection] ?? {}, id)) await this.delete(vault, collection, id)
+        }
+      }
       for (const [collection, records] of Object.entries(data)) {
         for (const [id, envelope] of Object.entries(records)) {
           await this.put(vault, collection, id, envelope)
diff --git a/packages/to-browser-idb/src/index.ts b/packages/to-browser-idb/src/index.ts
index 7675052..bd8c3b7 100644
--- a/packages/to-browser-idb/src/index.ts
+++ b/packages/to-browser-idb/src/index.ts
@@ -88,6 +88,15 @@ function hashComponent(value: string, obfuscate: boolean): string {
   return obfuscate ? fnv1a(value) : value
 }
 
+/** A colon in a vault or collection name must not reach into another one's keys. */
+function nameComponent(value: string, obfuscate: boolean): string {
+  return hashComponent(obfuscate ? value : value.replace(/[%:]/g, ch => (ch === '%' ? '%25' : '%3A')), obfuscate)
+}
+
+function unescapeName(value: string): string {
+  return value.replace(/%(25|3A)/g, (_, hex: string) => (hex === '25' ? '%' : ':'))
+}
+
 // ─── XOR Encode/Decode (makes metadata unreadable in storage) ──────────
 
 /** XOR-encode a string with a repeating key, return base64. */
@@ -154,7 +163,7 @@ function createIndexedDBAdapter(prefix: string, obfuscate: boolean, obfKey: stri
   }
 
   function key(vault: string, collection: string, id: string): string {
-    return `${hashComponent(vault, obfuscate)}:${hashComponent(collection, obfuscate)}:${hashComponent(id, obfuscate)}`
+    return `${nameComponent(vault, obfuscate)}:${nameComponent(collection, obfuscate)}:${hashComponent(id, obfuscate)}`
   }
 
   function tx(mode: IDBTransactionMode): Promise<{ store: IDBObjectStore; complete: Promise<void> }> {
@@ -215,7 +224,7 @@ function createIndexedDBAdapter(prefix: string, obfuscate: boolean, obfKey: stri
     },
 
     async list(vault, collection) {
-      const pfx = `${hashComponent(vault, obfuscate)}:${hashComponent(collection, obfuscate)}:`
+      const pfx = `${nameComponent(vault, obfuscate)}:${nameComponent(collection, obfuscate)}:`
       const { store } = await tx('readonly')
       const allKeys = await idbRequest(store.getAllKeys()) as string[]
 
@@ -238,7 +247,7 @@ function createIndexedDBAdapter(prefix: string, obfuscate: boolean, obfKey: stri
     },
 
     async loadAll(vault) {
-      const pfx = `${hashComponent(vault, obfuscate)}:`
+      const pfx = `${nameComponent(vault, obfuscate)}:`
       const { store } = await tx('readonly')
       const allKeys = await idbRequest(store.getAllKeys()) as string[]
       const snapshot: VaultSnapshot = {}
@@ -262,7 +271,7 @@ function createIndexedDBAdapter(prefix: string, obfuscate: boolean, obfKey: stri
           const rest = k.slice(pfx.length)
           const colonIdx = rest.indexOf(':')
           if (colonIdx < 0) continue
-          collection = rest.slice(0, colonIdx)
+          collection = unescapeName(rest.slice(0, colonIdx))
           id = rest.slice(colonIdx + 1)
           envelope = raw as EncryptedEnvelope
         }
@@ -276,7 +285,13 @@ function createIndexedDBAdapter(prefix: string, obfuscate: boolean, obfKey: stri
     },
 
     async saveAll(vault, data) {
+      const current = await this.loadAll(vault)
       const { store, complete } = await tx('readwrite')
+      for (const [collection, records] of Object.entries(current)) {
+        for (const id of Object.keys(records)) {
+          if (!Object.hasOwn(data[collection] ?? {}, id)) store.delete(key(vault, collection, id))
+        }
+      }
       for (const [collection, records] of Object.entries(data)) {
         for (const [id, envelope] of Object.entries(records)) {
           const value = obfuscate ? { _oi: xorEncode(id, obfKey), _oc: xorEncode(collection, obfKey), _e: envelope } : envelope
@@ -305,7 +320,7 @@ function createIndexedDBAdapter(prefix: string, obfuscate: boolean, obfKey: stri
      * the build target).
      */
     async listPage(vault, collection, cursor, limit = 100) {
-      const pfx = `${hashComponent(vault, obfuscate)}:${hashComponent(collection, obfuscate)}:`
+      const pfx = `${nameComponent(vault, obfuscate)}:${nameComponent(collection, obfuscate)}:`
       const { store } = await tx('readonly')
       const allKeys = await idbRequest(store.getAllKeys()) as string[]
       const matchedKeys = allKeys
diff --git a/packages/to-browser-local/src/index.ts b/packages/to-browser-local/src/index.ts
index 9df4d4b..0f68b31 100644
--- a/packages/to-browser-local/src/index.ts
+++ b/packages/to-browser-local/src/index.ts
@@ -86,6 +86,15 @@ function hashComponent(value: string, obfuscate: boolean): string {
   return obfuscate ? fnv1a(value) : value
 }
 
+/** A colon in a vault or collection name must not reach into another one's keys. */
+function nameComponent(value: string, obfuscate: boolean): string {
+  return hashComponent(obfuscate ? value : value.replace(/[%:]/g, ch => (ch === '%' ? '%25' : '%3A')), obfuscate)
+}
+
+function unescapeName(value: string): string {
+  return value.replace(/%(25|3A)/g, (_, hex: string) => (hex === '25' ? '%' : ':'))
+}
+
 // ─── XOR Encode/Decode (makes metadata unreadable in storage) ──────────
 
 /** XOR-encode a string with a repeating key, return base64. */
@@ -178,15 +187,15 @@ function unwrapValue(raw: string, obfuscate: boolean, obfKey: string): { envelop
 
 function createLocalStorageAdapter(prefix: string, obfuscate: boolean, obfKey: string): NoydbStore {
   function key(vault: string, collection: string, id: string): string {
-    return `${prefix}:${hashComponent(vault, obfuscate)}:${hashComponent(collection, obfuscate)}:${hashComponent(id, obfuscate)}`
+    return `${prefix}:${nameComponent(vault, obfuscate)}:${nameComponent(collection, obfuscate)}:${hashComponent(id, obfuscate)}`
   }
 
   function collectionPrefix(vault: string, collection: string): string {
-    return `${prefix}:${hashComponent(vault, obfuscate)}:${hashComponent(collection, obfuscate)}:`
+    return `${prefix}:${nameComponent(vault, obfuscate)}:${nameComponent(collection, obfuscate)}:`
   }
 
   function compartmentPrefix(vault: string): string {
-    return `${prefix}:${hashComponent(vault, obfuscate)}:`
+    return `${prefix}:${nameComponent(vault, obfuscate)}:`
   }
 
   return {
@@ -263,7 +272,7 @@ function createLocalStorageAdapter(prefix: string, obfuscate: boolean, obfKey: s
           const rest = k.slice(pfx.length)
           const colonIdx = rest.indexOf(':')
           if (colonIdx < 0) continue
-          collection = rest.slice(0, colonIdx)
+          collection = unescapeName(rest.slice(0, colonIdx))
           id = rest.slice(colonIdx + 1)
           if (collection.startsWith('_')) continue
           if (!snapshot[collection]) snapshot[collection] = {}
@@ -275,6 +284,11 @@ function createLocalStorageAdapter(prefix: string, obfuscate: boolean, obfKey: s
     },
 
     async saveAll(vault, data) {
+      for (const [collection, records] of Object.entries(await this.loadAll(vault))) {
+        for (const id of Object.keys(records)) {
+          if (!Object.hasOwn(data[collection] ?? {}, id)) await this.delete(vault, collection, id)
+        }
+      }
       for (const [collection, records] of Object.entries(data)) {
         for (const [id, envelope] of Object.entries(records)) {
           localStorage.setItem(
diff --git a/packages/to-webdav/src/index.ts b/packages/to-webdav/src/index.ts
index de1982f..50e1989 100644
--- a/packages/to-webdav/src/index.ts
+++ b/packages/to-webdav/src/index.ts
@@ -135,13 +135,14 @@ export function webdav(options: WebDAVStoreOptions): NoydbStore {
     // Extract <d:href>...</d:href> entries, drop the collection self-ref,
     // keep only .json leaves, and return the id portion.
     const hrefs = Array.from(xml.matchAll(/<(?:\w+:)?href>([^<]+)<\/(?:\w+:)?href>/g))
-      .map(m => decodeURIComponent(m[1]!))
-    const selfPath = new URL(url).pathname.replace(/\/+$/, '')
+      .map(m => m[1]!)
+    const selfDepth = new URL(url).pathname.replace(/\/+$/, '').split('/').length
     const ids: string[] = []
     for (const href of hrefs) {
-      const hrefPath = href.replace(/\/+$/, '')
-      if (hrefPath === selfPath) continue
-      const filename = hrefPath.split('/').pop()!
+      const segments = href.replace(/\/+$/, '').split('/')
+      if (segments.length === selfDepth) continue
+      // Decoded last, so a slash inside a name stays part of the name.
+      const filename = decodeURIComponent(segments.pop()!)
       if (!filename.endsWith('.json')) continue
       ids.push(filename.slice(0, -'.json'.length))
     }
@@ -206,13 +207,11 @@ export function webdav(options: WebDAVStoreOptions): NoydbStore {
       }
       const xml = await res.text()
       const hrefs = Array.from(xml.matchAll(/<(?:\w+:)?href>([^<]+)<\/(?:\w+:)?href>/g))
-        .map(m => decodeURIComponent(m[1]!))
-      const selfPath = new URL(rootUrl).pathname.replace(/\/+$/, '')
+        .map(m => m[1]!)
+      const selfDepth = new URL(rootUrl).pathname.replace(/\/+$/, '').split('/').length
       const collections = new Set<string>()
       for (const href of hrefs) {
-        const hrefPath = href.replace(/\/+$/, '')
-        if (hrefPath === selfPath) continue
-        const segment = hrefPath.slice(selfPath.length + 1).split('/')[0]
+        const segment = decodeURIComponent(href.replace(/\/+$/, '').split('/')[selfDepth] ?? '')
         if (segment && !segment.startsWith('_')) collections.add(segment)
       }
       const snap: VaultSnapshot = {}
@@ -229,6 +228,11 @@ export function webdav(options: WebDAVStoreOptions): NoydbStore {
     },
 
     async saveAll(vault, data) {
+      for (const [collection, records] of Object.entries(await store.loadAll(vault))) {
+        for (const id of Object.keys(records)) {
+          if (!Object.hasOwn(data[collection] ?? {}, id)) await store.delete(vault, collection, id)
+        }
+      }
       for (const [collection, recs] of Object.entries(data)) {
         await mkcolRecursive(vault, collection)
         for (const [id, envelope] of Object.entries(recs)) {
-- 
2.43.0


From 94eb0f2119027a6de7351f33c55375f97d2f7289 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:53:58 +0000
Subject: [PATCH 29/87] fix: refuse stale expected versions atomically and keep
 remote file names apart

---
 packages/to-cloudflare-d1/src/index.ts | 20 ++++++++++++++--
 packages/to-mysql/src/index.ts         | 27 ++++++++++++++++++----
 packages/to-postgres/src/index.ts      | 32 ++++++++++++++++++++------
 packages/to-smb/src/index.ts           | 29 ++++++++++++++++-------
 packages/to-ssh/src/index.ts           | 29 ++++++++++++++++-------
 packages/to-turso/src/index.ts         | 19 +++++++++++++--
 6 files changed, 124 insertions(+), 32 deletions(-)

diff --git a/packages/to-cloudflare-d1/src/index.ts b/packages/to-cloudflare-d1/src/index.ts
index 8cedf09..182f656 100644
--- a/packages/to-cloudflare-d1/src/index.ts
+++ b/packages/to-cloudflare-d1/src/index.ts
@@ -57,6 +57,11 @@ export interface D1StoreOptions {
   readonly autoMigrate?: boolean
 }
 
+/** Whether the stored record is the one just written. */
+function isSame(a: EncryptedEnvelope | null, b: EncryptedEnvelope): boolean {
+  return a !== null && a._v === b._v && a._ts === b._ts && a._iv === b._iv && a._data === b._data
+}
+
 export function d1(options: D1StoreOptions): NoydbStore {
   const { db, tableName = 'noydb_envelopes', autoMigrate = true } = options
   let schemaReady: Promise<void> | null = null
@@ -114,6 +119,7 @@ export function d1(options: D1StoreOptions): NoydbStore {
     collection: string,
     id: string,
     envelope: EncryptedEnvelope,
+    expectedVersion?: number,
   ): D1PreparedStatement {
     return db
       .prepare(
@@ -121,7 +127,9 @@ export function d1(options: D1StoreOptions): NoydbStore {
          VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?, ?, ?)
          ON CONFLICT(vault, collection, id) DO UPDATE SET
            v = excluded.v, ts = excluded.ts, iv = excluded.iv, data = excluded.data,
-           by = excluded.by, tier = excluded.tier, elevated_by = excluded.elevated_by, det = excluded.det`,
+           by = excluded.by, tier = excluded.tier, elevated_by = excluded.elevated_by, det = excluded.det
+         ${expectedVersion !== undefined ? `WHERE ${tableName}.v = ?` : ''}
+         RETURNING v`,
       )
       .bind(
         vault, collection, id,
@@ -130,6 +138,7 @@ export function d1(options: D1StoreOptions): NoydbStore {
         envelope._tier ?? null,
         envelope._elevatedBy ?? null,
         envelope._det ? JSON.stringify(envelope._det) : null,
+        ...(expectedVersion !== undefined ? [expectedVersion] : []),
       )
   }
 
@@ -150,7 +159,14 @@ export function d1(options: D1StoreOptions): NoydbStore {
         throw new ConflictError(existing.v, `Version conflict: expected ${expectedVersion}, found ${existing.v}`)
       }
     }
-    await upsertStatement(vault, collection, id, envelope).run()
+    const written = await upsertStatement(vault, collection, id, envelope, expectedVersion).run()
+    // No row back: another writer changed the record after the check above.
+    if (expectedVersion !== undefined && !written.results?.length) {
+      const current = await store.get(vault, collection, id)
+      if (!isSame(current, envelope)) {
+        throw new ConflictError(current?._v ?? 0, `Version conflict: expected ${expectedVersion}, found ${current?._v}`)
+      }
+    }
   }
 
   const store: NoydbStore = {
diff --git a/packages/to-mysql/src/index.ts b/packages/to-mysql/src/index.ts
index c5ec08d..60bdf5d 100644
--- a/packages/to-mysql/src/index.ts
+++ b/packages/to-mysql/src/index.ts
@@ -42,6 +42,11 @@ export interface MysqlStoreOptions {
   readonly autoMigrate?: boolean
 }
 
+/** Whether the stored record is the one just written. */
+function isSame(a: EncryptedEnvelope | null, b: EncryptedEnvelope): boolean {
+  return a !== null && a._v === b._v && a._ts === b._ts && a._iv === b._iv && a._data === b._data
+}
+
 export function mysql(options: MysqlStoreOptions): NoydbStore {
   const { client, tableName = 'noydb_envelopes', autoMigrate = true } = options
   let schemaReady: Promise<void> | null = null
@@ -57,9 +62,9 @@ export function mysql(options: MysqlStoreOptions): NoydbStore {
       schemaReady = (async () => {
         await runDDL(
           `CREATE TABLE IF NOT EXISTS ${tableName} (
-             vault VARCHAR(255) NOT NULL,
-             collection VARCHAR(255) NOT NULL,
-             id VARCHAR(255) NOT NULL,
+             vault VARCHAR(255) COLLATE utf8mb4_bin NOT NULL,
+             collection VARCHAR(255) COLLATE utf8mb4_bin NOT NULL,
+             id VARCHAR(255) COLLATE utf8mb4_bin NOT NULL,
              v BIGINT NOT NULL,
              envelope JSON NOT NULL,
              PRIMARY KEY (vault, collection, id),
@@ -92,9 +97,21 @@ export function mysql(options: MysqlStoreOptions): NoydbStore {
     await client.execute(
       `INSERT INTO ${tableName} (vault, collection, id, v, envelope)
        VALUES (?, ?, ?, ?, ?)
-       ON DUPLICATE KEY UPDATE v = VALUES(v), envelope = VALUES(envelope)`,
-      [vault, collection, id, envelope._v, JSON.stringify(envelope)],
+       ON DUPLICATE KEY UPDATE ${expectedVersion === undefined
+         ? 'v = VALUES(v), envelope = VALUES(envelope)'
+         : 'envelope = IF(v = ?, VALUES(envelope), envelope), v = IF(v = ?, VALUES(v), v)'}`,
+      [
+        vault, collection, id, envelope._v, JSON.stringify(envelope),
+        ...(expectedVersion === undefined ? [] : [expectedVersion, expectedVersion]),
+      ],
     )
+    // The update is a no-op when another writer changed the record after the check above.
+    if (expectedVersion !== undefined) {
+      const current = await store.get(vault, collection, id)
+      if (!isSame(current, envelope)) {
+        throw new ConflictError(current?._v ?? 0, `Version conflict: expected ${expectedVersion}, found ${current?._v}`)
+      }
+    }
   }
 
   function parseEnvelope(raw: unknown): EncryptedEnvelope {
diff --git a/packages/to-postgres/src/index.ts b/packages/to-postgres/src/index.ts
index f270851..7d062bb 100644
--- a/packages/to-postgres/src/index.ts
+++ b/packages/to-postgres/src/index.ts
@@ -54,6 +54,11 @@ interface Row {
   envelope: EncryptedEnvelope
 }
 
+/** Whether the stored record is the one just written. */
+function isSame(a: EncryptedEnvelope | null, b: EncryptedEnvelope): boolean {
+  return a !== null && a._v === b._v && a._ts === b._ts && a._iv === b._iv && a._data === b._data
+}
+
 export function postgres(options: PostgresStoreOptions): NoydbStore {
   const { client, tableName = 'noydb_envelopes', autoMigrate = true } = options
   let schemaReady: Promise<void> | null = null
@@ -93,17 +98,30 @@ export function postgres(options: PostgresStoreOptions): NoydbStore {
         [vault, collection, id],
       )
       const current = rows[0]
-      if (current && current.v !== expectedVersion) {
-        throw new ConflictError(current.v, `Version conflict: expected ${expectedVersion}, found ${current.v}`)
+      // BIGINT columns arrive as strings.
+      if (current && Number(current.v) !== expectedVersion) {
+        throw new ConflictError(Number(current.v), `Version conflict: expected ${expectedVersion}, found ${current.v}`)
       }
     }
-    await client.query(
+    const { rows: written } = await client.query<{ v: number }>(
       `INSERT INTO ${tableName} (vault, collection, id, v, envelope)
        VALUES ($1, $2, $3, $4, $5)
        ON CONFLICT (vault, collection, id) DO UPDATE
-         SET v = EXCLUDED.v, envelope = EXCLUDED.envelope`,
-      [vault, collection, id, envelope._v, JSON.stringify(envelope)],
+         SET v = EXCLUDED.v, envelope = EXCLUDED.envelope
+         ${expectedVersion !== undefined ? `WHERE ${tableName}.v = $6` : ''}
+       RETURNING v`,
+      [
+        vault, collection, id, envelope._v, JSON.stringify(envelope),
+        ...(expectedVersion !== undefined ? [expectedVersion] : []),
+      ],
     )
+    // No row back: another writer changed the record after the check above.
+    if (expectedVersion !== undefined && written.length === 0) {
+      const current = await store.get(vault, collection, id)
+      if (!isSame(current, envelope)) {
+        throw new ConflictError(current?._v ?? 0, `Version conflict: expected ${expectedVersion}, found ${current?._v}`)
+      }
+    }
   }
 
   const store: NoydbStore = {
@@ -225,8 +243,8 @@ export function postgres(options: PostgresStoreOptions): NoydbStore {
                 `SELECT v FROM ${tableName} WHERE vault = $1 AND collection = $2 AND id = $3`,
                 [op.vault, op.collection, op.id],
               )
-              if (rows[0] && rows[0].v !== op.expectedVersion) {
-                throw new ConflictError(rows[0].v)
+              if (rows[0] && Number(rows[0].v) !== op.expectedVersion) {
+                throw new ConflictError(Number(rows[0].v))
               }
             }
             await client.query(
diff --git a/packages/to-smb/src/index.ts b/packages/to-smb/src/index.ts
index 8c34e56..60faa6f 100644
--- a/packages/to-smb/src/index.ts
+++ b/packages/to-smb/src/index.ts
@@ -71,6 +71,16 @@ function join(...parts: string[]): string {
     .join('/')
 }
 
+/** Names become path segments: separators and dot segments are escaped. */
+function segment(name: string): string {
+  const escaped = name.replace(/[%/\\\0]/g, ch => `%${ch.charCodeAt(0).toString(16).toUpperCase().padStart(2, '0')}`)
+  return escaped === '.' || escaped === '..' ? escaped.replace(/\./g, '%2E') : escaped
+}
+
+function unsegment(name: string): string {
+  return name.replace(/%(25|2F|5C|00|2E)/g, (_, hex: string) => String.fromCharCode(parseInt(hex, 16)))
+}
+
 function decode(bytes: Uint8Array | Buffer): string {
   if (typeof Buffer !== 'undefined' && bytes instanceof Buffer) return bytes.toString('utf-8')
   return new TextDecoder().decode(bytes)
@@ -80,9 +90,10 @@ export function smb(options: SmbStoreOptions): NoydbStore {
   const { smb: client, remotePath = 'noydb', name = 'smb' } = options
   const root = remotePath.replace(/^\/+|\/+$/g, '')
 
-  const recordPath = (v: string, c: string, id: string): string => join(root, v, c, `${id}.json`)
-  const collPath = (v: string, c: string): string => join(root, v, c)
-  const vaultPath = (v: string): string => join(root, v)
+  let writes = 0
+  const recordPath = (v: string, c: string, id: string): string => join(root, segment(v), segment(c), `${segment(id)}.json`)
+  const collPath = (v: string, c: string): string => join(root, segment(v), segment(c))
+  const vaultPath = (v: string): string => join(root, segment(v))
 
   async function ensureDir(path: string): Promise<void> {
     // SMB mkdir is not always recursive — walk parents.
@@ -118,7 +129,7 @@ export function smb(options: SmbStoreOptions): NoydbStore {
     async put(vault, collection, id, envelope) {
       // casAtomic: false — expectedVersion ignored.
       const target = recordPath(vault, collection, id)
-      const tmp = `${target}.tmp`
+      const tmp = `${target}.${++writes}.tmp`
       await ensureDir(collPath(vault, collection))
       await client.writeFile(tmp, JSON.stringify(envelope))
       await client.rename(tmp, target)
@@ -136,14 +147,15 @@ export function smb(options: SmbStoreOptions): NoydbStore {
       const entries = await safeReaddir(collPath(vault, collection))
       return entries
         .filter(e => e.endsWith('.json') && !e.endsWith('.tmp'))
-        .map(e => e.slice(0, -'.json'.length))
+        .map(e => unsegment(e.slice(0, -'.json'.length)))
         .sort()
     },
 
     async loadAll(vault) {
       const snap: VaultSnapshot = {}
       const collections = await safeReaddir(vaultPath(vault))
-      for (const collection of collections) {
+      for (const entry of collections) {
+        const collection = unsegment(entry)
         if (collection.startsWith('_')) continue
         const ids = await store.list(vault, collection)
         const bucket: Record<string, EncryptedEnvelope> = {}
@@ -158,11 +170,12 @@ export function smb(options: SmbStoreOptions): NoydbStore {
 
     async saveAll(vault, data) {
       const existing = await safeReaddir(vaultPath(vault))
-      for (const collection of existing) {
+      for (const entry of existing) {
+        const collection = unsegment(entry)
         if (collection.startsWith('_')) continue
         const ids = await safeReaddir(collPath(vault, collection))
         for (const fname of ids) {
-          await client.unlink(join(root, vault, collection, fname)).catch(() => undefined)
+          await client.unlink(join(root, segment(vault), entry, fname)).catch(() => undefined)
         }
       }
       for (const [collection, recs] of Object.entries(data)) {
diff --git a/packages/to-ssh/src/index.ts b/packages/to-ssh/src/index.ts
index ee2bcfc..59a5b51 100644
--- a/packages/to-ssh/src/index.ts
+++ b/packages/to-ssh/src/index.ts
@@ -86,6 +86,16 @@ function pathJoin(...parts: string[]): string {
     .join('/')
 }
 
+/** Names become path segments: separators and dot segments are escaped. */
+function segment(name: string): string {
+  const escaped = name.replace(/[%/\\\0]/g, ch => `%${ch.charCodeAt(0).toString(16).toUpperCase().padStart(2, '0')}`)
+  return escaped === '.' || escaped === '..' ? escaped.replace(/\./g, '%2E') : escaped
+}
+
+function unsegment(name: string): string {
+  return name.replace(/%(25|2F|5C|00|2E)/g, (_, hex: string) => String.fromCharCode(parseInt(hex, 16)))
+}
+
 function decode(bytes: Uint8Array | Buffer): string {
   if (typeof Buffer !== 'undefined' && bytes instanceof Buffer) {
     return bytes.toString('utf-8')
@@ -97,10 +107,11 @@ export function ssh(options: SshStoreOptions): NoydbStore {
   const { sftp, remotePath = 'noydb', name = 'ssh' } = options
 
   const root = remotePath.replace(/^\/+|\/+$/g, '')
+  let writes = 0
   const recordPath = (v: string, c: string, id: string): string =>
-    '/' + pathJoin(root, v, c, `${id}.json`)
-  const collPath = (v: string, c: string): string => '/' + pathJoin(root, v, c)
-  const vaultPath = (v: string): string => '/' + pathJoin(root, v)
+    '/' + pathJoin(root, segment(v), segment(c), `${segment(id)}.json`)
+  const collPath = (v: string, c: string): string => '/' + pathJoin(root, segment(v), segment(c))
+  const vaultPath = (v: string): string => '/' + pathJoin(root, segment(v))
 
   async function ensureDir(path: string): Promise<void> {
     try {
@@ -131,7 +142,7 @@ export function ssh(options: SshStoreOptions): NoydbStore {
       // expectedVersion is intentionally ignored — casAtomic: false for this
       // transport. Consumers needing CAS should route via a store that has it.
       const target = recordPath(vault, collection, id)
-      const tmp = `${target}.tmp`
+      const tmp = `${target}.${++writes}.tmp`
       await ensureDir(collPath(vault, collection))
       await sftp.writeFile(tmp, JSON.stringify(envelope))
       await sftp.rename(tmp, target)
@@ -149,14 +160,15 @@ export function ssh(options: SshStoreOptions): NoydbStore {
       const entries = await safeReaddir(collPath(vault, collection))
       return entries
         .filter(e => e.endsWith('.json') && !e.endsWith('.tmp'))
-        .map(e => e.slice(0, -'.json'.length))
+        .map(e => unsegment(e.slice(0, -'.json'.length)))
         .sort()
     },
 
     async loadAll(vault) {
       const snap: VaultSnapshot = {}
       const collections = await safeReaddir(vaultPath(vault))
-      for (const collection of collections) {
+      for (const entry of collections) {
+        const collection = unsegment(entry)
         if (collection.startsWith('_')) continue
         const ids = await store.list(vault, collection)
         const bucket: Record<string, EncryptedEnvelope> = {}
@@ -172,12 +184,13 @@ export function ssh(options: SshStoreOptions): NoydbStore {
     async saveAll(vault, data) {
       // Delete the vault tree first to mirror the semantics of other stores.
       const existingCollections = await safeReaddir(vaultPath(vault))
-      for (const collection of existingCollections) {
+      for (const entry of existingCollections) {
+        const collection = unsegment(entry)
         if (collection.startsWith('_')) continue
         const ids = await safeReaddir(collPath(vault, collection))
         for (const id of ids) {
           await sftp
-            .unlink('/' + pathJoin(root, vault, collection, id))
+            .unlink('/' + pathJoin(root, segment(vault), entry, id))
             .catch(() => undefined)
         }
       }
diff --git a/packages/to-turso/src/index.ts b/packages/to-turso/src/index.ts
index 7bda9cf..ee2b572 100644
--- a/packages/to-turso/src/index.ts
+++ b/packages/to-turso/src/index.ts
@@ -44,6 +44,11 @@ export interface TursoStoreOptions {
   readonly autoMigrate?: boolean
 }
 
+/** Whether the stored record is the one just written. */
+function isSame(a: EncryptedEnvelope | null, b: EncryptedEnvelope): boolean {
+  return a !== null && a._v === b._v && a._ts === b._ts && a._iv === b._iv && a._data === b._data
+}
+
 export function turso(options: TursoStoreOptions): NoydbStore {
   const { client, tableName = 'noydb_envelopes', autoMigrate = true } = options
   let schemaReady: Promise<void> | null = null
@@ -113,13 +118,15 @@ export function turso(options: TursoStoreOptions): NoydbStore {
         throw new ConflictError(existing.v, `Version conflict: expected ${expectedVersion}, found ${existing.v}`)
       }
     }
-    await client.execute({
+    const written = await client.execute({
       sql:
         `INSERT INTO ${tableName} (vault, collection, id, v, ts, iv, data, by, tier, elevated_by, det)
          VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?, ?, ?)
          ON CONFLICT(vault, collection, id) DO UPDATE SET
            v = excluded.v, ts = excluded.ts, iv = excluded.iv, data = excluded.data,
-           by = excluded.by, tier = excluded.tier, elevated_by = excluded.elevated_by, det = excluded.det`,
+           by = excluded.by, tier = excluded.tier, elevated_by = excluded.elevated_by, det = excluded.det
+         ${expectedVersion !== undefined ? `WHERE ${tableName}.v = ?` : ''}
+         RETURNING v`,
       args: [
         vault, collection, id,
         envelope._v, envelope._ts, envelope._iv, envelope._data,
@@ -127,8 +134,16 @@ export function turso(options: TursoStoreOptions): NoydbStore {
         envelope._tier ?? null,
         envelope._elevatedBy ?? null,
         envelope._det ? JSON.stringify(envelope._det) : null,
+        ...(expectedVersion !== undefined ? [expectedVersion] : []),
       ],
     })
+    // No row back: another writer changed the record after the check above.
+    if (expectedVersion !== undefined && written.rows.length === 0) {
+      const current = await store.get(vault, collection, id)
+      if (!isSame(current, envelope)) {
+        throw new ConflictError(current?._v ?? 0, `Version conflict: expected ${expectedVersion}, found ${current?._v}`)
+      }
+    }
   }
 
   const store: NoydbStore = {
-- 
2.43.0


From 4bf63f6a9d0b667e26962ef29a49b3c6eadddc95 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:57:48 +0000
Subject: [PATCH 30/87] fix: do not turn an omitted expected version into a
 conflict on peer stores

---
 packages/by-peer/src/serve.ts | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/packages/by-peer/src/serve.ts b/packages/by-peer/src/serve.ts
index cebcdf7..02b84de 100644
--- a/packages/by-peer/src/serve.ts
+++ b/packages/by-peer/src/serve.ts
@@ -65,9 +65,10 @@ export function servePeerStore(opts: ServePeerStoreOptions): () => void {
           string,
           string,
           EncryptedEnvelope,
-          number | undefined,
+          number | null | undefined,
         ]
-        await store.put(vault, collection, id, envelope, expectedVersion)
+        // An omitted argument arrives as null.
+        await store.put(vault, collection, id, envelope, expectedVersion ?? undefined)
         return null
       }
       case 'delete': {
@@ -102,10 +103,10 @@ export function servePeerStore(opts: ServePeerStoreOptions): () => void {
         const [vault, collection, cursor, limit] = args as [
           string,
           string,
-          string | undefined,
-          number | undefined,
+          string | null | undefined,
+          number | null | undefined,
         ]
-        return store.listPage(vault, collection, cursor, limit)
+        return store.listPage(vault, collection, cursor ?? undefined, limit ?? undefined)
       }
       case 'listVaults': {
         if (!store.listVaults) throw new Error('listVaults not supported by remote store')
-- 
2.43.0


From c4ee61c262a8e091564d4d1200171635c44f5dda Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:05:39 +0000
Subject: [PATCH 31/87] fix: keep routed records in one place and in order
 across tiers, failures and resumption

---
 packages/hub/src/store/route-store.ts | 344 +++++++++++++++-----------
 1 file changed, 205 insertions(+), 139 deletions(-)

diff --git a/packages/hub/src/store/route-store.ts b/packages/hub/src/store/route-store.ts
index a3690c1..37ec1d7 100644
--- a/packages/hub/src/store/route-store.ts
+++ b/packages/hub/src/store/route-store.ts
@@ -21,6 +21,7 @@ import type {
   EncryptedEnvelope,
   VaultSnapshot,
 } from '../types.js'
+import { ConflictError } from '../errors.js'
 
 // ─── Internal collection prefixes (duplicated to avoid circular import) ──
 
@@ -325,6 +326,10 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
   const suspended = new Set<string>()
   const writeQueues = new Map<string, { writes: QueuedWrite[]; maxSize: number }>()
 
+  /** The resume() that currently replays a route's queue, and its progress. */
+  const drains = new Map<string, symbol>()
+  const replays = new Map<string, Promise<void>>()
+
   /** Null store: silently absorbs all operations when a route is suspended. */
   const NULL_STORE: NoydbStore = {
     name: 'suspended',
@@ -362,15 +367,6 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
 
   const quotaExceeded = false
 
-  /** Resolve the static (non-overridden) store for a given route name. */
-  function resolveOriginalStore(route: string): NoydbStore {
-    if (route === 'blobs') return simpleBlobStore ?? tieredBlobs?.large ?? primary
-    if (route === 'cold') return opts.age?.cold ?? primary
-    if (opts.routes?.[route]) return opts.routes[route]
-    if (opts.vaultRoutes?.[route]) return opts.vaultRoutes[route]
-    return primary
-  }
-
   /**
    * Queue a write operation if the route is suspended with queue: true.
    * Returns true if queued (caller should skip the actual write).
@@ -420,11 +416,11 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
    * Resolve the store for a given vault + collection.
    * Resolution order: overrides/suspend → vaultRoutes → routes → blobs → default
    */
-  function storeFor(vault: string, collection: string): NoydbStore {
+  function storeFor(vault: string, collection: string, replaying = false): NoydbStore {
     const rName = routeNameFor(vault, collection)
 
     // 0. Runtime override / suspend check
-    if (suspended.has(rName)) return NULL_STORE
+    if (suspended.has(rName) && !replaying) return NULL_STORE
     if (overrides.has(rName)) return overrides.get(rName)!
 
     // 1. Vault-based geographic routing
@@ -443,7 +439,7 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
     if (isBlobChunks(collection)) {
       if (simpleBlobStore) return simpleBlobStore
       // Size-tiered: can't determine here without the envelope.
-      // Default to large store — BlobSet will use storeHint for reads.
+      // Default to large store — `tiersFor()` adds the small one.
       if (tieredBlobs) return tieredBlobs.large
     }
 
@@ -485,123 +481,213 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
     return ts < cutoff
   }
 
+  /** True when size tiering decides where this collection's records go. */
+  function isSizeTiered(vault: string, collection: string): boolean {
+    return tieredBlobs !== undefined
+      && isBlobChunks(collection)
+      && routeNameFor(vault, collection) === 'blobs'
+      && !overrides.has('blobs')
+  }
+
+  function isAged(collection: string): boolean {
+    if (!opts.age || isInternal(collection)) return false
+    return !opts.age.collections?.length || opts.age.collections.includes(collection)
+  }
+
+  function coldStore(): NoydbStore {
+    if (suspended.has('cold')) return NULL_STORE
+    return overrides.get('cold') ?? opts.age!.cold
+  }
+
+  /** Every store that may hold a record of the collection, in read order. */
+  function tiersFor(vault: string, collection: string, replaying = false): NoydbStore[] {
+    const tiers = new Set<NoydbStore>([storeFor(vault, collection, replaying)])
+    if (isSizeTiered(vault, collection) && (replaying || !suspended.has('blobs'))) {
+      tiers.add(tieredBlobs!.small ?? primary)
+    }
+    if (isAged(collection)) tiers.add(coldStore())
+    return [...tiers]
+  }
+
+  // Records that can live in two stores are read and moved one at a time,
+  // so nobody observes the gap between writing one copy and removing the other.
+  const locks = new Map<string, Promise<unknown>>()
+  let moves = 0
+
+  function exclusive<T>(vault: string, collection: string, id: string, fn: () => Promise<T>): Promise<T> {
+    const key = JSON.stringify([vault, collection, id])
+    const run = (locks.get(key) ?? Promise.resolve()).then(fn, fn)
+    const settled = run.then(() => {}, () => {})
+    locks.set(key, settled)
+    void settled.then(() => { if (locks.get(key) === settled) locks.delete(key) })
+    return run
+  }
+
+  async function routedPut(
+    vault: string,
+    collection: string,
+    id: string,
+    envelope: EncryptedEnvelope,
+    expectedVersion: number | undefined,
+    replaying = false,
+  ): Promise<void> {
+    const tiers = tiersFor(vault, collection, replaying)
+    const target = isSizeTiered(vault, collection) && tiers[0] !== NULL_STORE
+      ? blobStoreForSize(envelope._data.length)
+      : tiers[0]!
+    const others = tiers.filter(s => s !== target)
+    if (others.length === 0 || target === NULL_STORE) {
+      return target.put(vault, collection, id, envelope, expectedVersion)
+    }
+
+    return exclusive(vault, collection, id, async () => {
+      let expected = expectedVersion
+      if (expected !== undefined && await target.get(vault, collection, id) === null) {
+        for (const s of others) {
+          const existing = await s.get(vault, collection, id)
+          if (!existing) continue
+          if (existing._v !== expected) {
+            throw new ConflictError(existing._v, `Version conflict: expected ${expected}, found ${existing._v}`)
+          }
+          expected = undefined
+          break
+        }
+      }
+      moves++
+      await target.put(vault, collection, id, envelope, expected)
+      for (const s of others) await s.delete(vault, collection, id)
+      moves++
+    })
+  }
+
+  async function routedDelete(vault: string, collection: string, id: string, replaying = false): Promise<void> {
+    const tiers = tiersFor(vault, collection, replaying)
+    if (tiers.length === 1) return tiers[0]!.delete(vault, collection, id)
+    // Fallback copies first: a failure half-way must not bring an older copy back
+    return exclusive(vault, collection, id, async () => {
+      for (const s of [...tiers].reverse()) await s.delete(vault, collection, id)
+    })
+  }
+
   // ── Store methods ──────────────────────────────────────────────────
 
   const store: RoutedNoydbStore = {
     name: buildName(),
 
     async get(vault, collection, id) {
-      const s = storeFor(vault, collection)
-      const result = await s.get(vault, collection, id)
-
-      // Age tiering: if hot store returned null, try cold
-      if (result === null && opts.age && !isInternal(collection)) {
-        if (!opts.age.collections?.length || opts.age.collections.includes(collection)) {
-          return opts.age.cold.get(vault, collection, id)
+      const tiers = tiersFor(vault, collection)
+      if (tiers.length === 1) return tiers[0]!.get(vault, collection, id)
+      return exclusive(vault, collection, id, async () => {
+        for (const s of tiers) {
+          const result = await s.get(vault, collection, id)
+          if (result !== null) return result
         }
-      }
-
-      return result
+        return null
+      })
     },
 
     async put(vault, collection, id, envelope, expectedVersion) {
       // Write-behind queue: buffer if suspended with queue option
       const rn = routeNameFor(vault, collection)
       if (maybeQueueWrite(rn, 'put', vault, collection, id, envelope, expectedVersion)) return
-
-      // Size-tiered blob routing
-      if (isBlobChunks(collection) && tieredBlobs) {
-        const dataSize = envelope._data.length
-        const s = blobStoreForSize(dataSize)
-        return s.put(vault, collection, id, envelope, expectedVersion)
-      }
-
-      const s = storeFor(vault, collection)
-
-      // Age tiering: if a cold record is being updated, it goes to hot.
-      if (opts.age && !isInternal(collection)) {
-        opts.age.cold.delete(vault, collection, id).catch(() => {})
-      }
-
-      return s.put(vault, collection, id, envelope, expectedVersion)
+      return routedPut(vault, collection, id, envelope, expectedVersion)
     },
 
     async delete(vault, collection, id) {
       // Write-behind queue: buffer if suspended with queue option
       const rn = routeNameFor(vault, collection)
       if (maybeQueueWrite(rn, 'delete', vault, collection, id)) return
-
-      const s = storeFor(vault, collection)
-      await s.delete(vault, collection, id)
-
-      // Also delete from cold store if age-tiered
-      if (opts.age && !isInternal(collection)) {
-        await opts.age.cold.delete(vault, collection, id).catch(() => {})
-      }
+      return routedDelete(vault, collection, id)
     },
 
     async list(vault, collection) {
-      const s = storeFor(vault, collection)
-      const ids = await s.list(vault, collection)
-
-      // Age tiering: merge IDs from cold store, deduplicate
-      if (opts.age && !isInternal(collection)) {
-        if (!opts.age.collections?.length || opts.age.collections.includes(collection)) {
-          const coldIds = await opts.age.cold.list(vault, collection).catch(() => [] as string[])
-          if (coldIds.length > 0) {
-            const merged = new Set(ids)
-            for (const id of coldIds) merged.add(id)
-            return [...merged]
-          }
-        }
-      }
-
-      return ids
+      const tiers = tiersFor(vault, collection)
+      if (tiers.length === 1) return tiers[0]!.list(vault, collection)
+
+      // Merge IDs from every tier; list again when a record changed tiers meanwhile
+      const merged = new Set<string>()
+      let before: number
+      do {
+        before = moves
+        for (const s of tiers) for (const id of await s.list(vault, collection)) merged.add(id)
+      } while (moves !== before)
+      return [...merged]
     },
 
     async loadAll(vault) {
       // Query all distinct stores in parallel, merge snapshots
       const stores = getStoresForVault(vault)
-      const snapshots = await Promise.all(
-        stores.map(s => s.loadAll(vault).catch(() => ({}) as VaultSnapshot)),
-      )
-      return mergeSnapshots(snapshots)
+      for (;;) {
+        const before = moves
+        const snapshots = await Promise.all(stores.map(s => s.loadAll(vault)))
+        if (moves !== before) continue
+        const merged: VaultSnapshot = {}
+        const collections = new Set(snapshots.flatMap(snap => Object.keys(snap)))
+        for (const collection of collections) {
+          const records: Record<string, EncryptedEnvelope> = {}
+          // Last-write-wins by _ts; on a tie the copy that reads are answered from
+          for (const s of new Set([...tiersFor(vault, collection), ...stores])) {
+            const part = snapshots[stores.indexOf(s)]?.[collection] ?? {}
+            for (const [id, envelope] of Object.entries(part)) {
+              const existing = Object.hasOwn(records, id) ? records[id] : undefined
+              if (!existing || envelope._ts > existing._ts) records[id] = envelope
+            }
+          }
+          merged[collection] = records
+        }
+        return merged
+      }
     },
 
     async saveAll(vault, data) {
-      // Partition snapshot by routing rules
+      // Partition snapshot by routing rules; stores left without a share are cleared
       const partitioned = new Map<NoydbStore, VaultSnapshot>()
+      for (const s of getStoresForVault(vault)) partitioned.set(s, {})
 
       for (const [collection, records] of Object.entries(data)) {
-        const s = storeFor(vault, collection)
-        if (!partitioned.has(s)) partitioned.set(s, {})
-        partitioned.get(s)![collection] = records
+        for (const [id, envelope] of Object.entries(records)) {
+          const s = isSizeTiered(vault, collection) && !suspended.has('blobs')
+            ? blobStoreForSize(envelope._data.length)
+            : storeFor(vault, collection)
+          if (!partitioned.has(s)) partitioned.set(s, {})
+          const share = partitioned.get(s)!
+          share[collection] = { ...share[collection], [id]: envelope }
+        }
       }
 
+      moves++
       await Promise.all(
         [...partitioned.entries()].map(([s, snap]) => s.saveAll(vault, snap)),
       )
+      moves++
     },
 
     async compact(vault) {
       if (!opts.age) return 0
       let migrated = 0
+      const cold = coldStore()
+      if (cold === NULL_STORE) return 0
       const collections = opts.age.collections?.length
         ? opts.age.collections
-        : await primary.list(vault, '').catch(() => [] as string[])
+        : new Set((await Promise.all(
+            getStoresForVault(vault).filter(s => s !== cold).map(s => s.loadAll(vault)),
+          )).flatMap(snap => Object.keys(snap)))
 
       // For each age-eligible collection, scan hot store for cold records
       for (const collection of collections) {
-        const ids = await primary.list(vault, collection).catch(() => [] as string[])
-        for (const id of ids) {
-          const envelope = await primary.get(vault, collection, id)
-          if (!envelope) continue
-          if (isCold(collection, envelope)) {
+        const hot = storeFor(vault, collection)
+        if (hot === cold) continue
+        for (const id of await hot.list(vault, collection)) {
+          await exclusive(vault, collection, id, async () => {
+            const envelope = await hot.get(vault, collection, id)
+            if (!envelope || !isCold(collection, envelope)) return
             // Write to cold, then delete from hot
-            await opts.age.cold.put(vault, collection, id, envelope)
-            await primary.delete(vault, collection, id)
+            moves++
+            await cold.put(vault, collection, id, envelope)
+            await hot.delete(vault, collection, id)
+            moves++
             migrated++
-          }
+          })
         }
       }
 
@@ -629,7 +715,8 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
 
     suspend(route: OverrideTarget, suspendOpts?: SuspendOptions): void {
       suspended.add(route)
-      if (suspendOpts?.queue) {
+      drains.delete(route)
+      if (suspendOpts?.queue && !writeQueues.has(route)) {
         writeQueues.set(route, {
           writes: [],
           maxSize: suspendOpts.maxQueueSize ?? 10_000,
@@ -638,30 +725,42 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
     },
 
     async resume(route: OverrideTarget): Promise<number> {
-      suspended.delete(route)
       const queue = writeQueues.get(route)
-      if (!queue || queue.writes.length === 0) {
-        writeQueues.delete(route)
+      if (!queue) {
+        suspended.delete(route)
         return 0
       }
 
-      // Replay queued writes against the now-active store
+      // Replay queued writes against the restored store. The route stays
+      // suspended meanwhile, so newer writes line up behind the queued ones.
       let replayed = 0
-      const target = overrides.get(route) ?? resolveOriginalStore(route)
-      for (const write of queue.writes) {
-        try {
-          if (write.method === 'put' && write.envelope) {
-            await target.put(write.vault, write.collection, write.id, write.envelope, write.expectedVersion)
-          } else if (write.method === 'delete') {
-            await target.delete(write.vault, write.collection, write.id)
+      const drain = Symbol(route)
+      const previous = replays.get(route)
+      drains.set(route, drain)
+      const replay = (async () => {
+        await previous
+        while (queue.writes.length > 0 && drains.get(route) === drain) {
+          const write = queue.writes.shift()!
+          try {
+            if (write.method === 'put' && write.envelope) {
+              await routedPut(write.vault, write.collection, write.id, write.envelope, write.expectedVersion, true)
+            } else if (write.method === 'delete') {
+              await routedDelete(write.vault, write.collection, write.id, true)
+            }
+            replayed++
+          } catch {
+            // Best-effort replay — conflicts are expected after suspension
           }
-          replayed++
-        } catch {
-          // Best-effort replay — conflicts are expected after suspension
         }
-      }
-
-      writeQueues.delete(route)
+        if (drains.get(route) === drain) {
+          drains.delete(route)
+          suspended.delete(route)
+          writeQueues.delete(route)
+        }
+      })()
+      replays.set(route, replay)
+      await replay
+      if (replays.get(route) === replay) replays.delete(route)
       return replayed
     },
 
@@ -715,51 +814,18 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
 
   function getStoresForVault(vault: string): NoydbStore[] {
     const stores = new Set<NoydbStore>()
+    if (opts.age) stores.add(coldStore())
 
-    // Check vault routes first
-    if (opts.vaultRoutes) {
-      for (const [prefix, s] of Object.entries(opts.vaultRoutes)) {
-        if (vault.startsWith(prefix)) {
-          stores.add(s)
-          return [...stores] // vault-routed: only use that store
-        }
-      }
-    }
-
-    // Default topology: primary + blob store + cold store
-    stores.add(primary)
-    if (simpleBlobStore) stores.add(simpleBlobStore)
-    if (tieredBlobs?.large) stores.add(tieredBlobs.large)
-    if (tieredBlobs?.small && tieredBlobs.small !== primary) stores.add(tieredBlobs.small)
-    if (opts.age?.cold) stores.add(opts.age.cold)
-    if (opts.routes) {
-      for (const s of Object.values(opts.routes)) stores.add(s)
+    // Vault-routed: only use that store (and the cold one)
+    if (opts.vaultRoutes && Object.keys(opts.vaultRoutes).some(prefix => vault.startsWith(prefix))) {
+      stores.add(storeFor(vault, ''))
+      return [...stores]
     }
 
+    // Default topology: primary + blob stores + collection stores
+    stores.add(storeFor(vault, ''))
+    for (const s of tiersFor(vault, BLOB_CHUNKS)) stores.add(s)
+    for (const collection of Object.keys(opts.routes ?? {})) stores.add(storeFor(vault, collection))
     return [...stores]
   }
 }
-
-// ─── Snapshot merge ──────────────────────────────────────────────────────
-
-function mergeSnapshots(snapshots: VaultSnapshot[]): VaultSnapshot {
-  const merged: VaultSnapshot = {}
-
-  for (const snap of snapshots) {
-    for (const [collection, records] of Object.entries(snap)) {
-      if (!merged[collection]) {
-        merged[collection] = { ...records }
-        continue
-      }
-      for (const [id, envelope] of Object.entries(records)) {
-        const existing = merged[collection][id]
-        // Last-write-wins by _ts
-        if (!existing || envelope._ts >= existing._ts) {
-          merged[collection][id] = envelope
-        }
-      }
-    }
-  }
-
-  return merged
-}
-- 
2.43.0


From c0d2c1c56f6abc06def6f1a12f7041dc647a1a82 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:05:39 +0000
Subject: [PATCH 32/87] fix: keep peer responses apart when clients share a
 channel

---
 packages/by-peer/src/rpc.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/by-peer/src/rpc.ts b/packages/by-peer/src/rpc.ts
index a84798f..abcf034 100644
--- a/packages/by-peer/src/rpc.ts
+++ b/packages/by-peer/src/rpc.ts
@@ -55,6 +55,8 @@ export function createRpcClient(channel: PeerChannel, opts: RpcClientOptions = {
   }
   const pending = new Map<string, Pending>()
   let counter = 0
+  // Several clients may share one broadcast channel.
+  const clientId = Array.from(crypto.getRandomValues(new Uint8Array(8)), b => b.toString(16).padStart(2, '0')).join('')
 
   const offMessage = channel.on('message', (payload) => {
     let msg: RpcMessage
@@ -91,7 +93,7 @@ export function createRpcClient(channel: PeerChannel, opts: RpcClientOptions = {
 
   return {
     async call<T = unknown>(method: string, args: readonly unknown[]): Promise<T> {
-      const id = `${Date.now().toString(36)}-${(++counter).toString(36)}`
+      const id = `${clientId}-${(++counter).toString(36)}`
       const req: RpcRequest = { t: 'req', id, method, args }
       return new Promise<T>((resolve, reject) => {
         const timer = setTimeout(() => {
-- 
2.43.0


From f3a8b7cb44dcf049985837cf42c792c78fc87b7c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:05:39 +0000
Subject: [PATCH 33/87] fix: keep bundle-backed writes across overlapping
 loads, flushes and conflicts

---
 packages/hub/src/store/bundle-store.ts | 108 +++++++++++++++++--------
 1 file changed, 74 insertions(+), 34 deletions(-)

diff --git a/packages/hub/src/store/bundle-store.ts b/packages/hub/src/store/bundle-store.ts
index 3171585..8f8fd01 100644
--- a/packages/hub/src/store/bundle-store.ts
+++ b/packages/hub/src/store/bundle-store.ts
@@ -80,14 +80,26 @@ export function wrapBundleStore(
   // Per-vault state
   const snapshots = new Map<string, VaultSnapshot>()
   const versions = new Map<string, string | null>()
-  const loaded = new Set<string>()
+  const loading = new Map<string, Promise<void>>()
+  const flushing = new Map<string, Promise<void>>()
+  // Records written or deleted here since the last successful flush.
+  const dirty = new Map<string, Map<string, { collection: string; id: string }>>()
 
-  // Batch mode: when > 0, suppress auto-flush
-  let batchDepth = 0
+  // Batch mode: when > 0 for a vault, suppress auto-flush
+  const batchDepth = new Map<string, number>()
 
   async function load(vault: string): Promise<VaultSnapshot> {
-    if (loaded.has(vault)) return snapshots.get(vault)!
+    let pending = loading.get(vault)
+    if (!pending) {
+      pending = readSnapshot(vault)
+      loading.set(vault, pending)
+      pending.catch(() => loading.delete(vault))
+    }
+    await pending
+    return snapshots.get(vault)!
+  }
 
+  async function readSnapshot(vault: string): Promise<void> {
     const result = await bundle.readBundle(vault)
     if (result) {
       const text = new TextDecoder().decode(result.bytes)
@@ -98,28 +110,41 @@ export function wrapBundleStore(
       snapshots.set(vault, {})
       versions.set(vault, null)
     }
+  }
 
-    loaded.add(vault)
-    return snapshots.get(vault)!
+  function touch(vault: string, collection: string, id: string): void {
+    let keys = dirty.get(vault)
+    if (!keys) dirty.set(vault, keys = new Map())
+    keys.set(JSON.stringify([collection, id]), { collection, id })
   }
 
+  /** One write at a time per vault, so each one starts from the version the last one produced. */
   async function flush(vault: string): Promise<void> {
-    const snapshot = snapshots.get(vault) ?? {}
-    const format: BundleStoreData = {
-      _noydb_bundle_store: BUNDLE_STORE_VERSION,
-      vault,
-      ts: new Date().toISOString(),
-      data: snapshot,
-    }
-    const bytes = new TextEncoder().encode(JSON.stringify(format))
-    const expectedVersion = versions.get(vault) ?? null
+    const previous = flushing.get(vault) ?? Promise.resolve()
+    const mine = previous.catch(() => undefined).then(() => writeSnapshot(vault))
+    flushing.set(vault, mine)
+    await mine
+  }
 
+  async function writeSnapshot(vault: string): Promise<void> {
+    await load(vault)
     for (let attempt = 0; attempt < MAX_CONFLICT_RETRIES; attempt++) {
+      const format: BundleStoreData = {
+        _noydb_bundle_store: BUNDLE_STORE_VERSION,
+        vault,
+        ts: new Date().toISOString(),
+        data: snapshots.get(vault) ?? {},
+      }
+      const bytes = new TextEncoder().encode(JSON.stringify(format))
+      const expectedVersion = versions.get(vault) ?? null
+      const written = dirty.get(vault)
+      dirty.delete(vault)
       try {
         const { version: newVersion } = await bundle.writeBundle(vault, bytes, expectedVersion)
         versions.set(vault, newVersion)
         return
       } catch (err) {
+        for (const { collection, id } of written?.values() ?? []) touch(vault, collection, id)
         if (err instanceof BundleVersionConflictError && attempt < MAX_CONFLICT_RETRIES - 1) {
           // Pull remote, merge (last-write-wins by record key), retry
           const remote = await bundle.readBundle(vault)
@@ -127,11 +152,10 @@ export function wrapBundleStore(
             const remoteText = new TextDecoder().decode(remote.bytes)
             const remoteFormat = JSON.parse(remoteText) as BundleStoreData
             const localSnap = snapshots.get(vault) ?? {}
-            const mergedSnap = mergeSnapshots(remoteFormat.data, localSnap)
+            const mergedSnap = mergeSnapshots(remoteFormat.data, localSnap, [...(dirty.get(vault)?.values() ?? [])])
             snapshots.set(vault, mergedSnap)
             versions.set(vault, remote.version)
           }
-          // Re-encode with merged data for the retry
           continue
         }
         throw err
@@ -140,7 +164,7 @@ export function wrapBundleStore(
   }
 
   async function maybeFlush(vault: string): Promise<void> {
-    if (autoFlush && batchDepth === 0) {
+    if (autoFlush && !batchDepth.get(vault)) {
       await flush(vault)
     }
   }
@@ -154,11 +178,11 @@ export function wrapBundleStore(
 
     async batch(vaultId: string, fn: () => Promise<void>): Promise<void> {
       await load(vaultId) // ensure loaded before batch
-      batchDepth++
+      batchDepth.set(vaultId, (batchDepth.get(vaultId) ?? 0) + 1)
       try {
         await fn()
       } finally {
-        batchDepth--
+        batchDepth.set(vaultId, batchDepth.get(vaultId)! - 1)
       }
       await flush(vaultId)
     },
@@ -190,6 +214,7 @@ export function wrapBundleStore(
 
       snap[collection] ??= {}
       snap[collection][id] = envelope
+      touch(vault, collection, id)
       await maybeFlush(vault)
     },
 
@@ -197,6 +222,7 @@ export function wrapBundleStore(
       const snap = await load(vault)
       if (snap[collection]) {
         delete snap[collection][id]
+        touch(vault, collection, id)
         await maybeFlush(vault)
       }
     },
@@ -207,12 +233,24 @@ export function wrapBundleStore(
     },
 
     async loadAll(vault: string): Promise<VaultSnapshot> {
-      return await load(vault)
+      const snap: VaultSnapshot = {}
+      for (const [collection, records] of Object.entries(await load(vault))) {
+        if (!collection.startsWith('_')) snap[collection] = { ...records }
+      }
+      return snap
     },
 
     async saveAll(vault: string, data: VaultSnapshot): Promise<void> {
-      snapshots.set(vault, data)
-      loaded.add(vault)
+      const snap = await load(vault)
+      for (const [collection, records] of Object.entries(snap)) {
+        if (collection.startsWith('_')) continue
+        for (const id of Object.keys(records)) touch(vault, collection, id)
+        delete snap[collection]
+      }
+      for (const [collection, records] of Object.entries(data)) {
+        snap[collection] = { ...snap[collection], ...records }
+        for (const id of Object.keys(records)) touch(vault, collection, id)
+      }
       await flush(vault)
     },
   }
@@ -222,7 +260,11 @@ export function wrapBundleStore(
 
 // ─── Snapshot merge (last-write-wins per record) ────────────────────────
 
-function mergeSnapshots(remote: VaultSnapshot, local: VaultSnapshot): VaultSnapshot {
+function mergeSnapshots(
+  remote: VaultSnapshot,
+  local: VaultSnapshot,
+  changed: ReadonlyArray<{ collection: string; id: string }>,
+): VaultSnapshot {
   const merged: VaultSnapshot = {}
 
   // Start with all remote collections
@@ -230,18 +272,16 @@ function mergeSnapshots(remote: VaultSnapshot, local: VaultSnapshot): VaultSnaps
     merged[coll] = { ...records }
   }
 
-  // Overlay local collections — LWW by _ts per record
-  for (const [coll, records] of Object.entries(local)) {
-    if (!merged[coll]) {
-      merged[coll] = { ...records }
+  // Overlay the records changed here — LWW by _ts; a record deleted here stays deleted
+  for (const { collection, id } of changed) {
+    const envelope = local[collection]?.[id]
+    if (!envelope) {
+      delete merged[collection]?.[id]
       continue
     }
-    for (const [id, envelope] of Object.entries(records)) {
-      const existing = merged[coll][id]
-      if (!existing || envelope._ts >= existing._ts) {
-        merged[coll][id] = envelope
-      }
-    }
+    const records = (merged[collection] ??= {})
+    const existing = records[id]
+    if (!existing || envelope._ts >= existing._ts) records[id] = envelope
   }
 
   return merged
-- 
2.43.0


From 2ea36286d989a59ab7333931b5be66696ac28ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:05:39 +0000
Subject: [PATCH 34/87] fix: never serve cached values older than an
 acknowledged write, reopen the circuit after a failed probe

---
 packages/hub/src/store/store-middleware.ts | 41 ++++++++++++++++++----
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/packages/hub/src/store/store-middleware.ts b/packages/hub/src/store/store-middleware.ts
index 1949e99..f1ca752 100644
--- a/packages/hub/src/store/store-middleware.ts
+++ b/packages/hub/src/store/store-middleware.ts
@@ -309,7 +309,9 @@ export function withCircuitBreaker(opts: CircuitBreakerOptions = {}): StoreMiddl
   function recordFailure(): void {
     failures++
     lastFailureTime = Date.now()
-    if (failures >= threshold && state === 'closed') {
+    if (state === 'half-open') {
+      state = 'open'
+    } else if (failures >= threshold && state === 'closed') {
       state = 'open'
       opts.onOpen?.()
     }
@@ -422,6 +424,24 @@ export function withCache(opts: StoreCacheOptions = {}): StoreMiddleware {
     cache.delete(key)
   }
 
+  // A result is cached only when no write overlapped it: an overlapped read
+  // or write cannot tell which value the store ended up with.
+  let writing = 0
+  let epoch = 0
+
+  async function write(fn: () => Promise<void>): Promise<boolean> {
+    const alone = writing === 0
+    const started = ++epoch
+    writing++
+    try {
+      await fn()
+    } finally {
+      writing--
+      epoch++
+    }
+    return alone && epoch === started + 1
+  }
+
   return (next) => ({
     ...next,
     name: next.name ? `cache(${next.name})` : 'cache',
@@ -430,25 +450,32 @@ export function withCache(opts: StoreCacheOptions = {}): StoreMiddleware {
       const key = cacheKey(vault, collection, id)
       const cached = getFromCache(key)
       if (cached !== undefined) return cached
+      const started = epoch
+      const idle = writing === 0
       const result = await next.get(vault, collection, id)
-      setInCache(key, result)
+      if (idle && epoch === started) setInCache(key, result)
       return result
     },
 
     async put(vault, collection, id, env, ev) {
-      invalidate(cacheKey(vault, collection, id))
-      await next.put(vault, collection, id, env, ev)
-      setInCache(cacheKey(vault, collection, id), env)
+      const key = cacheKey(vault, collection, id)
+      invalidate(key)
+      const settled = await write(() => next.put(vault, collection, id, env, ev))
+      if (settled) setInCache(key, env)
     },
 
     async delete(vault, collection, id) {
       invalidate(cacheKey(vault, collection, id))
-      await next.delete(vault, collection, id)
+      await write(() => next.delete(vault, collection, id))
     },
 
     list: (v, c) => next.list(v, c),
     loadAll: (v) => next.loadAll(v),
-    saveAll: (v, d) => next.saveAll(v, d),
+
+    async saveAll(v, d) {
+      cache.clear()
+      await write(() => next.saveAll(v, d))
+    },
   })
 }
 
-- 
2.43.0


From 2f8a0cf702af9ee305995a5647c7e61d2c7eaf16 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:09:13 +0000
Subject: [PATCH 35/87] fix: do not count version conflicts as store outages in
 the circuit breaker

---
 packages/hub/src/store/store-middleware.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/hub/src/store/store-middleware.ts b/packages/hub/src/store/store-middleware.ts
index f1ca752..535f046 100644
--- a/packages/hub/src/store/store-middleware.ts
+++ b/packages/hub/src/store/store-middleware.ts
@@ -18,6 +18,7 @@
  */
 
 import type { NoydbStore, EncryptedEnvelope } from '../types.js'
+import { ConflictError } from '../errors.js'
 
 // ─── Core composition ───────────────────────────────────────────────────
 
@@ -337,7 +338,9 @@ export function withCircuitBreaker(opts: CircuitBreakerOptions = {}): StoreMiddl
       recordSuccess()
       return result
     } catch (err) {
-      recordFailure()
+      // A version conflict is an answer from a healthy store, not an outage
+      if (err instanceof ConflictError) recordSuccess()
+      else recordFailure()
       throw err
     }
   }
-- 
2.43.0


From a79dc5bcc2a1facb345ff7d1ddaeeeab50c5a5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:42:53 +0000
Subject: [PATCH 36/87] fix: keep every change in the sync scheduler

Changes made while a push was running, or inside the minimum interval in
on-change mode, were never pushed. They now get a following push. A forced
push no longer returns early because of the minimum interval or a running
push.
---
 packages/hub/src/store/sync-policy.ts | 56 +++++++++++++++++++--------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/packages/hub/src/store/sync-policy.ts b/packages/hub/src/store/sync-policy.ts
index 352b132..c5b2faa 100644
--- a/packages/hub/src/store/sync-policy.ts
+++ b/packages/hub/src/store/sync-policy.ts
@@ -184,6 +184,9 @@ export class SyncScheduler {
   private readonly boundOnPageHide: (() => void) | null = null
 
   private started = false
+  private pushing: Promise<void> | null = null
+  private pushAgain = false
+  private pulling = false
 
   constructor(policy: SyncPolicy, callbacks: SyncSchedulerCallbacks) {
     this.policy = policy
@@ -250,6 +253,7 @@ export class SyncScheduler {
   stop(): void {
     if (!this.started) return
     this.started = false
+    this.pushAgain = false
 
     if (this.debounceTimer) {
       clearTimeout(this.debounceTimer)
@@ -299,7 +303,7 @@ export class SyncScheduler {
 
   /** Force an immediate push, bypassing the scheduler. */
   async forcePush(): Promise<void> {
-    await this.executePush()
+    await this.executePush(true)
   }
 
   /** Force an immediate pull, bypassing the scheduler. */
@@ -309,18 +313,23 @@ export class SyncScheduler {
 
   // ─── Internal ─────────────────────────────────────────────────────
 
-  private async executePush(): Promise<void> {
-    if (this._state === 'pushing') return // already in progress
+  private async executePush(force = false): Promise<void> {
+    if (this.pushing) {
+      // Already in progress — what changed since it began needs another push
+      if (!force) {
+        this.pushAgain = true
+        return
+      }
+      await this.pushing
+      return this.executePush(true)
+    }
 
     // minIntervalMs enforcement
-    const minInterval = this.policy.push.minIntervalMs ?? 0
-    if (minInterval > 0) {
-      const elapsed = Date.now() - this._lastPushTime
-      if (elapsed < minInterval) {
-        // Schedule for later if debounce mode
-        if (this.policy.push.mode === 'debounce') {
-          this.scheduleDebounce(minInterval - elapsed)
-        }
+    if (!force) {
+      const wait = (this.policy.push.minIntervalMs ?? 0) - (Date.now() - this._lastPushTime)
+      if (wait > 0) {
+        // Schedule for later; interval mode comes round by itself
+        if (this.policy.push.mode !== 'interval') this.scheduleDebounce(wait)
         return
       }
     }
@@ -331,6 +340,14 @@ export class SyncScheduler {
       return
     }
 
+    this.pushAgain = false
+    this.pushing = this.runPush()
+    await this.pushing
+
+    if (this.pushAgain && this.started) await this.executePush()
+  }
+
+  private async runPush(): Promise<void> {
     this._state = 'pushing'
     try {
       await this.callbacks.push()
@@ -341,29 +358,34 @@ export class SyncScheduler {
     } catch (err) {
       this._lastError = err instanceof Error ? err : new Error(String(err))
       this._state = 'error'
+    } finally {
+      this.pushing = null
     }
   }
 
   private async executePull(): Promise<void> {
-    if (this._state === 'pulling') return
+    if (this.pulling) return
 
     const previousState = this._state
-    this._state = 'pulling'
+    this.pulling = true
+    if (!this.pushing) this._state = 'pulling'
     try {
       await this.callbacks.pull()
       this._lastPullAt = new Date().toISOString()
       this._lastError = null
-      this._state = previousState === 'pending' ? 'pending' : 'idle'
+      if (this._state === 'pulling') this._state = previousState === 'pending' ? 'pending' : 'idle'
     } catch (err) {
       this._lastError = err instanceof Error ? err : new Error(String(err))
-      this._state = 'error'
+      if (!this.pushing) this._state = 'error'
+    } finally {
+      this.pulling = false
     }
   }
 
   private resetDebounce(): void {
     if (this.debounceTimer) clearTimeout(this.debounceTimer)
     const ms = this.policy.push.debounceMs ?? 30_000
-    this._state = 'pending'
+    if (!this.pushing) this._state = 'pending'
     this.scheduleDebounce(ms)
   }
 
@@ -406,6 +428,6 @@ export class SyncScheduler {
   private fireUnloadPush(): void {
     if (this.callbacks.getDirtyCount() === 0) return
     // Best-effort synchronous-ish push on unload
-    void this.callbacks.push().catch(() => {})
+    void this.executePush(true)
   }
 }
-- 
2.43.0


From c3b3feee150ed80bdfec8fb4f73a99b44054e473 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 05:42:53 +0000
Subject: [PATCH 37/87] fix: stop sync from losing concurrent changes

Push and pull compared version numbers only, so edits made during a push,
edits by two replicas at the same version, failed pushes that had landed and
deletions could silently overwrite or drop each other. The sync engine now
remembers the remote version each change is based on and which pushes were
not confirmed, runs one operation at a time, and writes pulled records
through the open collection so that cached values follow.
---
 packages/hub/src/collection.ts         |  24 +-
 packages/hub/src/noydb.ts              |  28 +-
 packages/hub/src/team/sync-strategy.ts |   5 +-
 packages/hub/src/team/sync.ts          | 498 +++++++++++++++----------
 packages/hub/src/types.ts              |   4 +
 packages/hub/src/vault.ts              |  33 ++
 6 files changed, 392 insertions(+), 200 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index b05878a..b6a7c69 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -1010,7 +1010,7 @@ export class Collection<T> {
    * Overlapping writes would otherwise read the same prior version and
    * could leave the cache and the store holding different values.
    */
-  private serializeWrite(id: string, write: () => Promise<void>): Promise<void> {
+  private serializeWrite<R>(id: string, write: () => Promise<R>): Promise<R> {
     const tail = this.writeTails.get(id)
     const run = tail ? tail.then(write, write) : write()
     this.writeTails.set(id, run)
@@ -1493,13 +1493,17 @@ export class Collection<T> {
    * Put one record back to a previously captured envelope (`null` = absent)
    * and bring the cache and indexes back in line with it. Used to roll back
    * atomic batches and transactions; no events, history or ledger entries.
+   * With `when`, does nothing and returns false when the record is no longer
+   * `current` or the change no longer due: what sync decided is out of date.
    *
    * @internal
    */
-  async _restore(id: string, prior: EncryptedEnvelope | null): Promise<void> {
-    await this.serializeWrite(id, async () => {
+  async _restore(id: string, prior: EncryptedEnvelope | null, when?: { current: EncryptedEnvelope | null; stillDue: () => boolean }): Promise<boolean> {
+    return this.serializeWrite(id, async () => {
       const current = await this.adapter.get(this.vault, this.name, id)
-      if (current?._v === prior?._v && current?._iv === prior?._iv && current?._data === prior?._data) return
+      const same = (e: EncryptedEnvelope | null): boolean => current?._iv === e?._iv && current?._data === e?._data && current?._ts === e?._ts
+      if (when && !(when.stillDue() && same(when.current))) return false
+      if (current?._v === prior?._v && current?._iv === prior?._iv && current?._data === prior?._data) return true
 
       if (prior) await this.adapter.put(this.vault, this.name, id, prior)
       else await this.adapter.delete(this.vault, this.name, id)
@@ -1511,7 +1515,7 @@ export class Collection<T> {
         const currentRecord = current ? await this.decryptRecord(current, { skipValidation: true }) : null
         if (prior) await this.maintainPersistedIndexesOnPut(id, priorRecord as T, currentRecord, prior._v)
         else if (currentRecord !== null) await this.maintainPersistedIndexesOnDelete(id, currentRecord)
-        return
+        return true
       }
       await this.ensureHydrated().catch(() => {})
       const cached = this.cache.get(id)
@@ -1522,9 +1526,19 @@ export class Collection<T> {
         this.cache.delete(id)
         if (cached) this.indexes?.remove(id, cached.record)
       }
+      return true
     })
   }
 
+  /**
+   * Read the stored envelope once every write under way has settled.
+   *
+   * @internal
+   */
+  async _readSettled<R>(id: string, read: (envelope: EncryptedEnvelope | null) => R): Promise<R> {
+    return this.serializeWrite(id, async () => read(await this.adapter.get(this.vault, this.name, id)))
+  }
+
   /**
    * Get many records in one call. Returns a `Map<id, T | null>` —
    * missing records surface as `null` entries so the caller can
diff --git a/packages/hub/src/noydb.ts b/packages/hub/src/noydb.ts
index 02dc3bb..4e6ab18 100644
--- a/packages/hub/src/noydb.ts
+++ b/packages/hub/src/noydb.ts
@@ -32,7 +32,7 @@ import {
   listUsers as keyringListUsers,
 } from './team/keyring.js'
 import type { UnlockedKeyring } from './team/keyring.js'
-import type { SyncEngine } from './team/sync.js'
+import type { SyncEngine, ApplyLocal, ReadLocal } from './team/sync.js'
 import type { SyncTransaction } from './team/sync-transaction.js'
 import { NO_SYNC, type SyncStrategy } from './team/sync-strategy.js'
 import type { TxContext } from './tx/transaction.js'
@@ -216,6 +216,10 @@ export class Noydb {
     let syncEngine: SyncEngine | undefined
     const targets = normalizeSyncTargets(this.options.sync)
     if (targets.length > 0) {
+      // What sync brings in goes through the open collections, so that readers see it
+      const applyLocal: ApplyLocal = (collection, id, envelope, current, stillDue) =>
+        comp._applySynced(collection, id, envelope, current, stillDue)
+      const readLocal: ReadLocal = (collection, id, read) => comp._readSettled(collection, id, read)
       // Primary sync engine is the first sync-peer (or first target if none)
       const primary = targets.find(t => t.role === 'sync-peer') ?? targets[0]!
       const effectivePolicy = this.options.syncPolicy ?? primary.policy ?? INDEXED_STORE_POLICY
@@ -226,6 +230,8 @@ export class Noydb {
         strategy: this.options.conflict ?? 'version',
         emitter: this.emitter,
         syncPolicy: effectivePolicy,
+        applyLocal,
+        readLocal,
         role: primary.role,
         ...(primary.label !== undefined ? { label: primary.label } : {}),
       })
@@ -234,6 +240,9 @@ export class Noydb {
       // Additional targets get their own engines (backup/archive are push-only)
       for (const target of targets) {
         if (target === primary) continue
+        const base = `${name}::${target.label ?? target.role}`
+        let key = base
+        for (let n = 2; this.syncEngines.has(key); n++) key = `${base}#${n}`
         const targetPolicy = target.policy ?? this.options.syncPolicy ?? INDEXED_STORE_POLICY
         const engine = this.syncStrategy.buildSyncEngine({
           local: this.options.store,
@@ -242,12 +251,19 @@ export class Noydb {
           strategy: this.options.conflict ?? 'version',
           emitter: this.emitter,
           syncPolicy: targetPolicy,
+          metaId: `meta${key.slice(name.length)}`,
+          applyLocal,
+          readLocal,
           role: target.role,
           ...(target.label !== undefined ? { label: target.label } : {}),
         })
-        const key = `${name}::${target.label ?? target.role}`
         this.syncEngines.set(key, engine)
       }
+
+      // Changes left pending by an earlier session count from the start
+      for (const [key, engine] of this.syncEngines) {
+        if (key === name || key.startsWith(`${name}::`)) await engine.ensureLoaded()
+      }
     }
 
     const comp = new Vault({
@@ -260,11 +276,9 @@ export class Noydb {
       onDirty: targets.length > 0
         ? async (coll, id, action, version) => {
             // Fan out dirty tracking to all sync engines for this vault
-            for (const [key, engine] of this.syncEngines) {
-              if (key === name || key.startsWith(`${name}::`)) {
-                void engine.trackChange(coll, id, action, version)
-              }
-            }
+            await Promise.all([...this.syncEngines]
+              .filter(([key]) => key === name || key.startsWith(`${name}::`))
+              .map(([, engine]) => engine.trackChange(coll, id, action, version)))
           }
         : undefined,
       onRegisterConflictResolver: syncEngine
diff --git a/packages/hub/src/team/sync-strategy.ts b/packages/hub/src/team/sync-strategy.ts
index 2bb8341..41d8538 100644
--- a/packages/hub/src/team/sync-strategy.ts
+++ b/packages/hub/src/team/sync-strategy.ts
@@ -32,7 +32,7 @@ import type {
 } from '../types.js'
 import type { NoydbEventEmitter } from '../events.js'
 import type { SyncPolicy } from '../store/sync-policy.js'
-import type { SyncEngine } from './sync.js'
+import type { SyncEngine, ApplyLocal, ReadLocal } from './sync.js'
 import type { SyncTransaction } from './sync-transaction.js'
 import type { PresenceHandle, PresenceHandleOpts } from './presence.js'
 import type { Vault } from '../vault.js'
@@ -53,6 +53,9 @@ export interface BuildSyncEngineOptions {
   syncPolicy?: SyncPolicy
   role?: SyncTargetRole
   label?: string
+  metaId?: string
+  applyLocal?: ApplyLocal
+  readLocal?: ReadLocal
 }
 
 /**
diff --git a/packages/hub/src/team/sync.ts b/packages/hub/src/team/sync.ts
index 232d3b6..84576cc 100644
--- a/packages/hub/src/team/sync.ts
+++ b/packages/hub/src/team/sync.ts
@@ -19,6 +19,26 @@ import type { NoydbEventEmitter } from '../events.js'
 import type { SyncPolicy } from '../store/sync-policy.js'
 import { SyncScheduler } from '../store/sync-policy.js'
 
+/**
+ * Replace a local copy by what synchronisation decided (`null` = absent),
+ * unless it changed since `current` was read or is no longer `stillDue`.
+ * Returns whether it was replaced.
+ */
+export type ApplyLocal = (
+  collection: string,
+  id: string,
+  envelope: EncryptedEnvelope | null,
+  current: EncryptedEnvelope | null,
+  stillDue: () => boolean,
+) => Promise<boolean>
+
+/** Read a local copy at a moment when no write to it is under way. */
+export type ReadLocal = <T>(
+  collection: string,
+  id: string,
+  read: (envelope: EncryptedEnvelope | null) => T,
+) => Promise<T>
+
 /** Sync engine: dirty tracking, push, pull, conflict resolution, scheduling. */
 export class SyncEngine {
   private readonly local: NoydbStore
@@ -28,11 +48,17 @@ export class SyncEngine {
   private readonly vault: string
   readonly role: SyncTargetRole
   readonly label: string | undefined
+  /** Where this target's dirty log is kept. */
+  private readonly metaId: string
+  private readonly applyLocal: ApplyLocal
+  private readonly readLocal: ReadLocal
 
   private dirty: DirtyEntry[] = []
   private lastPush: string | null = null
   private lastPull: string | null = null
-  private loaded = false
+  private loading: Promise<void> | null = null
+  private turn: Promise<unknown> = Promise.resolve()
+  private saving: Promise<void> = Promise.resolve()
   private autoSyncInterval: ReturnType<typeof setInterval> | null = null
   private isOnline = true
 
@@ -51,6 +77,9 @@ export class SyncEngine {
     syncPolicy?: SyncPolicy
     role?: SyncTargetRole
     label?: string
+    metaId?: string
+    applyLocal?: ApplyLocal
+    readLocal?: ReadLocal
   }) {
     this.local = opts.local
     this.remote = opts.remote
@@ -59,6 +88,14 @@ export class SyncEngine {
     this.emitter = opts.emitter
     this.role = opts.role ?? 'sync-peer'
     this.label = opts.label
+    this.metaId = opts.metaId ?? 'meta'
+    this.readLocal = opts.readLocal ?? (async (collection, id, read) => read(await this.local.get(this.vault, collection, id)))
+    this.applyLocal = opts.applyLocal ?? (async (collection, id, envelope, current, stillDue) => {
+      if (!stillDue() || !sameContent(await this.local.get(this.vault, collection, id), current)) return false
+      if (envelope) await this.local.put(this.vault, collection, id, envelope)
+      else await this.local.delete(this.vault, collection, id)
+      return true
+    })
 
     // Create scheduler if a policy is provided
     const policy = opts.syncPolicy
@@ -96,7 +133,7 @@ export class SyncEngine {
     await this.ensureLoaded()
 
     // Deduplicate: if same collection+id already in dirty, update it
-    const idx = this.dirty.findIndex(d => d.collection === collection && d.id === id)
+    const previous = this.findDirty(collection, id)
     const entry: DirtyEntry = {
       vault: this.vault,
       collection,
@@ -105,9 +142,13 @@ export class SyncEngine {
       version,
       timestamp: new Date().toISOString(),
     }
+    if (previous) {
+      if (baseOf(previous) !== ANY_VERSION) entry.base = baseOf(previous)
+      if (previous.sent) entry.sent = previous.sent
+    }
 
-    if (idx >= 0) {
-      this.dirty[idx] = entry
+    if (previous) {
+      this.dirty[this.dirty.indexOf(previous)] = entry
     } else {
       this.dirty.push(entry)
     }
@@ -120,100 +161,19 @@ export class SyncEngine {
 
   /** Push dirty records to remote adapter. Accepts optional `PushOptions` for partial sync. */
   async push(options?: PushOptions): Promise<PushResult> {
-    await this.ensureLoaded()
-
-    let pushed = 0
-    const conflicts: Conflict[] = []
-    const errors: Error[] = []
-    const completed: number[] = []
-
-    for (let i = 0; i < this.dirty.length; i++) {
-      const entry = this.dirty[i]!
-
+    return this.pushFiltered(
       // Partial sync: skip collections not in the filter
-      if (options?.collections && !options.collections.includes(entry.collection)) {
-        continue
-      }
-
-      try {
-        if (entry.action === 'delete') {
-          await this.remote.delete(this.vault, entry.collection, entry.id)
-          completed.push(i)
-          pushed++
-        } else {
-          const envelope = await this.local.get(this.vault, entry.collection, entry.id)
-          if (!envelope) {
-            // Record was deleted locally after being marked dirty
-            completed.push(i)
-            continue
-          }
-
-          try {
-            await this.remote.put(
-              this.vault,
-              entry.collection,
-              entry.id,
-              envelope,
-              entry.version - 1,
-            )
-            completed.push(i)
-            pushed++
-          } catch (err) {
-            if (err instanceof ConflictError) {
-              const remoteEnvelope = await this.remote.get(this.vault, entry.collection, entry.id)
-              if (remoteEnvelope) {
-                const { handled, conflict } = await this.handleConflict(
-                  entry.collection,
-                  entry.id,
-                  envelope,
-                  remoteEnvelope,
-                  'push',
-                )
-                conflicts.push(conflict)
-                if (handled === 'local') {
-                  await this.remote.put(this.vault, entry.collection, entry.id, conflict.local)
-                  completed.push(i)
-                  pushed++
-                } else if (handled === 'remote') {
-                  await this.local.put(this.vault, entry.collection, entry.id, conflict.remote)
-                  completed.push(i)
-                } else if (handled === 'merged' && conflict.local !== envelope) {
-                  // Merged envelope is stored in conflict.local (the winner)
-                  const merged = conflict.local
-                  await this.remote.put(this.vault, entry.collection, entry.id, merged)
-                  await this.local.put(this.vault, entry.collection, entry.id, merged)
-                  completed.push(i)
-                  pushed++
-                }
-                // handled === 'deferred': leave in dirty log
-              }
-            } else {
-              throw err
-            }
-          }
-        }
-      } catch (err) {
-        errors.push(err instanceof Error ? err : new Error(String(err)))
-      }
-    }
-
-    // Remove completed entries from dirty log (reverse order to preserve indices)
-    for (const i of completed.sort((a, b) => b - a)) {
-      this.dirty.splice(i, 1)
-    }
-
-    this.lastPush = new Date().toISOString()
-    await this.persistMeta()
-
-    const result: PushResult = { pushed, conflicts, errors }
-    this.emitter.emit('sync:push', result)
-    return result
+      entry => !options?.collections || options.collections.includes(entry.collection),
+    )
   }
 
   /** Pull remote records to local adapter. Accepts optional `PullOptions` for partial sync. */
   async pull(options?: PullOptions): Promise<PullResult> {
     await this.ensureLoaded()
+    return this.exclusive(() => this.runPull(options))
+  }
 
+  private async runPull(options?: PullOptions): Promise<PullResult> {
     let pulled = 0
     const conflicts: Conflict[] = []
     const errors: Error[] = []
@@ -234,41 +194,44 @@ export class SyncEngine {
           }
 
           try {
-            const localEnvelope = await this.local.get(this.vault, collName, id)
+            const { entry, localEnvelope } = await this.readRecord(collName, id)
 
             if (!localEnvelope) {
+              // Deleted here and unchanged there — push will delete it
+              if (entry && !this.changedThere(entry, remoteEnvelope)) continue
               // New record from remote
-              await this.local.put(this.vault, collName, id, remoteEnvelope)
-              pulled++
-            } else if (remoteEnvelope._v > localEnvelope._v) {
-              // Remote is newer — check if we have a dirty entry for this
-              const isDirty = this.dirty.some(d => d.collection === collName && d.id === id)
-              if (isDirty) {
-                // Both changed — conflict
-                const { handled, conflict } = await this.handleConflict(
-                  collName,
-                  id,
-                  localEnvelope,
-                  remoteEnvelope,
-                  'pull',
-                )
-                conflicts.push(conflict)
-                if (handled === 'remote') {
-                  await this.local.put(this.vault, collName, id, conflict.remote)
-                  this.dirty = this.dirty.filter(d => !(d.collection === collName && d.id === id))
+              if (await this.replaceLocal(collName, id, entry, remoteEnvelope, null)) {
+                this.settle(entry)
+                pulled++
+              }
+            } else if (entry) {
+              if (!changedSince(entry, remoteEnvelope) || await this.recogniseOwn(entry, localEnvelope, remoteEnvelope)) continue
+              // Both changed — conflict
+              const { handled, conflict } = await this.handleConflict(
+                collName,
+                id,
+                localEnvelope,
+                remoteEnvelope,
+                'pull',
+              )
+              conflicts.push(conflict)
+              if (handled === 'remote') {
+                if (await this.replaceLocal(collName, id, entry, conflict.remote, localEnvelope)) {
+                  this.settle(entry)
                   pulled++
-                } else if (handled === 'merged' && conflict.local !== localEnvelope) {
-                  const merged = conflict.local
-                  await this.local.put(this.vault, collName, id, merged)
-                  this.dirty = this.dirty.filter(d => !(d.collection === collName && d.id === id))
+                }
+              } else if (handled === 'merged') {
+                const merged = above(conflict.local, remoteEnvelope._v)
+                if (await this.replaceLocal(collName, id, entry, merged, localEnvelope)) {
+                  // The merge still has to reach the remote
+                  this.rebase(collName, id, remoteEnvelope._v)
                   pulled++
                 }
-                // 'local' or 'deferred': push handles it
-              } else {
-                // Remote is newer, no local changes — update
-                await this.local.put(this.vault, collName, id, remoteEnvelope)
-                pulled++
               }
+              // 'local' or 'deferred': push handles it
+            } else if (remoteEnvelope._v > localEnvelope._v) {
+              // Remote is newer, no local changes — update
+              if (await this.replaceLocal(collName, id, entry, remoteEnvelope, localEnvelope)) pulled++
             }
             // Same version or local is newer — skip (push will handle)
           } catch (err) {
@@ -302,79 +265,24 @@ export class SyncEngine {
    */
   async pushFiltered(predicate: (entry: DirtyEntry) => boolean): Promise<PushResult> {
     await this.ensureLoaded()
+    return this.exclusive(() => this.runPush(predicate))
+  }
 
+  private async runPush(predicate: (entry: DirtyEntry) => boolean): Promise<PushResult> {
     let pushed = 0
     const conflicts: Conflict[] = []
     const errors: Error[] = []
-    const completed: number[] = []
 
-    for (let i = 0; i < this.dirty.length; i++) {
-      const entry = this.dirty[i]!
+    for (const entry of [...this.dirty]) {
       if (!predicate(entry)) continue
 
       try {
-        if (entry.action === 'delete') {
-          await this.remote.delete(this.vault, entry.collection, entry.id)
-          completed.push(i)
-          pushed++
-        } else {
-          const envelope = await this.local.get(this.vault, entry.collection, entry.id)
-          if (!envelope) {
-            completed.push(i)
-            continue
-          }
-
-          try {
-            await this.remote.put(
-              this.vault,
-              entry.collection,
-              entry.id,
-              envelope,
-              entry.version - 1,
-            )
-            completed.push(i)
-            pushed++
-          } catch (err) {
-            if (err instanceof ConflictError) {
-              const remoteEnvelope = await this.remote.get(this.vault, entry.collection, entry.id)
-              if (remoteEnvelope) {
-                const { handled, conflict } = await this.handleConflict(
-                  entry.collection,
-                  entry.id,
-                  envelope,
-                  remoteEnvelope,
-                  'push',
-                )
-                conflicts.push(conflict)
-                if (handled === 'local') {
-                  await this.remote.put(this.vault, entry.collection, entry.id, conflict.local)
-                  completed.push(i)
-                  pushed++
-                } else if (handled === 'remote') {
-                  await this.local.put(this.vault, entry.collection, entry.id, conflict.remote)
-                  completed.push(i)
-                } else if (handled === 'merged' && conflict.local !== envelope) {
-                  const merged = conflict.local
-                  await this.remote.put(this.vault, entry.collection, entry.id, merged)
-                  await this.local.put(this.vault, entry.collection, entry.id, merged)
-                  completed.push(i)
-                  pushed++
-                }
-              }
-            } else {
-              throw err
-            }
-          }
-        }
+        if (await this.pushEntry(entry, conflicts)) pushed++
       } catch (err) {
         errors.push(err instanceof Error ? err : new Error(String(err)))
       }
     }
 
-    for (const i of completed.sort((a, b) => b - a)) {
-      this.dirty.splice(i, 1)
-    }
-
     this.lastPush = new Date().toISOString()
     await this.persistMeta()
 
@@ -383,6 +291,181 @@ export class SyncEngine {
     return result
   }
 
+  private async pushEntry({ collection, id }: DirtyEntry, conflicts: Conflict[]): Promise<boolean> {
+    for (let attempt = 1; ; attempt++) {
+      const { entry, localEnvelope } = await this.readRecord(collection, id)
+      if (!entry) return false
+      if (entry.action === 'delete') return this.pushDelete(entry)
+      if (!localEnvelope) {
+        // Record was deleted locally after being marked dirty
+        this.settle(entry)
+        return false
+      }
+      const outcome = await this.pushPut(entry, localEnvelope, conflicts)
+      if (typeof outcome === 'boolean') return outcome
+      // The remote moved on meanwhile: look again, then leave it to the next push
+      if (attempt >= MAX_CONFLICT_ROUNDS) throw outcome
+    }
+  }
+
+  /** Delete the record on the remote, unless the remote changed it meanwhile. */
+  private async pushDelete(entry: DirtyEntry): Promise<boolean> {
+    const { collection, id } = entry
+    const remoteEnvelope = await this.remote.get(this.vault, collection, id)
+    if (remoteEnvelope) {
+      if (this.changedThere(entry, remoteEnvelope)) {
+        // The concurrent change survives the delete
+        if (await this.replaceLocal(collection, id, entry, remoteEnvelope, null)) this.settle(entry)
+        return false
+      }
+      // A pull overlapping the delete can have brought the deleted copy back
+      const localEnvelope = await this.local.get(this.vault, collection, id)
+      if (localEnvelope && sameContent(localEnvelope, remoteEnvelope)) {
+        await this.replaceLocal(collection, id, entry, null, localEnvelope)
+      }
+      await this.remote.delete(this.vault, collection, id)
+    }
+    this.settle(entry)
+    return true
+  }
+
+  /** Returns whether it was pushed, or the conflict that was not resolved yet. */
+  private async pushPut(
+    entry: DirtyEntry,
+    envelope: EncryptedEnvelope,
+    conflicts: Conflict[],
+  ): Promise<boolean | ConflictError> {
+    const { collection, id } = entry
+    try {
+      await this.pushEnvelope(entry, envelope, envelope, baseOf(entry))
+      return true
+    } catch (err) {
+      if (!(err instanceof ConflictError)) throw err
+      const remoteEnvelope = await this.remote.get(this.vault, collection, id)
+      if (!remoteEnvelope) return err
+      if (await this.recogniseOwn(entry, envelope, remoteEnvelope)) {
+        return sameContent(remoteEnvelope, envelope) ? true : err
+      }
+      const { handled, conflict } = await this.handleConflict(
+        collection,
+        id,
+        envelope,
+        remoteEnvelope,
+        'push',
+      )
+      conflicts.push(conflict)
+      if (handled === 'remote') {
+        if (await this.replaceLocal(collection, id, entry, conflict.remote, envelope)) this.settle(entry)
+        return false
+      }
+      // 'deferred': leave in dirty log
+      if (handled === 'deferred') return false
+      try {
+        // Merged envelope is stored in conflict.local (the winner)
+        await this.pushEnvelope(entry, envelope, conflict.local, remoteEnvelope._v)
+        return true
+      } catch (again) {
+        if (again instanceof ConflictError) return again
+        throw again
+      }
+    }
+  }
+
+  /** Whether the remote copy is one pushed from here, although the push was reported as failed. */
+  private isOwn(entry: DirtyEntry, remoteEnvelope: EncryptedEnvelope): boolean {
+    return entry.sent?.includes(fingerprint(remoteEnvelope)) ?? false
+  }
+
+  /** Whether somebody else changed the remote copy since the local change. */
+  private changedThere(entry: DirtyEntry, remoteEnvelope: EncryptedEnvelope): boolean {
+    return changedSince(entry, remoteEnvelope) && !this.isOwn(entry, remoteEnvelope)
+  }
+
+  /** Adopt a remote copy of our own making instead of treating it as a conflict. */
+  private async recogniseOwn(
+    entry: DirtyEntry,
+    localEnvelope: EncryptedEnvelope,
+    remoteEnvelope: EncryptedEnvelope,
+  ): Promise<boolean> {
+    const { collection, id } = entry
+    if (sameContent(localEnvelope, remoteEnvelope)) {
+      if (localEnvelope._v !== remoteEnvelope._v) await this.replaceLocal(collection, id, entry, remoteEnvelope, localEnvelope)
+      this.settle(entry, remoteEnvelope._v)
+      return true
+    }
+    if (!this.isOwn(entry, remoteEnvelope)) return false
+    this.rebase(collection, id, remoteEnvelope._v)
+    return true
+  }
+
+  /**
+   * Write `winner` over remote version `base`, numbered above it so that every
+   * other replica picks it up, and keep the local copy identical.
+   */
+  private async pushEnvelope(
+    entry: DirtyEntry,
+    current: EncryptedEnvelope,
+    winner: EncryptedEnvelope,
+    base: number,
+  ): Promise<void> {
+    const { collection, id } = entry
+    const envelope = above(winner, base)
+    if (winner === current) {
+      // Also on an entry that took this one's place meanwhile
+      const sent = [...(entry.sent ?? []), fingerprint(envelope)]
+      for (const e of [entry, this.findDirty(collection, id)]) if (e) e.sent = sent
+    }
+    await this.remote.put(this.vault, collection, id, envelope, base)
+    const applied = envelope === current || await this.replaceLocal(collection, id, entry, envelope, current)
+    // A local change made meanwhile has not seen the merge it would replace
+    this.settle(entry, applied || winner === current ? envelope._v : undefined)
+  }
+
+  /** Replace the local copy, unless a local change came in since `current` and `entry` were read. */
+  private replaceLocal(
+    collection: string,
+    id: string,
+    entry: DirtyEntry | undefined,
+    envelope: EncryptedEnvelope | null,
+    current: EncryptedEnvelope | null,
+  ): Promise<boolean> {
+    return this.applyLocal(collection, id, envelope, current, () => this.findDirty(collection, id) === entry)
+  }
+
+  /** A record's local copy together with the dirty entry that goes with it. */
+  private readRecord(
+    collection: string,
+    id: string,
+  ): Promise<{ entry: DirtyEntry | undefined; localEnvelope: EncryptedEnvelope | null }> {
+    return this.readLocal(collection, id, localEnvelope => ({ entry: this.findDirty(collection, id), localEnvelope }))
+  }
+
+  private findDirty(collection: string, id: string): DirtyEntry | undefined {
+    return this.dirty.find(d => d.collection === collection && d.id === id)
+  }
+
+  /** Drop a synchronised entry. A change recorded meanwhile stays, based on `version`. */
+  private settle(entry: DirtyEntry | undefined, version?: number): void {
+    if (!entry) return
+    const index = this.dirty.indexOf(entry)
+    if (index >= 0) this.dirty.splice(index, 1)
+    else if (version !== undefined) this.rebase(entry.collection, entry.id, version)
+  }
+
+  private rebase(collection: string, id: string, base: number): void {
+    const entry = this.findDirty(collection, id)
+    if (!entry) return
+    entry.base = base
+    delete entry.sent
+  }
+
+  /** Pushes and pulls take turns: each one works on the dirty log the last one left. */
+  private exclusive<T>(fn: () => Promise<T>): Promise<T> {
+    const run = this.turn.then(fn, fn)
+    this.turn = run.catch(() => {})
+    return run
+  }
+
   /** Get current sync status. */
   status(): SyncStatus {
     return {
@@ -407,7 +490,7 @@ export class SyncEngine {
     if (intervalMs && intervalMs > 0) {
       this.autoSyncInterval = setInterval(() => {
         if (this.isOnline) {
-          void this.sync()
+          this.sync().catch(() => {})
         }
       }, intervalMs)
     }
@@ -429,7 +512,7 @@ export class SyncEngine {
   private handleOnline = (): void => {
     this.isOnline = true
     this.emitter.emit('sync:online', undefined as never)
-    void this.sync()
+    this.sync().catch(() => {})
   }
 
   private handleOffline = (): void => {
@@ -511,21 +594,34 @@ export class SyncEngine {
 
   // ─── Persistence ─────────────────────────────────────────────────
 
-  private async ensureLoaded(): Promise<void> {
-    if (this.loaded) return
+  /** Load the persisted dirty log. */
+  async ensureLoaded(): Promise<void> {
+    this.loading ??= this.load().catch((err: unknown) => {
+      this.loading = null
+      throw err
+    })
+    await this.loading
+  }
 
-    const envelope = await this.local.get(this.vault, '_sync', 'meta')
+  private async load(): Promise<void> {
+    const envelope = await this.local.get(this.vault, '_sync', this.metaId)
     if (envelope) {
       const meta = JSON.parse(envelope._data) as SyncMetadata
       this.dirty = [...meta.dirty]
       this.lastPush = meta.last_push
       this.lastPull = meta.last_pull
     }
+  }
 
-    this.loaded = true
+  private persistMeta(): Promise<void> {
+    // One at a time, so an older dirty log never replaces a newer one
+    const run = this.saving.then(() => this.saveMeta(), () => this.saveMeta())
+    this.saving = run
+    run.catch(() => {})
+    return run
   }
 
-  private async persistMeta(): Promise<void> {
+  private async saveMeta(): Promise<void> {
     const meta: SyncMetadata = {
       _noydb_sync: NOYDB_SYNC_VERSION,
       last_push: this.lastPush,
@@ -541,6 +637,34 @@ export class SyncEngine {
       _data: JSON.stringify(meta),
     }
 
-    await this.local.put(this.vault, '_sync', 'meta', envelope)
+    await this.local.put(this.vault, '_sync', this.metaId, envelope)
   }
 }
+
+/** Base of a deletion that covers every version. */
+const ANY_VERSION = Number.MAX_SAFE_INTEGER
+
+/** Rounds of conflict resolution per record and push. */
+const MAX_CONFLICT_ROUNDS = 3
+
+function fingerprint(envelope: EncryptedEnvelope): string {
+  return `${envelope._ts}|${envelope._iv || envelope._data}`
+}
+
+/** Remote version the local change was made on. Deleting a record of unknown version covers every version. */
+function baseOf(entry: DirtyEntry): number {
+  return entry.base ?? (entry.action === 'put' ? entry.version - 1 : entry.version || ANY_VERSION)
+}
+
+function changedSince(entry: DirtyEntry, remote: EncryptedEnvelope): boolean {
+  return remote._v > baseOf(entry)
+}
+
+/** The same write, whatever version number it travels under. */
+export function sameContent(a: EncryptedEnvelope | null, b: EncryptedEnvelope | null): boolean {
+  return a?._iv === b?._iv && a?._data === b?._data && a?._ts === b?._ts
+}
+
+function above(envelope: EncryptedEnvelope, version: number): EncryptedEnvelope {
+  return envelope._v > version ? envelope : { ...envelope, _v: version + 1 }
+}
diff --git a/packages/hub/src/types.ts b/packages/hub/src/types.ts
index e82cd94..e2ee380 100644
--- a/packages/hub/src/types.ts
+++ b/packages/hub/src/types.ts
@@ -642,6 +642,10 @@ export interface DirtyEntry {
   readonly id: string
   readonly action: 'put' | 'delete'
   readonly version: number
+  /** Remote version the change was made on. */
+  base?: number
+  /** What was pushed for it without the remote confirming. */
+  sent?: string[]
   readonly timestamp: string
 }
 
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index dae4d4d..f334d0e 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -1128,6 +1128,39 @@ export class Vault {
     }).querySourceForJoin()
   }
 
+  /**
+   * Replace one record by what synchronisation decided (`null` = absent),
+   * unless it changed since `current` was read or is no longer due. An open collection takes the
+   * new value over, so reads and later writes build on it.
+   *
+   * @internal
+   */
+  async _applySynced(
+    collectionName: string,
+    id: string,
+    envelope: EncryptedEnvelope | null,
+    current: EncryptedEnvelope | null,
+    stillDue: () => boolean,
+  ): Promise<boolean> {
+    const coll = this.collectionCache.get(collectionName)
+    if (coll) return coll._restore(id, envelope, { current, stillDue })
+    const stored = await this.adapter.get(this.name, collectionName, id)
+    if (!stillDue() || stored?._iv !== current?._iv || stored?._data !== current?._data || stored?._ts !== current?._ts) return false
+    if (envelope) await this.adapter.put(this.name, collectionName, id, envelope)
+    else await this.adapter.delete(this.name, collectionName, id)
+    return true
+  }
+
+  /**
+   * Read one record's envelope at a moment when no write to it is under way.
+   *
+   * @internal
+   */
+  async _readSettled<T>(collectionName: string, id: string, read: (envelope: EncryptedEnvelope | null) => T): Promise<T> {
+    const coll = this.collectionCache.get(collectionName)
+    return coll ? coll._readSettled(id, read) : read(await this.adapter.get(this.name, collectionName, id))
+  }
+
   /**
    * Walk every collection that has declared refs, load its records,
    * and report any reference whose target id is missing. Modes are
-- 
2.43.0


From cf63ae8e76ec15fd2cf8dfb2d788a1fa712d6bfa Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:03:53 +0000
Subject: [PATCH 38/87] fix: refuse shares of different splits and keep a wiped
 lockout terminal

Combining shares whose thresholds disagree silently produced a wrong secret.
A failed attempt after the terminal wipe could report the keyring as not
locked once the counting window had passed.
---
 packages/on-shamir/src/shamir.ts | 5 ++++-
 packages/on-threat/src/index.ts  | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/on-shamir/src/shamir.ts b/packages/on-shamir/src/shamir.ts
index 83f66ef..0833ef4 100644
--- a/packages/on-shamir/src/shamir.ts
+++ b/packages/on-shamir/src/shamir.ts
@@ -71,7 +71,10 @@ export function combineSecret(shares: readonly RawShare[]): Uint8Array {
   if (shares.length === 0) {
     throw new Error('on-shamir: no shares provided')
   }
-  const k = shares[0]!.k
+  const { k, n } = shares[0]!
+  if (!Number.isInteger(k) || k < 2 || shares.some(s => s.k !== k || s.n !== n)) {
+    throw new Error('on-shamir: share thresholds disagree — incompatible enrollment')
+  }
   if (shares.length < k) {
     throw new Error(`on-shamir: insufficient shares — need ${k}, got ${shares.length}`)
   }
diff --git a/packages/on-threat/src/index.ts b/packages/on-threat/src/index.ts
index a710397..acb531f 100644
--- a/packages/on-threat/src/index.ts
+++ b/packages/on-threat/src/index.ts
@@ -91,6 +91,9 @@ export function recordFailure(state: LockoutState, config: LockoutConfig = {}):
   const cooldownMs = config.cooldownMs ?? 5 * 60 * 1000
   const maxStrikes = config.maxStrikes ?? 3
 
+  // Wipe is terminal — nothing reopens the keyring.
+  if (state.wiped) return { locked: true, wipe: true }
+
   const now = new Date()
   const nowMs = now.getTime()
 
-- 
2.43.0


From ac52d61b28faae80570d1a355658c47549bd5509 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:03:53 +0000
Subject: [PATCH 39/87] fix: keep the previous OIDC enrolment when re-enrolling
 fails

The device secret was replaced before the key server had accepted the new
half, so a failed request made the existing enrolment unusable. Tokens are
now also refused at their expiry instant and when it is not a number.
---
 packages/on-oidc/src/index.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/on-oidc/src/index.ts b/packages/on-oidc/src/index.ts
index dda136d..45a442e 100644
--- a/packages/on-oidc/src/index.ts
+++ b/packages/on-oidc/src/index.ts
@@ -267,6 +267,7 @@ export function parseIdTokenClaims(idToken: string): OidcClaims {
   const claims = JSON.parse(json) as OidcClaims
   if (!claims.sub) throw new OidcTokenError('ID token missing "sub" claim')
   if (!claims.exp) throw new OidcTokenError('ID token missing "exp" claim')
+  if (!Number.isFinite(claims.exp)) throw new OidcTokenError('ID token has a malformed "exp" claim')
   return claims
 }
 
@@ -277,7 +278,7 @@ export function parseIdTokenClaims(idToken: string): OidcClaims {
 export function isIdTokenExpired(idToken: string): boolean {
   try {
     const claims = parseIdTokenClaims(idToken)
-    return Date.now() / 1000 > claims.exp
+    return Date.now() / 1000 >= claims.exp
   } catch {
     return true
   }
@@ -377,7 +378,6 @@ export async function enrollOidc(
   // Generate a device secret and derive the device half
   const deviceSecret = globalThis.crypto.getRandomValues(new Uint8Array(32))
   const deviceKeyId = bufferToBase64(globalThis.crypto.getRandomValues(new Uint8Array(16)))
-  saveDeviceSecret(claims.sub, deviceSecret, options.storage)
 
   // Pad payload to the next 16-byte boundary to avoid leaking length
   const padLen = (16 - (payloadBytes.length % 16)) % 16
@@ -403,6 +403,8 @@ export async function enrollOidc(
     bufferToBase64(encryptedServerHalf),
     bufferToBase64(iv),
   )
+  // Only now replace an earlier enrolment's secret — a failed PUT leaves it usable
+  saveDeviceSecret(claims.sub, deviceSecret, options.storage)
 
   return {
     _noydb_oidc: 1,
-- 
2.43.0


From 11874f7016aa77606a3c3dbf50d6b9de3c84bbbe Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:08:29 +0000
Subject: [PATCH 40/87] fix: hold elevation, delegation, PIN and session limits
 under overlap

An expired elevation or a failed audit write no longer blocks later
elevations. Delegation and magic-link expiry compare instants instead of
strings. A PIN attempt is counted before asynchronous work. An ended policy
enforcer cannot be re-armed. Developer unlock keys of different
vault/user pairs no longer coincide.
---
 packages/hub/src/session/dev-unlock.ts     |  3 ++-
 packages/hub/src/session/session-policy.ts |  4 ++++
 packages/hub/src/team/delegation.ts        |  3 +--
 packages/hub/src/team/magic-link-grant.ts  |  2 +-
 packages/hub/src/vault.ts                  | 24 ++++++++++++++--------
 packages/on-pin/src/index.ts               |  9 +++++---
 6 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/packages/hub/src/session/dev-unlock.ts b/packages/hub/src/session/dev-unlock.ts
index 2b5bf8f..ae3e8c6 100644
--- a/packages/hub/src/session/dev-unlock.ts
+++ b/packages/hub/src/session/dev-unlock.ts
@@ -130,7 +130,8 @@ function assertDevEnvironment(): void {
 // ─── Storage key ──────────────────────────────────────────────────────
 
 function storageKey(vault: string, userId: string): string {
-  return `${STORAGE_PREFIX}${vault}:${userId}`
+  // Escape the separator in the vault name so two pairs never share a key.
+  return `${STORAGE_PREFIX}${vault.replace(/[%:]/g, encodeURIComponent)}:${userId}`
 }
 
 function resolveStorage(persistAcrossTabs?: boolean): Storage {
diff --git a/packages/hub/src/session/session-policy.ts b/packages/hub/src/session/session-policy.ts
index 539fce7..3977fbf 100644
--- a/packages/hub/src/session/session-policy.ts
+++ b/packages/hub/src/session/session-policy.ts
@@ -52,6 +52,7 @@ export class PolicyEnforcer {
   private readonly policy: SessionPolicy
   private readonly sessionId: string
   private readonly onRevoke: PolicyEnforcerOptions['onRevoke']
+  private destroyed = false
   private readonly createdAt: number
   private lastActivityAt: number
   private idleTimer: ReturnType<typeof setTimeout> | null = null
@@ -75,6 +76,7 @@ export class PolicyEnforcer {
    * Call this at the top of every Noydb public method.
    */
   touch(): void {
+    if (this.destroyed) return
     this.lastActivityAt = Date.now()
     this.scheduleIdleTimer()
   }
@@ -106,6 +108,7 @@ export class PolicyEnforcer {
    * and whenever the session is revoked externally.
    */
   destroy(): void {
+    this.destroyed = true
     if (this.idleTimer) {
       clearTimeout(this.idleTimer)
       this.idleTimer = null
@@ -165,6 +168,7 @@ export class PolicyEnforcer {
   }
 
   private expire(reason: 'idle' | 'absolute' | 'background'): void {
+    if (this.destroyed) return
     this.destroy()
     revokeSession(this.sessionId)
     this.onRevoke(reason)
diff --git a/packages/hub/src/team/delegation.ts b/packages/hub/src/team/delegation.ts
index 20a128b..0a1bbb4 100644
--- a/packages/hub/src/team/delegation.ts
+++ b/packages/hub/src/team/delegation.ts
@@ -147,7 +147,6 @@ export async function loadActiveDelegations(
 ): Promise<DelegationToken[]> {
   const ids = await store.list(vault, DELEGATIONS_COLLECTION)
   const merged: DelegationToken[] = []
-  const nowIso = now.toISOString()
   for (const id of ids) {
     const env = await store.get(vault, DELEGATIONS_COLLECTION, id)
     if (!env) continue
@@ -159,7 +158,7 @@ export async function loadActiveDelegations(
       continue
     }
     if (token.toUser !== user.userId) continue
-    if (token.until <= nowIso) continue
+    if (!(Date.parse(token.until) > now.getTime())) continue
 
     let dek: CryptoKey
     try {
diff --git a/packages/hub/src/team/magic-link-grant.ts b/packages/hub/src/team/magic-link-grant.ts
index 1f54a05..178ecad 100644
--- a/packages/hub/src/team/magic-link-grant.ts
+++ b/packages/hub/src/team/magic-link-grant.ts
@@ -294,5 +294,5 @@ export function isMagicLinkGrantExpired(
   payload: MagicLinkGrantPayload,
   now: Date = new Date(),
 ): boolean {
-  return payload.until <= now.toISOString()
+  return !(Date.parse(payload.until) > now.getTime())
 }
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index f334d0e..44cd137 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -1498,6 +1498,9 @@ export class Vault {
     if (typeof options.ttlMs !== 'number' || options.ttlMs <= 0) {
       throw new ValidationError('elevate: ttlMs must be a positive number')
     }
+    if (this.activeElevation && Date.now() > this.activeElevation.expiresAt) {
+      await this.activeElevation.handle.release()
+    }
     if (this.activeElevation) {
       throw new AlreadyElevatedError(this.activeElevation.tier)
     }
@@ -1534,14 +1537,19 @@ export class Vault {
     })
 
     this.activeElevation = { tier, expiresAt, reason, handle }
-    await this.writeElevationAudit({
-      actor: this.keyring.userId,
-      tier,
-      reason,
-      ttlMs: options.ttlMs,
-      startedAt: startedAt.toISOString(),
-      expiresAt: new Date(expiresAt).toISOString(),
-    })
+    try {
+      await this.writeElevationAudit({
+        actor: this.keyring.userId,
+        tier,
+        reason,
+        ttlMs: options.ttlMs,
+        startedAt: startedAt.toISOString(),
+        expiresAt: new Date(expiresAt).toISOString(),
+      })
+    } catch (err) {
+      await handle.release()
+      throw err
+    }
     return handle
   }
 
diff --git a/packages/on-pin/src/index.ts b/packages/on-pin/src/index.ts
index 676d168..4bc0ea1 100644
--- a/packages/on-pin/src/index.ts
+++ b/packages/on-pin/src/index.ts
@@ -232,6 +232,9 @@ export async function resumePin(
   const iv = base64ToBytes(state.iv)
   const ciphertext = base64ToBytes(state.wrappedKeyring)
 
+  // Count the attempt before any async work so that overlapping guesses
+  // cannot exceed maxAttempts; a correct PIN gives its attempt back.
+  state.attempts = state.attempts + 1
   const wrappingKey = await deriveWrappingKey(options.pin, salt)
 
   let plaintext: ArrayBuffer
@@ -242,11 +245,11 @@ export async function resumePin(
       ciphertext as BufferSource,
     )
   } catch {
-    // AES-GCM auth failure. Increment the attempts counter before
-    // throwing so repeated wrong PINs progressively lock the state.
-    state.attempts = state.attempts + 1
+    // AES-GCM auth failure — the attempt stays counted, so repeated
+    // wrong PINs progressively lock the state.
     throw new PinInvalidError()
   }
+  state.attempts = state.attempts - 1
 
   return deserializeKeyring(new Uint8Array(plaintext))
 }
-- 
2.43.0


From c3a6afe97333db9e3036ce31053fc2f88908a88e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:17:57 +0000
Subject: [PATCH 41/87] fix: make merged records converge and keep re-added
 elements

Field ties are broken by value instead of by side, a local edit always gets
a later stamp than the value it replaces, and fields named like built-in
properties survive. A list merge no longer depends on the side that runs it,
a removed element can be added again, and duplicates keep their identity.
Overlapping document updates are applied one after another.
---
 packages/hub/src/crdt/crdt.ts         | 57 +++++++++++++++++----------
 packages/in-yjs/src/yjs-collection.ts | 28 +++++++++++--
 2 files changed, 61 insertions(+), 24 deletions(-)

diff --git a/packages/hub/src/crdt/crdt.ts b/packages/hub/src/crdt/crdt.ts
index a0e72e8..ce78794 100644
--- a/packages/hub/src/crdt/crdt.ts
+++ b/packages/hub/src/crdt/crdt.ts
@@ -17,7 +17,8 @@ export type CrdtMode = 'lww-map' | 'rga' | 'yjs'
 /**
  * Per-field last-write-wins registers.
  * Each field carries its latest value and the ISO timestamp of the last write.
- * Merge: for each field, keep the entry with the lexicographically higher `ts`.
+ * Merge: for each field, keep the entry with the lexicographically higher `ts`
+ * (ties broken by value, so that the outcome does not depend on the side).
  */
 export interface LwwMapState {
   readonly _crdt: 'lww-map'
@@ -106,11 +107,12 @@ function mergeLwwMap(a: LwwMapState, b: LwwMapState): LwwMapState {
   const merged: Record<string, { v: unknown; ts: string }> = {}
   const allFields = new Set([...Object.keys(a.fields), ...Object.keys(b.fields)])
   for (const field of allFields) {
-    const fa = a.fields[field]
-    const fb = b.fields[field]
+    const fa = Object.hasOwn(a.fields, field) ? a.fields[field] : undefined
+    const fb = Object.hasOwn(b.fields, field) ? b.fields[field] : undefined
     if (!fa) { merged[field] = fb! }
     else if (!fb) { merged[field] = fa }
-    else { merged[field] = fa.ts >= fb.ts ? fa : fb }
+    else if (fa.ts !== fb.ts) { merged[field] = fa.ts > fb.ts ? fa : fb }
+    else { merged[field] = String(JSON.stringify(fa.v)) >= String(JSON.stringify(fb.v)) ? fa : fb }
   }
   return { _crdt: 'lww-map', fields: merged }
 }
@@ -118,12 +120,21 @@ function mergeLwwMap(a: LwwMapState, b: LwwMapState): LwwMapState {
 function mergeRga(a: RgaState, b: RgaState): RgaState {
   // Union tombstones from both sides
   const allTombstones = new Set([...a.tombstones, ...b.tombstones])
-  // Union items by nid: start with a's ordering, append b-only items
-  const seenNids = new Set(a.items.map(i => i.nid))
-  const merged: Array<{ nid: string; v: unknown }> = [
-    ...a.items,
-    ...b.items.filter(i => !seenNids.has(i.nid)),
-  ]
+  // Union items by nid: start with one side's ordering, append the items only
+  // the other side has. The base is picked from the states alone so that both
+  // replicas of a conflict arrive at the same list: the side that already
+  // contains the other, else the one with the earlier first item of its own.
+  const aNids = new Set(a.items.map(i => i.nid))
+  const bNids = new Set(b.items.map(i => i.nid))
+  const aOnly = a.items.filter(i => !bNids.has(i.nid)).map(i => i.nid)
+  const bOnly = b.items.filter(i => !aNids.has(i.nid)).map(i => i.nid)
+  const rank = (own: string[], s: RgaState) => (own.length > 0 ? own : s.items.map(i => i.nid)).join()
+  const bFirst = (aOnly.length > 0) === (bOnly.length > 0)
+    ? rank(bOnly, b) < rank(aOnly, a)
+    : bOnly.length > 0
+  const merged: Array<{ nid: string; v: unknown }> = bFirst
+    ? [...b.items, ...a.items.filter(i => !bNids.has(i.nid))]
+    : [...a.items, ...b.items.filter(i => !aNids.has(i.nid))]
   return { _crdt: 'rga', items: merged, tombstones: [...allTombstones] }
 }
 
@@ -143,15 +154,17 @@ export function buildLwwMapState(
 ): LwwMapState {
   const fields: Record<string, { v: unknown; ts: string }> = {}
 
-  // New record fields all get the current timestamp — this device wins for these
+  // New record fields all get the current timestamp — this device wins for these,
+  // also over an existing register written in this millisecond or by a fast clock.
   for (const [field, value] of Object.entries(record)) {
-    fields[field] = { v: value, ts: now }
+    const prev = existing && Object.hasOwn(existing.fields, field) ? existing.fields[field]!.ts : ''
+    fields[field] = { v: value, ts: prev >= now ? new Date(Date.parse(prev) + 1).toISOString() : now }
   }
 
   // Preserve fields from the existing state that aren't in the new record
   if (existing) {
     for (const [field, reg] of Object.entries(existing.fields)) {
-      if (!(field in fields)) {
+      if (!Object.hasOwn(fields, field)) {
         fields[field] = reg
       }
     }
@@ -163,7 +176,7 @@ export function buildLwwMapState(
 /**
  * Build (or update) an RGA state from a new array.
  *
- * Existing items are matched to new elements by deep-equality of their `v`.
+ * Live existing items are matched to new elements by deep-equality of their `v`.
  * Unmatched existing items are tombstoned. New elements that have no existing
  * match get a fresh NID via `generateNid()`.
  */
@@ -172,13 +185,17 @@ export function buildRgaState(
   existing: RgaState | undefined,
   generateNid: () => string,
 ): RgaState {
-  // Build an index from JSON(v) → existing item so we can match by value
-  const existingByValue = new Map<string, { nid: string; v: unknown }>()
+  // Build an index from JSON(v) → live existing items so we can match by value.
+  // Tombstoned items are never matched: a value added again is a new element.
+  const existingByValue = new Map<string, Array<{ nid: string; v: unknown }>>()
   if (existing) {
+    const dead = new Set(existing.tombstones)
     for (const item of existing.items) {
-      // Only add first occurrence per value to avoid double-matching
+      if (dead.has(item.nid)) continue
       const key = JSON.stringify(item.v)
-      if (!existingByValue.has(key)) existingByValue.set(key, item)
+      const same = existingByValue.get(key)
+      if (same) same.push(item)
+      else existingByValue.set(key, [item])
     }
   }
 
@@ -187,8 +204,8 @@ export function buildRgaState(
 
   for (const el of arr) {
     const key = JSON.stringify(el)
-    const match = existingByValue.get(key)
-    if (match && !usedNids.has(match.nid)) {
+    const match = existingByValue.get(key)?.shift()
+    if (match) {
       // Reuse existing NID to preserve cross-device identity
       newItems.push(match)
       usedNids.add(match.nid)
diff --git a/packages/in-yjs/src/yjs-collection.ts b/packages/in-yjs/src/yjs-collection.ts
index 69c99e0..e761d77 100644
--- a/packages/in-yjs/src/yjs-collection.ts
+++ b/packages/in-yjs/src/yjs-collection.ts
@@ -27,6 +27,9 @@ export interface YjsCollectionOptions<YF extends Record<string, YFieldDescriptor
   yFields: YF
 }
 
+/** Tail of the writes in progress per collection and record, so that merges never overlap. */
+const writesInProgress = new WeakMap<object, Map<string, Promise<void>>>()
+
 /**
  * A YjsCollection wraps a noy-db `crdt: 'yjs'` collection and exposes
  * `getYDoc(id)` and `putYDoc(id, ydoc)` instead of the raw `get`/`put` API.
@@ -36,6 +39,7 @@ export interface YjsCollectionOptions<YF extends Record<string, YFieldDescriptor
 export class YjsCollection<YF extends Record<string, YFieldDescriptor>> {
   private readonly coll: ReturnType<Vault['collection']>
   private readonly yFields: YF
+  private readonly writes: Map<string, Promise<void>>
 
   /** @internal — use `yjsCollection()` factory instead. */
   constructor(
@@ -46,6 +50,9 @@ export class YjsCollection<YF extends Record<string, YFieldDescriptor>> {
     this.yFields = opts.yFields
     // Collection<string> with crdt: 'yjs' — T = string (the base64 update blob)
     this.coll = vault.collection<string>(name, { crdt: 'yjs' })
+    const writes = writesInProgress.get(this.coll) ?? new Map<string, Promise<void>>()
+    writesInProgress.set(this.coll, writes)
+    this.writes = writes
   }
 
   /**
@@ -76,7 +83,7 @@ export class YjsCollection<YF extends Record<string, YFieldDescriptor>> {
   async putYDoc(id: string, doc: Y.Doc): Promise<void> {
     const update = Y.encodeStateAsUpdate(doc)
     const base64 = uint8ArrayToBase64(update)
-    await this.coll.put(id, base64)
+    await this.enqueue(id, () => this.coll.put(id, base64))
   }
 
   /**
@@ -84,9 +91,11 @@ export class YjsCollection<YF extends Record<string, YFieldDescriptor>> {
    * Reads the current doc, applies the update, then persists the merged state.
    */
   async applyUpdate(id: string, update: Uint8Array): Promise<void> {
-    const doc = await this.getYDoc(id)
-    Y.applyUpdate(doc, update)
-    await this.putYDoc(id, doc)
+    await this.enqueue(id, async () => {
+      const doc = await this.getYDoc(id)
+      Y.applyUpdate(doc, update)
+      await this.coll.put(id, uint8ArrayToBase64(Y.encodeStateAsUpdate(doc)))
+    })
   }
 
   /**
@@ -105,6 +114,17 @@ export class YjsCollection<YF extends Record<string, YFieldDescriptor>> {
 
   // ─── Private ────────────────────────────────────────────────────────
 
+  private async enqueue(id: string, write: () => Promise<void>): Promise<void> {
+    const run = (this.writes.get(id) ?? Promise.resolve()).then(write)
+    const tail = run.then(() => {}, () => {})
+    this.writes.set(id, tail)
+    try {
+      await run
+    } finally {
+      if (this.writes.get(id) === tail) this.writes.delete(id)
+    }
+  }
+
   private initFields(doc: Y.Doc): void {
     for (const [fieldName, descriptor] of Object.entries(this.yFields)) {
       switch (descriptor._yjsType) {
-- 
2.43.0


From 53cabae08ed0fbb328ac84bf782c8c2dafb22de5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 07:09:14 +0000
Subject: [PATCH 42/87] fix: keep exported file names and archive paths valid,
 contained and distinct

---
 packages/as-zip/src/index.ts                  | 19 ++++-
 packages/as-zip/src/read.ts                   | 25 ++++++-
 packages/as-zip/src/zip.ts                    |  7 ++
 packages/hub/src/util/sanitize-filename.ts    | 70 +++++++++++++------
 .../to-file/src/export-blobs-to-directory.ts  | 40 ++++++++---
 5 files changed, 123 insertions(+), 38 deletions(-)

diff --git a/packages/as-zip/src/index.ts b/packages/as-zip/src/index.ts
index b276d11..89ef98c 100644
--- a/packages/as-zip/src/index.ts
+++ b/packages/as-zip/src/index.ts
@@ -173,15 +173,17 @@ export async function toBytes(vault: Vault, options: AsZipOptions): Promise<Uint
   const includeAll = slotsSelector === '*'
   const includeSet = includeAll ? null : new Set<string>(slotsSelector)
 
+  const folders = new Set<string>()
   for (const { id } of records) {
     const blobSet = collection.blob(id)
     const slotsList = await blobSet.list()
+    const safeId = uniqueSegment(id, folders)
+    const files = new Set<string>()
     for (const slot of slotsList) {
       if (!includeAll && !includeSet!.has(slot.name)) continue
       const bytes = await blobSet.get(slot.name)
       if (!bytes) continue
-      const safeId = sanitiseFsSegment(id)
-      const safeSlot = sanitiseFsSegment(slot.name)
+      const safeSlot = uniqueSegment(slot.name, files)
       const entry = {
         path: `attachments/${safeId}/${safeSlot}`,
         bytes,
@@ -420,5 +422,16 @@ function toPojo(value: unknown): unknown {
  */
 function sanitiseFsSegment(s: string): string {
   // eslint-disable-next-line no-control-regex
-  return s.replace(/[/\\:*?"<>|\x00-\x1f]/g, '_') || '_'
+  const safe = s.replace(/[/\\:*?"<>|\x00-\x1f]/g, '_').replace(/[. ]+$/, (m) => '_'.repeat(m.length)) || '_'
+  return /^(con|prn|aux|nul|com[1-9]|lpt[1-9])(\.|$)/i.test(safe) ? `_${safe}` : safe
+}
+
+/** Like `sanitiseFsSegment`, but different names in one folder stay different. */
+function uniqueSegment(s: string, used: Set<string>): string {
+  const safe = sanitiseFsSegment(s)
+  let name = safe
+  const key = (n: string): string => n.normalize('NFC').toUpperCase().toLowerCase()
+  for (let n = 2; used.has(key(name)); n++) name = `${n}-${safe}`
+  used.add(key(name))
+  return name
 }
diff --git a/packages/as-zip/src/read.ts b/packages/as-zip/src/read.ts
index 20aa0d8..9360d25 100644
--- a/packages/as-zip/src/read.ts
+++ b/packages/as-zip/src/read.ts
@@ -15,9 +15,11 @@
  * @module
  */
 
+import { crc32 } from './zip.js'
 import { decryptEntryWzAes, parseWzAesExtraField, ZipCipherError, WZAES_METHOD_MARKER } from './aes.js'
 
-const TEXT_DECODER = new TextDecoder()
+// A leading byte-order mark belongs to the name.
+const TEXT_DECODER = new TextDecoder('utf-8', { ignoreBOM: true })
 
 export class ZipReadError extends Error {
   readonly code = 'ZIP_READ_ERROR'
@@ -63,6 +65,13 @@ export async function readZip(
     throw new ZipReadError('readZip: central directory extends past end of file')
   }
 
+  if (eocdOffset + 22 + view.getUint16(eocdOffset + 20, true) !== bytes.length) {
+    throw new ZipReadError('readZip: archive is truncated or has trailing bytes')
+  }
+  if (view.getUint16(eocdOffset + 8, true) !== recordCount) {
+    throw new ZipReadError('readZip: the entry counts of the archive disagree')
+  }
+
   const out: ReadZipEntry[] = []
   let pos = cdOffset
   for (let i = 0; i < recordCount; i++) {
@@ -71,6 +80,7 @@ export async function readZip(
     }
     const flags = view.getUint16(pos + 8, true)
     const method = view.getUint16(pos + 10, true)
+    const crc = view.getUint32(pos + 16, true)
     const compressedSize = view.getUint32(pos + 20, true)
     const uncompressedSize = view.getUint32(pos + 24, true)
     const nameLen = view.getUint16(pos + 28, true)
@@ -78,7 +88,8 @@ export async function readZip(
     const commentLen = view.getUint16(pos + 32, true)
     const lfhOffset = view.getUint32(pos + 42, true)
 
-    const path = TEXT_DECODER.decode(bytes.subarray(pos + 46, pos + 46 + nameLen))
+    const nameBytes = bytes.subarray(pos + 46, pos + 46 + nameLen)
+    const path = TEXT_DECODER.decode(nameBytes)
     const extra = bytes.subarray(pos + 46 + nameLen, pos + 46 + nameLen + extraLen)
     pos += 46 + nameLen + extraLen + commentLen
 
@@ -91,6 +102,10 @@ export async function readZip(
     }
     const lfhNameLen = view.getUint16(lfhOffset + 26, true)
     const lfhExtraLen = view.getUint16(lfhOffset + 28, true)
+    const lfhName = bytes.subarray(lfhOffset + 30, lfhOffset + 30 + lfhNameLen)
+    if (lfhNameLen !== nameLen || lfhName.some((b, i) => b !== nameBytes[i])) {
+      throw new ZipReadError(`readZip: local and central directory disagree about the name of "${path}"`)
+    }
     const dataStart = lfhOffset + 30 + lfhNameLen + lfhExtraLen
     if (dataStart + compressedSize > bytes.length) {
       throw new ZipReadError(`readZip: data region for "${path}" extends past end of file`)
@@ -139,8 +154,14 @@ export async function readZip(
         `readZip: entry "${path}" uses compression method ${method} — only STORE (0) is supported`,
       )
     }
+    if (compressedSize !== uncompressedSize || crc32(dataRegion) !== crc) {
+      throw new ZipReadError(`readZip: entry "${path}" does not match its size and checksum`)
+    }
     out.push({ path, bytes: new Uint8Array(dataRegion), encrypted: false })
   }
+  if (pos !== cdOffset + cdSize) {
+    throw new ZipReadError('readZip: central directory does not end after its last entry')
+  }
   return out
 }
 
diff --git a/packages/as-zip/src/zip.ts b/packages/as-zip/src/zip.ts
index 5789990..3943a82 100644
--- a/packages/as-zip/src/zip.ts
+++ b/packages/as-zip/src/zip.ts
@@ -91,6 +91,10 @@ export async function writeZip(
   entries: readonly ZipEntry[],
   options: WriteZipOptions = {},
 ): Promise<Uint8Array> {
+  if (entries.length > 0xffff) {
+    throw new Error(`writeZip: ${entries.length} entries exceed the 65535 a zip archive can hold`)
+  }
+
   // Pre-compute per-entry binary so we know total size + central
   // directory offsets before we build the wrapper header.
   const localParts: Uint8Array[] = []
@@ -99,6 +103,9 @@ export async function writeZip(
 
   for (const entry of entries) {
     const nameBytes = TEXT_ENCODER.encode(entry.path)
+    if (nameBytes.length > 0xffff) {
+      throw new Error('writeZip: entry path is longer than 65535 bytes')
+    }
     const dosTime = toDosTime(entry.mtime ?? new Date())
 
     let dataBytes: Uint8Array
diff --git a/packages/hub/src/util/sanitize-filename.ts b/packages/hub/src/util/sanitize-filename.ts
index 1d02407..95be3bd 100644
--- a/packages/hub/src/util/sanitize-filename.ts
+++ b/packages/hub/src/util/sanitize-filename.ts
@@ -81,6 +81,10 @@ const REPLACEMENT = '_'
 // U+202E RLO, U+2066 LRI, U+2067 RLI, U+2068 FSI, U+2069 PDI.
 const BIDI_OVERRIDES = /[‪-‮⁦-⁩]/g
 
+// Unpaired surrogates have no byte representation of their own: two names
+// differing only in them would be the same file.
+const LONE_SURROGATES = /[\uD800-\uDBFF](?![\uDC00-\uDFFF])|(?<![\uD800-\uDBFF])[\uDC00-\uDFFF]/g
+
 // Reserved by Windows / NTFS / FAT / SMB.
 const WINDOWS_RESERVED_CHARS = /[<>:"/\\|?*]/g
 
@@ -143,7 +147,7 @@ export function sanitizeFilename(name: string, opts: SanitizeFilenameOptions): s
     throw new FilenameSanitizationError('NUL byte in filename')
   }
 
-  let s = name.normalize('NFC').replace(BIDI_OVERRIDES, '')
+  let s = name.replace(BIDI_OVERRIDES, '').replace(LONE_SURROGATES, '\uFFFD').normalize('NFC')
 
   if (opts.profile === 'opaque') {
     return applyOpaque(s, opts)
@@ -152,12 +156,25 @@ export function sanitizeFilename(name: string, opts: SanitizeFilenameOptions): s
   s = trimWhitespaceAndControls(s)
 
   switch (opts.profile) {
-    case 'posix':     return cap(applyPosix(s),     opts.maxBytes ?? 255,  'utf8')
-    case 'windows':   return cap(applyWindows(s),   opts.maxBytes ?? 255,  'utf16')
-    case 'macos-smb': return cap(applyMacosSmb(s),  opts.maxBytes ?? 240,  'utf8')
-    case 'zip':       return cap(applyZip(s),       opts.maxBytes ?? 255,  'utf8')
-    case 'url-path':  return cap(applyUrlPath(s),   opts.maxBytes ?? 1024, 'bytes-pre-encode')
-    case 's3-key':    return cap(applyS3Key(s),     opts.maxBytes ?? 1024, 'utf8')
+    case 'posix':     return settle(s, applyPosix,    opts.maxBytes ?? 255, 'utf8')
+    case 'windows':   return settle(s, applyWindows,  opts.maxBytes ?? 255, 'utf16')
+    case 'macos-smb': return settle(s, applyMacosSmb, opts.maxBytes ?? 240, 'utf8')
+    case 'zip':       return settle(s, applyZip,      opts.maxBytes ?? 255, 'utf8')
+    case 'url-path':  return applyUrlPath(s, opts.maxBytes ?? 1024)
+    case 's3-key':    return applyS3Key(s, opts.maxBytes ?? 1024)
+  }
+}
+
+/**
+ * Shortening a name can undo what the profile did to it (leave a trailing
+ * dot, a device name or a `..` segment), so both repeat until nothing changes.
+ */
+function settle(s: string, apply: (s: string) => string, max: number, unit: LengthUnit): string {
+  let out = cap(apply(s), max, unit)
+  for (;;) {
+    const again = cap(apply(out), max, unit)
+    if (again === out) return out
+    out = again
   }
 }
 
@@ -187,30 +204,42 @@ function applyMacosSmb(s: string): string {
 }
 
 function applyZip(s: string): string {
-  let cleaned = s.replace(/^\/+/, '')
+  // Empty and `.` segments name the same entry as the path without them.
+  let cleaned = s.split('/').filter((seg) => seg !== '' && seg !== '.').join('/')
   cleaned = rejectDotSegments(cleaned)
+  // Extractors on Windows take `\` as a separator and `C:` as a drive.
+  cleaned = cleaned.replace(/\\/g, REPLACEMENT).replace(/^([A-Za-z]):/, `$1${REPLACEMENT}`)
   return stripControlChars(cleaned)
 }
 
-function applyUrlPath(s: string): string {
+function applyUrlPath(s: string, max: number): string {
+  if (max <= 0) {
+    throw new FilenameSanitizationError('maxBytes must be positive')
+  }
   // RFC 3986 percent-encoding for path segment. Keep `unreserved`,
   // encode everything else. `+` is encoded as `%2B` because S3 and
   // legacy servers treat raw `+` as space ambiguously.
   let out = ''
   for (const ch of s) {
-    if (URL_UNRESERVED.test(ch)) { out += ch; continue }
-    const bytes = utf8.encode(ch)
-    for (const b of bytes) {
-      out += '%' + b.toString(16).toUpperCase().padStart(2, '0')
+    let piece = ''
+    if (URL_UNRESERVED.test(ch)) {
+      piece = ch
+    } else {
+      for (const b of utf8.encode(ch)) {
+        piece += '%' + b.toString(16).toUpperCase().padStart(2, '0')
+      }
     }
+    // Cut between characters, never inside a percent escape.
+    if (out.length + piece.length > max) break
+    out += piece
   }
-  return out
+  return rejectDotSegments(out)
 }
 
-function applyS3Key(s: string): string {
+function applyS3Key(s: string, max: number): string {
   // Strip leading slashes BEFORE percent-encoding — once `/` is
   // encoded to `%2F` the leading-slash regex no longer matches.
-  return applyUrlPath(s.replace(/^\/+/, ''))
+  return applyUrlPath(s.replace(/^\/+/, ''), max)
 }
 
 function applyOpaque(s: string, opts: SanitizeFilenameOptions): string {
@@ -249,7 +278,7 @@ function avoidWindowsReservedName(s: string): string {
   return s
 }
 
-type LengthUnit = 'utf8' | 'utf16' | 'bytes-pre-encode'
+type LengthUnit = 'utf8' | 'utf16'
 
 function cap(s: string, max: number, unit: LengthUnit): string {
   if (max <= 0) {
@@ -257,11 +286,8 @@ function cap(s: string, max: number, unit: LengthUnit): string {
   }
   if (unit === 'utf16') {
     if (s.length <= max) return s
-    return s.slice(0, max)
-  }
-  if (unit === 'bytes-pre-encode') {
-    if (utf8.encode(s).byteLength <= max) return s
-    return truncateToByteCap(s, max)
+    // Never keep one half of a surrogate pair.
+    return s.slice(0, /[\uD800-\uDBFF]/.test(s[max - 1]!) ? max - 1 : max)
   }
   if (utf8.encode(s).byteLength <= max) return s
   return truncateToByteCap(s, max)
diff --git a/packages/to-file/src/export-blobs-to-directory.ts b/packages/to-file/src/export-blobs-to-directory.ts
index 58ea68f..aa206e7 100644
--- a/packages/to-file/src/export-blobs-to-directory.ts
+++ b/packages/to-file/src/export-blobs-to-directory.ts
@@ -131,8 +131,8 @@ export async function exportBlobsToDirectory(
         ? { profile, opaqueId: blob.blobId } as const
         : { profile } as const
     const candidate = sanitizeFilename(original, sanitizeOpts)
-    const finalName = resolveCollision(candidate, used, onCollision)
-    used.add(finalName)
+    const finalName = resolveCollision(candidate, used, onCollision, profile)
+    used.add(collisionKey(finalName, profile))
 
     const absPath = resolve(absTargetDir, finalName)
     if (absPath !== absTargetDir && !absPath.startsWith(containmentPrefix)) {
@@ -185,8 +185,9 @@ function resolveCollision(
   candidate: string,
   used: Set<string>,
   strategy: CollisionStrategy,
+  profile: FilenameProfile,
 ): string {
-  if (!used.has(candidate)) return candidate
+  if (!used.has(collisionKey(candidate, profile))) return candidate
   if (strategy === 'overwrite') return candidate
   if (strategy === 'fail') {
     throw new Error(`exportBlobsToDirectory: filename collision on "${candidate}"`)
@@ -197,17 +198,34 @@ function resolveCollision(
     const next =
       typeof strategy === 'function'
         ? strategy(candidate, attempt)
-        : addSuffix(candidate, attempt)
-    if (!used.has(next)) return next
+        : addSuffix(candidate, attempt, profile)
+    if (!used.has(collisionKey(next, profile))) return next
   }
   throw new Error(`exportBlobsToDirectory: collision suffix exhausted for "${candidate}"`)
 }
 
-function addSuffix(name: string, attempt: number): string {
-  const ext = extname(name)
-  if (ext.length > 0 && ext.length < name.length) {
-    const stem = name.slice(0, name.length - ext.length)
-    return `${stem}-${attempt}${ext}`
+/** Names that are one file on the target: those destinations ignore case. */
+function collisionKey(name: string, profile: FilenameProfile): string {
+  return profile === 'windows' || profile === 'macos-smb'
+    ? name.toUpperCase().toLowerCase()
+    : name
+}
+
+function addSuffix(name: string, attempt: number, profile: FilenameProfile): string {
+  const found = extname(name)
+  const ext = found.length < name.length ? found : ''
+  const stem = [...name.slice(0, name.length - ext.length)]
+  const next = (): string => `${stem.join('')}-${attempt}${ext}`
+  // Make room for the suffix in a name that already has its full length.
+  while (stem.length > 1 && !fits(next(), profile)) stem.pop()
+  return next()
+}
+
+function fits(name: string, profile: FilenameProfile): boolean {
+  if (profile === 'opaque' || profile === 'url-path' || profile === 's3-key') return true
+  try {
+    return sanitizeFilename(name, { profile }) === name
+  } catch {
+    return false
   }
-  return `${name}-${attempt}`
 }
-- 
2.43.0


From 16406fdf47943b11b359d94e8521c143a6bc7bbd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:54:22 +0000
Subject: [PATCH 43/87] fix: keep attachment reference counts, slot maps and
 version keys right under overlapping use

Overlapping first uploads lost slots and references, re-uploading the same
content into a slot counted it twice, and version keys of names containing
"::" collided. File names outside ASCII made response() throw.
---
 packages/hub/src/blobs/blob-set.ts | 193 +++++++++++++++++++----------
 1 file changed, 127 insertions(+), 66 deletions(-)

diff --git a/packages/hub/src/blobs/blob-set.ts b/packages/hub/src/blobs/blob-set.ts
index 4fd9d3f..0a4e372 100644
--- a/packages/hub/src/blobs/blob-set.ts
+++ b/packages/hub/src/blobs/blob-set.ts
@@ -105,6 +105,47 @@ function chunkAAD(eTag: string, chunkIndex: number, chunkCount: number): Uint8Ar
   return new TextEncoder().encode(`${eTag}:${chunkIndex}:${chunkCount}`)
 }
 
+/** Slot names are caller-chosen, so the map must not inherit any. */
+function parseSlots(json: string): Record<string, SlotRecord> {
+  return Object.assign(
+    Object.create(null) as Record<string, SlotRecord>,
+    JSON.parse(json) as Record<string, SlotRecord>,
+  )
+}
+
+/** Escape a version key part only where it would make the joined key ambiguous. */
+function keyPart(part: string): string {
+  return /::|^:|:$|%3A|%25/.test(part)
+    ? part.replace(/%/g, '%25').replace(/:/g, '%3A')
+    : part
+}
+
+/** `Content-Disposition` value that any filename fits in (RFC 6266). */
+function contentDisposition(kind: 'inline' | 'attachment', filename: string): string {
+  const ascii = filename.replace(/[^\x20-\x7e]/g, '_').replace(/["\\]/g, '\\$&')
+  const plain = `${kind}; filename="${ascii}"`
+  if (/^[\x20-\x7e]*$/.test(filename)) return plain
+  const encoded = encodeURIComponent(filename.replace(/[\ud800-\udbff](?![\udc00-\udfff])|(?<![\ud800-\udbff])[\udc00-\udfff]/g, '_'))
+    .replace(/['()*]/g, (ch) => `%${ch.charCodeAt(0).toString(16).toUpperCase()}`)
+  return `${plain}; filename*=UTF-8''${encoded}`
+}
+
+const queues = new WeakMap<NoydbStore, Map<string, Promise<unknown>>>()
+
+/** Run read-modify-write steps on the same stored entry one after another. */
+async function serially<R>(store: NoydbStore, key: string, step: () => Promise<R>): Promise<R> {
+  let queue = queues.get(store)
+  if (!queue) queues.set(store, (queue = new Map()))
+  const previous = queue.get(key)
+  const run = previous ? previous.then(step, step) : step()
+  queue.set(key, run)
+  try {
+    return await run
+  } finally {
+    if (queue.get(key) === run) queue.delete(key)
+  }
+}
+
 // ─── BlobSet ──────────────────────────────────────────────────────────
 
 /**
@@ -188,11 +229,11 @@ export class BlobSet {
     version: number
   }> {
     const envelope = await this.store.get(this.vault, this.slotsCollection, this.recordId)
-    if (!envelope) return { slots: {}, version: 0 }
+    if (!envelope) return { slots: parseSlots('{}'), version: 0 }
 
     if (!this.encrypted) {
       return {
-        slots: JSON.parse(envelope._data) as Record<string, SlotRecord>,
+        slots: parseSlots(envelope._data),
         version: envelope._v,
       }
     }
@@ -200,7 +241,7 @@ export class BlobSet {
     const dek = await this.getDEK(this.collection)
     const json = await decrypt(envelope._iv, envelope._data, dek)
     return {
-      slots: JSON.parse(json) as Record<string, SlotRecord>,
+      slots: parseSlots(json),
       version: envelope._v,
     }
   }
@@ -238,7 +279,7 @@ export class BlobSet {
       this.slotsCollection,
       this.recordId,
       envelope,
-      currentVersion > 0 ? currentVersion : undefined,
+      currentVersion,
     )
   }
 
@@ -246,7 +287,17 @@ export class BlobSet {
    * CAS retry loop for slot metadata updates. Re-reads slots on conflict
    * and re-applies the mutation function.
    */
-  private async casUpdateSlots(
+  private casUpdateSlots(
+    mutate: (slots: Record<string, SlotRecord>) => Record<string, SlotRecord> | null,
+  ): Promise<void> {
+    return this.serially(this.slotsCollection, this.recordId, () => this.casUpdateSlotsNow(mutate))
+  }
+
+  private serially<R>(collection: string, id: string, step: () => Promise<R>): Promise<R> {
+    return serially(this.store, JSON.stringify([this.vault, collection, id]), step)
+  }
+
+  private async casUpdateSlotsNow(
     mutate: (slots: Record<string, SlotRecord>) => Record<string, SlotRecord> | null,
   ): Promise<void> {
     for (let attempt = 0; attempt < MAX_CAS_RETRIES; attempt++) {
@@ -304,7 +355,11 @@ export class BlobSet {
   /**
    * CAS retry loop for refCount changes on a BlobObject.
    */
-  private async casUpdateRefCount(eTag: string, delta: number): Promise<void> {
+  private casUpdateRefCount(eTag: string, delta: number): Promise<void> {
+    return this.serially(BLOB_INDEX_COLLECTION, eTag, () => this.casUpdateRefCountNow(eTag, delta))
+  }
+
+  private async casUpdateRefCountNow(eTag: string, delta: number): Promise<void> {
     for (let attempt = 0; attempt < MAX_CAS_RETRIES; attempt++) {
       const result = await this.loadBlobObject(eTag)
       if (!result) throw new NotFoundError(`BlobObject ${eTag} not found`)
@@ -370,7 +425,7 @@ export class BlobSet {
   // ─── Version record I/O ───────────────────────────────────────────
 
   private versionKey(slotName: string, label: string): string {
-    return `${this.recordId}::${slotName}::${label}`
+    return `${keyPart(this.recordId)}::${keyPart(slotName)}::${keyPart(label)}`
   }
 
   private async loadVersionRecord(slotName: string, label: string): Promise<VersionRecord | null> {
@@ -477,48 +532,55 @@ export class BlobSet {
     }
 
     // Step 3 — deduplication check
-    const existingBlob = await this.loadBlobObject(eTag)
+    await this.serially(BLOB_INDEX_COLLECTION, eTag, async () => {
+      const existingBlob = await this.loadBlobObject(eTag)
 
-    if (existingBlob) {
-      // eTag already exists — just increment refCount (CAS retry)
-      await this.casUpdateRefCount(eTag, +1)
-    } else {
-      // Step 4 — compress
-      const { bytes: compressed, algorithm } = shouldCompress
-        ? await compressBytes(data)
-        : { bytes: data, algorithm: 'none' as const }
-
-      const chunkSize = this.effectiveChunkSize(opts)
-      const chunkCount = Math.max(1, Math.ceil(compressed.byteLength / chunkSize))
-
-      // Step 5 — write chunks FIRST with AAD binding (safe failure order)
-      for (let i = 0; i < chunkCount; i++) {
-        const start = i * chunkSize
-        await this.writeChunk(
-          eTag, i, chunkCount,
-          compressed.subarray(start, start + chunkSize),
-          blobDEK,
-        )
-      }
+      if (existingBlob) {
+        // eTag already exists — just increment refCount (CAS retry)
+        await this.casUpdateRefCountNow(eTag, +1)
+      } else {
+        // Step 4 — compress
+        const { bytes: compressed, algorithm } = shouldCompress
+          ? await compressBytes(data)
+          : { bytes: data, algorithm: 'none' as const }
+
+        const chunkSize = this.effectiveChunkSize(opts)
+        const chunkCount = Math.max(1, Math.ceil(compressed.byteLength / chunkSize))
+
+        // Step 5 — write chunks FIRST with AAD binding (safe failure order)
+        for (let i = 0; i < chunkCount; i++) {
+          const start = i * chunkSize
+          await this.writeChunk(
+            eTag, i, chunkCount,
+            compressed.subarray(start, start + chunkSize),
+            blobDEK,
+          )
+        }
 
-      // Step 6 — write blob index entry after all chunks succeed
-      await this.writeBlobObject({
-        eTag,
-        size: data.byteLength,
-        compressedSize: compressed.byteLength,
-        compression: algorithm,
-        chunkSize,
-        chunkCount,
-        ...(mimeType !== undefined ? { mimeType } : {}),
-        createdAt: new Date().toISOString(),
-        refCount: 1,
-      })
-    }
+        // Step 6 — write blob index entry after all chunks succeed. Losing the
+        // creation race to another client means the entry exists: count on it.
+        await this.writeBlobObject({
+          eTag,
+          size: data.byteLength,
+          compressedSize: compressed.byteLength,
+          compression: algorithm,
+          chunkSize,
+          chunkCount,
+          ...(mimeType !== undefined ? { mimeType } : {}),
+          createdAt: new Date().toISOString(),
+          refCount: 1,
+        }, 0).catch((err: unknown) => {
+          if (!(err instanceof ConflictError)) throw err
+          return this.casUpdateRefCountNow(eTag, +1)
+        })
+      }
+    })
 
     // Step 7 — CAS-update slot metadata
     const uploaderUserId = opts?.uploadedBy ?? this.userId
+    let replacedETag: string | undefined
     await this.casUpdateSlots((slots) => {
-      const oldETag = slots[slotName]?.eTag
+      replacedETag = slots[slotName]?.eTag
       slots[slotName] = {
         eTag,
         filename: slotName,
@@ -527,25 +589,17 @@ export class BlobSet {
         uploadedAt: new Date().toISOString(),
         ...(uploaderUserId !== undefined ? { uploadedBy: uploaderUserId } : {}),
       }
-      // Schedule old eTag refCount decrement (non-blocking best-effort)
-      if (oldETag && oldETag !== eTag) {
-        this._deferredRefDecrement = oldETag
-      }
       return slots
     })
 
-    // Decrement old eTag refCount outside the CAS loop
-    if (this._deferredRefDecrement) {
-      const oldETag = this._deferredRefDecrement
-      this._deferredRefDecrement = undefined
-      await this.casUpdateRefCount(oldETag, -1).catch(() => {
+    // Decrement the replaced eTag's refCount outside the CAS loop (best-effort)
+    if (replacedETag) {
+      await this.casUpdateRefCount(replacedETag, -1).catch(() => {
         // Best-effort — blobGC will reconcile
       })
     }
   }
 
-  private _deferredRefDecrement: string | undefined
-
   /**
    * Fetch all bytes for the named slot.
    * Returns `null` if the slot does not exist.
@@ -580,6 +634,7 @@ export class BlobSet {
     let eTagToDecrement: string | undefined
 
     await this.casUpdateSlots((slots) => {
+      eTagToDecrement = undefined
       if (!(slotName in slots)) return null
       eTagToDecrement = slots[slotName]!.eTag
       delete slots[slotName]
@@ -676,6 +731,11 @@ export class BlobSet {
    */
   async publish(slotName: string, label: string): Promise<void> {
     this.assertWritable()
+    await this.serially(this.versionsCollection, this.versionKey(slotName, label), () =>
+      this.publishNow(slotName, label))
+  }
+
+  private async publishNow(slotName: string, label: string): Promise<void> {
     const { slots } = await this.loadSlots()
     const slot = slots[slotName]
     if (!slot) throw new NotFoundError(`Slot "${slotName}" not found on record "${this.recordId}"`)
@@ -684,6 +744,10 @@ export class BlobSet {
     const existing = await this.loadVersionRecord(slotName, label)
     if (existing && existing.eTag === slot.eTag) return // no-op: same blob
 
+    // Count the new reference before it exists, so that the blob is never
+    // referenced more often than its refCount says
+    await this.casUpdateRefCount(slot.eTag, +1)
+
     // Write the version record
     const record: VersionRecord = {
       label,
@@ -693,9 +757,6 @@ export class BlobSet {
     }
     await this.writeVersionRecord(slotName, record)
 
-    // Increment refCount for the new version's eTag
-    await this.casUpdateRefCount(slot.eTag, +1)
-
     // If overwriting an existing version with a different eTag, decrement the old one
     if (existing && existing.eTag !== slot.eTag) {
       await this.casUpdateRefCount(existing.eTag, -1).catch(() => {})
@@ -720,7 +781,7 @@ export class BlobSet {
    * List all published versions for a slot.
    */
   async listVersions(slotName: string): Promise<VersionRecord[]> {
-    const prefix = `${this.recordId}::${slotName}::`
+    const prefix = `${keyPart(this.recordId)}::${keyPart(slotName)}::`
     const allKeys = await this.store.list(this.vault, this.versionsCollection)
     const matchingKeys = allKeys.filter((k) => k.startsWith(prefix))
 
@@ -746,11 +807,13 @@ export class BlobSet {
    */
   async deleteVersion(slotName: string, label: string): Promise<void> {
     this.assertWritable()
-    const record = await this.loadVersionRecord(slotName, label)
-    if (!record) return
+    await this.serially(this.versionsCollection, this.versionKey(slotName, label), async () => {
+      const record = await this.loadVersionRecord(slotName, label)
+      if (!record) return
 
-    await this.deleteVersionRecord(slotName, label)
-    await this.casUpdateRefCount(record.eTag, -1).catch(() => {})
+      await this.deleteVersionRecord(slotName, label)
+      await this.casUpdateRefCount(record.eTag, -1).catch(() => {})
+    })
   }
 
   /**
@@ -871,7 +934,7 @@ export class BlobSet {
         'Content-Type': slot.mimeType ?? 'application/octet-stream',
         'Content-Length': String(slot.size),
         'ETag': `"${slot.eTag}"`,
-        'Content-Disposition': `inline; filename="${filename}"`,
+        'Content-Disposition': contentDisposition('inline', filename),
         'Last-Modified': new Date(slot.uploadedAt).toUTCString(),
       },
     })
@@ -900,9 +963,7 @@ export class BlobSet {
     })
 
     const filename = opts?.filename ?? slot.filename
-    const disposition = opts?.inline
-      ? `inline; filename="${filename}"`
-      : `attachment; filename="${filename}"`
+    const disposition = contentDisposition(opts?.inline ? 'inline' : 'attachment', filename)
 
     return new Response(body, {
       headers: {
-- 
2.43.0


From cd511460bbec5ebb23d7420cac8d9e3510ad569d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 07:21:05 +0000
Subject: [PATCH 44/87] fix: create the key of a collection that only holds
 elevated records

---
 packages/hub/src/team/keyring.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/hub/src/team/keyring.ts b/packages/hub/src/team/keyring.ts
index abb6381..bbd6076 100644
--- a/packages/hub/src/team/keyring.ts
+++ b/packages/hub/src/team/keyring.ts
@@ -935,7 +935,8 @@ async function holdsSealedData(adapter: NoydbStore, vault: string, dekName: stri
   const collection = dekName === '_blob' ? '_blob_index' : dekName
   for (const id of await adapter.list(vault, collection)) {
     const envelope = await adapter.get(vault, collection, id)
-    if (envelope?._iv) return true
+    // Elevated records are sealed with the key of their tier.
+    if (envelope?._iv && !envelope._tier) return true
   }
   return false
 }
-- 
2.43.0


From 3eef49576b7e7ee6ffbf9d6b88c466e50f565eab Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 07:21:05 +0000
Subject: [PATCH 45/87] fix: compare period ends as instants and order periods
 by their chain

A record dated later on the last day of a period was not sealed when the
period ended on a plain date, and periods closed in the same instant were
listed out of order after reopening.
---
 packages/hub/src/periods/periods.ts | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/packages/hub/src/periods/periods.ts b/packages/hub/src/periods/periods.ts
index 7cbe6fc..b2b88e5 100644
--- a/packages/hub/src/periods/periods.ts
+++ b/packages/hub/src/periods/periods.ts
@@ -222,9 +222,14 @@ export async function loadPeriods(
     const env = await adapter.get(vault, PERIODS_COLLECTION, id)
     if (env) records.push(await decrypt(env))
   }
-  // Stable order by closedAt so chain verification is reproducible.
+  // Stable order by closedAt so chain verification is reproducible. Periods
+  // recorded in the same instant, or after the clock was set back, are put
+  // in the order of their chain links.
   records.sort((a, b) => a.closedAt.localeCompare(b.closedAt))
-  return records
+  const successors = new Map(records.filter(r => r.priorPeriodHash !== '').map(r => [r.priorPeriodName, r]))
+  const chained: PeriodRecord[] = []
+  for (let r = records.find(x => x.priorPeriodHash === ''); r && chained.length < records.length; r = successors.get(r.name)) chained.push(r)
+  return chained.length === records.length ? chained : records
 }
 
 /**
@@ -266,13 +271,21 @@ export function assertTsWritable(
   incomingRecord: Record<string, unknown> | null,
   closedPeriods: readonly PeriodRecord[],
 ): void {
+  // Dates are compared as instants where both sides carry a time, and by
+  // calendar day against a period that ends on a plain date.
+  const sealed = (v: string, endDate: string): boolean => {
+    if (/^\d{4}-\d\d-\d\d$/.test(endDate)) return v.slice(0, 10) <= endDate
+    const [at, end] = [Date.parse(v), Date.parse(endDate)]
+    return Number.isNaN(at) || Number.isNaN(end) ? v <= endDate : at <= end
+  }
   for (const p of closedPeriods) {
     if (p.kind !== 'closed') continue
     if (p.dateField) {
       const checkRecord = (label: string, r: Record<string, unknown> | null): void => {
         if (!r) return
-        const v = r[p.dateField!]
-        if (typeof v === 'string' && v <= p.endDate) {
+        const raw = r[p.dateField!]
+        const v = raw instanceof Date && !Number.isNaN(raw.getTime()) ? raw.toISOString() : raw
+        if (typeof v === 'string' && sealed(v, p.endDate)) {
           throw new PeriodClosedError(p.name, p.endDate, `${label}[${p.dateField}]=${v}`)
         }
       }
@@ -282,7 +295,7 @@ export function assertTsWritable(
     }
     // Fallback: write-time seal via envelope _ts.
     const existingTs = existing?.ts ?? null
-    if (existingTs !== null && existingTs <= p.endDate) {
+    if (existingTs !== null && sealed(existingTs, p.endDate)) {
       throw new PeriodClosedError(p.name, p.endDate, existingTs)
     }
   }
-- 
2.43.0


From 060b300ef14c55ea24ea9c283cf07a0775f05a3e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 07:21:05 +0000
Subject: [PATCH 46/87] fix: check references, schemas and closed periods on
 every write path

Writing or moving a record at a tier skipped schema, reference and period
checks. A put could reference a record whose delete was already under way.
Overlapping closes forked the period chain, and internal collections could
be opened by name and rewritten.
---
 packages/hub/src/collection.ts | 162 +++++++++++++++++++++------------
 packages/hub/src/errors.ts     |   6 +-
 packages/hub/src/vault.ts      |  72 ++++++++++++---
 3 files changed, 164 insertions(+), 76 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index b6a7c69..3dd59c8 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -378,6 +378,8 @@ export class Collection<T> {
     | {
         enforceRefsOnPut(collectionName: string, record: unknown): Promise<void>
         enforceRefsOnDelete(collectionName: string, id: string): Promise<void>
+        withTargetsHeld?<R>(collectionName: string, write: () => Promise<R>): Promise<R>
+        withReferencesHeld?<R>(collectionName: string, write: () => Promise<R>): Promise<R>
       }
     | undefined
 
@@ -506,6 +508,8 @@ export class Collection<T> {
       | {
           enforceRefsOnPut(collectionName: string, record: unknown): Promise<void>
           enforceRefsOnDelete(collectionName: string, id: string): Promise<void>
+          withTargetsHeld?<R>(collectionName: string, write: () => Promise<R>): Promise<R>
+          withReferencesHeld?<R>(collectionName: string, write: () => Promise<R>): Promise<R>
         }
       | undefined
     /**
@@ -904,7 +908,12 @@ export class Collection<T> {
     if (!hasWritePermission(this.keyring, this.name)) {
       throw new ReadOnlyError()
     }
+    const checked = await this.checkPut(id, record)
+    await this.withRefsChecked(checked, () => this.serializeWrite(id, () => this.commitPut(id, checked)))
+  }
 
+  /** Validate a record about to be written under `id` and return what to store. */
+  private async checkPut(id: string, record: T): Promise<T> {
     // accounting-period guard. Runs BEFORE any other
     // work so a closed-period write fails fast and leaves no partial
     // trace (no schema work, no i18n translation, no history). Reads
@@ -913,21 +922,7 @@ export class Collection<T> {
     // `dateField` can use the stored value (late entries don't slip
     // through a write-time check). For first-time inserts the prior
     // is null.
-    if (this.periodGuard !== undefined) {
-      const existingEnv = await this.adapter.get(this.vault, this.name, id)
-      let priorRecord: Record<string, unknown> | null = null
-      if (existingEnv) {
-        try {
-          priorRecord = (await this.decryptRecord(existingEnv, { skipValidation: true })) as unknown as Record<string, unknown>
-        } catch {
-          priorRecord = null
-        }
-      }
-      await this.periodGuard(
-        existingEnv ? { ts: existingEnv._ts, record: priorRecord } : null,
-        record as unknown as Record<string, unknown>,
-      )
-    }
+    await this.guardPeriod(id, record)
 
     // Schema validation — runs BEFORE encryption so invalid records are
     // rejected at the store boundary. The validator may transform the
@@ -938,6 +933,8 @@ export class Collection<T> {
     // encrypt path.
     if (this.schema !== undefined) {
       record = await validateSchemaInput(this.schema, record, `put(${id})`)
+      // The validator may have set or moved the business date.
+      await this.guardPeriod(id, record)
     }
 
     // Auto-translate missing i18nText translations.
@@ -993,16 +990,46 @@ export class Collection<T> {
       this.i18nPutValidator(record)
     }
 
-    // Foreign-key ref enforcement. Runs AFTER schema
-    // validation (so the record shape is trustworthy) but BEFORE
-    // any write (so a failed strict ref leaves no trace on disk,
-    // in history, or in the ledger). The Vault handles the
-    // actual target lookups — see `enforceRefsOnPut` over there.
-    if (this.refEnforcer !== undefined) {
-      await this.refEnforcer.enforceRefsOnPut(this.name, record)
+    return record
+  }
+
+  /**
+   * Foreign-key ref enforcement. Runs AFTER schema validation (so the
+   * record shape is trustworthy) but BEFORE any write (so a failed strict
+   * ref leaves no trace on disk, in history, or in the ledger). The Vault
+   * handles the actual target lookups — see `enforceRefsOnPut` over there —
+   * and keeps the targets from being deleted until the write is done.
+   */
+  private async withRefsChecked<R>(record: T, write: () => Promise<R>): Promise<R> {
+    const refs = this.refEnforcer
+    if (refs === undefined) return write()
+    const run = async (): Promise<R> => {
+      await refs.enforceRefsOnPut(this.name, record)
+      return write()
     }
+    return refs.withTargetsHeld ? refs.withTargetsHeld(this.name, run) : run()
+  }
 
-    await this.serializeWrite(id, () => this.commitPut(id, record))
+  /** Throw when the stored or the incoming record lies in a closed period. */
+  private async guardPeriod(id: string, incoming: T | null): Promise<void> {
+    if (this.periodGuard === undefined) return
+    const existingEnv = await this.adapter.get(this.vault, this.name, id)
+    let priorRecord: Record<string, unknown> | null = null
+    if (existingEnv) {
+      try {
+        // Never ask for the key of a tier: that would create one.
+        const tierKey = aboveTierZero(existingEnv) ? this.keyring.deks.get(dekKey(this.name, existingEnv._tier!)) : undefined
+        priorRecord = (tierKey
+          ? JSON.parse(await decrypt(existingEnv._iv, existingEnv._data, tierKey))
+          : await this.decryptRecord(existingEnv, { skipValidation: true })) as Record<string, unknown>
+      } catch {
+        priorRecord = null
+      }
+    }
+    await this.periodGuard(
+      existingEnv ? { ts: existingEnv._ts, record: priorRecord } : null,
+      incoming as unknown as Record<string, unknown> | null,
+    )
   }
 
   /**
@@ -1232,11 +1259,13 @@ export class Collection<T> {
     // deletes the referencing records first, then falls
     // through to the normal delete path below. `warn` is a no-op
     // here — violations surface through `checkIntegrity()`.
-    if (this.refEnforcer !== undefined) {
-      await this.refEnforcer.enforceRefsOnDelete(this.name, id)
+    const refs = this.refEnforcer
+    if (refs === undefined) return this._deleteChecked(id)
+    const run = async (): Promise<void> => {
+      await refs.enforceRefsOnDelete(this.name, id)
+      await this._deleteChecked(id)
     }
-
-    await this._deleteChecked(id)
+    await (refs.withReferencesHeld ? refs.withReferencesHeld(this.name, run) : run())
   }
 
   /** Remove a record whose checks have all passed. @internal */
@@ -1252,21 +1281,7 @@ export class Collection<T> {
 
     // accounting-period guard (same contract as put;
     // incoming is null because this is a delete).
-    if (this.periodGuard !== undefined) {
-      const existingEnv = await this.adapter.get(this.vault, this.name, id)
-      let priorRecord: Record<string, unknown> | null = null
-      if (existingEnv) {
-        try {
-          priorRecord = (await this.decryptRecord(existingEnv, { skipValidation: true })) as unknown as Record<string, unknown>
-        } catch {
-          priorRecord = null
-        }
-      }
-      await this.periodGuard(
-        existingEnv ? { ts: existingEnv._ts, record: priorRecord } : null,
-        null,
-      )
-    }
+    await this.guardPeriod(id, null)
   }
 
   /** Storage half of {@link delete}: everything after the checks passed. */
@@ -2857,21 +2872,24 @@ export class Collection<T> {
     const key = dekKey(this.name, tier)
     const dek = await this.getDEK(key)
 
-    const existing = await this.adapter.get(this.vault, this.name, id)
-    const version = existing ? existing._v + 1 : 1
-    const json = JSON.stringify(record)
-    const { iv, data } = await encrypt(json, dek)
-    const envelope: EncryptedEnvelope = {
-      _noydb: NOYDB_FORMAT_VERSION,
-      _v: version,
-      _ts: new Date().toISOString(),
-      _iv: iv,
-      _data: data,
-      _by: this.keyring.userId,
-      ...(tier > 0 && { _tier: tier }),
-    }
-
-    await this.adapter.put(this.vault, this.name, id, envelope)
+    const checked = await this.checkPut(id, record)
+    const envelope = await this.withRefsChecked(checked, () => this.serializeWrite(id, async () => {
+      const existing = await this.adapter.get(this.vault, this.name, id)
+      const version = existing ? existing._v + 1 : 1
+      const json = JSON.stringify(checked)
+      const { iv, data } = await encrypt(json, dek)
+      const next: EncryptedEnvelope = {
+        _noydb: NOYDB_FORMAT_VERSION,
+        _v: version,
+        _ts: new Date().toISOString(),
+        _iv: iv,
+        _data: data,
+        _by: this.keyring.userId,
+        ...(tier > 0 && { _tier: tier }),
+      }
+      await this.putTiered(id, next, existing)
+      return next
+    }))
 
     if (tier > 0) {
       this.emitCrossTierEvent({
@@ -2890,6 +2908,30 @@ export class Collection<T> {
     }
   }
 
+  /** Store an envelope of any tier and keep the tier-0 cache and indexes in step. */
+  private async putTiered(id: string, envelope: EncryptedEnvelope, prior: EncryptedEnvelope | null): Promise<void> {
+    await this.adapter.put(this.vault, this.name, id, envelope)
+    const record = aboveTierZero(envelope) ? null : await this.decryptRecord(envelope, { skipValidation: true })
+    if (this.lazy && this.lru) {
+      this.writeGeneration++
+      this.lru.remove(id)
+      const previous = prior && !aboveTierZero(prior) ? await this.decryptRecord(prior, { skipValidation: true }) : null
+      if (record !== null) await this.maintainPersistedIndexesOnPut(id, record, previous, envelope._v)
+      else if (previous !== null) await this.maintainPersistedIndexesOnDelete(id, previous)
+      return
+    }
+    await this.hydrating?.catch(() => {})
+    if (!this.hydrated) return
+    const cached = this.cache.get(id)
+    if (record !== null) {
+      this.cache.set(id, { record, version: envelope._v })
+      this.indexes?.upsert(id, record, cached ? cached.record : null)
+    } else if (cached) {
+      this.cache.delete(id)
+      this.indexes?.remove(id, cached.record)
+    }
+  }
+
   /**
    * tier-aware get. When the stored record is at a
    * tier the caller cannot decrypt:
@@ -2980,6 +3022,7 @@ export class Collection<T> {
     }
     // Caller must have access at the existing tier to decrypt.
     if (fromTier > 0) assertTierAccess(this.keyring, this.name, fromTier)
+    await this.guardPeriod(id, null)
 
     const fromKey = dekKey(this.name, fromTier)
     const toKey = dekKey(this.name, toTier)
@@ -2999,7 +3042,7 @@ export class Collection<T> {
       _tier: toTier,
       _elevatedBy: this.keyring.userId,
     }
-    await this.adapter.put(this.vault, this.name, id, next)
+    await this.serializeWrite(id, () => this.putTiered(id, next, envelope))
 
     this.emitCrossTierEvent({
       actor: this.keyring.userId,
@@ -3038,6 +3081,7 @@ export class Collection<T> {
       throw new ReadOnlyError()
     }
     if (toTier > 0) this.assertDeclaredTier(toTier)
+    await this.guardPeriod(id, null)
 
     const fromDek = await this.getDEK(dekKey(this.name, fromTier))
     const toDek = await this.getDEK(dekKey(this.name, toTier))
@@ -3054,7 +3098,7 @@ export class Collection<T> {
       _by: this.keyring.userId,
       ...(toTier > 0 && { _tier: toTier }),
     }
-    await this.adapter.put(this.vault, this.name, id, next)
+    await this.serializeWrite(id, () => this.putTiered(id, next, envelope))
 
     this.emitCrossTierEvent({
       actor: this.keyring.userId,
diff --git a/packages/hub/src/errors.ts b/packages/hub/src/errors.ts
index 4405bed..ddd4abe 100644
--- a/packages/hub/src/errors.ts
+++ b/packages/hub/src/errors.ts
@@ -850,8 +850,10 @@ export class ReservedCollectionNameError extends NoydbError {
     super(
       'RESERVED_COLLECTION_NAME',
       `"${collectionName}" is a reserved collection name. ` +
-        `Use vault.dictionary("${collectionName.replace(/^_dict_/, '')}") ` +
-        `to access dictionary collections.`,
+        (collectionName.startsWith('_dict_')
+          ? `Use vault.dictionary("${collectionName.replace(/^_dict_/, '')}") ` +
+            `to access dictionary collections.`
+          : `Names starting with "_" hold internal data.`),
     )
     this.name = 'ReservedCollectionNameError'
     this.collectionName = collectionName
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index 44cd137..0e7ebf3 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -207,6 +207,7 @@ export class Vault {
    * sees the updated chain without re-reading the adapter.
    */
   private periodCache: PeriodRecord[] | null = null
+  private periodLoad: Promise<PeriodRecord[]> | null = null
 
   /**
    * Registry of dictKey fields declared across all collections in this
@@ -409,8 +410,8 @@ export class Vault {
     /** #208 — how lower-tier reads see above-tier records. */
     tierMode?: TierMode
   }): Collection<T> {
-    // Guard: reject reserved _dict_* names
-    if (isDictCollectionName(collectionName)) {
+    // Guard: reject _dict_* and the other names reserved for internal data
+    if (isDictCollectionName(collectionName) || collectionName.startsWith('_')) {
       throw new ReservedCollectionNameError(collectionName)
     }
 
@@ -1014,6 +1015,32 @@ export class Vault {
     }
   }
 
+  /** Deletes that check references, one after another; puts wait for them. */
+  private refDeletes: Promise<unknown> = Promise.resolve()
+  private readonly refPuts = new Set<Promise<unknown>>()
+
+  /**
+   * Run a checked write to a collection with strict refs while no delete
+   * can take the targets away between the check and the write.
+   */
+  withTargetsHeld<R>(collectionName: string, write: () => Promise<R>): Promise<R> {
+    const strict = Object.values(this.refRegistry.getOutbound(collectionName)).some(d => d.mode === 'strict')
+    if (!strict) return write()
+    const run = this.refDeletes.then(write)
+    const done = run.then(() => {}, () => {}).then(() => { this.refPuts.delete(done) })
+    this.refPuts.add(done)
+    return run
+  }
+
+  /** Counterpart for deletes: no new reference appears before the delete is done. */
+  withReferencesHeld<R>(collectionName: string, write: () => Promise<R>): Promise<R> {
+    if (this.refRegistry.getInbound(collectionName).every(d => d.mode === 'warn')) return write()
+    const earlier = [...this.refPuts]
+    const run = this.refDeletes.then(() => Promise.all(earlier)).then(write)
+    this.refDeletes = run.catch(() => {})
+    return run
+  }
+
   /**
    * Enforce inbound ref modes on a `delete()`. Called by Collection
    * just before it deletes from the adapter. Walks every inbound
@@ -1655,6 +1682,19 @@ export class Vault {
    *.
    */
   async closePeriod(options: ClosePeriodOptions): Promise<PeriodRecord> {
+    return this.serializePeriods(() => this.closePeriodNow(options))
+  }
+
+  /** Each period record hashes the one before it, so they are added one by one. */
+  private periodTail: Promise<unknown> = Promise.resolve()
+
+  private serializePeriods<R>(step: () => Promise<R>): Promise<R> {
+    const run = this.periodTail.then(step)
+    this.periodTail = run.catch(() => {})
+    return run
+  }
+
+  private async closePeriodNow(options: ClosePeriodOptions): Promise<PeriodRecord> {
     const existing = await this._loadPeriodsCache()
     this.periodsStrategy.validatePeriodName(options.name, existing)
     if (typeof options.endDate !== 'string' || options.endDate.length === 0) {
@@ -1695,6 +1735,12 @@ export class Vault {
    */
   async openPeriod<TCollections extends Record<string, Record<string, unknown>>>(
     options: OpenPeriodOptions<TCollections>,
+  ): Promise<PeriodRecord> {
+    return this.serializePeriods(() => this.openPeriodNow(options))
+  }
+
+  private async openPeriodNow<TCollections extends Record<string, Record<string, unknown>>>(
+    options: OpenPeriodOptions<TCollections>,
   ): Promise<PeriodRecord> {
     const existing = await this._loadPeriodsCache()
     this.periodsStrategy.validatePeriodName(options.name, existing)
@@ -1782,26 +1828,22 @@ export class Vault {
     // Fast path: nothing to check, and no periods ever touched this
     // vault — avoid a full adapter scan for every put.
     if (existing === null && incoming === null) return
-    if (this.periodCache === null) {
-      this.periodCache = await this.periodsStrategy.loadPeriods(
-        this.adapter,
-        this.name,
-        (env) => this._decryptPeriodRecord(env),
-      )
-    }
-    if (this.periodCache.length === 0) return
-    this.periodsStrategy.assertTsWritable(existing, incoming, this.periodCache)
+    const periods = await this._loadPeriodsCache()
+    if (periods.length === 0) return
+    this.periodsStrategy.assertTsWritable(existing, incoming, periods)
   }
 
   private async _loadPeriodsCache(): Promise<PeriodRecord[]> {
     if (this.periodCache !== null) return this.periodCache
-    const loaded = await this.periodsStrategy.loadPeriods(
+    // One load at a time: a second one finishing later could drop a period
+    // closed in between.
+    this.periodLoad ??= this.periodsStrategy.loadPeriods(
       this.adapter,
       this.name,
       (env: EncryptedEnvelope) => this._decryptPeriodRecord(env),
-    )
-    this.periodCache = loaded
-    return loaded
+    ).finally(() => { this.periodLoad = null })
+    this.periodCache = await this.periodLoad
+    return this.periodCache
   }
 
   private async _writePeriodRecord(record: PeriodRecord): Promise<EncryptedEnvelope> {
-- 
2.43.0


From 066926d5baa1c8bf017f011dcf367bb72c0008a8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 07:40:41 +0000
Subject: [PATCH 47/87] fix: deliver record notifications in the order of the
 changes

The lookup for an earlier change could finish after the one for a later
change, so subscribers of lazy collections ended up with a stale value.
---
 packages/hub/src/collection.ts | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 3dd59c8..6264633 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -1698,19 +1698,34 @@ export class Collection<T> {
         console.warn(`[noy-db] subscriber of collection "${this.name}" threw:`, err)
       }
     }
+    // Lookups may finish in any order; events are delivered in the order of
+    // the changes.
+    let waiting = 0
+    let tail: Promise<void> = Promise.resolve()
     const handler = (event: ChangeEvent): void => {
       if (event.vault !== this.vault || event.collection !== this.name) return
       if (event.action === 'put') {
         // Cache hit in eager mode; get() in lazy mode.
-        void this.get(event.id).then(
-          record => deliver({ type: 'put', id: event.id, record: record ?? null }),
+        const lookup = this.get(event.id).then(
+          record => record ?? null,
           // Record vanished between emit + lookup (race). Emit with null
           // so subscribers still see the event they were promised.
-          () => deliver({ type: 'put', id: event.id, record: null }),
+          () => null,
         )
-      } else {
+        waiting++
+        tail = Promise.all([lookup, tail]).then(([record]) => {
+          waiting--
+          deliver({ type: 'put', id: event.id, record })
+        })
+      } else if (waiting === 0) {
         // delete
         deliver({ type: 'delete', id: event.id, record: null })
+      } else {
+        waiting++
+        tail = tail.then(() => {
+          waiting--
+          deliver({ type: 'delete', id: event.id, record: null })
+        })
       }
     }
     this.emitter.on('change', handler)
-- 
2.43.0


From 207bdd5f90d97730efdd95904d406fc21c60c426 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 07:48:42 +0000
Subject: [PATCH 48/87] fix: refuse only the collection names the vault itself
 uses

---
 packages/hub/src/errors.ts | 2 +-
 packages/hub/src/vault.ts  | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/hub/src/errors.ts b/packages/hub/src/errors.ts
index ddd4abe..0c0de28 100644
--- a/packages/hub/src/errors.ts
+++ b/packages/hub/src/errors.ts
@@ -853,7 +853,7 @@ export class ReservedCollectionNameError extends NoydbError {
         (collectionName.startsWith('_dict_')
           ? `Use vault.dictionary("${collectionName.replace(/^_dict_/, '')}") ` +
             `to access dictionary collections.`
-          : `Names starting with "_" hold internal data.`),
+          : `It holds internal data.`),
     )
     this.name = 'ReservedCollectionNameError'
     this.collectionName = collectionName
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index 0e7ebf3..44e2ea2 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -87,6 +87,8 @@ import {
   type MagicLinkGrantRecord,
 } from './team/magic-link-grant.js'
 
+const INTERNAL_COLLECTIONS = new Set(['_keyring', '_ledger', '_ledger_deltas', '_history', PERIODS_COLLECTION])
+
 /** A vault (tenant namespace) containing collections. */
 export class Vault {
   private readonly adapter: NoydbStore
@@ -410,8 +412,8 @@ export class Vault {
     /** #208 — how lower-tier reads see above-tier records. */
     tierMode?: TierMode
   }): Collection<T> {
-    // Guard: reject _dict_* and the other names reserved for internal data
-    if (isDictCollectionName(collectionName) || collectionName.startsWith('_')) {
+    // Guard: reject _dict_* and the names of records chained or wrapped by the vault itself
+    if (isDictCollectionName(collectionName) || INTERNAL_COLLECTIONS.has(collectionName)) {
       throw new ReservedCollectionNameError(collectionName)
     }
 
-- 
2.43.0


From 07a2f498704bdffdc6411142d63d0eef7ef65dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:05:31 +0000
Subject: [PATCH 49/87] fix: reread a lazily loaded record after a write that
 failed

---
 packages/hub/src/collection.ts | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 6264633..73652a4 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -1048,6 +1048,19 @@ export class Collection<T> {
     return run
   }
 
+  /** A write that failed may have reached the store: read the record afresh next time. */
+  private async putEnvelope(id: string, envelope: EncryptedEnvelope): Promise<void> {
+    try {
+      await this.adapter.put(this.vault, this.name, id, envelope)
+    } catch (err) {
+      if (this.lazy && this.lru) {
+        this.writeGeneration++
+        this.lru.remove(id)
+      }
+      throw err
+    }
+  }
+
   /** Storage half of {@link put}: everything after the checks passed. */
   private async commitPut(id: string, record: T): Promise<void> {
     // ─── CRDT mode ─────────────────────────────────────────
@@ -1098,7 +1111,7 @@ export class Collection<T> {
         ? { record: await this.decryptRecord(existingEnvelope, { skipValidation: true }), version: existingVersion }
         : undefined
 
-      await this.adapter.put(this.vault, this.name, id, envelope)
+      await this.putEnvelope(id, envelope)
 
       if (this.lazy && this.lru) {
         this.writeGeneration++
@@ -1180,7 +1193,7 @@ export class Collection<T> {
     }
 
     const envelope = await this.encryptRecord(record, version)
-    await this.adapter.put(this.vault, this.name, id, envelope)
+    await this.putEnvelope(id, envelope)
 
     // The store holds the new record from here on, so readers must see it
     // even if a later step (ledger, sync bookkeeping) fails.
-- 
2.43.0


From 3c31cc1e40d4cb12b70456a9f106f709e6357dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:05:31 +0000
Subject: [PATCH 50/87] fix: apply a changed vault language to collections
 already open

---
 packages/hub/src/collection.ts | 6 +++---
 packages/hub/src/vault.ts      | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 73652a4..d35d7f8 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -241,7 +241,7 @@ export class Collection<T> {
    * `undefined` means "no default locale set" — i18nText fields will
    * throw `LocaleNotSpecifiedError` unless a per-call locale is passed.
    */
-  private readonly defaultLocale: string | undefined
+  private readonly defaultLocale: (() => string | undefined) | undefined
 
   /**
    * Map of field name → `I18nTextDescriptor` for fields declared with
@@ -560,7 +560,7 @@ export class Collection<T> {
      * vault-default locale, inherited from
      * `openVault(name, { locale })` or `vault.setLocale()`.
      */
-    defaultLocale?: string | undefined
+    defaultLocale?: (() => string | undefined) | undefined
     /**
      * collection-level conflict resolution policy.
      * Overrides the db-level `conflict` option for this collection only.
@@ -2420,7 +2420,7 @@ export class Collection<T> {
     const hasDict = this.dictKeyFields && Object.keys(this.dictKeyFields).length > 0
     if (!hasI18n && !hasDict) return record
 
-    const locale = localeOpts?.locale ?? this.defaultLocale
+    const locale = localeOpts?.locale ?? this.defaultLocale?.()
     if (!locale) return record
 
     let result = record as unknown as Record<string, unknown>
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index 44e2ea2..b8fec08 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -469,7 +469,7 @@ export class Vault {
         ledger: this.getLedgerOrNull() ?? undefined,
         refEnforcer: this,
         joinResolver: this,
-        defaultLocale: this.locale,
+        defaultLocale: () => this.locale,
         onRegisterConflictResolver: this.onRegisterConflictResolver,
         onAccess: (op, id) => this._logConsent(op, collectionName, id),
         periodGuard: (existing, incoming) => this._assertTsWritable(existing, incoming),
-- 
2.43.0


From f485ea69942163dcc114884bb49d45176ebed496 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:05:31 +0000
Subject: [PATCH 51/87] fix: export every translation whatever the vault
 language

---
 packages/hub/src/vault.ts | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index b8fec08..c58075b 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -877,7 +877,7 @@ export class Vault {
       listRecords: (name: string) => this.adapter.list(this.name, name),
       getRecord: async <T>(name: string, id: string) => {
         const coll = this.collection<T>(name)
-        return coll.get(id)
+        return coll.get(id, { locale: 'raw' })
       },
       listSlots: async (name: string, id: string) => {
         const coll = this.collection(name)
@@ -1001,7 +1001,7 @@ export class Vault {
       }
       const refId = String(rawId)
       const target = this.collection<Record<string, unknown>>(descriptor.target)
-      const exists = await target.get(refId)
+      const exists = await target.get(refId, { locale: 'raw' })
       if (!exists) {
         throw new RefIntegrityError({
           collection: collectionName,
@@ -1227,7 +1227,7 @@ export class Vault {
           }
           const refId = String(rawId)
           const target = this.collection<Record<string, unknown>>(descriptor.target)
-          const exists = await target.get(refId)
+          const exists = await target.get(refId, { locale: 'raw' })
           if (!exists) {
             violations.push({
               collection: collectionName,
@@ -1768,7 +1768,7 @@ export class Vault {
       collection: <T = unknown>(name: string) => {
         const c = this.collection<T>(name)
         return {
-          get: (id: string) => c.get(id),
+          get: (id: string) => c.get(id, { locale: 'raw' }),
           list: () => c.list(),
         }
       },
@@ -2410,9 +2410,10 @@ export class Vault {
         // Using `coll.get(id)` rather than the loadAll envelope directly
         // because `get()` is the canonical decrypt+schema-validate path
         // and any future cache/index plumbing rides through it.
+        // Exports carry every translation, whatever the default locale.
         const records: unknown[] = []
         for (const id of ids) {
-          const record = await coll.get(id)
+          const record = await coll.get(id, { locale: 'raw' })
           if (record !== null) records.push(record)
         }
         const chunk: ExportChunk = {
@@ -2429,7 +2430,7 @@ export class Vault {
         // The schema/refs metadata is repeated on every chunk so
         // consumers don't have to thread state across yields.
         for (const id of ids) {
-          const record = await coll.get(id)
+          const record = await coll.get(id, { locale: 'raw' })
           if (record === null) continue
           const chunk: ExportChunk = {
             collection: collectionName,
@@ -2554,7 +2555,9 @@ export class Vault {
       collections[chunk.collection] = {
         schema: null, // Standard Schema validators are not JSON-serializable
         refs: chunk.refs,
-        records: chunk.records,
+        records: opts.resolveLabels && chunk.dictionaries
+          ? chunk.records.map(r => withDictLabels(r, chunk.dictionaries!, opts.resolveLabels!))
+          : chunk.records,
       }
       if (chunk.ledgerHead) ledgerHead = chunk.ledgerHead
       // Collect dictionary snapshots unless resolveLabels is set
@@ -2576,6 +2579,21 @@ export class Vault {
   }
 }
 
+/** Add a `<field>Label` for every dictionary-backed field that has one in `locale`. */
+function withDictLabels(
+  record: unknown,
+  dictionaries: Record<string, Record<string, Record<string, string>>>,
+  locale: string,
+): unknown {
+  const out = { ...(record as Record<string, unknown>) }
+  for (const [field, labels] of Object.entries(dictionaries)) {
+    const key = out[field]
+    const label = typeof key === 'string' && Object.hasOwn(labels, key) ? labels[key]![locale] : undefined
+    if (label !== undefined) out[`${field}Label`] = label
+  }
+  return out
+}
+
 // ─── Elevation handle ────────────────────────────────────
 
 /**
-- 
2.43.0


From cde1f1832911a565af6e2eab8127a1666209bd0b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:05:31 +0000
Subject: [PATCH 52/87] fix: leave the caller's record alone when translating

---
 packages/hub/src/collection.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index d35d7f8..3264799 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -979,7 +979,8 @@ export class Collection<T> {
             this.name,
           )
         }
-        ;(record as Record<string, unknown>)[field] = translated
+        // The caller's object stays as it was passed.
+        record = { ...record, [field]: translated }
       }
     }
 
-- 
2.43.0


From eaa140133063fd57885956d8cae421f4db0afd73 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:05:32 +0000
Subject: [PATCH 53/87] fix: refuse to delete a dictionary key that records use

---
 packages/hub/src/i18n/active.ts     |  1 +
 packages/hub/src/i18n/dictionary.ts | 18 +++++++++++-------
 packages/hub/src/i18n/strategy.ts   |  4 ++++
 packages/hub/src/vault.ts           | 10 ++++++++++
 4 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/packages/hub/src/i18n/active.ts b/packages/hub/src/i18n/active.ts
index 165698f..dfac160 100644
--- a/packages/hub/src/i18n/active.ts
+++ b/packages/hub/src/i18n/active.ts
@@ -47,6 +47,7 @@ export function withI18n(): I18nStrategy {
         opts.options,
         opts.findAndUpdateReferences,
         opts.emitter,
+        opts.countReferences,
       )
     },
   }
diff --git a/packages/hub/src/i18n/dictionary.ts b/packages/hub/src/i18n/dictionary.ts
index 6aa58dd..fc764d4 100644
--- a/packages/hub/src/i18n/dictionary.ts
+++ b/packages/hub/src/i18n/dictionary.ts
@@ -41,6 +41,7 @@ import type { LedgerStore } from '../history/ledger/store.js'
 import { envelopePayloadHash } from '../history/ledger/hash.js'
 import {
   PermissionDeniedError,
+  DictKeyInUseError,
   DictKeyMissingError,
 } from '../errors.js'
 
@@ -206,6 +207,13 @@ export class DictionaryHandle<Keys extends string = string> {
         ) => Promise<void>)
       | undefined,
     private readonly emitter: NoydbEventEmitter,
+    /** Finds the first registered collection with records using a key; used by `delete()`. */
+    private readonly countReferences?:
+      | ((
+          dictionaryName: string,
+          key: string,
+        ) => Promise<{ collection: string; count: number } | null>)
+      | undefined,
   ) {
     this.collName = dictCollectionName(dictionaryName)
   }
@@ -374,13 +382,9 @@ export class DictionaryHandle<Keys extends string = string> {
     }
 
     const mode = opts.mode ?? 'strict'
-    if (mode === 'strict' && this.findAndUpdateReferences) {
-      // Check for references by attempting a rename to a sentinel that
-      // doesn't exist — we reuse the reference-finding machinery but
-      // abort before applying changes. Simpler: the vault
-      // exposes a separate checkReferences() callback. For now we rely
-      // on the caller to confirm no references exist, or use warn mode.
-      // A dedicated findReferences API is tracked as a follow-up.
+    if (mode === 'strict') {
+      const used = await this.countReferences?.(this.dictionaryName, key)
+      if (used) throw new DictKeyInUseError(this.dictionaryName, key, used.collection, used.count)
     }
 
     await this.adapter.delete(this.compartmentName, this.collName, key)
diff --git a/packages/hub/src/i18n/strategy.ts b/packages/hub/src/i18n/strategy.ts
index 79d5a94..689ec66 100644
--- a/packages/hub/src/i18n/strategy.ts
+++ b/packages/hub/src/i18n/strategy.ts
@@ -56,6 +56,10 @@ export interface BuildDictionaryHandleOptions<Keys extends string = string> {
         newKey: string,
       ) => Promise<void>)
     | undefined
+  /** First registered collection with records using `key`, if any. */
+  countReferences?:
+    | ((dictionaryName: string, key: string) => Promise<{ collection: string; count: number } | null>)
+    | undefined
   emitter: NoydbEventEmitter
   /**
    * Used by the active strategy to satisfy the generic-key parameter
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index c58075b..7548fc3 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -608,6 +608,16 @@ export class Vault {
         encrypted: this.encrypted,
         ledger: this.getLedgerOrNull() ?? undefined,
         options,
+        countReferences: async (dictionaryName, key) => {
+          for (const [collectionName, dictFields] of this.dictKeyFieldRegistry) {
+            const fields = Object.keys(dictFields).filter(field => dictFields[field] === dictionaryName)
+            if (fields.length === 0) continue
+            const coll = this.collection<Record<string, unknown>>(collectionName)
+            const count = (await coll._entries()).filter(({ record }) => fields.some(f => record[f] === key)).length
+            if (count > 0) return { collection: collectionName, count }
+          }
+          return null
+        },
         // findAndUpdateReferences: rewrite dictKey fields in all
         // registered collections when rename() is called
         findAndUpdateReferences: async (dictionaryName, oldKey, newKey) => {
-- 
2.43.0


From 98134d1b4b98315ce5379dfed07b9c51ae3ce9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:05:32 +0000
Subject: [PATCH 54/87] fix: keep dictionary renames and labels in step with
 other writes

---
 packages/hub/src/collection.ts      | 19 +++++++++++++++++++
 packages/hub/src/i18n/dictionary.ts | 10 ++++++++--
 packages/hub/src/query/builder.ts   | 13 +++----------
 packages/hub/src/vault.ts           | 15 ++++++---------
 4 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 3264799..c5dd11f 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -1559,6 +1559,25 @@ export class Collection<T> {
     })
   }
 
+  /**
+   * Change one record based on what it holds once every earlier write has
+   * settled. `change` returns null to leave the record alone.
+   *
+   * @internal
+   */
+  async _rewrite(id: string, change: (record: T) => T | null): Promise<void> {
+    if (!hasWritePermission(this.keyring, this.name)) throw new ReadOnlyError()
+    await this.serializeWrite(id, async () => {
+      let current: T | null = this.cache.get(id)?.record ?? null
+      if (this.lazy) {
+        const envelope = await this.adapter.get(this.vault, this.name, id)
+        if (envelope && !aboveTierZero(envelope)) current = await this.decryptRecord(envelope)
+      }
+      const next = current === null ? null : change(current)
+      if (next !== null) await this.commitPut(id, await this.checkPut(id, next))
+    })
+  }
+
   /**
    * Read the stored envelope once every write under way has settled.
    *
diff --git a/packages/hub/src/i18n/dictionary.ts b/packages/hub/src/i18n/dictionary.ts
index fc764d4..4c81f7d 100644
--- a/packages/hub/src/i18n/dictionary.ts
+++ b/packages/hub/src/i18n/dictionary.ts
@@ -293,7 +293,7 @@ export class DictionaryHandle<Keys extends string = string> {
   async put(key: Keys, labels: Record<string, string>): Promise<void> {
     this.requireWriteAccess()
 
-    const entry: DictEntry = { key, labels }
+    const entry: DictEntry = { key, labels: { ...labels } }
     const existing = await this.adapter.get(
       this.compartmentName,
       this.collName,
@@ -445,6 +445,7 @@ export class DictionaryHandle<Keys extends string = string> {
     if (!existing) {
       throw new DictKeyMissingError(this.dictionaryName, oldKey)
     }
+    if (newKey === (oldKey as string)) return
     const oldEntry = await this.decryptEntry(existing)
 
     // 2. Write new key
@@ -513,6 +514,7 @@ export class DictionaryHandle<Keys extends string = string> {
    * @returns Array of `{ key, labels }` objects.
    */
   async list(): Promise<DictEntry[]> {
+    const cached = new Map(this._syncCache)
     const keys = await this.adapter.list(this.compartmentName, this.collName)
     const entries: DictEntry[] = []
     for (const key of keys) {
@@ -525,7 +527,11 @@ export class DictionaryHandle<Keys extends string = string> {
       const entry = await this.decryptEntry(envelope)
       entries.push(entry)
       // Warm the synchronous cache
-      this._syncCache.set(key, entry)
+      if (this._syncCache.get(key) === cached.get(key)) this._syncCache.set(key, entry)
+    }
+    // Forget keys that are gone, unless written again meanwhile.
+    for (const [key, entry] of cached) {
+      if (!keys.includes(key) && this._syncCache.get(key) === entry) this._syncCache.delete(key)
     }
     return entries
   }
diff --git a/packages/hub/src/query/builder.ts b/packages/hub/src/query/builder.ts
index e003bfa..62ed576 100644
--- a/packages/hub/src/query/builder.ts
+++ b/packages/hub/src/query/builder.ts
@@ -511,21 +511,14 @@ export class Query<T> {
       ? (() => {
           const dictSource = joinCtx.resolveDictSource(field)
           if (!dictSource) return undefined
-          const snapshot = dictSource.snapshot()
-          const dictMap = new Map<string, Record<string, string>>()
-          for (const entry of snapshot) {
-            const k = (entry as Record<string, unknown>)['key']
-            const labels = (entry as Record<string, unknown>)['labels']
-            if (typeof k === 'string' && labels && typeof labels === 'object') {
-              dictMap.set(k, labels as Record<string, string>)
-            }
-          }
           return async (
             key: string,
             locale: string,
             fallback?: string | readonly string[],
           ): Promise<string | undefined> => {
-            const labels = dictMap.get(key)
+            // Looked up now: the dictionary may have changed since groupBy().
+            const entry = dictSource.snapshot().find(e => (e as Record<string, unknown>)['key'] === key)
+            const labels = (entry as { labels?: Record<string, string> } | undefined)?.labels
             if (!labels) return undefined
             if (labels[locale] !== undefined) return labels[locale]
             const chain = Array.isArray(fallback)
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index 7548fc3..3e646ef 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -629,16 +629,13 @@ export class Vault {
             if (fields.length === 0) continue
 
             const coll = this.collection<Record<string, unknown>>(collectionName)
+            const renamed = (record: Record<string, unknown>): Record<string, unknown> | null => {
+              const used = fields.filter(field => record[field] === oldKey)
+              return used.length > 0 ? { ...record, ...Object.fromEntries(used.map(field => [field, newKey])) } : null
+            }
             for (const { id, record } of await coll._entries()) {
-              let changed = false
-              const updated = { ...record }
-              for (const field of fields) {
-                if (updated[field] === oldKey) {
-                  updated[field] = newKey
-                  changed = true
-                }
-              }
-              if (changed) await coll.put(id, updated)
+              // The record may have changed by the time its turn comes.
+              if (renamed(record)) await coll._rewrite(id, renamed)
             }
           }
         },
-- 
2.43.0


From 7d3e79f4aedcc609b63ec80903e9c56fcac40668 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:16:25 +0000
Subject: [PATCH 55/87] fix: keep repeated query parameters in the Express
 adapter

---
 packages/in-rest/src/adapters/express.ts | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/packages/in-rest/src/adapters/express.ts b/packages/in-rest/src/adapters/express.ts
index 42d07e1..d1f1183 100644
--- a/packages/in-rest/src/adapters/express.ts
+++ b/packages/in-rest/src/adapters/express.ts
@@ -13,10 +13,9 @@ export function expressAdapter(handler: NoydbRestHandler): ExpressRouter {
       if (typeof v === 'string') headers[k] = v
     }
 
-    const url = new URL(req.path, 'http://localhost')
-    for (const [k, v] of Object.entries(req.query)) {
-      if (typeof v === 'string') url.searchParams.append(k, v)
-    }
+    // The parsed req.query folds repeated parameters into arrays.
+    const query = req.url.indexOf('?')
+    const searchParams = new URLSearchParams(query === -1 ? '' : req.url.slice(query + 1))
 
     let bodyCache: unknown
     let bodyRead = false
@@ -24,7 +23,7 @@ export function expressAdapter(handler: NoydbRestHandler): ExpressRouter {
     const restReq: RestRequest = {
       method: req.method,
       pathname: req.path,
-      searchParams: url.searchParams,
+      searchParams,
       headers,
       json: () => {
         if (!bodyRead) { bodyCache = req.body; bodyRead = true }
-- 
2.43.0


From b900997843fae71fa4b11c5713ed21bc32e50afb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:16:25 +0000
Subject: [PATCH 56/87] fix: list unloaded collections, decode paths and reject
 malformed requests in the REST handler

---
 packages/in-rest/src/query-params.ts |  7 ++--
 packages/in-rest/src/router.ts       | 48 +++++++++++++++++++++++-----
 2 files changed, 45 insertions(+), 10 deletions(-)

diff --git a/packages/in-rest/src/query-params.ts b/packages/in-rest/src/query-params.ts
index a23196d..f6e86cd 100644
--- a/packages/in-rest/src/query-params.ts
+++ b/packages/in-rest/src/query-params.ts
@@ -36,7 +36,7 @@ export function parseQueryParams(searchParams: URLSearchParams): ParsedQueryPara
     const field = parts[0] as string
     const opStr = parts[1] as string
     const value = parts.slice(2).join(':')
-    const op = OP_MAP[opStr]
+    const op = Object.hasOwn(OP_MAP, opStr) ? OP_MAP[opStr] : undefined
     if (!op) {
       return {
         error: { error: 'invalid_op', op: opStr },
@@ -55,7 +55,10 @@ export function parseQueryParams(searchParams: URLSearchParams): ParsedQueryPara
     orderBy = { field: obField, dir: obDir === 'desc' ? 'desc' : 'asc' }
   }
 
-  const limit = limitParam ? parseInt(limitParam, 10) : null
+  const limit = limitParam ? Number(limitParam) : null
+  if (limit !== null && !(Number.isInteger(limit) && limit >= 0)) {
+    return { error: { error: 'invalid_limit' }, apply: (q) => q, limit: null }
+  }
 
   return {
     apply<T>(q: Query<T>): Query<T> {
diff --git a/packages/in-rest/src/router.ts b/packages/in-rest/src/router.ts
index 8329588..600c81d 100644
--- a/packages/in-rest/src/router.ts
+++ b/packages/in-rest/src/router.ts
@@ -1,4 +1,13 @@
-import { createNoydb, PermissionDeniedError, NotFoundError, ConflictError, ValidationError } from '@noy-db/hub'
+import {
+  createNoydb,
+  ConflictError,
+  InvalidKeyError,
+  NoAccessError,
+  NotFoundError,
+  PermissionDeniedError,
+  ReadOnlyError,
+  ValidationError,
+} from '@noy-db/hub'
 import type { NoydbStore } from '@noy-db/hub'
 import type { RestRequest, RestResponse } from './index.js'
 import type { SessionStore } from './sessions.js'
@@ -19,6 +28,24 @@ function extractToken(req: RestRequest): string | null {
   return auth.slice(7)
 }
 
+/** The answer to a request the user's passphrase or permissions do not allow. */
+function refusal(err: unknown): RestResponse | null {
+  if (err instanceof InvalidKeyError) return json(401, { error: 'unauthorized' })
+  if (err instanceof PermissionDeniedError || err instanceof NoAccessError || err instanceof ReadOnlyError) {
+    return json(403, { error: 'forbidden' })
+  }
+  return null
+}
+
+/** Decode matched path segments; null when one is not valid percent-encoding. */
+function decodeSegments(match: RegExpMatchArray): string[] | null {
+  try {
+    return match.slice(1).map(decodeURIComponent)
+  } catch {
+    return null
+  }
+}
+
 export function buildRouter(store: NoydbStore, user: string, sessions: SessionStore, basePath: string) {
   function stripBase(pathname: string): string {
     // Segment-aware prefix match: basePath '/api' matches '/api' or '/api/...'
@@ -90,9 +117,9 @@ export function buildRouter(store: NoydbStore, user: string, sessions: SessionSt
     // Match /vaults/:vault/collections/:collection/:id
     const recordMatch = path.match(/^\/vaults\/([^/]+)\/collections\/([^/]+)\/([^/]+)$/)
     if (recordMatch) {
-      const vaultName = recordMatch[1]
-      const collName = recordMatch[2]
-      const id = recordMatch[3]
+      const segments = decodeSegments(recordMatch)
+      if (!segments) return json(400, { error: 'invalid_path' })
+      const [vaultName, collName, id] = segments
       if (vaultName === undefined || collName === undefined || id === undefined) {
         return json(500, { error: 'internal_error' })
       }
@@ -109,6 +136,7 @@ export function buildRouter(store: NoydbStore, user: string, sessions: SessionSt
         if (method === 'POST') {
           let body: unknown
           try { body = await req.json() } catch { return json(400, { error: 'invalid_json' }) }
+          if (typeof body !== 'object' || body === null || Array.isArray(body)) return json(400, { error: 'invalid_record' })
           await coll.put(id, body as Record<string, unknown>)
           return json(200, { ok: true })
         }
@@ -124,7 +152,8 @@ export function buildRouter(store: NoydbStore, user: string, sessions: SessionSt
           body: JSON.stringify({ error: 'method_not_allowed' }),
         }
       } catch (err) {
-        if (err instanceof PermissionDeniedError) return json(403, { error: 'forbidden' })
+        const refused = refusal(err)
+        if (refused) return refused
         if (err instanceof NotFoundError) return json(404, { error: 'not_found' })
         if (err instanceof ConflictError) return json(409, { error: 'conflict' })
         return json(500, { error: 'internal_error' })
@@ -141,8 +170,9 @@ export function buildRouter(store: NoydbStore, user: string, sessions: SessionSt
           body: JSON.stringify({ error: 'method_not_allowed' }),
         }
       }
-      const vaultName = collMatch[1]
-      const collName = collMatch[2]
+      const segments = decodeSegments(collMatch)
+      if (!segments) return json(400, { error: 'invalid_path' })
+      const [vaultName, collName] = segments
       if (vaultName === undefined || collName === undefined) {
         return json(500, { error: 'internal_error' })
       }
@@ -151,11 +181,13 @@ export function buildRouter(store: NoydbStore, user: string, sessions: SessionSt
       try {
         const vault = await db.openVault(vaultName)
         const coll = vault.collection<Record<string, unknown>>(collName)
+        await coll.list() // queries see loaded records only
         let results = params.apply(coll.query()).toArray()
         if (params.limit !== null) results = results.slice(0, params.limit)
         return json(200, results)
       } catch (err) {
-        if (err instanceof PermissionDeniedError) return json(403, { error: 'forbidden' })
+        const refused = refusal(err)
+        if (refused) return refused
         return json(500, { error: 'internal_error' })
       }
     }
-- 
2.43.0


From 0df73272667341c23d2f90b85062fd2961d04e05 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:16:25 +0000
Subject: [PATCH 57/87] fix: refuse internal collections and malformed
 arguments in tool calls

---
 packages/in-ai/src/index.ts | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/packages/in-ai/src/index.ts b/packages/in-ai/src/index.ts
index f50385c..a659e94 100644
--- a/packages/in-ai/src/index.ts
+++ b/packages/in-ai/src/index.ts
@@ -122,6 +122,7 @@ export function buildToolset(
   const tools: JsonSchemaTool[] = []
   for (const collection of accessible) {
     for (const op of operations) {
+      if ((op === 'put' || op === 'delete') && !mayWrite(vault, collection)) continue
       tools.push(jsonSchemaTool(collection, op, label))
     }
   }
@@ -256,8 +257,19 @@ export async function invokeToolCall(
     throw new ToolDeniedError(call.name, `collection "${collection}" is not in the allowed list`)
   }
 
+  if (collection.startsWith('_')) {
+    throw new ToolDeniedError(call.name, `collection "${collection}" is internal`)
+  }
+  const id = toIdString(call.args?.id)
+  if (id === '' && op !== 'list' && op !== 'count') {
+    throw new ToolDeniedError(call.name, 'the "id" argument is missing')
+  }
+  const record = call.args?.record
+  if (op === 'put' && (typeof record !== 'object' || record === null || Array.isArray(record))) {
+    throw new ToolDeniedError(call.name, 'the "record" argument must be an object')
+  }
+
   const coll = vault.collection(collection)
-  const id = toIdString(call.args.id)
   switch (op) {
     case 'list':
       return coll.list()
@@ -266,7 +278,7 @@ export async function invokeToolCall(
     case 'count':
       return (await coll.list()).length
     case 'put':
-      return coll.put(id, call.args.record as Record<string, unknown>)
+      return coll.put(id, record as Record<string, unknown>)
     case 'delete':
       return coll.delete(id)
   }
@@ -297,6 +309,13 @@ export function parseToolName(name: string): { collection: string; op: ToolOpera
 
 // ─── Vault introspection (duck-typed) ──────────────────────────────────
 
+/** Whether the vault's user may write to `collection`. */
+function mayWrite(vault: Vault, collection: string): boolean {
+  const keyring = (vault as unknown as { keyring?: { role: string; permissions: Record<string, string> } }).keyring
+  if (!keyring || keyring.role === 'owner' || keyring.role === 'admin') return true
+  return keyring.role === 'operator' && keyring.permissions[collection] === 'rw'
+}
+
 /**
  * Duck-typed probe for a vault that exposes an accessible-collections
  * API. Every hub version we target ships either `listCollectionNames`
-- 
2.43.0


From b46550bb2fac40ce869e52afb7880b7e412101b5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:21:13 +0000
Subject: [PATCH 58/87] fix: compare consent audit time filters as instants

---
 packages/hub/src/consent/consent.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/hub/src/consent/consent.ts b/packages/hub/src/consent/consent.ts
index 078fb85..2ea58a1 100644
--- a/packages/hub/src/consent/consent.ts
+++ b/packages/hub/src/consent/consent.ts
@@ -185,8 +185,10 @@ async function decryptEntry(
 }
 
 function matchesFilter(entry: ConsentAuditEntry, f: ConsentAuditFilter): boolean {
-  if (f.since && entry.timestamp < f.since) return false
-  if (f.until && entry.timestamp > f.until) return false
+  // As instants: the same moment can be written in several ways.
+  const at = Date.parse(entry.timestamp)
+  if (f.since && at < Date.parse(f.since)) return false
+  if (f.until && at > Date.parse(f.until)) return false
   if (f.collection && entry.collection !== f.collection) return false
   if (f.actor && entry.actor !== f.actor) return false
   if (f.purpose && entry.purpose !== f.purpose) return false
-- 
2.43.0


From da180c817e4a3dde06ceaa26a0210e9497c8f891 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:21:13 +0000
Subject: [PATCH 59/87] fix: record consent audit entries for completed
 accesses only

---
 packages/hub/src/collection.ts | 23 +++++++++++++++++++----
 packages/hub/src/vault.ts      |  6 +++---
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index c5dd11f..b30f234 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -828,6 +828,18 @@ export class Collection<T> {
    *          `null` if not found.
    */
   async get(id: string, locale?: LocaleReadOptions): Promise<T | null> {
+    const record = await this._peek(id, locale)
+    if (record !== null) await this.onAccess?.('get', id)
+    return record
+  }
+
+  /**
+   * {@link get} for the library's own needs (reference checks, change
+   * delivery): not an access in the sense of the consent audit.
+   *
+   * @internal
+   */
+  async _peek(id: string, locale?: LocaleReadOptions): Promise<T | null> {
     let record: T | null
 
     if (this.lazy && this.lru) {
@@ -853,7 +865,6 @@ export class Collection<T> {
     }
 
     if (record === null) return null
-    await this.onAccess?.('get', id)
     return this.applyLocaleToRecord(record, locale)
   }
 
@@ -1738,8 +1749,8 @@ export class Collection<T> {
     const handler = (event: ChangeEvent): void => {
       if (event.vault !== this.vault || event.collection !== this.name) return
       if (event.action === 'put') {
-        // Cache hit in eager mode; get() in lazy mode.
-        const lookup = this.get(event.id).then(
+        // Cache hit in eager mode; one read in lazy mode.
+        const lookup = this._peek(event.id).then(
           record => record ?? null,
           // Record vanished between emit + lookup (race). Emit with null
           // so subscribers still see the event they were promised.
@@ -2954,6 +2965,7 @@ export class Collection<T> {
         }),
       })
     }
+    await this.onAccess?.('put', id)
   }
 
   /** Store an envelope of any tier and keep the tier-0 cache and indexes in step. */
@@ -2997,7 +3009,9 @@ export class Collection<T> {
     if (!envelope) return null
     const tier = envelope._tier ?? 0
     if (tier === 0) {
-      return this.decryptRecord(envelope)
+      const record = await this.decryptRecord(envelope)
+      await this.onAccess?.('get', id)
+      return record
     }
 
     const key = dekKey(this.name, tier)
@@ -3021,6 +3035,7 @@ export class Collection<T> {
       op: 'get',
       ts: new Date().toISOString(),
     })
+    await this.onAccess?.('get', id)
 
     return record
   }
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index 3e646ef..81da571 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -884,7 +884,7 @@ export class Vault {
       listRecords: (name: string) => this.adapter.list(this.name, name),
       getRecord: async <T>(name: string, id: string) => {
         const coll = this.collection<T>(name)
-        return coll.get(id, { locale: 'raw' })
+        return coll._peek(id, { locale: 'raw' })
       },
       listSlots: async (name: string, id: string) => {
         const coll = this.collection(name)
@@ -1008,7 +1008,7 @@ export class Vault {
       }
       const refId = String(rawId)
       const target = this.collection<Record<string, unknown>>(descriptor.target)
-      const exists = await target.get(refId, { locale: 'raw' })
+      const exists = await target._peek(refId, { locale: 'raw' })
       if (!exists) {
         throw new RefIntegrityError({
           collection: collectionName,
@@ -1234,7 +1234,7 @@ export class Vault {
           }
           const refId = String(rawId)
           const target = this.collection<Record<string, unknown>>(descriptor.target)
-          const exists = await target.get(refId, { locale: 'raw' })
+          const exists = await target._peek(refId, { locale: 'raw' })
           if (!exists) {
             violations.push({
               collection: collectionName,
-- 
2.43.0


From a1b768c9b3d1be3cbaec8d30050c254b534d325d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:54:52 +0000
Subject: [PATCH 60/87] fix: keys of collections named like built-in object
 members are not looked up on the prototype

---
 packages/hub/src/team/keyring.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/hub/src/team/keyring.ts b/packages/hub/src/team/keyring.ts
index bbd6076..90e55eb 100644
--- a/packages/hub/src/team/keyring.ts
+++ b/packages/hub/src/team/keyring.ts
@@ -913,7 +913,7 @@ async function publishDEK(
       `The keyring of user "${keyring.userId}" in vault "${vault}" was changed by another session. Open the vault again.`,
     )
   }
-  const published = file.deks[collectionName]
+  const published = Object.hasOwn(file.deks, collectionName) ? file.deks[collectionName] : undefined
   if (published !== undefined) return unwrapKey(published, keyring.kek)
 
   // Data sealed by someone else stays unreadable with a fresh key, and data
-- 
2.43.0


From 2dcdc52b7ba845baef4f553de2e209a8d7f017a6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:54:52 +0000
Subject: [PATCH 61/87] fix: CSV import of an empty file honours the replace
 policy and leaves empty typed cells unset

---
 packages/as-csv/src/index.ts | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/packages/as-csv/src/index.ts b/packages/as-csv/src/index.ts
index 85815c5..ea6a625 100644
--- a/packages/as-csv/src/index.ts
+++ b/packages/as-csv/src/index.ts
@@ -89,7 +89,7 @@ export async function toString(vault: Vault, options: AsCSVOptions): Promise<str
   // Build header + rows
   const lines: string[] = [columns.map(escapeField).join(',')]
   for (const record of records) {
-    const row = columns.map(c => escapeField((record as Record<string, unknown>)[c]))
+    const row = columns.map(c => escapeField(Object.hasOwn(record as object, c) ? (record as Record<string, unknown>)[c] : undefined))
     lines.push(row.join(','))
   }
   return lines.join(eol)
@@ -226,9 +226,6 @@ export async function fromString(
   const types = options.columnTypes ?? {}
 
   const rows = parseCSV(csv)
-  if (rows.length === 0) {
-    return emptyPlan(vault, options.collection, policy, idKey)
-  }
   const header = rows[0] ?? []
   const records: Record<string, unknown>[] = []
   for (let r = 1; r < rows.length; r++) {
@@ -238,7 +235,8 @@ export async function fromString(
     for (let c = 0; c < header.length; c++) {
       const col = header[c] ?? ''
       const cell = row[c] ?? ''
-      record[col] = coerceCell(cell, types[col])
+      const value = coerceCell(cell, types[col])
+      if (value !== undefined) record[col] = value
     }
     records.push(record)
   }
@@ -276,16 +274,6 @@ export async function fromString(
   }
 }
 
-async function emptyPlan(
-  vault: Vault,
-  collection: string,
-  policy: ImportPolicy,
-  idKey: string,
-): Promise<AsCSVImportPlan> {
-  const plan = await diffVault(vault, { [collection]: [] }, { collections: [collection], idKey })
-  return { plan, policy, async apply() { /* nothing to do */ } }
-}
-
 function coerceCell(cell: string, type?: 'string' | 'number' | 'boolean'): unknown {
   if (type === 'number') {
     if (cell === '') return undefined
-- 
2.43.0


From 9568b176441de6edf2aeacee619dd95d55891db2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:54:52 +0000
Subject: [PATCH 62/87] fix: JSON export and import handle collections named
 like built-in object members

---
 packages/as-json/src/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/as-json/src/index.ts b/packages/as-json/src/index.ts
index 227b087..0de714d 100644
--- a/packages/as-json/src/index.ts
+++ b/packages/as-json/src/index.ts
@@ -83,7 +83,8 @@ export async function toObject(vault: Vault, options: AsJSONOptions = {}): Promi
   const doc: Record<string, Record<string, unknown>[]> = {}
   for await (const chunk of vault.exportStream({ granularity: 'collection' })) {
     if (allowlist && !allowlist.has(chunk.collection)) continue
-    const bucket = doc[chunk.collection] ?? (doc[chunk.collection] = [])
+    if (!Object.hasOwn(doc, chunk.collection)) doc[chunk.collection] = []
+    const bucket = doc[chunk.collection]!
     for (const record of chunk.records) {
       if (options.includeMeta) {
         bucket.push(record as Record<string, unknown>)
-- 
2.43.0


From 9f4c1fff7000a56df40bd5e2daa99046b827e36b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:54:52 +0000
Subject: [PATCH 63/87] fix: NDJSON import leaves out the schema field the
 exporter adds

---
 packages/as-ndjson/src/index.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/as-ndjson/src/index.ts b/packages/as-ndjson/src/index.ts
index bf2e782..7845d3b 100644
--- a/packages/as-ndjson/src/index.ts
+++ b/packages/as-ndjson/src/index.ts
@@ -126,6 +126,11 @@ export interface AsNDJSONImportOptions {
    * lands in the same collection. Required.
    */
   readonly collection: string
+  /**
+   * Field naming the source collection, as written by the exporter.
+   * It is not part of the record and left out. Default `'_schema'`.
+   */
+  readonly schemaField?: string
   /** Field on each record that carries its id. Default `'id'`. */
   readonly idKey?: string
   /** Reconciliation policy. Default `'merge'`. */
@@ -153,6 +158,8 @@ export async function fromString(
   const policy: ImportPolicy = options.policy ?? 'merge'
   const idKey = options.idKey ?? 'id'
 
+  const schemaField = options.schemaField ?? '_schema'
+
   const records: Record<string, unknown>[] = []
   let lineNo = 0
   for (const raw of ndjson.split('\n')) {
@@ -168,7 +175,8 @@ export async function fromString(
     if (parsed === null || typeof parsed !== 'object' || Array.isArray(parsed)) {
       throw new Error(`as-ndjson.fromString: line ${lineNo} is not a JSON object`)
     }
-    records.push(parsed as Record<string, unknown>)
+    const { [schemaField]: _source, ...record } = parsed as Record<string, unknown>
+    records.push(record)
   }
 
   const plan = await diffVault(vault, { [options.collection]: records }, {
-- 
2.43.0


From 7c083c3056146f9079c9c9ce9e1e68587558fd0f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:54:52 +0000
Subject: [PATCH 64/87] fix: XML export writes only valid characters and names
 and its output imports unchanged

---
 packages/as-xml/src/index.ts | 75 ++++++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 29 deletions(-)

diff --git a/packages/as-xml/src/index.ts b/packages/as-xml/src/index.ts
index d46b659..5608e58 100644
--- a/packages/as-xml/src/index.ts
+++ b/packages/as-xml/src/index.ts
@@ -63,7 +63,7 @@ export async function toString(vault: Vault, options: AsXMLOptions): Promise<str
   }
 
   const rootName = options.rootElement ?? 'Records'
-  const recordName = options.recordElement ?? pascalSingular(options.collection)
+  const recordName = options.recordElement ?? escapeElementName(pascalSingular(options.collection))
   const fields = options.fields ?? inferFields(records)
   const pretty = options.pretty !== false
   const declaration = options.xmlDeclaration !== false
@@ -89,7 +89,7 @@ export async function toString(vault: Vault, options: AsXMLOptions): Promise<str
   for (const record of records) {
     parts.push(nl + indent + `<${recordTag}>`)
     for (const field of fields) {
-      const value = (record as Record<string, unknown>)[field]
+      const value = Object.hasOwn(record as object, field) ? (record as Record<string, unknown>)[field] : undefined
       if (value === undefined) continue
       const tag = escapeElementName(field)
       parts.push(nl + indent + indent + `<${tag}>${escapeText(serializeValue(value))}</${tag}>`)
@@ -136,7 +136,8 @@ const XML_ENTITIES: Record<string, string> = {
 
 function escapeText(s: string): string {
   let out = s.replace(/[&<>]/g, ch => XML_ENTITIES[ch]!)
-  // Strip XML-invalid control characters (U+0000–U+0008, U+000B, U+000C, U+000E–U+001F).
+  // Strip XML-invalid characters (U+0000–U+0008, U+000B, U+000C, U+000E–U+001F,
+  // U+FFFE, U+FFFF, unpaired surrogates). A bare CR would be read as a line feed.
   // Done as a char-by-char scan to keep the regex free of control-character literals
   // (which eslint's no-control-regex flags).
   let cleaned = ''
@@ -146,23 +147,36 @@ function escapeText(s: string): string {
       (code >= 0x00 && code <= 0x08) ||
       code === 0x0B ||
       code === 0x0C ||
-      (code >= 0x0E && code <= 0x1F)
+      (code >= 0x0E && code <= 0x1F) ||
+      code >= 0xFFFE ||
+      (code >= 0xD800 && code <= 0xDFFF && out.codePointAt(i)! <= 0xFFFF && !isLowHalf(out, i))
     ) continue
-    cleaned += out[i]
+    cleaned += code === 0x0D ? '&#13;' : out[i]
   }
   out = cleaned
   return out
 }
 
+function isLowHalf(s: string, i: number): boolean {
+  const code = s.charCodeAt(i)
+  const before = i > 0 ? s.charCodeAt(i - 1) : 0
+  return code >= 0xDC00 && before >= 0xD800 && before <= 0xDBFF
+}
+
 function escapeAttr(s: string): string {
   return s.replace(/[&<>"']/g, ch => XML_ENTITIES[ch]!)
 }
 
+// Letters of any script, as XML 1.0 defines them.
+const NAME_START_CHARS = 'A-Za-z_\\u00C0-\\u00D6\\u00D8-\\u00F6\\u00F8-\\u02FF\\u0370-\\u037D\\u037F-\\u1FFF\\u200C\\u200D\\u2070-\\u218F\\u2C00-\\u2FEF\\u3001-\\uD7FF\\uF900-\\uFDCF\\uFDF0-\\uFFFD\\u{10000}-\\u{EFFFF}'
+const NAME_START = new RegExp(`^[${NAME_START_CHARS}]`, 'u')
+const NOT_NAME_CHAR = new RegExp(`[^${NAME_START_CHARS}0-9.\\-\\u00B7\\u0300-\\u036F\\u203F\\u2040]`, 'gu')
+
 function escapeElementName(name: string): string {
   // XML element names must start with a letter/underscore and contain only
   // letters, digits, hyphens, underscores, dots. Replace everything else.
-  const safe = name.replace(/[^A-Za-z0-9_.-]/g, '_')
-  return /^[A-Za-z_]/.test(safe) ? safe : `_${safe}`
+  const safe = name.replace(NOT_NAME_CHAR, '_')
+  return NAME_START.test(safe) ? safe : `_${safe}`
 }
 
 function serializeValue(value: unknown): string {
@@ -256,7 +270,9 @@ export async function fromString(
     ignoreAttributes: true,
     parseTagValue: false,        // keep raw strings — we coerce ourselves
     parseAttributeValue: false,
-    trimValues: true,
+    trimValues: false,
+    htmlEntities: true,          // numeric character references
+    processEntities: { enabled: true, maxTotalExpansions: Number.MAX_SAFE_INTEGER },
     // Only force-as-array the record element so a single-record XML still
     // produces an array. We'll narrow this when we discover the element name.
   })
@@ -289,7 +305,7 @@ export async function fromString(
   const root = stripNamespacePrefixes(parsed as Record<string, unknown>)
   const rootKeys = Object.keys(root)
   if (rootKeys.length === 0) {
-    return emptyPlan(vault, options.collection, policy, idKey)
+    return planFor(vault, options.collection, [], policy, idKey)
   }
   // Pick first non-`?xml` root child — fast-xml-parser ignores the
   // declaration by default but be defensive.
@@ -297,7 +313,7 @@ export async function fromString(
   const rootBody = stripIfObject(root[rootName])
 
   if (rootBody === null) {
-    return emptyPlan(vault, options.collection, policy, idKey)
+    return planFor(vault, options.collection, [], policy, idKey)
   }
 
   const recordElName = options.recordElement
@@ -305,7 +321,7 @@ export async function fromString(
     : pickRecordElementName(rootBody)
 
   if (recordElName === null) {
-    return emptyPlan(vault, options.collection, policy, idKey)
+    return planFor(vault, options.collection, [], policy, idKey)
   }
 
   const recordsRaw = rootBody[recordElName]
@@ -320,14 +336,25 @@ export async function fromString(
     for (const [field, raw] of Object.entries(flat)) {
       // The XML parser exposes text-only elements as primitives or
       // empty objects (when the element is `<tag/>`). Normalize.
-      const text = textValue(raw)
-      record[field] = coerce(text, types[field])
+      if (field === '#text') continue // white space between the elements
+      const value = coerce(textValue(raw), types[field])
+      if (value !== undefined) record[field] = value
     }
     records.push(record)
   }
 
-  const plan = await diffVault(vault, { [options.collection]: records }, {
-    collections: [options.collection],
+  return planFor(vault, options.collection, records, policy, idKey)
+}
+
+async function planFor(
+  vault: Vault,
+  collection: string,
+  records: readonly Record<string, unknown>[],
+  policy: ImportPolicy,
+  idKey: string,
+): Promise<AsXMLImportPlan> {
+  const plan = await diffVault(vault, { [collection]: records }, {
+    collections: [collection],
     idKey,
   })
 
@@ -358,16 +385,6 @@ export async function fromString(
   }
 }
 
-async function emptyPlan(
-  vault: Vault,
-  collection: string,
-  policy: ImportPolicy,
-  idKey: string,
-): Promise<AsXMLImportPlan> {
-  const plan = await diffVault(vault, { [collection]: [] }, { collections: [collection], idKey })
-  return { plan, policy, async apply() { /* nothing to do */ } }
-}
-
 function stripPrefix(name: string): string {
   const idx = name.indexOf(':')
   return idx === -1 ? name : name.slice(idx + 1)
@@ -393,7 +410,7 @@ function stripIfObject(v: unknown): Record<string, unknown> | null {
  */
 function pickRecordElementName(body: Record<string, unknown>): string | null {
   for (const k of Object.keys(body)) {
-    if (k.startsWith('@_') || k.startsWith('?')) continue
+    if (k.startsWith('@_') || k.startsWith('?') || k === '#text') continue
     return k
   }
   return null
@@ -414,13 +431,13 @@ function textValue(raw: unknown): string {
 
 function coerce(cell: string, type?: 'string' | 'number' | 'boolean'): unknown {
   if (type === 'number') {
-    if (cell === '') return undefined
+    if (cell.trim() === '') return undefined
     const n = Number(cell)
     return Number.isFinite(n) ? n : cell
   }
   if (type === 'boolean') {
-    if (cell === 'true') return true
-    if (cell === 'false') return false
+    if (cell.trim() === 'true') return true
+    if (cell.trim() === 'false') return false
     return cell
   }
   return cell
-- 
2.43.0


From b9c74ceb04c9d7546c7d1c5a3b9db84b1e95f1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:54:52 +0000
Subject: [PATCH 65/87] fix: SQL export infers columns from all records and
 writes values the dialect reads back

---
 packages/as-sql/src/index.ts | 44 ++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/packages/as-sql/src/index.ts b/packages/as-sql/src/index.ts
index 329a2df..a4af100 100644
--- a/packages/as-sql/src/index.ts
+++ b/packages/as-sql/src/index.ts
@@ -6,8 +6,8 @@
  * SQL query frontend — it's the migration bridge for consumers moving
  * noy-db data into Postgres, MySQL, or SQLite.
  *
- * Column types are inferred from value types in the first 100 records
- * per collection. Every record's row uses parameterless inline-literal
+ * Column types are inferred from the value types of all records of a
+ * collection. Every record's row uses parameterless inline-literal
  * INSERT (no prepared statements) so the dump loads with a single
  * `psql -f`, `mysql <`, or `sqlite3 < dump.sql` invocation.
  *
@@ -72,6 +72,7 @@ export async function toString(vault: Vault, options: AsSQLOptions = {}): Promis
   for (const [collection, records] of buckets) {
     const table = tableName(collection)
     const schema = inferSchema(records, options.metadataColumns === true)
+    if (schema.length === 0) continue // nothing to load, and no dialect takes a table without columns
     if (mode !== 'data-only') {
       parts.push(createTable(dialect, table, schema))
       parts.push('')
@@ -113,7 +114,7 @@ export async function write(vault: Vault, path: string, options: AsSQLWriteOptio
 
 // ─── SQL formatting internals ───────────────────────────────────────────
 
-type SqlType = 'text' | 'integer' | 'real' | 'boolean' | 'timestamp' | 'jsonb'
+type SqlType = 'text' | 'integer' | 'bigint' | 'real' | 'boolean' | 'timestamp' | 'jsonb'
 
 interface ColumnSchema {
   readonly name: string
@@ -123,8 +124,7 @@ interface ColumnSchema {
 
 function inferSchema(records: readonly Record<string, unknown>[], includeMeta: boolean): ColumnSchema[] {
   const observed = new Map<string, { types: Set<SqlType>; nullable: boolean }>()
-  const sample = records.slice(0, 100) // sample up to 100 rows for type inference
-  for (const rec of sample) {
+  for (const rec of records) {
     for (const key of Object.keys(rec)) {
       if (!observed.has(key)) observed.set(key, { types: new Set(), nullable: false })
       const slot = observed.get(key)!
@@ -135,15 +135,16 @@ function inferSchema(records: readonly Record<string, unknown>[], includeMeta: b
       }
       slot.types.add(inferType(value))
     }
-    // Fields missing from this record → nullable
-    for (const key of observed.keys()) {
-      if (!(key in rec)) observed.get(key)!.nullable = true
-    }
+  }
+  // Fields missing from any record → nullable
+  for (const [key, slot] of observed) {
+    if (records.some(rec => !Object.hasOwn(rec, key))) slot.nullable = true
   }
 
   const columns: ColumnSchema[] = []
   for (const [name, info] of observed) {
     if (!includeMeta && (name === '_v' || name === '_ts' || name === '_by')) continue
+    if (info.types.has('bigint')) info.types.delete('integer')
     const type: SqlType = info.types.size === 1
       ? [...info.types][0]!
       : 'text' // mixed types → fall back to text
@@ -156,12 +157,17 @@ function inferSchema(records: readonly Record<string, unknown>[], includeMeta: b
   return columns
 }
 
+const ISO_TIMESTAMP = /^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d{1,3})?(Z|[+-]\d{2}:\d{2})$/
+
 function inferType(value: unknown): SqlType {
   if (typeof value === 'boolean') return 'boolean'
-  if (typeof value === 'number') return Number.isInteger(value) ? 'integer' : 'real'
+  if (typeof value === 'number') {
+    if (!Number.isSafeInteger(value)) return 'real'
+    return Math.abs(value) <= 0x7FFFFFFF ? 'integer' : 'bigint'
+  }
   if (value instanceof Date) return 'timestamp'
   if (typeof value === 'string') {
-    if (/^\d{4}-\d{2}-\d{2}T/.test(value)) return 'timestamp'
+    if (ISO_TIMESTAMP.test(value) && !Number.isNaN(Date.parse(value))) return 'timestamp'
     return 'text'
   }
   return 'jsonb'
@@ -174,9 +180,9 @@ function createTable(dialect: SqlDialect, table: string, schema: readonly Column
 
 function mapType(dialect: SqlDialect, type: SqlType): string {
   const map: Record<SqlDialect, Record<SqlType, string>> = {
-    postgres: { text: 'TEXT', integer: 'INTEGER', real: 'REAL', boolean: 'BOOLEAN', timestamp: 'TIMESTAMPTZ', jsonb: 'JSONB' },
-    mysql:    { text: 'TEXT', integer: 'BIGINT', real: 'DOUBLE', boolean: 'TINYINT(1)', timestamp: 'DATETIME', jsonb: 'JSON' },
-    sqlite:   { text: 'TEXT', integer: 'INTEGER', real: 'REAL', boolean: 'INTEGER', timestamp: 'TEXT', jsonb: 'TEXT' },
+    postgres: { text: 'TEXT', integer: 'INTEGER', bigint: 'BIGINT', real: 'DOUBLE PRECISION', boolean: 'BOOLEAN', timestamp: 'TIMESTAMPTZ', jsonb: 'JSONB' },
+    mysql:    { text: 'TEXT', integer: 'BIGINT', bigint: 'BIGINT', real: 'DOUBLE', boolean: 'TINYINT(1)', timestamp: 'DATETIME(3)', jsonb: 'JSON' },
+    sqlite:   { text: 'TEXT', integer: 'INTEGER', bigint: 'INTEGER', real: 'REAL', boolean: 'INTEGER', timestamp: 'TEXT', jsonb: 'TEXT' },
   }
   return map[dialect][type]
 }
@@ -188,7 +194,7 @@ function insertRow(
   record: Record<string, unknown>,
 ): string {
   const cols = schema.map(c => quoteIdent(dialect, c.name)).join(', ')
-  const values = schema.map(c => formatLiteral(dialect, c.type, record[c.name])).join(', ')
+  const values = schema.map(c => formatLiteral(dialect, c.type, Object.hasOwn(record, c.name) ? record[c.name] : null)).join(', ')
   return `INSERT INTO ${quoteIdent(dialect, table)} (${cols}) VALUES (${values});`
 }
 
@@ -198,9 +204,11 @@ function formatLiteral(dialect: SqlDialect, type: SqlType, value: unknown): stri
     if (dialect === 'mysql' || dialect === 'sqlite') return value ? '1' : '0'
     return value ? 'TRUE' : 'FALSE'
   }
-  if (type === 'integer' || type === 'real') return stringifyScalar(value)
+  if (type === 'integer' || type === 'bigint' || type === 'real') return stringifyScalar(value)
   if (type === 'timestamp') {
     const s = value instanceof Date ? value.toISOString() : stringifyScalar(value)
+    // MySQL has no notation for a zone in a DATETIME; written in UTC.
+    if (dialect === 'mysql') return quoteString(dialect, new Date(s).toISOString().replace('T', ' ').replace('Z', ''))
     return quoteString(dialect, s)
   }
   if (type === 'jsonb') {
@@ -220,7 +228,9 @@ function stringifyScalar(value: unknown): string {
 
 function quoteString(dialect: SqlDialect, s: string): string {
   // Both standard SQL and common dialects use '' to escape single quotes.
-  const escaped = s.replace(/'/g, "''")
+  // MySQL additionally reads backslash escapes inside string literals.
+  const doubled = s.replace(/'/g, "''")
+  const escaped = dialect === 'mysql' ? doubled.replace(/\\/g, '\\\\') : doubled
   return `'${escaped}'`
 }
 
-- 
2.43.0


From 239b86ed5450a5a83bcefe72446af8a8ee6ba9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:54:52 +0000
Subject: [PATCH 66/87] fix: XLSX export keeps every character and lazy
 records, import honours the replace policy

---
 packages/as-xlsx/src/index.ts | 35 +++++++++++++++++------------------
 packages/as-xlsx/src/read.ts  |  5 ++++-
 packages/as-xlsx/src/xlsx.ts  | 21 ++++++++++++++++++---
 3 files changed, 39 insertions(+), 22 deletions(-)

diff --git a/packages/as-xlsx/src/index.ts b/packages/as-xlsx/src/index.ts
index 935152a..6bea823 100644
--- a/packages/as-xlsx/src/index.ts
+++ b/packages/as-xlsx/src/index.ts
@@ -102,10 +102,9 @@ export async function toBytes(vault: Vault, options: AsXlsxOptions): Promise<Uin
   for (const sheetOpt of options.sheets) {
     // eslint-disable-next-line @typescript-eslint/no-explicit-any
     const collection = vault.collection<any>(sheetOpt.collection)
-    const list = await collection.list()
     const records: Record<string, unknown>[] = []
-    for (const item of list) {
-      const r = item as Record<string, unknown>
+    for (const entry of await collection._entries()) {
+      const r = entry.record as Record<string, unknown>
       if (sheetOpt.filter && !sheetOpt.filter(r)) continue
       records.push(r)
     }
@@ -113,7 +112,7 @@ export async function toBytes(vault: Vault, options: AsXlsxOptions): Promise<Uin
     materialisedSheets.push({
       name: sheetOpt.name,
       header: columns,
-      rows: records.map((r) => columns.map((c) => r[c] ?? null)),
+      rows: records.map((r) => columns.map((c) => (Object.hasOwn(r, c) ? r[c] : undefined) ?? null)),
     })
   }
 
@@ -253,7 +252,7 @@ export async function fromBytes(
 
   const decoded = await readXlsx(bytes)
   if (decoded.sheets.length === 0) {
-    return emptyXlsxPlan(vault, options.collection, policy, idKey)
+    return planFor(vault, options.collection, [], policy, idKey)
   }
   const sheet = options.sheet === undefined
     ? decoded.sheets[0]!
@@ -267,7 +266,7 @@ export async function fromBytes(
 
   const allRows = sheet.rows
   if (allRows.length <= headerRowIdx) {
-    return emptyXlsxPlan(vault, options.collection, policy, idKey)
+    return planFor(vault, options.collection, [], policy, idKey)
   }
   const headerRow = allRows[headerRowIdx]!
   // Map column letter → field name. Only columns that have a
@@ -298,8 +297,18 @@ export async function fromBytes(
     if (hasAny) records.push(record)
   }
 
-  const plan = await diffVault(vault, { [options.collection]: records }, {
-    collections: [options.collection],
+  return planFor(vault, options.collection, records, policy, idKey)
+}
+
+async function planFor(
+  vault: Vault,
+  collection: string,
+  records: readonly Record<string, unknown>[],
+  policy: ImportPolicy,
+  idKey: string,
+): Promise<AsXlsxImportPlan> {
+  const plan = await diffVault(vault, { [collection]: records }, {
+    collections: [collection],
     idKey,
   })
 
@@ -329,16 +338,6 @@ export async function fromBytes(
   }
 }
 
-async function emptyXlsxPlan(
-  vault: Vault,
-  collection: string,
-  policy: ImportPolicy,
-  idKey: string,
-): Promise<AsXlsxImportPlan> {
-  const plan = await diffVault(vault, { [collection]: [] }, { collections: [collection], idKey })
-  return { plan, policy, async apply() { /* nothing to do */ } }
-}
-
 function headerCellToField(value: unknown): string {
   // Header cells should be strings; defensively coerce numbers/booleans
   // and reject everything else (objects, undefined). Empty string =
diff --git a/packages/as-xlsx/src/read.ts b/packages/as-xlsx/src/read.ts
index 886de1e..e50fc64 100644
--- a/packages/as-xlsx/src/read.ts
+++ b/packages/as-xlsx/src/read.ts
@@ -31,6 +31,8 @@ const PARSER = new XMLParser({
   parseTagValue: false,
   parseAttributeValue: false,
   trimValues: false,
+  htmlEntities: true, // numeric character references
+  processEntities: { enabled: true, maxTotalExpansions: Number.MAX_SAFE_INTEGER },
   isArray: (name) => name === 'sheet' || name === 'row' || name === 'c' || name === 'si' || name === 'Relationship',
 })
 
@@ -124,7 +126,8 @@ function readSharedStrings(bytes: Uint8Array | undefined): readonly string[] {
   return items.map((si): string => {
     if (si === null || typeof si !== 'object') return ''
     const t = (si as { t?: unknown }).t
-    return textValue(t)
+    // `_xHHHH_` stands for a character XML cannot carry (ECMA-376 ST_Xstring).
+    return textValue(t).replace(/_x([0-9A-Fa-f]{4})_/g, (_, hex: string) => String.fromCharCode(parseInt(hex, 16)))
   })
 }
 
diff --git a/packages/as-xlsx/src/xlsx.ts b/packages/as-xlsx/src/xlsx.ts
index 5205100..f27d469 100644
--- a/packages/as-xlsx/src/xlsx.ts
+++ b/packages/as-xlsx/src/xlsx.ts
@@ -70,11 +70,11 @@ export async function writeXlsx(sheets: readonly XlsxSheet[]): Promise<Uint8Arra
   const safeSheets: XlsxSheet[] = sheets.map((s, i) => {
     let name = truncateSheetName(s.name || `Sheet${i + 1}`)
     let n = 1
-    while (seen.has(name)) {
+    while (seen.has(name.toLowerCase())) {
       const suffix = `(${n++})`
       name = truncateSheetName(name.slice(0, 31 - suffix.length) + suffix)
     }
-    seen.add(name)
+    seen.add(name.toLowerCase())
     return { ...s, name }
   })
 
@@ -173,7 +173,7 @@ export async function writeXlsx(sheets: readonly XlsxSheet[]): Promise<Uint8Arra
   const sharedStringsXml = [
     XML_HEADER,
     `<sst xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main" count="${sharedStrings.length}" uniqueCount="${sharedStrings.length}">`,
-    ...sharedStrings.map((s) => `<si><t xml:space="preserve">${escapeXmlText(s)}</t></si>`),
+    ...sharedStrings.map((s) => `<si><t xml:space="preserve">${escapeSpreadsheetText(s)}</t></si>`),
     '</sst>',
   ].join('')
 
@@ -242,6 +242,21 @@ function truncateSheetName(name: string): string {
   return cleaned.slice(0, 30) + '…'
 }
 
+/**
+ * What XML cannot carry is written as `_xHHHH_` (ECMA-376 ST_Xstring);
+ * text that already looks like such an escape gets its underscore escaped.
+ */
+function escapeSpreadsheetText(s: string): string {
+  const hex = (ch: string): string => `_x${ch.charCodeAt(0).toString(16).toUpperCase().padStart(4, '0')}_`
+  return escapeXmlText(
+    s
+      .replace(/_(?=x[0-9A-Fa-f]{4}_)/g, '_x005F_')
+      // eslint-disable-next-line no-control-regex
+      .replace(/[\u0000-\u0008\u000B\u000C\u000E-\u001F\uFFFE\uFFFF]/g, hex)
+      .replace(/[\uD800-\uDBFF](?![\uDC00-\uDFFF])|(?<![\uD800-\uDBFF])[\uDC00-\uDFFF]/g, hex),
+  )
+}
+
 /** XML text escaping — `& < > \r` (quotes only matter in attributes). */
 function escapeXmlText(s: string): string {
   return s
-- 
2.43.0


From 6a112ebd6143ff9a81b5794890c3878bdb8c07b2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 08:54:52 +0000
Subject: [PATCH 67/87] fix: ZIP export includes records without an id field
 and import drops the added key

---
 packages/as-zip/src/index.ts | 43 +++++++++---------------------------
 1 file changed, 11 insertions(+), 32 deletions(-)

diff --git a/packages/as-zip/src/index.ts b/packages/as-zip/src/index.ts
index 89ef98c..84e165c 100644
--- a/packages/as-zip/src/index.ts
+++ b/packages/as-zip/src/index.ts
@@ -158,13 +158,10 @@ export async function toBytes(vault: Vault, options: AsZipOptions): Promise<Uint
   const collection = vault.collection<any>(collectionName)
 
   // Pull every id the caller can see + the decrypted record for each.
-  const ids = await collection.list().then((rs) => extractIds(rs))
   const records: Array<{ id: string; record: unknown }> = []
-  for (const id of ids) {
-    const r = await collection.get(id)
-    if (r === null) continue
-    if (options.records.filter && !options.records.filter(r)) continue
-    records.push({ id, record: r })
+  for (const { id, record } of await collection._entries()) {
+    if (options.records.filter && !options.records.filter(record)) continue
+    records.push({ id, record })
   }
 
   // Gather attachments per record, filtered by slot selection.
@@ -341,7 +338,14 @@ export async function fromBytes(
     throw new Error('as-zip.fromBytes: records.json must be a JSON array of records')
   }
 
-  const plan = await diffVault(vault, { [options.collection]: parsed as Record<string, unknown>[] }, {
+  // The archive repeats each record's id as `_id`, outside the record itself.
+  const records = (parsed as Record<string, unknown>[]).map((entry) => {
+    if (entry === null || typeof entry !== 'object' || idKey === '_id' || entry[idKey] === undefined) return entry
+    const { _id, ...record } = entry
+    return _id === entry[idKey] ? record : entry
+  })
+
+  const plan = await diffVault(vault, { [options.collection]: records }, {
     collections: [options.collection],
     idKey,
   })
@@ -375,31 +379,6 @@ export async function fromBytes(
 
 // ── internals ─────────────────────────────────────────────────────
 
-/**
- * Collection.list() returns an array of records OR record ids
- * depending on the call shape. as-zip always needs ids + records
- * separately; we call list() to materialise records then build the
- * id list from `_id`/record identity. Fall back to treating the
- * list as ids directly when records don't carry a canonical id.
- */
-function extractIds(list: unknown[]): string[] {
-  const out: string[] = []
-  for (const item of list) {
-    if (typeof item === 'string') {
-      out.push(item)
-      continue
-    }
-    if (item && typeof item === 'object') {
-      const rec = item as Record<string, unknown>
-      // Canonical — a `.id` field. Falls back to `_id` for
-      // consumers that store ids in a mongo-style field.
-      const id = rec.id ?? rec._id
-      if (typeof id === 'string') out.push(id)
-    }
-  }
-  return out
-}
-
 /** Stringify-safe view of a record — drops functions, coerces Dates to ISO. */
 function toPojo(value: unknown): unknown {
   if (value === null || value === undefined) return value
-- 
2.43.0


From a5b53faa16a4ac9c3fb5c1a7c3efe1be0a29a646 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:04:00 +0000
Subject: [PATCH 68/87] fix: a collection named like a built-in object member
 is not treated as permitted

---
 packages/hub/src/team/keyring.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/hub/src/team/keyring.ts b/packages/hub/src/team/keyring.ts
index 90e55eb..db6918d 100644
--- a/packages/hub/src/team/keyring.ts
+++ b/packages/hub/src/team/keyring.ts
@@ -953,7 +953,7 @@ export function hasWritePermission(keyring: UnlockedKeyring, collectionName: str
 /** Check if a user has any access to a collection. */
 export function hasAccess(keyring: UnlockedKeyring, collectionName: string): boolean {
   if (keyring.role === 'owner' || keyring.role === 'admin' || keyring.role === 'viewer') return true
-  return collectionName in keyring.permissions
+  return Object.hasOwn(keyring.permissions, collectionName)
 }
 
 // ─── Helpers ───────────────────────────────────────────────────────────
-- 
2.43.0


From 3afb8f1777d6519436679343d1edefa8ff43f758 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:04:00 +0000
Subject: [PATCH 69/87] fix: attachment export covers every readable record and
 reports aborts and failures

---
 packages/hub/src/blobs/export-blobs.ts | 25 ++++++++++++-------------
 packages/hub/src/vault.ts              |  2 +-
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/packages/hub/src/blobs/export-blobs.ts b/packages/hub/src/blobs/export-blobs.ts
index f73b58a..66aaeac 100644
--- a/packages/hub/src/blobs/export-blobs.ts
+++ b/packages/hub/src/blobs/export-blobs.ts
@@ -33,7 +33,7 @@
  */
 
 import type { Collection } from '../collection.js'
-import type { SlotInfo } from '../types.js'
+import { NoAccessError } from '../errors.js'
 
 // ─── Types ──────────────────────────────────────────────────────────────
 
@@ -179,23 +179,22 @@ export function createExportBlobsHandle(
     let resumeCursorHit = options.afterBlobId === undefined
 
     for (const collectionName of targets) {
-      if (aborted) return
+      assertLive()
 
       const coll = getCollection<Record<string, unknown>>(collectionName)
-      const records = await coll.list().catch(() => [])
-      for (const record of records) {
-        if (aborted) return
+      const entries = await coll._entries().catch((err: unknown) => {
+        if (err instanceof NoAccessError) return []
+        throw err
+      })
+      for (const { id, record } of entries) {
         assertLive()
 
-        const idField = (record as { id?: unknown }).id
-        if (typeof idField !== 'string') continue
-
-        if (options.where && !options.where(record, { collection: collectionName, id: idField })) continue
+        if (options.where && !options.where(record, { collection: collectionName, id })) continue
 
-        const blobSet = coll.blob(idField)
-        const slots = await blobSet.list().catch(() => [] as SlotInfo[])
+        const blobSet = coll.blob(id)
+        const slots = await blobSet.list()
         for (const slot of slots) {
-          if (aborted) return
+          assertLive()
 
           if (!resumeCursorHit) {
             if (slot.eTag === options.afterBlobId) {
@@ -209,7 +208,7 @@ export function createExportBlobsHandle(
 
           const item: ExportedBlob = {
             blobId: slot.eTag,
-            recordRef: { collection: collectionName, id: idField, slot: slot.name },
+            recordRef: { collection: collectionName, id, slot: slot.name },
             bytes,
             meta: {
               size: slot.size,
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index 81da571..744f168 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -901,7 +901,7 @@ export class Vault {
     this.assertCanExport('plaintext', 'blob')
     return createExportBlobsHandle(
       this.keyring.userId,
-      () => this.collections(),
+      async () => (await this.collections()).filter((name) => hasAccess(this.keyring, name)),
       (name) => this.collection(name),
       (entry) => this.writeExportAudit(entry),
       options,
-- 
2.43.0


From d609b46a10fa98787fc7b3adf9f7ff2891652faa Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:25:41 +0000
Subject: [PATCH 70/87] fix: backups carry the dictionaries and closed periods
 their ledger refers to

---
 packages/hub/src/vault.ts | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index 744f168..c02c215 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -59,7 +59,7 @@ import {
   type RefViolation,
 } from './refs.js'
 import type { DictionaryHandle, DictionaryOptions, DictKeyDescriptor } from './i18n/dictionary.js'
-import { isDictCollectionName } from './i18n/dictionary.js'
+import { dictCollectionName, isDictCollectionName } from './i18n/dictionary.js'
 import type { I18nTextDescriptor } from './i18n/core.js'
 import { NO_I18N, type I18nStrategy } from './i18n/strategy.js'
 import { NO_SYNC, type SyncStrategy } from './team/sync-strategy.js'
@@ -1999,9 +1999,14 @@ export class Vault {
     // Load the ledger entries + deltas so the receiver can replay
     // the chain after restore. Without this, `load()` would have an
     // empty ledger and `verifyBackupIntegrity()` would have nothing
-    // to compare against.
+    // to compare against. Dictionaries and closed periods are recorded
+    // in the ledger too, so the receiver needs them for the same reason.
     const internalSnapshot: VaultSnapshot = {}
-    for (const internalName of [LEDGER_COLLECTION, LEDGER_DELTAS_COLLECTION]) {
+    const dictionaryNames = new Set([
+      ...Object.values(keyrings).flatMap((k) => Object.keys((k as KeyringFile).deks).filter(isDictCollectionName)),
+      ...[...this.dictionaryCache.keys()].map(dictCollectionName),
+    ])
+    for (const internalName of [LEDGER_COLLECTION, LEDGER_DELTAS_COLLECTION, PERIODS_COLLECTION, ...dictionaryNames]) {
       const ids = await this.adapter.list(this.name, internalName)
       if (ids.length === 0) continue
       const records: Record<string, EncryptedEnvelope> = {}
-- 
2.43.0


From 9bb979216c4a7c02262a350aa4152339801c8061 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:25:41 +0000
Subject: [PATCH 71/87] fix: restoring a backup drops the dictionaries and
 periods cached before it

---
 packages/hub/src/vault.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index c02c215..8213b53 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -2122,6 +2122,8 @@ export class Vault {
     //    next ledger() call rebuilds its head cache from the
     //    freshly-loaded entries.
     this.collectionCache.clear()
+    this.dictionaryCache.clear()
+    this.periodCache = null
     this.ledgerStore = null
 
     // 5. Run the verification gate. Legacy backups (no ledgerHead)
-- 
2.43.0


From 241fad3b300867b2247de8bdd5315866a167da38 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:25:41 +0000
Subject: [PATCH 72/87] fix: the integrity check tells apart records whose
 names contain slashes

---
 packages/hub/src/vault.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index 8213b53..9988c3b 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -2246,7 +2246,7 @@ export class Vault {
     for (let i = allEntries.length - 1; i >= 0; i--) {
       const entry = allEntries[i]
       if (!entry) continue
-      const key = `${entry.collection}/${entry.id}`
+      const key = JSON.stringify([entry.collection, entry.id])
       if (seen.has(key)) continue
       seen.add(key)
       // For deletes the data collection should NOT have the record,
-- 
2.43.0


From 10e6a776ff3bb763ce0c9d82f8d6c69eded6de71 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:25:41 +0000
Subject: [PATCH 73/87] fix: grants and bundles share the keys of collections
 named like built-in object members

---
 packages/hub/src/team/keyring.ts | 8 ++++----
 packages/hub/src/vault.ts        | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/hub/src/team/keyring.ts b/packages/hub/src/team/keyring.ts
index db6918d..6ac3228 100644
--- a/packages/hub/src/team/keyring.ts
+++ b/packages/hub/src/team/keyring.ts
@@ -210,7 +210,7 @@ export async function grant(
   // For owner/admin/viewer roles, wrap ALL known DEKs
   if (options.role === 'owner' || options.role === 'admin' || options.role === 'viewer') {
     for (const [collName, dek] of callerKeyring.deks) {
-      if (!(collName in wrappedDeks)) {
+      if (!Object.hasOwn(wrappedDeks, collName)) {
         wrappedDeks[collName] = await wrapKey(dek, newKek)
       }
     }
@@ -231,7 +231,7 @@ export async function grant(
   // record ids, and ciphertext hashes, but never plaintext records.
   // Per-collection ledger DEKs are tracked as a follow-up.
   for (const [collName, dek] of callerKeyring.deks) {
-    if (collName.startsWith('_') && !(collName in wrappedDeks)) {
+    if (collName.startsWith('_') && !Object.hasOwn(wrappedDeks, collName)) {
       wrappedDeks[collName] = await wrapKey(dek, newKek)
     }
   }
@@ -766,7 +766,7 @@ export async function buildRecipientKeyringFile(
   // owner / admin / viewer: wrap every known DEK (matches grant).
   if (role === 'owner' || role === 'admin' || role === 'viewer') {
     for (const [collName, dek] of callerKeyring.deks) {
-      if (!(collName in wrappedDeks)) {
+      if (!Object.hasOwn(wrappedDeks, collName)) {
         wrappedDeks[collName] = await wrapKey(dek, newKek)
       }
     }
@@ -775,7 +775,7 @@ export async function buildRecipientKeyringFile(
   // Always propagate system-prefixed collection DEKs (`_ledger`, etc.) —
   // the recipient needs them to verify the bundle on import.
   for (const [collName, dek] of callerKeyring.deks) {
-    if (collName.startsWith('_') && !(collName in wrappedDeks)) {
+    if (collName.startsWith('_') && !Object.hasOwn(wrappedDeks, collName)) {
       wrappedDeks[collName] = await wrapKey(dek, newKek)
     }
   }
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index 9988c3b..d4c7791 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -743,7 +743,7 @@ export class Vault {
   ): Promise<Record<string, KeyringFile>> {
     const result: Record<string, KeyringFile> = {}
     for (const recipient of recipients) {
-      if (recipient.id in result) {
+      if (Object.hasOwn(result, recipient.id)) {
         throw new Error(`buildBundleRecipientKeyrings: duplicate recipient id "${recipient.id}"`)
       }
       result[recipient.id] = await buildRecipientKeyringFile(this.keyring, recipient)
-- 
2.43.0


From 39724822bef0438045fc9908caabd5932815567c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:26:07 +0000
Subject: [PATCH 74/87] fix: a bundle re-keyed with an export passphrase keeps
 the exporter's permissions

---
 packages/hub/src/bundle/bundle.ts | 1 +
 packages/hub/src/vault.ts         | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/hub/src/bundle/bundle.ts b/packages/hub/src/bundle/bundle.ts
index ed81366..18b229b 100644
--- a/packages/hub/src/bundle/bundle.ts
+++ b/packages/hub/src/bundle/bundle.ts
@@ -306,6 +306,7 @@ async function applyRecipientRewrap(
         id: vault.userId,
         passphrase: opts.exportPassphrase as string,
         role: vault.role,
+        permissions: vault.permissions,
       },
     ]
 
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index d4c7791..ca43593 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -22,7 +22,7 @@ import type { OnDirtyCallback } from './collection.js'
 import type { UnlockedKeyring, BundleRecipient } from './team/keyring.js'
 import { buildRecipientKeyringFile } from './team/keyring.js'
 import { ensureCollectionDEK, hasAccess, hasExportCapability, hasImportCapability } from './team/keyring.js'
-import type { ExportFormat, KeyringFile } from './types.js'
+import type { ExportFormat, KeyringFile, Permissions } from './types.js'
 import {
   ExportCapabilityError,
   ImportCapabilityError,
@@ -721,6 +721,11 @@ export class Vault {
     return this.keyring.role
   }
 
+  /** The collection permissions of the keyring backing this vault session. */
+  get permissions(): Permissions {
+    return this.keyring.permissions
+  }
+
   /**
    * Build keyring files for bundle recipients without persisting them
    * to the source vault. Used by `writeNoydbBundle()` when the bundle
-- 
2.43.0


From 7bbb690f8c7be52740a97c9ce620f1ab696febd3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:27:06 +0000
Subject: [PATCH 75/87] fix: vault comparison names changed fields whose names
 contain dots

---
 packages/hub/src/vault-diff.ts | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/packages/hub/src/vault-diff.ts b/packages/hub/src/vault-diff.ts
index a87f2f2..c9dfede 100644
--- a/packages/hub/src/vault-diff.ts
+++ b/packages/hub/src/vault-diff.ts
@@ -178,7 +178,7 @@ export async function diffVault<T = unknown>(
           unchanged?.push({ collection, id, record: after })
         } else {
           const fieldDiffs = fieldDiff(before, after)
-          const fieldsChanged = uniqueTopLevelKeys(fieldDiffs)
+          const fieldsChanged = changedTopLevelKeys(before, after)
           modified.push({
             collection,
             id,
@@ -286,15 +286,11 @@ function collectionsFromObject<T>(
   return out
 }
 
-function uniqueTopLevelKeys(diffs: readonly FieldDiffEntry[]): readonly string[] {
-  const keys = new Set<string>()
-  for (const d of diffs) {
-    // path is dot-separated; the top-level key is everything before the
-    // first `.` or `[`. (`a.b.c` → `a`, `tags[0]` → `tags`, `(root)` → `(root)`).
-    const m = /^[^.[]+/.exec(d.path)
-    if (m) keys.add(m[0])
-  }
-  return [...keys]
+function changedTopLevelKeys(before: unknown, after: unknown): readonly string[] {
+  const a = before as Record<string, unknown>, b = after as Record<string, unknown>
+  const keys = [...new Set([...Object.keys(a), ...Object.keys(b)])]
+  return keys.filter((key) =>
+    Object.hasOwn(a, key) !== Object.hasOwn(b, key) || fieldDiff(a[key], b[key]).length > 0)
 }
 
 /**
-- 
2.43.0


From 12aed2e997f0a0a269b918830785df91d6668f35 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:27:06 +0000
Subject: [PATCH 76/87] fix: bundle filters see only records, in every tier and
 resolved, and keep their index entries

---
 packages/hub/src/bundle/bundle.ts | 20 ++++++++++++++++++++
 packages/hub/src/vault.ts         | 15 +++++++++++----
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/packages/hub/src/bundle/bundle.ts b/packages/hub/src/bundle/bundle.ts
index 18b229b..8afb9b5 100644
--- a/packages/hub/src/bundle/bundle.ts
+++ b/packages/hub/src/bundle/bundle.ts
@@ -51,6 +51,7 @@ import {
   type NoydbBundleHeader,
 } from './format.js'
 import { BundleIntegrityError } from '../errors.js'
+import { decodeIdxId } from '../indexing/persisted-indexes.js'
 import type { Vault } from '../vault.js'
 import type { BundleRecipient } from '../team/keyring.js'
 
@@ -362,12 +363,21 @@ function applySliceFilters(
         continue
       }
       const kept: Record<string, unknown> = {}
+      const sideCars: [id: string, recordId: string, env: unknown][] = []
       for (const [id, env] of Object.entries(records)) {
+        const sideCar = decodeIdxId(id)
+        if (sideCar) {
+          sideCars.push([id, sideCar.recordId, env])
+          continue
+        }
         const envTs = env._ts ? new Date(env._ts).getTime() : NaN
         if (Number.isFinite(envTs) && envTs >= sinceMs) {
           kept[id] = env
         }
       }
+      for (const [id, recordId, env] of sideCars) {
+        if (Object.hasOwn(kept, recordId)) kept[id] = env
+      }
       next[name] = kept
     }
     backup.collections = next as typeof backup.collections
@@ -412,7 +422,14 @@ async function applyPlaintextFilters(
   const next: Record<string, Record<string, Env>> = {}
   for (const [collName, records] of Object.entries(backup.collections)) {
     const kept: Record<string, Env> = {}
+    const sideCars: [id: string, recordId: string, env: Env][] = []
     for (const [id, env] of Object.entries(records)) {
+      // Index side-cars are no records of their own: they stay with theirs.
+      const sideCar = decodeIdxId(id)
+      if (sideCar) {
+        sideCars.push([id, sideCar.recordId, env])
+        continue
+      }
       // Tier ceiling — runs FIRST so we don't waste a decrypt on
       // records about to be dropped anyway. Envelope tier defaults to
       // 0 when absent (matches Vault's tier-0 conventions).
@@ -433,6 +450,9 @@ async function applyPlaintextFilters(
       }
       kept[id] = env
     }
+    for (const [id, recordId, env] of sideCars) {
+      if (Object.hasOwn(kept, recordId)) kept[id] = env
+    }
     next[collName] = kept
   }
   backup.collections = next
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index ca43593..d285353 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -64,7 +64,8 @@ import type { I18nTextDescriptor } from './i18n/core.js'
 import { NO_I18N, type I18nStrategy } from './i18n/strategy.js'
 import { NO_SYNC, type SyncStrategy } from './team/sync-strategy.js'
 import type { LocaleReadOptions, ConflictPolicy } from './types.js'
-import type { CrdtMode } from './crdt/crdt.js'
+import type { CrdtMode, CrdtState } from './crdt/crdt.js'
+import { dekKey } from './team/tiers.js'
 import { ReservedCollectionNameError } from './errors.js'
 import {
   PERIODS_COLLECTION,
@@ -953,11 +954,17 @@ export class Vault {
     collectionName: string,
   ): Promise<unknown> {
     if (!this.encrypted) {
-      return JSON.parse(env._data)
+      return this.resolveCrdt(JSON.parse(env._data))
     }
-    const dek = await this.getDEK(collectionName)
+    const dek = await this.getDEK(dekKey(collectionName, env._tier ?? 0))
     const json = await decrypt(env._iv, env._data, dek)
-    return JSON.parse(json)
+    return this.resolveCrdt(JSON.parse(json))
+  }
+
+  /** The record a stored merge state stands for; any other value as it is. */
+  private resolveCrdt(parsed: unknown): unknown {
+    if (!this.crdtStrategy || parsed === null || typeof parsed !== 'object' || !('_crdt' in parsed)) return parsed
+    return this.crdtStrategy.resolveCrdtSnapshot(parsed as CrdtState)
   }
 
   /**
-- 
2.43.0


From a6ce07acebd9b44a9bc6e876c18d134607956539 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 10:44:26 +0000
Subject: [PATCH 77/87] fix: refuse D1 and Turso batches whose expected version
 does not match

---
 packages/to-cloudflare-d1/src/index.ts | 19 ++++++++++++++++++-
 packages/to-turso/src/index.ts         | 18 +++++++++++++++++-
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/packages/to-cloudflare-d1/src/index.ts b/packages/to-cloudflare-d1/src/index.ts
index 182f656..e840eda 100644
--- a/packages/to-cloudflare-d1/src/index.ts
+++ b/packages/to-cloudflare-d1/src/index.ts
@@ -267,6 +267,14 @@ export function d1(options: D1StoreOptions): NoydbStore {
       await ensureSchema()
       const statements: D1PreparedStatement[] = []
       for (const op of ops) {
+        if (op.expectedVersion !== undefined) {
+          // NOT NULL refuses this update, so a version mismatch rolls the whole batch back.
+          statements.push(
+            db
+              .prepare(`UPDATE ${tableName} SET v = NULL WHERE vault = ? AND collection = ? AND id = ? AND v <> ?`)
+              .bind(op.vault, op.collection, op.id, op.expectedVersion),
+          )
+        }
         if (op.type === 'put') {
           if (!op.envelope) throw new Error(`tx put op missing envelope for ${op.id}`)
           statements.push(upsertStatement(op.vault, op.collection, op.id, op.envelope))
@@ -278,7 +286,16 @@ export function d1(options: D1StoreOptions): NoydbStore {
           )
         }
       }
-      await db.batch(statements)
+      try {
+        await db.batch(statements)
+      } catch (err) {
+        for (const op of ops) {
+          if (op.expectedVersion === undefined) continue
+          const current = await store.get(op.vault, op.collection, op.id)
+          if (current && current._v !== op.expectedVersion) throw new ConflictError(current._v)
+        }
+        throw err
+      }
     },
   }
 
diff --git a/packages/to-turso/src/index.ts b/packages/to-turso/src/index.ts
index ee2b572..185ab6f 100644
--- a/packages/to-turso/src/index.ts
+++ b/packages/to-turso/src/index.ts
@@ -268,6 +268,13 @@ export function turso(options: TursoStoreOptions): NoydbStore {
       if (client.batch) {
         const statements: { sql: string; args?: readonly unknown[] }[] = []
         for (const op of ops) {
+          if (op.expectedVersion !== undefined) {
+            // NOT NULL refuses this update, so a version mismatch rolls the whole batch back.
+            statements.push({
+              sql: `UPDATE ${tableName} SET v = NULL WHERE vault = ? AND collection = ? AND id = ? AND v <> ?`,
+              args: [op.vault, op.collection, op.id, op.expectedVersion],
+            })
+          }
           if (op.type === 'put') {
             if (!op.envelope) throw new Error(`tx put op missing envelope for ${op.id}`)
             statements.push({
@@ -293,7 +300,16 @@ export function turso(options: TursoStoreOptions): NoydbStore {
             })
           }
         }
-        await client.batch(statements)
+        try {
+          await client.batch(statements)
+        } catch (err) {
+          for (const op of ops) {
+            if (op.expectedVersion === undefined) continue
+            const current = await store.get(op.vault, op.collection, op.id)
+            if (current && current._v !== op.expectedVersion) throw new ConflictError(current._v)
+          }
+          throw err
+        }
         return
       }
       // Fallback: no batch API — sequential execute (no atomic guarantee).
-- 
2.43.0


From 38a02052e8ae1a0929118d85f3ff3f7fd6ffa8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 10:53:57 +0000
Subject: [PATCH 78/87] fix: start the sync schedule a database is configured
 with

---
 packages/hub/src/noydb.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/hub/src/noydb.ts b/packages/hub/src/noydb.ts
index 4e6ab18..5a9acca 100644
--- a/packages/hub/src/noydb.ts
+++ b/packages/hub/src/noydb.ts
@@ -214,6 +214,7 @@ export class Noydb {
 
     // Set up sync engine(s) — handles bare NoydbStore, SyncTarget, or SyncTarget[]
     let syncEngine: SyncEngine | undefined
+    const scheduled: SyncEngine[] = []
     const targets = normalizeSyncTargets(this.options.sync)
     if (targets.length > 0) {
       // What sync brings in goes through the open collections, so that readers see it
@@ -236,6 +237,7 @@ export class Noydb {
         ...(primary.label !== undefined ? { label: primary.label } : {}),
       })
       this.syncEngines.set(name, syncEngine)
+      if (this.options.syncPolicy ?? primary.policy) scheduled.push(syncEngine)
 
       // Additional targets get their own engines (backup/archive are push-only)
       for (const target of targets) {
@@ -258,6 +260,7 @@ export class Noydb {
           ...(target.label !== undefined ? { label: target.label } : {}),
         })
         this.syncEngines.set(key, engine)
+        if (target.policy ?? this.options.syncPolicy) scheduled.push(engine)
       }
 
       // Changes left pending by an earlier session count from the start
@@ -327,6 +330,7 @@ export class Noydb {
           : undefined,
     })
     this.vaultCache.set(name, comp)
+    for (const engine of scheduled) engine.startScheduler()
     return comp
   }
 
-- 
2.43.0


From 4c59bd251d6fb22abb14373dc73a28db0f7d059b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 11:04:07 +0000
Subject: [PATCH 79/87] fix: refuse maintenance commands on a vault that does
 not exist

Opening a vault creates it when it is missing. A mistyped vault name made
backup replace an earlier backup with an empty one, and made add user and
rotate leave a new empty vault behind.
---
 packages/create-noy-db/src/commands/add-user.ts |  6 ++++--
 packages/create-noy-db/src/commands/backup.ts   |  6 ++++--
 packages/create-noy-db/src/commands/rotate.ts   |  6 ++++--
 packages/create-noy-db/src/commands/shared.ts   | 15 ++++++++++++++-
 4 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/packages/create-noy-db/src/commands/add-user.ts b/packages/create-noy-db/src/commands/add-user.ts
index 4cea94b..419d83d 100644
--- a/packages/create-noy-db/src/commands/add-user.ts
+++ b/packages/create-noy-db/src/commands/add-user.ts
@@ -31,7 +31,7 @@
 import { createNoydb, type Noydb, type NoydbStore, type Role } from '@noy-db/hub'
 import { jsonFile } from '@noy-db/to-file'
 import type { ReadPassphrase } from './shared.js'
-import { defaultReadPassphrase } from './shared.js'
+import { assertVaultExists, defaultReadPassphrase } from './shared.js'
 
 export interface AddUserOptions {
   /** Directory containing the vault data (file adapter only). */
@@ -109,8 +109,10 @@ export async function addUser(options: AddUserOptions): Promise<AddUserResult> {
 
   let db: Noydb | null = null
   try {
+    const store = buildAdapter(options.dir)
+    await assertVaultExists(store, options.vault)
     db = await createDb({
-      store: buildAdapter(options.dir),
+      store,
       user: options.callerUser,
       secret: callerSecret,
     })
diff --git a/packages/create-noy-db/src/commands/backup.ts b/packages/create-noy-db/src/commands/backup.ts
index 708f8dc..3987137 100644
--- a/packages/create-noy-db/src/commands/backup.ts
+++ b/packages/create-noy-db/src/commands/backup.ts
@@ -42,7 +42,7 @@ import { createNoydb, type Noydb, type NoydbStore } from '@noy-db/hub'
 import { withHistory } from '@noy-db/hub/history'
 import { jsonFile } from '@noy-db/to-file'
 import type { ReadPassphrase } from './shared.js'
-import { defaultReadPassphrase } from './shared.js'
+import { assertVaultExists, defaultReadPassphrase } from './shared.js'
 
 export interface BackupOptions {
   /** Directory containing the vault data (file adapter only). */
@@ -110,8 +110,10 @@ export async function backup(options: BackupOptions): Promise<BackupResult> {
 
   let db: Noydb | null = null
   try {
+    const store = buildAdapter(options.dir)
+    await assertVaultExists(store, options.vault)
     db = await createDb({
-      store: buildAdapter(options.dir),
+      store,
       user: options.user,
       secret,
       // Opt into the history strategy so `vault.dump()` embeds
diff --git a/packages/create-noy-db/src/commands/rotate.ts b/packages/create-noy-db/src/commands/rotate.ts
index af1efd4..f92be93 100644
--- a/packages/create-noy-db/src/commands/rotate.ts
+++ b/packages/create-noy-db/src/commands/rotate.ts
@@ -38,7 +38,7 @@
 import { createNoydb, type Noydb, type NoydbStore } from '@noy-db/hub'
 import { jsonFile } from '@noy-db/to-file'
 import type { ReadPassphrase } from './shared.js'
-import { defaultReadPassphrase } from './shared.js'
+import { assertVaultExists, defaultReadPassphrase } from './shared.js'
 
 export interface RotateOptions {
   /** Directory containing the vault data (file adapter only). */
@@ -96,8 +96,10 @@ export async function rotate(options: RotateOptions): Promise<RotateResult> {
 
   let db: Noydb | null = null
   try {
+    const store = buildAdapter(options.dir)
+    await assertVaultExists(store, options.vault)
     db = await createDb({
-      store: buildAdapter(options.dir),
+      store,
       user: options.user,
       secret,
     })
diff --git a/packages/create-noy-db/src/commands/shared.ts b/packages/create-noy-db/src/commands/shared.ts
index c02023e..ca48ad7 100644
--- a/packages/create-noy-db/src/commands/shared.ts
+++ b/packages/create-noy-db/src/commands/shared.ts
@@ -28,7 +28,7 @@
  */
 
 import { password, isCancel, cancel } from '@clack/prompts'
-import type { Role } from '@noy-db/hub'
+import type { NoydbStore, Role } from '@noy-db/hub'
 
 const VALID_ROLES = ['owner', 'admin', 'operator', 'viewer', 'client'] as const
 
@@ -63,6 +63,19 @@ export const defaultReadPassphrase: ReadPassphrase = async (label) => {
   return value
 }
 
+/**
+ * Refuse to work on a vault the store knows nothing about. Opening a
+ * vault creates it when it is missing, so without this check a mistyped
+ * `--vault` would leave a new empty vault behind — and `backup` would
+ * replace an earlier backup with an empty one.
+ */
+export async function assertVaultExists(store: NoydbStore, vault: string): Promise<void> {
+  if ((await store.list(vault, '_keyring')).length > 0) return
+  const snapshot = await store.loadAll(vault)
+  if (Object.keys(snapshot).length > 0) return
+  throw new Error(`Vault "${vault}" does not exist in this data directory.`)
+}
+
 /**
  * Narrow an unknown string to the `Role` type from @noy-db/core.
  * Used by the `add user` subcommand to validate the role argument
-- 
2.43.0


From 25216a4e039a2b00c95d840ce7efc33280fd6447 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 11:07:24 +0000
Subject: [PATCH 80/87] fix: follow each capability request, not only the first

The composable subscribed to the first request it made and kept that
subscription, so approvals and releases of later requests made elsewhere
were never seen.
---
 packages/in-pinia/src/useCapabilityGrant.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/in-pinia/src/useCapabilityGrant.ts b/packages/in-pinia/src/useCapabilityGrant.ts
index 5c138c0..eddf508 100644
--- a/packages/in-pinia/src/useCapabilityGrant.ts
+++ b/packages/in-pinia/src/useCapabilityGrant.ts
@@ -239,8 +239,11 @@ export function useCapabilityGrant(
   watch(
     () => recordRef.value?.id,
     async (id) => {
-      if (!inBrowser || !id || unsubscribeChangeStream) return
+      if (!inBrowser || !id) return
       const vault = await resolveVault()
+      if (stopped) return
+      // Each request is a new record — follow the current one.
+      unsubscribeChangeStream?.()
       const coll = vault.collection<CapabilityGrantRecord>(
         CAPABILITY_REQUESTS_COLLECTION,
       )
-- 
2.43.0


From 3944d3f112d4a0e4a322062fa8a363834f2c0b50 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 11:09:07 +0000
Subject: [PATCH 81/87] fix: read the table state back from the query's own
 plan

The helper looked for fields queries do not have, so the state read back
was always empty.
---
 packages/in-tanstack-table/src/index.ts | 26 ++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/packages/in-tanstack-table/src/index.ts b/packages/in-tanstack-table/src/index.ts
index 081c46c..6a189d0 100644
--- a/packages/in-tanstack-table/src/index.ts
+++ b/packages/in-tanstack-table/src/index.ts
@@ -83,31 +83,31 @@ export function buildQueryFromTableState<T>(
  * explicitly set — undefined fields stay undefined.
  */
 export function tableStateFromQuery<T>(query: Query<T>): TableState {
-  const q = query as unknown as {
-    __clauses?: Array<{ field: string; op: string; value: unknown }>
-    __sorts?: Array<{ field: string; direction: 'asc' | 'desc' }>
-    __limit?: number
-    __offset?: number
+  const plan = query.toPlan() as {
+    clauses: ReadonlyArray<{ type: string; field: string; op: string; value: unknown }>
+    orderBy: ReadonlyArray<{ field: string; direction: 'asc' | 'desc' }>
+    limit?: number
+    offset: number
   }
 
-  const columnFilters: TableFilterDescriptor[] | undefined = q.__clauses
-    ?.filter(c => c.op === '==' || c.op === 'in')
+  const columnFilters: TableFilterDescriptor[] = plan.clauses
+    .filter(c => c.type === 'field' && (c.op === '==' || c.op === 'in'))
     .map(c => ({ id: c.field, value: c.value }))
-  const sorting: TableSortDescriptor[] | undefined = q.__sorts?.map(s => ({
+  const sorting: TableSortDescriptor[] = plan.orderBy.map(s => ({
     id: s.field,
     desc: s.direction === 'desc',
   }))
   const pagination: TablePaginationState | undefined =
-    q.__limit !== undefined
+    plan.limit !== undefined
       ? {
-          pageSize: q.__limit,
-          pageIndex: q.__offset && q.__limit ? Math.floor(q.__offset / q.__limit) : 0,
+          pageSize: plan.limit,
+          pageIndex: plan.limit > 0 ? Math.floor(plan.offset / plan.limit) : 0,
         }
       : undefined
 
   const state: TableState = {}
-  if (columnFilters && columnFilters.length > 0) (state as { columnFilters?: readonly TableFilterDescriptor[] }).columnFilters = columnFilters
-  if (sorting && sorting.length > 0) (state as { sorting?: readonly TableSortDescriptor[] }).sorting = sorting
+  if (columnFilters.length > 0) (state as { columnFilters?: readonly TableFilterDescriptor[] }).columnFilters = columnFilters
+  if (sorting.length > 0) (state as { sorting?: readonly TableSortDescriptor[] }).sorting = sorting
   if (pagination) (state as { pagination?: TablePaginationState }).pagination = pagination
   return state
 }
-- 
2.43.0


From 169c28423a0e01fc41a59d36f43c81ff28e9b9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 11:13:06 +0000
Subject: [PATCH 82/87] fix: refuse to replace a bundle file whose version was
 not seen

A first write over an existing Drive or iCloud bundle, or any write while
the iCloud file is offloaded, replaced contents the writer had never read.
Deleting an offloaded iCloud bundle also left its placeholder behind.
---
 packages/to-drive/src/index.ts  |  5 +++++
 packages/to-icloud/src/index.ts | 17 ++++++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/packages/to-drive/src/index.ts b/packages/to-drive/src/index.ts
index 22531ca..3f66dc1 100644
--- a/packages/to-drive/src/index.ts
+++ b/packages/to-drive/src/index.ts
@@ -221,6 +221,11 @@ export function drive(options: DriveStoreOptions): NoydbBundleStore {
         await handles.setHandle(vaultId, { fileId: meta.id, name: meta.name })
         return { version: meta.headRevisionId }
       }
+      if (expectedVersion === null) {
+        throw new BundleVersionConflictError(
+          `A bundle for vault "${vaultId}" already exists but the write expected none.`,
+        )
+      }
       const meta = await client.updateFile(handle.fileId, {
         bytes,
         expectedRevision: expectedVersion,
diff --git a/packages/to-icloud/src/index.ts b/packages/to-icloud/src/index.ts
index 3b9423e..1bf0683 100644
--- a/packages/to-icloud/src/index.ts
+++ b/packages/to-icloud/src/index.ts
@@ -163,7 +163,12 @@ export function icloud(options: ICloudStoreOptions): NoydbBundleStore {
       const path = await pathFor(vaultId)
       const stat = await fs.stat(path)
       const current = stat ? versionOf(stat) : null
-      if (expectedVersion !== null && current !== null && expectedVersion !== current) {
+      if (current === null && await fs.stat(`${path}.icloud`)) {
+        throw new BundleVersionConflictError(
+          `iCloud bundle "${vaultId}${suffix}" is offloaded, so its version cannot be checked`,
+        )
+      }
+      if (current !== null && expectedVersion !== current) {
         throw new BundleVersionConflictError(
           `iCloud bundle version mismatch: expected ${expectedVersion}, found ${current}`,
         )
@@ -176,10 +181,12 @@ export function icloud(options: ICloudStoreOptions): NoydbBundleStore {
 
     async deleteBundle(vaultId) {
       const path = await pathFor(vaultId)
-      try {
-        await fs.unlink(path)
-      } catch {
-        // Idempotent
+      for (const target of [path, `${path}.icloud`]) {
+        try {
+          await fs.unlink(target)
+        } catch {
+          // Idempotent
+        }
       }
     },
 
-- 
2.43.0


From a7ce04622981ad1a6acfa1cc1a7d2b85903955d3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 11:16:33 +0000
Subject: [PATCH 83/87] fix: keep failing observers from changing the outcome
 of store calls

A throwing metrics callback turned a stored write into a failed one.
---
 packages/hub/src/store/store-middleware.ts | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/hub/src/store/store-middleware.ts b/packages/hub/src/store/store-middleware.ts
index 535f046..0c83c4b 100644
--- a/packages/hub/src/store/store-middleware.ts
+++ b/packages/hub/src/store/store-middleware.ts
@@ -215,6 +215,14 @@ export interface MetricsOptions {
  * metrics systems — the callback is synchronous and fire-and-forget.
  */
 export function withMetrics(opts: MetricsOptions): StoreMiddleware {
+  function report(op: StoreOperation): void {
+    try {
+      opts.onOperation(op)
+    } catch {
+      // A failing observer must not change the outcome of the operation
+    }
+  }
+
   function tracked<T>(
     method: StoreOperation['method'],
     vault: string,
@@ -225,7 +233,7 @@ export function withMetrics(opts: MetricsOptions): StoreMiddleware {
     const start = Date.now()
     return fn().then(
       (result) => {
-        opts.onOperation({
+        report({
           method, vault,
           ...(collection !== undefined ? { collection } : {}),
           ...(id !== undefined ? { id } : {}),
@@ -234,7 +242,7 @@ export function withMetrics(opts: MetricsOptions): StoreMiddleware {
         return result
       },
       (err) => {
-        opts.onOperation({
+        report({
           method, vault,
           ...(collection !== undefined ? { collection } : {}),
           ...(id !== undefined ? { id } : {}),
-- 
2.43.0


From 7389abf15fc84537f7ff0ae2b36689f719158eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 11:16:33 +0000
Subject: [PATCH 84/87] fix: end a slow spell only when writes are fast again

A successful liveness check reported a slow store as restored, and a
throwing callback left a reachable store marked unreachable.
---
 packages/to-meter/src/index.ts | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/packages/to-meter/src/index.ts b/packages/to-meter/src/index.ts
index 75887c7..daa0fcb 100644
--- a/packages/to-meter/src/index.ts
+++ b/packages/to-meter/src/index.ts
@@ -208,8 +208,10 @@ export function toMeter(inner: NoydbStore, options: MeterOptions = {}): ToMeterR
     for (const l of listeners) {
       try { l(event) } catch { /* isolate listener errors */ }
     }
-    if (next === 'degraded' && prior !== 'degraded') options.onDegraded?.(event)
-    if (next === 'ok' && prior !== 'ok') options.onRestored?.(event)
+    try {
+      if (next === 'degraded' && prior !== 'degraded') options.onDegraded?.(event)
+      if (next === 'ok' && prior !== 'ok') options.onRestored?.(event)
+    } catch { /* isolate callback errors */ }
   }
 
   // Build the wrapped store via hub's withMetrics middleware (one event
@@ -225,7 +227,11 @@ export function toMeter(inner: NoydbStore, options: MeterOptions = {}): ToMeterR
 
   // Optional synthetic liveness timer
   const livenessTimer = options.liveness
-    ? startLiveness(inner, options.liveness, transition)
+    ? startLiveness(inner, options.liveness, (next, method, p99, reason) => {
+        // A live store may still be slow: only an outage ends here
+        if (next === 'ok' && currentStatus !== 'unreachable') return
+        transition(next, method, p99, reason)
+      })
     : null
 
   const handle: MeterHandle = {
-- 
2.43.0


From 04d087900bcc20eada38f51a67c554d530b61bee Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 11:18:09 +0000
Subject: [PATCH 85/87] fix: import the store functions the packages actually
 export

The generated DynamoDB and S3 configurations named functions that do not
exist, so none of them could be loaded.
---
 packages/cli/src/commands/config.ts | 42 ++++++++++++++---------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/packages/cli/src/commands/config.ts b/packages/cli/src/commands/config.ts
index 806b236..6e78634 100644
--- a/packages/cli/src/commands/config.ts
+++ b/packages/cli/src/commands/config.ts
@@ -175,12 +175,12 @@ export function scaffold(profile: Profile): ScaffoldResult {
       code: [
         `import { createNoydb, INDEXED_STORE_POLICY } from '@noy-db/hub'`,
         `import { browserIdbStore } from '@noy-db/to-browser-idb'`,
-        `import { awsDynamoStore } from '@noy-db/to-aws-dynamo'`,
+        `import { dynamo } from '@noy-db/to-aws-dynamo'`,
         ``,
         `export default {`,
         `  store: browserIdbStore({ prefix: process.env.NOYDB_APP ?? 'myapp' }),`,
         `  sync: [{`,
-        `    store: awsDynamoStore({`,
+        `    store: dynamo({`,
         `      table:  process.env.NOYDB_DYNAMO_TABLE!,`,
         `      region: process.env.AWS_REGION ?? 'us-east-1',`,
         `    }),`,
@@ -198,16 +198,16 @@ export function scaffold(profile: Profile): ScaffoldResult {
       profile, notes: 'Records + blobs split (routeStore). Dynamo for records, S3 for blobs.',
       code: [
         `import { createNoydb, routeStore } from '@noy-db/hub'`,
-        `import { awsDynamoStore } from '@noy-db/to-aws-dynamo'`,
-        `import { awsS3Store } from '@noy-db/to-aws-s3'`,
+        `import { dynamo } from '@noy-db/to-aws-dynamo'`,
+        `import { s3 } from '@noy-db/to-aws-s3'`,
         ``,
         `export default {`,
         `  store: routeStore({`,
-        `    default: awsDynamoStore({`,
+        `    default: dynamo({`,
         `      table:  process.env.NOYDB_DYNAMO_TABLE!,`,
         `      region: process.env.AWS_REGION ?? 'us-east-1',`,
         `    }),`,
-        `    blobs:   awsS3Store({`,
+        `    blobs:   s3({`,
         `      bucket: process.env.NOYDB_S3_BUCKET!,`,
         `      region: process.env.AWS_REGION ?? 'us-east-1',`,
         `    }),`,
@@ -222,11 +222,11 @@ export function scaffold(profile: Profile): ScaffoldResult {
       profile, notes: 'Middleware-hardened production: retry + breaker + cache + metrics.',
       code: [
         `import { createNoydb, wrapStore, withRetry, withCircuitBreaker, withCache, withHealthCheck, withMetrics } from '@noy-db/hub'`,
-        `import { awsDynamoStore } from '@noy-db/to-aws-dynamo'`,
+        `import { dynamo } from '@noy-db/to-aws-dynamo'`,
         ``,
         `export default {`,
         `  store: wrapStore(`,
-        `    awsDynamoStore({ table: process.env.NOYDB_DYNAMO_TABLE! }),`,
+        `    dynamo({ table: process.env.NOYDB_DYNAMO_TABLE! }),`,
         `    withRetry({ maxRetries: 3 }),`,
         `    withCircuitBreaker({ failureThreshold: 5, resetTimeoutMs: 30_000 }),`,
         `    withCache({ ttlMs: 60_000 }),`,
@@ -243,14 +243,14 @@ export function scaffold(profile: Profile): ScaffoldResult {
       profile, notes: 'Hot + cold tiered. Records age out to archive after N days.',
       code: [
         `import { createNoydb, routeStore } from '@noy-db/hub'`,
-        `import { awsDynamoStore } from '@noy-db/to-aws-dynamo'`,
-        `import { awsS3Store } from '@noy-db/to-aws-s3'`,
+        `import { dynamo } from '@noy-db/to-aws-dynamo'`,
+        `import { s3 } from '@noy-db/to-aws-s3'`,
         ``,
         `export default {`,
         `  store: routeStore({`,
-        `    default: awsDynamoStore({ table: process.env.NOYDB_DYNAMO_TABLE! }),`,
+        `    default: dynamo({ table: process.env.NOYDB_DYNAMO_TABLE! }),`,
         `    age: {`,
-        `      cold:          awsS3Store({ bucket: process.env.NOYDB_S3_COLD! }),`,
+        `      cold:          s3({ bucket: process.env.NOYDB_S3_COLD! }),`,
         `      coldAfterDays: Number(process.env.NOYDB_COLD_AFTER_DAYS ?? '90'),`,
         `    },`,
         `  }),`,
@@ -265,15 +265,15 @@ export function scaffold(profile: Profile): ScaffoldResult {
       code: [
         `import { createNoydb } from '@noy-db/hub'`,
         `import { browserIdbStore } from '@noy-db/to-browser-idb'`,
-        `import { awsDynamoStore } from '@noy-db/to-aws-dynamo'`,
-        `import { awsS3Store } from '@noy-db/to-aws-s3'`,
+        `import { dynamo } from '@noy-db/to-aws-dynamo'`,
+        `import { s3 } from '@noy-db/to-aws-s3'`,
         ``,
         `export default {`,
         `  store: browserIdbStore({ prefix: process.env.NOYDB_APP ?? 'team' }),`,
         `  sync: [`,
-        `    { store: awsDynamoStore({ table: process.env.NOYDB_DYNAMO_TABLE! }), role: 'sync-peer', label: 'team-hot' },`,
-        `    { store: awsS3Store({ bucket: process.env.NOYDB_S3_BACKUP! }),       role: 'backup',    label: 'team-backup' },`,
-        `    { store: awsS3Store({ bucket: process.env.NOYDB_S3_ARCHIVE! }),      role: 'archive',   label: 'team-archive' },`,
+        `    { store: dynamo({ table: process.env.NOYDB_DYNAMO_TABLE! }), role: 'sync-peer', label: 'team-hot' },`,
+        `    { store: s3({ bucket: process.env.NOYDB_S3_BACKUP! }),       role: 'backup',    label: 'team-backup' },`,
+        `    { store: s3({ bucket: process.env.NOYDB_S3_ARCHIVE! }),      role: 'archive',   label: 'team-archive' },`,
         `  ],`,
         `  user:   process.env.NOYDB_USER ?? 'member',`,
         `  secret: process.env.NOYDB_SECRET,`,
@@ -286,12 +286,12 @@ export function scaffold(profile: Profile): ScaffoldResult {
       code: [
         `import { createNoydb } from '@noy-db/hub'`,
         `import { browserIdbStore } from '@noy-db/to-browser-idb'`,
-        `import { awsDynamoStore } from '@noy-db/to-aws-dynamo'`,
+        `import { dynamo } from '@noy-db/to-aws-dynamo'`,
         `// import { yjsCollection } from '@noy-db/in-yjs'   // use inside your app`,
         ``,
         `export default {`,
         `  store: browserIdbStore({ prefix: 'collab' }),`,
-        `  sync: [{ store: awsDynamoStore({ table: process.env.NOYDB_DYNAMO_TABLE! }), role: 'sync-peer' }],`,
+        `  sync: [{ store: dynamo({ table: process.env.NOYDB_DYNAMO_TABLE! }), role: 'sync-peer' }],`,
         `  user:   process.env.NOYDB_USER!,`,
         `  secret: process.env.NOYDB_SECRET,`,
         `}`,
@@ -318,14 +318,14 @@ export function scaffold(profile: Profile): ScaffoldResult {
       profile, notes: 'Multi-tenant geographic sharding — per-vault primary per region.',
       code: [
         `import { createNoydb } from '@noy-db/hub'`,
-        `import { awsDynamoStore } from '@noy-db/to-aws-dynamo'`,
+        `import { dynamo } from '@noy-db/to-aws-dynamo'`,
         ``,
         `// Pick the nearest region at init time based on tenant config.`,
         `const region = process.env.NOYDB_REGION ?? 'ap-southeast-1'`,
         `const table  = \`myapp-\${region}\``,
         ``,
         `export default {`,
-        `  store:  awsDynamoStore({ table, region }),`,
+        `  store:  dynamo({ table, region }),`,
         `  user:   process.env.NOYDB_USER!,`,
         `  secret: process.env.NOYDB_SECRET,`,
         `}`,
-- 
2.43.0


From 8a5fbe1937af7ea0f23e6d87cc5e8f1f0a0ecde5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 11:21:12 +0000
Subject: [PATCH 86/87] fix: drop an attachment load when the record is cleared

Clearing the record while its attachment was loading showed the address
of the old attachment afterwards.
---
 packages/in-vue/src/useBlobURL.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/in-vue/src/useBlobURL.ts b/packages/in-vue/src/useBlobURL.ts
index bebe5ed..fc1ee25 100644
--- a/packages/in-vue/src/useBlobURL.ts
+++ b/packages/in-vue/src/useBlobURL.ts
@@ -89,13 +89,13 @@ export function useBlobURL<T>(
     // create fails or the id resolves to null.
     revoke()
     url.value = null
-    if (!browserAware || stopped || !id) return
 
     // Token-guard against stale resolutions: if the id changes again
     // before this call's awaits settle, the older promise's result
     // must be discarded so we don't strand an URL that no upstream
     // ref points at.
     const myToken = ++loadToken
+    if (!browserAware || stopped || !id) return
     const mimeType =
       typeof options.mimeType === 'function'
         ? options.mimeType()
-- 
2.43.0


From 224b8f8059f0350282d98429653ed9132ccf1579 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 11:21:12 +0000
Subject: [PATCH 87/87] fix: report syncing until every sync operation has
 ended

---
 packages/in-vue/src/useSync.ts | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/packages/in-vue/src/useSync.ts b/packages/in-vue/src/useSync.ts
index b4fe772..d3b3604 100644
--- a/packages/in-vue/src/useSync.ts
+++ b/packages/in-vue/src/useSync.ts
@@ -32,6 +32,17 @@ export function useSync(db: Noydb, compartmentName: string): UseSyncReturn {
     online: true,
   }) as Ref<SyncStatus>
   const syncing = ref(false)
+  let running = 0
+
+  function begin(): void {
+    running++
+    syncing.value = true
+  }
+
+  function end(): void {
+    running--
+    syncing.value = running > 0
+  }
 
   function refreshStatus(): void {
     status.value = db.syncStatus(compartmentName)
@@ -49,34 +60,34 @@ export function useSync(db: Noydb, compartmentName: string): UseSyncReturn {
   })
 
   async function push(): Promise<PushResult> {
-    syncing.value = true
+    begin()
     try {
       const result = await db.push(compartmentName)
       refreshStatus()
       return result
     } finally {
-      syncing.value = false
+      end()
     }
   }
 
   async function pull(): Promise<PullResult> {
-    syncing.value = true
+    begin()
     try {
       const result = await db.pull(compartmentName)
       refreshStatus()
       return result
     } finally {
-      syncing.value = false
+      end()
     }
   }
 
   async function sync(): Promise<void> {
-    syncing.value = true
+    begin()
     try {
       await db.sync(compartmentName)
       refreshStatus()
     } finally {
-      syncing.value = false
+      end()
     }
   }
 
-- 
2.43.0

