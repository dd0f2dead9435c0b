// Helpers to open real databases on instrumented stores.
import { createNoydb, ConflictError } from '@noy-db/hub'
import { withHistory } from '@noy-db/hub/history'
import { withIndexing } from '@noy-db/hub/indexing'
import { withAggregate } from '@noy-db/hub/aggregate'
import { withBlobs } from '@noy-db/hub/blobs'
import { withCrdt } from '@noy-db/hub/crdt'
import { withConsent } from '@noy-db/hub/consent'
import { withPeriods } from '@noy-db/hub/periods'
import { withShadow } from '@noy-db/hub/shadow'
import { withTransactions } from '@noy-db/hub/tx'
import { withI18n } from '@noy-db/hub/i18n'
import { withSession } from '@noy-db/hub/session'
import { withSync } from '@noy-db/hub/sync'
import { RefStore, instrument } from './store.mjs'

export const PASS = 'correct-horse-battery-staple-9'
export const newRef = () => new RefStore(ConflictError)
export function strategies(which = 'all') {
  const all = {
    historyStrategy: withHistory, indexStrategy: withIndexing, aggregateStrategy: withAggregate, blobStrategy: withBlobs, crdtStrategy: withCrdt,
    consentStrategy: withConsent, periodsStrategy: withPeriods, shadowStrategy: withShadow, txStrategy: withTransactions, i18nStrategy: withI18n,
    sessionStrategy: withSession, syncStrategy: withSync,
  }
  const o = {}
  for (const k in all) if (which === 'all' || which.includes(k.replace('Strategy', ''))) o[k] = all[k]()
  return o
}
export async function open(store, { user = 'alice', secret = PASS, features = 'all', vault = 'acme', ...rest } = {}) {
  const db = await createNoydb({ store, user, secret, ...strategies(features), ...rest })
  const v = vault ? await db.openVault(vault) : null
  return { db, v }
}
export { instrument, RefStore }
// the same, for an owner who may export and import the given plaintext formats
export async function openExporter(store, { formats = ['*'], imports = formats, user = 'alice', secret = PASS, vault = 'acme', ...rest } = {}) {
  const boot = await open(store, { user, secret, vault, features: [] })
  await boot.db.grant(vault, { userId: user, displayName: user, role: 'owner', passphrase: secret, exportCapability: { plaintext: formats, bundle: true }, importCapability: { plaintext: imports, bundle: true } })
  boot.db.close()
  return open(store, { user, secret, vault, ...rest })
}
