From dba16bd49b3141e67a5f0f04bd4c26ef0533784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:41 +0000
Subject: [PATCH 01/58] fix: store the IV that actually encrypted a presence
 payload

---
 packages/hub/src/team/presence.ts | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/packages/hub/src/team/presence.ts b/packages/hub/src/team/presence.ts
index ae99b5f..e597237 100644
--- a/packages/hub/src/team/presence.ts
+++ b/packages/hub/src/team/presence.ts
@@ -16,7 +16,7 @@
  */
 
 import type { NoydbStore, PresencePeer } from '../types.js'
-import { encrypt, decrypt, generateIV, bufferToBase64, derivePresenceKey } from '../crypto.js'
+import { encrypt, decrypt, derivePresenceKey } from '../crypto.js'
 
 /** Options for constructing a PresenceHandle. @internal */
 export interface PresenceHandleOpts {
@@ -101,10 +101,8 @@ export class PresenceHandle<P> {
     let encryptedPayload: string
 
     if (this.encrypted && key) {
-      const iv = generateIV()
-      const ivB64 = bufferToBase64(iv)
-      const { data } = await encrypt(plaintext, key)
-      encryptedPayload = JSON.stringify({ iv: ivB64, data })
+      const { iv, data } = await encrypt(plaintext, key)
+      encryptedPayload = JSON.stringify({ iv, data })
     } else {
       encryptedPayload = plaintext
     }
@@ -239,9 +237,8 @@ export class PresenceHandle<P> {
     let data: string
 
     if (this.encrypted && key) {
-      const ivBytes = generateIV()
-      iv = bufferToBase64(ivBytes)
       const result = await encrypt(plaintext, key)
+      iv = result.iv
       data = result.data
     } else {
       data = plaintext
-- 
2.43.0


From 2dd15c65d32fd7c3cf9186d6f662abe0a60819fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:00 +0000
Subject: [PATCH 02/58] fix: never publish or accept plaintext presence while
 encryption is on

---
 packages/hub/src/team/presence.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/hub/src/team/presence.ts b/packages/hub/src/team/presence.ts
index e597237..471c0a4 100644
--- a/packages/hub/src/team/presence.ts
+++ b/packages/hub/src/team/presence.ts
@@ -96,6 +96,8 @@ export class PresenceHandle<P> {
     if (this.stopped) return
 
     const key = await this.getPresenceKey()
+    // No key, no announcement: never fall back to a plaintext payload.
+    if (this.encrypted && !key) return
     const now = new Date().toISOString()
     const plaintext = JSON.stringify({ userId: this.userId, lastSeen: now, payload })
     let encryptedPayload: string
@@ -221,6 +223,7 @@ export class PresenceHandle<P> {
   ): Promise<{ userId: string; lastSeen: string; payload: P } | null> {
     const key = await this.getPresenceKey()
 
+    if (this.encrypted && !key) return null
     if (!this.encrypted || !key) {
       return JSON.parse(encryptedPayload) as { userId: string; lastSeen: string; payload: P }
     }
@@ -232,6 +235,7 @@ export class PresenceHandle<P> {
 
   private async writeStorageRecord(payload: P, now: string): Promise<void> {
     const key = await this.getPresenceKey()
+    if (this.encrypted && !key) return
     const plaintext = JSON.stringify(payload)
     let iv = ''
     let data: string
@@ -287,8 +291,10 @@ export class PresenceHandle<P> {
         if (record.lastSeen < cutoff) continue
 
         let peerPayload: P
-        if (this.encrypted && this.presenceKey && record.iv) {
-          const plaintext = await decrypt(record.iv, record.data, this.presenceKey)
+        if (this.encrypted) {
+          const key = await this.getPresenceKey()
+          if (!key || !record.iv) continue
+          const plaintext = await decrypt(record.iv, record.data, key)
           peerPayload = JSON.parse(plaintext) as P
         } else {
           peerPayload = JSON.parse(record.data) as P
-- 
2.43.0


From a099185da9597e68adc46fcd1742c6f252695561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:02:41 +0000
Subject: [PATCH 03/58] fix: require write permission for tier writes

putAtTier, elevate and demote re-encrypted and stored records for any
caller holding the tier key, so read-only roles could change records.
---
 packages/hub/src/collection.ts | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 9c59ac4..37c4096 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -2688,6 +2688,9 @@ export class Collection<T> {
     this.assertTiersEnabled()
     this.assertDeclaredTier(tier)
     assertTierAccess(this.keyring, this.name, tier)
+    if (!hasWritePermission(this.keyring, this.name)) {
+      throw new ReadOnlyError()
+    }
 
     const key = dekKey(this.name, tier)
     const dek = await this.getDEK(key)
@@ -2802,6 +2805,9 @@ export class Collection<T> {
     this.assertTiersEnabled()
     this.assertDeclaredTier(toTier)
     assertTierAccess(this.keyring, this.name, toTier)
+    if (!hasWritePermission(this.keyring, this.name)) {
+      throw new ReadOnlyError()
+    }
 
     const envelope = await this.adapter.get(this.vault, this.name, id)
     if (!envelope) throw new Error(`Record "${id}" not found in collection "${this.name}"`)
@@ -2867,6 +2873,9 @@ export class Collection<T> {
     // Caller must still hold the DEK of the current tier to decrypt.
     assertTierAccess(this.keyring, this.name, fromTier)
     if (toTier > 0) this.assertDeclaredTier(toTier)
+    if (!hasWritePermission(this.keyring, this.name)) {
+      throw new ReadOnlyError()
+    }
 
     const fromDek = await this.getDEK(dekKey(this.name, fromTier))
     const toDek = await this.getDEK(dekKey(this.name, toTier))
-- 
2.43.0


From e2871fad8d06d5ac4e01b8f8c5fa66cf9bf751c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:02:41 +0000
Subject: [PATCH 04/58] fix: require write permission to prune or clear history

Read-only roles could delete every saved version of a record.
---
 packages/hub/src/collection.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 37c4096..e0204f2 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -1721,6 +1721,9 @@ export class Collection<T> {
 
   /** Prune history entries for a record (or all records if id is undefined). */
   async pruneRecordHistory(id: string | undefined, options: PruneOptions): Promise<number> {
+    if (!hasWritePermission(this.keyring, this.name)) {
+      throw new ReadOnlyError()
+    }
     const pruned = await this.historyStrategy.pruneHistory(
       this.adapter, this.vault, this.name, id, options,
     )
@@ -1737,6 +1740,9 @@ export class Collection<T> {
 
   /** Clear all history for this collection (or a specific record). */
   async clearHistory(id?: string): Promise<number> {
+    if (!hasWritePermission(this.keyring, this.name)) {
+      throw new ReadOnlyError()
+    }
     return this.historyStrategy.clearHistory(this.adapter, this.vault, this.name, id)
   }
 
-- 
2.43.0


From 60a0abcdf4b3a3258e321414649d525142b32080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:34 +0000
Subject: [PATCH 05/58] fix: require write permission to change attachments

A read-only role could upload, delete or publish attachments of a
record it may only read.
---
 packages/hub/src/blobs/blob-set.ts | 10 +++++++++-
 packages/hub/src/blobs/strategy.ts |  1 +
 packages/hub/src/collection.ts     |  1 +
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/packages/hub/src/blobs/blob-set.ts b/packages/hub/src/blobs/blob-set.ts
index 2b529c6..a000d18 100644
--- a/packages/hub/src/blobs/blob-set.ts
+++ b/packages/hub/src/blobs/blob-set.ts
@@ -18,7 +18,7 @@ import {
   bufferToBase64,
   base64ToBuffer,
 } from '../crypto.js'
-import { ConflictError, NotFoundError } from '../errors.js'
+import { ConflictError, NotFoundError, ReadOnlyError } from '../errors.js'
 import { detectMagic, isPreCompressed } from './mime-magic.js'
 
 // ─── Internal collection names ─────────────────────────────────────────
@@ -140,6 +140,7 @@ export class BlobSet {
   private readonly encrypted: boolean
   private readonly userId: string | undefined
   private readonly maxBlobBytes: number | undefined
+  private readonly canWrite: boolean
 
   constructor(opts: {
     store: NoydbStore
@@ -150,6 +151,8 @@ export class BlobSet {
     encrypted: boolean
     userId?: string
     maxBlobBytes?: number
+    /** False when the caller may not write to the parent collection. */
+    canWrite?: boolean
   }) {
     this.store = opts.store
     this.vault = opts.vault
@@ -159,6 +162,7 @@ export class BlobSet {
     this.encrypted = opts.encrypted
     this.userId = opts.userId
     this.maxBlobBytes = opts.maxBlobBytes
+    this.canWrite = opts.canWrite ?? true
   }
 
   /** The internal collection that holds slot metadata for this collection's blobs. */
@@ -442,6 +446,7 @@ export class BlobSet {
    *    If overwriting an existing slot, decrements the old eTag's refCount.
    */
   async put(slotName: string, data: Uint8Array, opts?: BlobPutOptions): Promise<void> {
+    if (!this.canWrite) throw new ReadOnlyError()
     // Step 1 — keyed content-hash (plaintext, before compression)
     const blobDEK = this.encrypted ? await this.getDEK(BLOB_COLLECTION) : null
     const eTag = blobDEK
@@ -565,6 +570,7 @@ export class BlobSet {
    * Decrements refCount on the blob. Chunks are GC'd by `vault.blobGC()`.
    */
   async delete(slotName: string): Promise<void> {
+    if (!this.canWrite) throw new ReadOnlyError()
     let eTagToDecrement: string | undefined
 
     await this.casUpdateSlots((slots) => {
@@ -663,6 +669,7 @@ export class BlobSet {
    * refCounts are adjusted accordingly.
    */
   async publish(slotName: string, label: string): Promise<void> {
+    if (!this.canWrite) throw new ReadOnlyError()
     const { slots } = await this.loadSlots()
     const slot = slots[slotName]
     if (!slot) throw new NotFoundError(`Slot "${slotName}" not found on record "${this.recordId}"`)
@@ -732,6 +739,7 @@ export class BlobSet {
    * Delete a published version. Decrements refCount on its blob.
    */
   async deleteVersion(slotName: string, label: string): Promise<void> {
+    if (!this.canWrite) throw new ReadOnlyError()
     const record = await this.loadVersionRecord(slotName, label)
     if (!record) return
 
diff --git a/packages/hub/src/blobs/strategy.ts b/packages/hub/src/blobs/strategy.ts
index 1987bbf..2e7495e 100644
--- a/packages/hub/src/blobs/strategy.ts
+++ b/packages/hub/src/blobs/strategy.ts
@@ -30,6 +30,7 @@ export interface BlobStrategyOpenArgs {
   readonly getDEK: (collectionName: string) => Promise<CryptoKey>
   readonly encrypted: boolean
   readonly userId: string
+  readonly canWrite?: boolean
 }
 
 /**
diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index e0204f2..42c3701 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -2198,6 +2198,7 @@ export class Collection<T> {
       getDEK: this.getDEK,
       encrypted: this.encrypted,
       userId: this.keyring.userId,
+      canWrite: hasWritePermission(this.keyring, this.name),
     })
   }
 
-- 
2.43.0


From 65e729e22dcf95cfffecc3d790348c24c2bf1c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:41 +0000
Subject: [PATCH 06/58] fix: only owners and admins may rotate keys

---
 packages/hub/src/team/keyring.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/hub/src/team/keyring.ts b/packages/hub/src/team/keyring.ts
index 0e16892..dd48452 100644
--- a/packages/hub/src/team/keyring.ts
+++ b/packages/hub/src/team/keyring.ts
@@ -400,6 +400,10 @@ export async function rotateKeys(
   callerKeyring: UnlockedKeyring,
   collections: string[],
 ): Promise<void> {
+  if (callerKeyring.role !== 'owner' && callerKeyring.role !== 'admin') {
+    throw new PermissionDeniedError(`Role "${callerKeyring.role}" cannot rotate keys`)
+  }
+
   // Generate new DEKs for each affected collection
   const newDeks = new Map<string, CryptoKey>()
   for (const collName of collections) {
-- 
2.43.0


From aa82a8c5b7da7cb43ed99bfccbf8febec994ce39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:31:01 +0000
Subject: [PATCH 07/58] fix: rotate only collections whose key the caller holds

---
 packages/hub/src/team/keyring.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/hub/src/team/keyring.ts b/packages/hub/src/team/keyring.ts
index dd48452..6e60979 100644
--- a/packages/hub/src/team/keyring.ts
+++ b/packages/hub/src/team/keyring.ts
@@ -404,9 +404,11 @@ export async function rotateKeys(
     throw new PermissionDeniedError(`Role "${callerKeyring.role}" cannot rotate keys`)
   }
 
-  // Generate new DEKs for each affected collection
+  // Generate new DEKs for each affected collection. A collection whose key
+  // the caller does not hold cannot be re-encrypted, so it keeps its key.
   const newDeks = new Map<string, CryptoKey>()
   for (const collName of collections) {
+    if (!callerKeyring.deks.has(collName)) continue
     newDeks.set(collName, await generateDEK())
   }
 
@@ -509,12 +511,12 @@ export async function rotateKeys(
     // This is correct and secure — just requires the owner to re-run grant().
 
     const updatedDeks = { ...userKeyringFile.deks }
-    for (const collName of collections) {
+    for (const collName of newDeks.keys()) {
       delete updatedDeks[collName]
     }
 
     const updatedPermissions = { ...userKeyringFile.permissions }
-    for (const collName of collections) {
+    for (const collName of newDeks.keys()) {
       delete updatedPermissions[collName]
     }
 
-- 
2.43.0


From 316908cb09003a30a6aa774afc00e34096b3a1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:09 +0000
Subject: [PATCH 08/58] fix: demoting a record requires the key of the tier it
 is demoted to

---
 packages/hub/src/collection.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 42c3701..530d74d 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -2877,8 +2877,10 @@ export class Collection<T> {
     if (!isOwner && !isOriginalElevator) {
       throw new TierDemoteDeniedError(id, fromTier)
     }
-    // Caller must still hold the DEK of the current tier to decrypt.
+    // Caller must still hold the DEK of the current tier to decrypt, and
+    // that of the target tier to re-encrypt.
     assertTierAccess(this.keyring, this.name, fromTier)
+    assertTierAccess(this.keyring, this.name, toTier)
     if (toTier > 0) this.assertDeclaredTier(toTier)
     if (!hasWritePermission(this.keyring, this.name)) {
       throw new ReadOnlyError()
-- 
2.43.0


From 21013a80f5ef6c91df9d7253af7b68708ff2dd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:58 +0000
Subject: [PATCH 09/58] fix: the library's own collections cannot be opened as
 ordinary collections

---
 packages/hub/src/errors.ts |  9 ++++++---
 packages/hub/src/vault.ts  | 14 +++++++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/packages/hub/src/errors.ts b/packages/hub/src/errors.ts
index 4405bed..0cb3e02 100644
--- a/packages/hub/src/errors.ts
+++ b/packages/hub/src/errors.ts
@@ -835,7 +835,8 @@ export class BundleIntegrityError extends NoydbError {
 
 /**
  * Thrown when `vault.collection()` is called with a name that is
- * reserved for NOYDB internal use (any name starting with `_dict_`).
+ * reserved for NOYDB internal use (any name starting with `_dict_`, and
+ * the collections behind key files, ledger, history, attachments, …).
  *
  * Dictionary collections are accessed exclusively via
  * `vault.dictionary(name)` — attempting to open one as a regular
@@ -850,8 +851,10 @@ export class ReservedCollectionNameError extends NoydbError {
     super(
       'RESERVED_COLLECTION_NAME',
       `"${collectionName}" is a reserved collection name. ` +
-        `Use vault.dictionary("${collectionName.replace(/^_dict_/, '')}") ` +
-        `to access dictionary collections.`,
+        (collectionName.startsWith('_dict_')
+          ? `Use vault.dictionary("${collectionName.replace(/^_dict_/, '')}") ` +
+            `to access dictionary collections.`
+          : `It is managed by the library itself.`),
     )
     this.name = 'ReservedCollectionNameError'
     this.collectionName = collectionName
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index dda8f9c..11e521c 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -87,6 +87,13 @@ import {
   type MagicLinkGrantRecord,
 } from './team/magic-link-grant.js'
 
+/**
+ * Collections the library keeps for itself. Each has its own API that
+ * enforces who may read or change it, so `vault.collection()` refuses them.
+ */
+const INTERNAL_COLLECTION =
+  /^_(keyring|sync|sync_credentials|meta|ledger|ledger_deltas|history|periods|delegations|magic_link_grants|consent_audit|elevation_audit|export_audit|blob_.*|presence_.*)$/
+
 /** A vault (tenant namespace) containing collections. */
 export class Vault {
   private readonly adapter: NoydbStore
@@ -378,7 +385,8 @@ export class Vault {
    *. `put()` validates keys against the declared set; reads
    *   with `{ locale }` add `<field>Label` virtual fields.
    *
-   * Throws `ReservedCollectionNameError` for names starting with `_dict_`.
+   * Throws `ReservedCollectionNameError` for names starting with `_dict_`
+   * and for the collections the library keeps for itself (`_keyring`, …).
    * Use `vault.dictionary(name)` to access dictionary collections.
    *
    * Lazy mode + indexes is rejected at construction time — see the
@@ -419,8 +427,8 @@ export class Vault {
     /** #208 — how lower-tier reads see above-tier records. */
     tierMode?: TierMode
   }): Collection<T> {
-    // Guard: reject reserved _dict_* names
-    if (isDictCollectionName(collectionName)) {
+    // Guard: reject reserved _dict_* names and the library's own collections
+    if (isDictCollectionName(collectionName) || INTERNAL_COLLECTION.test(collectionName)) {
       throw new ReservedCollectionNameError(collectionName)
     }
 
-- 
2.43.0


From cbd4aed883888fd2835dbba580990800dacdc9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:00 +0000
Subject: [PATCH 10/58] fix: rewriting a key file keeps its grantor, expiry and
 capabilities

---
 packages/hub/src/team/keyring.ts | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/packages/hub/src/team/keyring.ts b/packages/hub/src/team/keyring.ts
index 6e60979..09e3775 100644
--- a/packages/hub/src/team/keyring.ts
+++ b/packages/hub/src/team/keyring.ts
@@ -76,6 +76,10 @@ export interface UnlockedKeyring {
    * bundle import granted, regardless of role).
    */
   readonly importCapability?: ImportCapability
+  /** Who granted this access; kept when the key file is rewritten. */
+  readonly grantedBy?: string
+  /** End of a time-limited slot (#306); kept when the key file is rewritten. */
+  readonly expiresAt?: string
 }
 
 // ─── Load / Create ─────────────────────────────────────────────────────
@@ -126,6 +130,8 @@ export async function loadKeyring(
     salt,
     ...(keyringFile.export_capability !== undefined && { exportCapability: keyringFile.export_capability }),
     ...(keyringFile.import_capability !== undefined && { importCapability: keyringFile.import_capability }),
+    grantedBy: keyringFile.granted_by,
+    ...(keyringFile.expires_at !== undefined && { expiresAt: keyringFile.expires_at }),
   }
 }
 
@@ -557,16 +563,16 @@ export async function changeSecret(
     deks: wrappedDeks,
     salt: bufferToBase64(newSalt),
     created_at: new Date().toISOString(),
-    granted_by: keyring.userId,
+    granted_by: keyring.grantedBy ?? keyring.userId,
+    ...(keyring.expiresAt !== undefined && { expires_at: keyring.expiresAt }),
+    ...(keyring.exportCapability !== undefined && { export_capability: keyring.exportCapability }),
+    ...(keyring.importCapability !== undefined && { import_capability: keyring.importCapability }),
   }
 
   await writeKeyringFile(adapter, vault, keyring.userId, keyringFile)
 
   return {
-    userId: keyring.userId,
-    displayName: keyring.displayName,
-    role: keyring.role,
-    permissions: keyring.permissions,
+    ...keyring,
     deks: keyring.deks, // Same DEKs, different wrapping
     kek: newKek,
     salt: newSalt,
@@ -797,7 +803,8 @@ export async function persistKeyring(
     deks: wrappedDeks,
     salt: bufferToBase64(keyring.salt),
     created_at: new Date().toISOString(),
-    granted_by: keyring.userId,
+    granted_by: keyring.grantedBy ?? keyring.userId,
+    ...(keyring.expiresAt !== undefined && { expires_at: keyring.expiresAt }),
     ...(keyring.exportCapability !== undefined && { export_capability: keyring.exportCapability }),
     ...(keyring.importCapability !== undefined && { import_capability: keyring.importCapability }),
   }
-- 
2.43.0


From ad93ce065c598c8d7ae43c4dbb532f912c1253e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:00 +0000
Subject: [PATCH 11/58] fix: the REST vault list reports a failed listing
 instead of an empty one

---
 packages/in-rest/src/router.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/in-rest/src/router.ts b/packages/in-rest/src/router.ts
index 8329588..ed4edc9 100644
--- a/packages/in-rest/src/router.ts
+++ b/packages/in-rest/src/router.ts
@@ -83,7 +83,7 @@ export function buildRouter(store: NoydbStore, user: string, sessions: SessionSt
         }
         return json(200, [])
       } catch {
-        return json(200, [])
+        return json(500, { error: 'internal_error' })
       }
     }
 
-- 
2.43.0


From 437273f69b28fef6bf094e2fde409ad817ce29aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:00 +0000
Subject: [PATCH 12/58] fix: default AI tool calls cannot name internal
 collections

---
 packages/in-ai/src/index.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/in-ai/src/index.ts b/packages/in-ai/src/index.ts
index f50385c..825eea2 100644
--- a/packages/in-ai/src/index.ts
+++ b/packages/in-ai/src/index.ts
@@ -247,6 +247,10 @@ export async function invokeToolCall(
     throw new ToolNotFoundError(call.name)
   }
   const { collection, op } = parsed
+  // Internal collections are never part of the default toolset.
+  if (!options.allowedCollections && collection.startsWith('_')) {
+    throw new ToolNotFoundError(call.name)
+  }
 
   const allowedOps = options.allowedOperations ?? ['list', 'get']
   if (!allowedOps.includes(op)) {
-- 
2.43.0


From c1e7f101c53c3715b60e3fb59ae56e1d690a91ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:00 +0000
Subject: [PATCH 13/58] fix: a wiped lockout state stays locked after the
 window has passed

---
 packages/on-threat/src/index.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/on-threat/src/index.ts b/packages/on-threat/src/index.ts
index a710397..f9d3463 100644
--- a/packages/on-threat/src/index.ts
+++ b/packages/on-threat/src/index.ts
@@ -94,6 +94,9 @@ export function recordFailure(state: LockoutState, config: LockoutConfig = {}):
   const now = new Date()
   const nowMs = now.getTime()
 
+  // Terminal — a wiped keyring stays locked however much time passes.
+  if (state.wiped) return { locked: true, wipe: true }
+
   // Still inside an active lockout — pass-through.
   if (state.lockedUntil) {
     const unlockMs = new Date(state.lockedUntil).getTime()
-- 
2.43.0


From f0ff6502b9d00e9c3312afebca140f9e640d51ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:22 +0000
Subject: [PATCH 14/58] fix: charge a PIN attempt before deriving the key

Parallel resume calls all read the same attempt count while the key was
being derived, so any number of guesses could run against one budget.
---
 packages/on-pin/src/index.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/packages/on-pin/src/index.ts b/packages/on-pin/src/index.ts
index 676d168..63d3c30 100644
--- a/packages/on-pin/src/index.ts
+++ b/packages/on-pin/src/index.ts
@@ -232,6 +232,10 @@ export async function resumePin(
   const iv = base64ToBytes(state.iv)
   const ciphertext = base64ToBytes(state.wrappedKeyring)
 
+  // Charge the attempt before the slow derivation and give it back on
+  // success, so parallel guesses cannot outrun the budget.
+  state.attempts = state.attempts + 1
+
   const wrappingKey = await deriveWrappingKey(options.pin, salt)
 
   let plaintext: ArrayBuffer
@@ -242,12 +246,12 @@ export async function resumePin(
       ciphertext as BufferSource,
     )
   } catch {
-    // AES-GCM auth failure. Increment the attempts counter before
-    // throwing so repeated wrong PINs progressively lock the state.
-    state.attempts = state.attempts + 1
+    // AES-GCM auth failure. The attempt stays counted, so repeated
+    // wrong PINs progressively lock the state.
     throw new PinInvalidError()
   }
 
+  state.attempts = state.attempts - 1
   return deserializeKeyring(new Uint8Array(plaintext))
 }
 
-- 
2.43.0


From 3c3a155a0fe926027981fbab8fb370e201a99b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:22 +0000
Subject: [PATCH 15/58] fix: honour expectedVersion inside Turso and D1
 transactions

The batched form of tx() ignored the expected version of its puts, so a
transaction built on a stale read overwrote the newer record.
---
 packages/to-cloudflare-d1/src/index.ts | 27 ++++++++++++++++--------
 packages/to-turso/src/index.ts         | 29 +++++++++++++++++---------
 2 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/packages/to-cloudflare-d1/src/index.ts b/packages/to-cloudflare-d1/src/index.ts
index a7fad65..8e4ca12 100644
--- a/packages/to-cloudflare-d1/src/index.ts
+++ b/packages/to-cloudflare-d1/src/index.ts
@@ -133,6 +133,22 @@ export function d1(options: D1StoreOptions): NoydbStore {
       )
   }
 
+  async function assertVersion(
+    vault: string,
+    collection: string,
+    id: string,
+    expectedVersion: number | undefined,
+  ): Promise<void> {
+    if (expectedVersion === undefined) return
+    const existing = await db
+      .prepare(`SELECT v FROM ${tableName} WHERE vault = ? AND collection = ? AND id = ?`)
+      .bind(vault, collection, id)
+      .first<{ v: number }>()
+    if (existing && existing.v !== expectedVersion) {
+      throw new ConflictError(existing.v, `Version conflict: expected ${expectedVersion}, found ${existing.v}`)
+    }
+  }
+
   async function upsert(
     vault: string,
     collection: string,
@@ -141,15 +157,7 @@ export function d1(options: D1StoreOptions): NoydbStore {
     expectedVersion?: number,
   ): Promise<void> {
     await ensureSchema()
-    if (expectedVersion !== undefined) {
-      const existing = await db
-        .prepare(`SELECT v FROM ${tableName} WHERE vault = ? AND collection = ? AND id = ?`)
-        .bind(vault, collection, id)
-        .first<{ v: number }>()
-      if (existing && existing.v !== expectedVersion) {
-        throw new ConflictError(existing.v, `Version conflict: expected ${expectedVersion}, found ${existing.v}`)
-      }
-    }
+    await assertVersion(vault, collection, id, expectedVersion)
     await upsertStatement(vault, collection, id, envelope).run()
   }
 
@@ -252,6 +260,7 @@ export function d1(options: D1StoreOptions): NoydbStore {
       for (const op of ops) {
         if (op.type === 'put') {
           if (!op.envelope) throw new Error(`tx put op missing envelope for ${op.id}`)
+          await assertVersion(op.vault, op.collection, op.id, op.expectedVersion)
           statements.push(upsertStatement(op.vault, op.collection, op.id, op.envelope))
         } else {
           statements.push(
diff --git a/packages/to-turso/src/index.ts b/packages/to-turso/src/index.ts
index 98c98ff..7ebcab6 100644
--- a/packages/to-turso/src/index.ts
+++ b/packages/to-turso/src/index.ts
@@ -95,6 +95,23 @@ export function turso(options: TursoStoreOptions): NoydbStore {
     }
   }
 
+  async function assertVersion(
+    vault: string,
+    collection: string,
+    id: string,
+    expectedVersion: number | undefined,
+  ): Promise<void> {
+    if (expectedVersion === undefined) return
+    const result = await client.execute({
+      sql: `SELECT v FROM ${tableName} WHERE vault = ? AND collection = ? AND id = ?`,
+      args: [vault, collection, id],
+    })
+    const existing = result.rows[0] as { v: number } | undefined
+    if (existing && existing.v !== expectedVersion) {
+      throw new ConflictError(existing.v, `Version conflict: expected ${expectedVersion}, found ${existing.v}`)
+    }
+  }
+
   async function upsert(
     vault: string,
     collection: string,
@@ -103,16 +120,7 @@ export function turso(options: TursoStoreOptions): NoydbStore {
     expectedVersion?: number,
   ): Promise<void> {
     await ensureSchema()
-    if (expectedVersion !== undefined) {
-      const result = await client.execute({
-        sql: `SELECT v FROM ${tableName} WHERE vault = ? AND collection = ? AND id = ?`,
-        args: [vault, collection, id],
-      })
-      const existing = result.rows[0] as { v: number } | undefined
-      if (existing && existing.v !== expectedVersion) {
-        throw new ConflictError(existing.v, `Version conflict: expected ${expectedVersion}, found ${existing.v}`)
-      }
-    }
+    await assertVersion(vault, collection, id, expectedVersion)
     await client.execute({
       sql:
         `INSERT INTO ${tableName} (vault, collection, id, v, ts, iv, data, by, tier, elevated_by, det)
@@ -254,6 +262,7 @@ export function turso(options: TursoStoreOptions): NoydbStore {
         for (const op of ops) {
           if (op.type === 'put') {
             if (!op.envelope) throw new Error(`tx put op missing envelope for ${op.id}`)
+            await assertVersion(op.vault, op.collection, op.id, op.expectedVersion)
             statements.push({
               sql:
                 `INSERT INTO ${tableName} (vault, collection, id, v, ts, iv, data, by, tier, elevated_by, det)
-- 
2.43.0


From b7134ba0ba7d8861bc835332438cf437e5af8084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:22 +0000
Subject: [PATCH 16/58] fix: report failed deletes in the SSH and SMB stores

Any unlink error was taken for a missing file, so a record that could not
be removed was reported as deleted.
---
 packages/to-smb/src/index.ts | 8 +++++---
 packages/to-ssh/src/index.ts | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/packages/to-smb/src/index.ts b/packages/to-smb/src/index.ts
index 6a6c2d2..7de95d5 100644
--- a/packages/to-smb/src/index.ts
+++ b/packages/to-smb/src/index.ts
@@ -125,10 +125,12 @@ export function smb(options: SmbStoreOptions): NoydbStore {
     },
 
     async delete(vault, collection, id) {
+      const path = recordPath(vault, collection, id)
       try {
-        await client.unlink(recordPath(vault, collection, id))
-      } catch {
-        /* idempotent */
+        await client.unlink(path)
+      } catch (err) {
+        // Already gone — delete is idempotent.
+        if (await client.readFile(path) !== null) throw err
       }
     },
 
diff --git a/packages/to-ssh/src/index.ts b/packages/to-ssh/src/index.ts
index b7a4e4d..789bf5e 100644
--- a/packages/to-ssh/src/index.ts
+++ b/packages/to-ssh/src/index.ts
@@ -138,10 +138,12 @@ export function ssh(options: SshStoreOptions): NoydbStore {
     },
 
     async delete(vault, collection, id) {
+      const path = recordPath(vault, collection, id)
       try {
-        await sftp.unlink(recordPath(vault, collection, id))
-      } catch {
+        await sftp.unlink(path)
+      } catch (err) {
         // Already gone — delete is idempotent from the caller's POV.
+        if (await sftp.readFile(path) !== null) throw err
       }
     },
 
-- 
2.43.0


From d276211763e2da38f602e1481a83babde021d6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:22 +0000
Subject: [PATCH 17/58] fix: keep reserved collections out of saveAll and
 loadAll

saveAll() of the SQL, SSH and SMB stores removed the keyrings and ledger of
the vault along with the records it replaces, and loadAll() of the SQL and
WebDAV stores returned them as ordinary collections. The other stores skip
collections whose name starts with an underscore.
---
 packages/to-cloudflare-d1/src/index.ts | 3 ++-
 packages/to-mysql/src/index.ts         | 3 ++-
 packages/to-postgres/src/index.ts      | 3 ++-
 packages/to-smb/src/index.ts           | 1 +
 packages/to-sqlite/src/index.ts        | 3 ++-
 packages/to-ssh/src/index.ts           | 1 +
 packages/to-turso/src/index.ts         | 5 +++--
 packages/to-webdav/src/index.ts        | 1 +
 8 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/packages/to-cloudflare-d1/src/index.ts b/packages/to-cloudflare-d1/src/index.ts
index 8e4ca12..b230c4d 100644
--- a/packages/to-cloudflare-d1/src/index.ts
+++ b/packages/to-cloudflare-d1/src/index.ts
@@ -203,6 +203,7 @@ export function d1(options: D1StoreOptions): NoydbStore {
       const snap: VaultSnapshot = {}
       for (const row of res.results ?? []) {
         const collection = row.collection as string
+        if (collection.startsWith('_')) continue // skip _keyring, _ledger, …
         const id = row.id as string
         const bucket = snap[collection] ?? (snap[collection] = {})
         bucket[id] = rowToEnvelope(row)
@@ -213,7 +214,7 @@ export function d1(options: D1StoreOptions): NoydbStore {
     async saveAll(vault, data) {
       await ensureSchema()
       const statements: D1PreparedStatement[] = [
-        db.prepare(`DELETE FROM ${tableName} WHERE vault = ?`).bind(vault),
+        db.prepare(`DELETE FROM ${tableName} WHERE vault = ? AND substr(collection, 1, 1) <> '_'`).bind(vault),
       ]
       for (const [collection, recs] of Object.entries(data)) {
         for (const [id, envelope] of Object.entries(recs)) {
diff --git a/packages/to-mysql/src/index.ts b/packages/to-mysql/src/index.ts
index df81aa3..c677d03 100644
--- a/packages/to-mysql/src/index.ts
+++ b/packages/to-mysql/src/index.ts
@@ -143,6 +143,7 @@ export function mysql(options: MysqlStoreOptions): NoydbStore {
       )
       const snap: VaultSnapshot = {}
       for (const row of rows) {
+        if (row.collection.startsWith('_')) continue // skip _keyring, _ledger, …
         const bucket = snap[row.collection] ?? (snap[row.collection] = {})
         bucket[row.id] = parseEnvelope(row.envelope)
       }
@@ -153,7 +154,7 @@ export function mysql(options: MysqlStoreOptions): NoydbStore {
       await ensureSchema()
       await runDDL('START TRANSACTION')
       try {
-        await client.execute(`DELETE FROM ${tableName} WHERE vault = ?`, [vault])
+        await client.execute(`DELETE FROM ${tableName} WHERE vault = ? AND substr(collection, 1, 1) <> '_'`, [vault])
         for (const [collection, recs] of Object.entries(data)) {
           for (const [id, envelope] of Object.entries(recs)) {
             await upsert(vault, collection, id, envelope)
diff --git a/packages/to-postgres/src/index.ts b/packages/to-postgres/src/index.ts
index c1f66e2..3af2773 100644
--- a/packages/to-postgres/src/index.ts
+++ b/packages/to-postgres/src/index.ts
@@ -149,6 +149,7 @@ export function postgres(options: PostgresStoreOptions): NoydbStore {
       )
       const snap: VaultSnapshot = {}
       for (const row of rows) {
+        if (row.collection.startsWith('_')) continue // skip _keyring, _ledger, …
         const bucket = snap[row.collection] ?? (snap[row.collection] = {})
         const env = typeof row.envelope === 'string'
           ? (JSON.parse(row.envelope) as EncryptedEnvelope)
@@ -162,7 +163,7 @@ export function postgres(options: PostgresStoreOptions): NoydbStore {
       await ensureSchema()
       await client.query('BEGIN')
       try {
-        await client.query(`DELETE FROM ${tableName} WHERE vault = $1`, [vault])
+        await client.query(`DELETE FROM ${tableName} WHERE vault = $1 AND substr(collection, 1, 1) <> '_'`, [vault])
         for (const [collection, recs] of Object.entries(data)) {
           for (const [id, envelope] of Object.entries(recs)) {
             await upsert(vault, collection, id, envelope)
diff --git a/packages/to-smb/src/index.ts b/packages/to-smb/src/index.ts
index 7de95d5..ff93dd8 100644
--- a/packages/to-smb/src/index.ts
+++ b/packages/to-smb/src/index.ts
@@ -161,6 +161,7 @@ export function smb(options: SmbStoreOptions): NoydbStore {
     async saveAll(vault, data) {
       const existing = await safeReaddir(vaultPath(vault))
       for (const collection of existing) {
+        if (collection.startsWith('_')) continue // keep _keyring, _ledger, …
         const ids = await safeReaddir(collPath(vault, collection))
         for (const fname of ids) {
           await client.unlink(join(root, vault, collection, fname)).catch(() => undefined)
diff --git a/packages/to-sqlite/src/index.ts b/packages/to-sqlite/src/index.ts
index 4c4e77d..cd78348 100644
--- a/packages/to-sqlite/src/index.ts
+++ b/packages/to-sqlite/src/index.ts
@@ -181,6 +181,7 @@ export function sqlite(options: SqliteStoreOptions): NoydbStore {
         .all(vault) as Row[]
       const snap: VaultSnapshot = {}
       for (const row of rows) {
+        if (row.collection.startsWith('_')) continue // skip _keyring, _ledger, …
         const bucket = snap[row.collection] ?? (snap[row.collection] = {})
         bucket[row.id] = rowToEnvelope(row)
       }
@@ -190,7 +191,7 @@ export function sqlite(options: SqliteStoreOptions): NoydbStore {
     async saveAll(vault, data) {
       db.exec('BEGIN IMMEDIATE')
       try {
-        db.prepare(`DELETE FROM ${tableName} WHERE vault = ?`).run(vault)
+        db.prepare(`DELETE FROM ${tableName} WHERE vault = ? AND substr(collection, 1, 1) <> '_'`).run(vault)
         for (const [collection, recs] of Object.entries(data)) {
           for (const [id, envelope] of Object.entries(recs)) {
             upsert(vault, collection, id, envelope)
diff --git a/packages/to-ssh/src/index.ts b/packages/to-ssh/src/index.ts
index 789bf5e..20cb887 100644
--- a/packages/to-ssh/src/index.ts
+++ b/packages/to-ssh/src/index.ts
@@ -175,6 +175,7 @@ export function ssh(options: SshStoreOptions): NoydbStore {
       // Delete the vault tree first to mirror the semantics of other stores.
       const existingCollections = await safeReaddir(vaultPath(vault))
       for (const collection of existingCollections) {
+        if (collection.startsWith('_')) continue // keep _keyring, _ledger, …
         const ids = await safeReaddir(collPath(vault, collection))
         for (const id of ids) {
           await sftp
diff --git a/packages/to-turso/src/index.ts b/packages/to-turso/src/index.ts
index 7ebcab6..6fd13cd 100644
--- a/packages/to-turso/src/index.ts
+++ b/packages/to-turso/src/index.ts
@@ -182,6 +182,7 @@ export function turso(options: TursoStoreOptions): NoydbStore {
       const snap: VaultSnapshot = {}
       for (const row of result.rows) {
         const collection = row.collection as string
+        if (collection.startsWith('_')) continue // skip _keyring, _ledger, …
         const id = row.id as string
         const bucket = snap[collection] ?? (snap[collection] = {})
         bucket[id] = rowToEnvelope(row)
@@ -193,7 +194,7 @@ export function turso(options: TursoStoreOptions): NoydbStore {
       await ensureSchema()
       if (client.batch) {
         const statements: { sql: string; args?: readonly unknown[] }[] = [
-          { sql: `DELETE FROM ${tableName} WHERE vault = ?`, args: [vault] },
+          { sql: `DELETE FROM ${tableName} WHERE vault = ? AND substr(collection, 1, 1) <> '_'`, args: [vault] },
         ]
         for (const [collection, recs] of Object.entries(data)) {
           for (const [id, envelope] of Object.entries(recs)) {
@@ -219,7 +220,7 @@ export function turso(options: TursoStoreOptions): NoydbStore {
         return
       }
       // Fallback: sequential execute when the client lacks batch.
-      await client.execute({ sql: `DELETE FROM ${tableName} WHERE vault = ?`, args: [vault] })
+      await client.execute({ sql: `DELETE FROM ${tableName} WHERE vault = ? AND substr(collection, 1, 1) <> '_'`, args: [vault] })
       for (const [collection, recs] of Object.entries(data)) {
         for (const [id, envelope] of Object.entries(recs)) {
           await upsert(vault, collection, id, envelope)
diff --git a/packages/to-webdav/src/index.ts b/packages/to-webdav/src/index.ts
index 93a747e..b9cd6a1 100644
--- a/packages/to-webdav/src/index.ts
+++ b/packages/to-webdav/src/index.ts
@@ -217,6 +217,7 @@ export function webdav(options: WebDAVStoreOptions): NoydbStore {
       }
       const snap: VaultSnapshot = {}
       for (const collection of collections) {
+        if (collection.startsWith('_')) continue // skip _keyring, _ledger, …
         const ids = await listChildren(vault, collection)
         const bucket: Record<string, EncryptedEnvelope> = {}
         for (const id of ids) {
-- 
2.43.0


From 887b37fd3d6cd7e5283c7ba1b706f33e8394d4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:22 +0000
Subject: [PATCH 18/58] fix: only treat a missing file as an absent record in
 the file store

Every other filesystem error was reported as an empty result, so an
unreadable record looked deleted and a failed delete looked successful.
---
 packages/to-file/src/index.ts | 70 ++++++++++++++++++++++-------------
 1 file changed, 45 insertions(+), 25 deletions(-)

diff --git a/packages/to-file/src/index.ts b/packages/to-file/src/index.ts
index 2626e50..47e4c25 100644
--- a/packages/to-file/src/index.ts
+++ b/packages/to-file/src/index.ts
@@ -99,11 +99,17 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
     try {
       await stat(path)
       return true
-    } catch {
-      return false
+    } catch (err) {
+      if (isMissing(err)) return false
+      throw err
     }
   }
 
+  /** Absent is an answer; every other filesystem error is a failure. */
+  function isMissing(err: unknown): boolean {
+    return (err as NodeJS.ErrnoException).code === 'ENOENT'
+  }
+
   function serialize(envelope: EncryptedEnvelope): string {
     return pretty ? JSON.stringify(envelope, null, 2) : JSON.stringify(envelope)
   }
@@ -116,8 +122,9 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
       try {
         const content = await readFile(path, 'utf-8')
         return JSON.parse(content) as EncryptedEnvelope
-      } catch {
-        return null
+      } catch (err) {
+        if (isMissing(err)) return null
+        throw err
       }
     },
 
@@ -139,8 +146,9 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
       const path = recordPath(vault, collection, id)
       try {
         await unlink(path)
-      } catch {
+      } catch (err) {
         // File doesn't exist — that's fine
+        if (!isMissing(err)) throw err
       }
     },
 
@@ -151,8 +159,9 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
         return entries
           .filter(f => f.endsWith('.json'))
           .map(f => f.slice(0, -5)) // remove .json extension
-      } catch {
-        return []
+      } catch (err) {
+        if (isMissing(err)) return []
+        throw err
       }
     },
 
@@ -160,26 +169,35 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
       const compDir = join(dir, vault)
       const snapshot: VaultSnapshot = {}
 
+      let collections: string[]
       try {
-        const collections = await readdir(compDir)
-        for (const collName of collections) {
-          if (collName.startsWith('_')) continue // skip _keyring, _sync
-          const collPath = join(compDir, collName)
-          const collStat = await stat(collPath)
-          if (!collStat.isDirectory()) continue
-
-          const records: Record<string, EncryptedEnvelope> = {}
-          const files = await readdir(collPath)
-          for (const file of files) {
-            if (!file.endsWith('.json')) continue
-            const id = file.slice(0, -5)
+        collections = await readdir(compDir)
+      } catch (err) {
+        // Directory doesn't exist — return empty snapshot
+        if (isMissing(err)) return snapshot
+        throw err
+      }
+
+      for (const collName of collections) {
+        if (collName.startsWith('_')) continue // skip _keyring, _sync
+        const collPath = join(compDir, collName)
+        const collStat = await stat(collPath)
+        if (!collStat.isDirectory()) continue
+
+        const records: Record<string, EncryptedEnvelope> = {}
+        const files = await readdir(collPath)
+        for (const file of files) {
+          if (!file.endsWith('.json')) continue
+          const id = file.slice(0, -5)
+          try {
             const content = await readFile(join(collPath, file), 'utf-8')
             records[id] = JSON.parse(content) as EncryptedEnvelope
+          } catch (err) {
+            // File disappeared between readdir and readFile — skip silently.
+            if (!isMissing(err)) throw err
           }
-          snapshot[collName] = records
         }
-      } catch {
-        // Directory doesn't exist — return empty snapshot
+        snapshot[collName] = records
       }
 
       return snapshot
@@ -249,8 +267,9 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
       let files: string[]
       try {
         files = await readdir(dirPath)
-      } catch {
-        return { items: [], nextCursor: null }
+      } catch (err) {
+        if (isMissing(err)) return { items: [], nextCursor: null }
+        throw err
       }
 
       const ids = files
@@ -267,8 +286,9 @@ export function jsonFile(options: JsonFileOptions): NoydbStore {
         try {
           const content = await readFile(join(dirPath, `${id}.json`), 'utf-8')
           items.push({ id, envelope: JSON.parse(content) as EncryptedEnvelope })
-        } catch {
+        } catch (err) {
           // File disappeared between readdir and readFile — skip silently.
+          if (!isMissing(err)) throw err
         }
       }
 
-- 
2.43.0


From 9f307a92d449adf4315b232dbc318eacc348c25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:22 +0000
Subject: [PATCH 19/58] fix: read every page in DynamoDB and S3 listings

list() and loadAll() returned only the first response, which DynamoDB caps
at 1 MB and S3 at 1000 keys.
---
 packages/to-aws-dynamo/src/index.ts | 36 +++++++++++++++++++----------
 packages/to-aws-s3/src/index.ts     | 32 ++++++++++++++-----------
 2 files changed, 42 insertions(+), 26 deletions(-)

diff --git a/packages/to-aws-dynamo/src/index.ts b/packages/to-aws-dynamo/src/index.ts
index 141478f..10508ad 100644
--- a/packages/to-aws-dynamo/src/index.ts
+++ b/packages/to-aws-dynamo/src/index.ts
@@ -141,6 +141,24 @@ export function dynamo(options: DynamoOptions): NoydbStore {
     }
   }
 
+  /** Run a Query to the end — DynamoDB caps a single response at 1 MB. */
+  async function queryAll(query: QueryCommandInput): Promise<Record<string, unknown>[]> {
+    const client = await getClient()
+    const { QueryCommand } = await import('@aws-sdk/lib-dynamodb') as { QueryCommand: new (input: QueryCommandInput) => unknown }
+
+    const items: Record<string, unknown>[] = []
+    let startKey: Record<string, unknown> | undefined
+    do {
+      const result = await client.send(new QueryCommand({
+        ...query,
+        ...(startKey && { ExclusiveStartKey: startKey }),
+      })) as { Items?: Record<string, unknown>[]; LastEvaluatedKey?: Record<string, unknown> }
+      items.push(...(result.Items ?? []))
+      startKey = result.LastEvaluatedKey
+    } while (startKey)
+    return items
+  }
+
   return {
     name: 'dynamo',
 
@@ -205,37 +223,31 @@ export function dynamo(options: DynamoOptions): NoydbStore {
     },
 
     async list(vault, collection) {
-      const client = await getClient()
-      const { QueryCommand } = await import('@aws-sdk/lib-dynamodb') as { QueryCommand: new (input: QueryCommandInput) => unknown }
-
-      const result = await client.send(new QueryCommand({
+      const items = await queryAll({
         TableName: table,
         KeyConditionExpression: 'pk = :pk AND begins_with(sk, :prefix)',
         ExpressionAttributeValues: {
           ':pk': vault,
           ':prefix': `${collection}#`,
         },
-      })) as { Items?: Record<string, unknown>[] }
+      })
 
-      return (result.Items ?? []).map(item => {
+      return items.map(item => {
         const { id } = parseSk(item['sk'] as string)
         return id
       })
     },
 
     async loadAll(vault) {
-      const client = await getClient()
-      const { QueryCommand } = await import('@aws-sdk/lib-dynamodb') as { QueryCommand: new (input: QueryCommandInput) => unknown }
-
-      const result = await client.send(new QueryCommand({
+      const items = await queryAll({
         TableName: table,
         KeyConditionExpression: 'pk = :pk',
         ExpressionAttributeValues: { ':pk': vault },
-      })) as { Items?: Record<string, unknown>[] }
+      })
 
       const snapshot: VaultSnapshot = {}
 
-      for (const item of result.Items ?? []) {
+      for (const item of items) {
         const sortKey = item['sk'] as string
         const { collection, id } = parseSk(sortKey)
 
diff --git a/packages/to-aws-s3/src/index.ts b/packages/to-aws-s3/src/index.ts
index b779a20..8d530bd 100644
--- a/packages/to-aws-s3/src/index.ts
+++ b/packages/to-aws-s3/src/index.ts
@@ -96,6 +96,22 @@ export function s3(options: S3Options): NoydbStore {
     return prefix ? `${prefix}/${vault}/` : `${vault}/`
   }
 
+  /** Every key under a prefix — ListObjectsV2 returns at most 1000 per call. */
+  async function listKeys(pfx: string): Promise<string[]> {
+    const keys: string[] = []
+    let token: string | undefined
+    do {
+      const result = await client.send(new ListObjectsV2Command({
+        Bucket: bucket,
+        Prefix: pfx,
+        ...(token ? { ContinuationToken: token } : {}),
+      }))
+      for (const obj of result.Contents ?? []) keys.push(obj.Key ?? '')
+      token = result.IsTruncated ? result.NextContinuationToken : undefined
+    } while (token)
+    return keys
+  }
+
   return {
     name: 's3',
 
@@ -142,28 +158,16 @@ export function s3(options: S3Options): NoydbStore {
 
     async list(vault, collection) {
       const pfx = collPrefix(vault, collection)
-      const result = await client.send(new ListObjectsV2Command({
-        Bucket: bucket,
-        Prefix: pfx,
-      }))
-
-      return (result.Contents ?? [])
-        .map(obj => obj.Key ?? '')
+      return (await listKeys(pfx))
         .filter(k => k.endsWith('.json'))
         .map(k => k.slice(pfx.length, -5))
     },
 
     async loadAll(vault) {
       const pfx = compPrefix(vault)
-      const listResult = await client.send(new ListObjectsV2Command({
-        Bucket: bucket,
-        Prefix: pfx,
-      }))
-
       const snapshot: VaultSnapshot = {}
 
-      for (const obj of listResult.Contents ?? []) {
-        const key = obj.Key ?? ''
+      for (const key of await listKeys(pfx)) {
         if (!key.endsWith('.json')) continue
 
         const relativePath = key.slice(pfx.length)
-- 
2.43.0


From 1a94fe06557371760eab5ccff7b937e4c2ce6ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:22 +0000
Subject: [PATCH 20/58] fix: keep all envelope fields in the DynamoDB store

The author, tier, elevation and deterministic index fields were dropped on
write, so a tiered record came back without its tier.
---
 packages/to-aws-dynamo/src/index.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/packages/to-aws-dynamo/src/index.ts b/packages/to-aws-dynamo/src/index.ts
index 10508ad..01bdaaa 100644
--- a/packages/to-aws-dynamo/src/index.ts
+++ b/packages/to-aws-dynamo/src/index.ts
@@ -138,6 +138,10 @@ export function dynamo(options: DynamoOptions): NoydbStore {
       _ts: item['_ts'] as string,
       _iv: item['_iv'] as string,
       _data: item['_data'] as string,
+      ...(item['_by'] !== undefined && { _by: item['_by'] as string }),
+      ...(item['_tier'] !== undefined && { _tier: item['_tier'] as number }),
+      ...(item['_elevatedBy'] !== undefined && { _elevatedBy: item['_elevatedBy'] as string }),
+      ...(item['_det'] !== undefined && { _det: item['_det'] as Record<string, string> }),
     }
   }
 
@@ -187,6 +191,10 @@ export function dynamo(options: DynamoOptions): NoydbStore {
         _ts: envelope._ts,
         _iv: envelope._iv,
         _data: envelope._data,
+        ...(envelope._by !== undefined && { _by: envelope._by }),
+        ...(envelope._tier !== undefined && { _tier: envelope._tier }),
+        ...(envelope._elevatedBy !== undefined && { _elevatedBy: envelope._elevatedBy }),
+        ...(envelope._det !== undefined && { _det: envelope._det }),
       }
 
       const input: PutCommandInput = { TableName: table, Item: item }
-- 
2.43.0


From e6c1cb2a0711b58819be68a6b439a262eeeb9614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:16:29 +0000
Subject: [PATCH 21/58] fix: check the expected version of deletes in Turso and
 D1 transactions

Deletes in a transaction carry an expected version too. Turso and D1 ignored it
and removed records that had changed since the caller read them. They now raise
the same conflict as for puts.
---
 packages/to-cloudflare-d1/src/index.ts | 2 +-
 packages/to-turso/src/index.ts         | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/to-cloudflare-d1/src/index.ts b/packages/to-cloudflare-d1/src/index.ts
index b230c4d..5593e48 100644
--- a/packages/to-cloudflare-d1/src/index.ts
+++ b/packages/to-cloudflare-d1/src/index.ts
@@ -259,9 +259,9 @@ export function d1(options: D1StoreOptions): NoydbStore {
       await ensureSchema()
       const statements: D1PreparedStatement[] = []
       for (const op of ops) {
+        await assertVersion(op.vault, op.collection, op.id, op.expectedVersion)
         if (op.type === 'put') {
           if (!op.envelope) throw new Error(`tx put op missing envelope for ${op.id}`)
-          await assertVersion(op.vault, op.collection, op.id, op.expectedVersion)
           statements.push(upsertStatement(op.vault, op.collection, op.id, op.envelope))
         } else {
           statements.push(
diff --git a/packages/to-turso/src/index.ts b/packages/to-turso/src/index.ts
index 6fd13cd..b01c039 100644
--- a/packages/to-turso/src/index.ts
+++ b/packages/to-turso/src/index.ts
@@ -261,9 +261,9 @@ export function turso(options: TursoStoreOptions): NoydbStore {
       if (client.batch) {
         const statements: { sql: string; args?: readonly unknown[] }[] = []
         for (const op of ops) {
+          await assertVersion(op.vault, op.collection, op.id, op.expectedVersion)
           if (op.type === 'put') {
             if (!op.envelope) throw new Error(`tx put op missing envelope for ${op.id}`)
-            await assertVersion(op.vault, op.collection, op.id, op.expectedVersion)
             statements.push({
               sql:
                 `INSERT INTO ${tableName} (vault, collection, id, v, ts, iv, data, by, tier, elevated_by, det)
@@ -296,6 +296,7 @@ export function turso(options: TursoStoreOptions): NoydbStore {
           if (!op.envelope) throw new Error(`tx put op missing envelope for ${op.id}`)
           await upsert(op.vault, op.collection, op.id, op.envelope, op.expectedVersion)
         } else {
+          await assertVersion(op.vault, op.collection, op.id, op.expectedVersion)
           await store.delete(op.vault, op.collection, op.id)
         }
       }
-- 
2.43.0


From 0f68d06e6467a83286e9e51fffd3911a05f1a671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:49:01 +0000
Subject: [PATCH 22/58] fix: report records that could not be removed while
 replacing a vault over SSH and SMB

---
 packages/to-smb/src/index.ts | 19 +++++++++++--------
 packages/to-ssh/src/index.ts | 21 +++++++++++----------
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/packages/to-smb/src/index.ts b/packages/to-smb/src/index.ts
index ff93dd8..b241884 100644
--- a/packages/to-smb/src/index.ts
+++ b/packages/to-smb/src/index.ts
@@ -106,6 +106,15 @@ export function smb(options: SmbStoreOptions): NoydbStore {
     }
   }
 
+  async function remove(path: string): Promise<void> {
+    try {
+      await client.unlink(path)
+    } catch (err) {
+      // Already gone — delete is idempotent.
+      if (await client.readFile(path) !== null) throw err
+    }
+  }
+
   const store: NoydbStore = {
     name,
 
@@ -125,13 +134,7 @@ export function smb(options: SmbStoreOptions): NoydbStore {
     },
 
     async delete(vault, collection, id) {
-      const path = recordPath(vault, collection, id)
-      try {
-        await client.unlink(path)
-      } catch (err) {
-        // Already gone — delete is idempotent.
-        if (await client.readFile(path) !== null) throw err
-      }
+      await remove(recordPath(vault, collection, id))
     },
 
     async list(vault, collection) {
@@ -164,7 +167,7 @@ export function smb(options: SmbStoreOptions): NoydbStore {
         if (collection.startsWith('_')) continue // keep _keyring, _ledger, …
         const ids = await safeReaddir(collPath(vault, collection))
         for (const fname of ids) {
-          await client.unlink(join(root, vault, collection, fname)).catch(() => undefined)
+          await remove(join(root, vault, collection, fname))
         }
       }
       for (const [collection, recs] of Object.entries(data)) {
diff --git a/packages/to-ssh/src/index.ts b/packages/to-ssh/src/index.ts
index 20cb887..1fe2aa6 100644
--- a/packages/to-ssh/src/index.ts
+++ b/packages/to-ssh/src/index.ts
@@ -118,6 +118,15 @@ export function ssh(options: SshStoreOptions): NoydbStore {
     }
   }
 
+  async function remove(path: string): Promise<void> {
+    try {
+      await sftp.unlink(path)
+    } catch (err) {
+      // Already gone — delete is idempotent from the caller's POV.
+      if (await sftp.readFile(path) !== null) throw err
+    }
+  }
+
   const store: NoydbStore = {
     name,
 
@@ -138,13 +147,7 @@ export function ssh(options: SshStoreOptions): NoydbStore {
     },
 
     async delete(vault, collection, id) {
-      const path = recordPath(vault, collection, id)
-      try {
-        await sftp.unlink(path)
-      } catch (err) {
-        // Already gone — delete is idempotent from the caller's POV.
-        if (await sftp.readFile(path) !== null) throw err
-      }
+      await remove(recordPath(vault, collection, id))
     },
 
     async list(vault, collection) {
@@ -178,9 +181,7 @@ export function ssh(options: SshStoreOptions): NoydbStore {
         if (collection.startsWith('_')) continue // keep _keyring, _ledger, …
         const ids = await safeReaddir(collPath(vault, collection))
         for (const id of ids) {
-          await sftp
-            .unlink('/' + pathJoin(root, vault, collection, id))
-            .catch(() => undefined)
+          await remove('/' + pathJoin(root, vault, collection, id))
         }
       }
       // Write the new tree.
-- 
2.43.0


From dd40ad4b369345fe2644abe0fc00da1a20ab5178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:49:01 +0000
Subject: [PATCH 23/58] fix: report bundles that could not be deleted or read
 in Drive and iCloud

---
 packages/to-drive/src/index.ts  |  5 +++--
 packages/to-icloud/src/index.ts | 22 +++++++++++++++-------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/packages/to-drive/src/index.ts b/packages/to-drive/src/index.ts
index 22531ca..55fb91c 100644
--- a/packages/to-drive/src/index.ts
+++ b/packages/to-drive/src/index.ts
@@ -233,8 +233,9 @@ export function drive(options: DriveStoreOptions): NoydbBundleStore {
       if (!handle) return
       try {
         await client.deleteFile(handle.fileId)
-      } catch {
-        // Already gone.
+      } catch (err) {
+        // Already gone is fine; a file that is still there is not.
+        if (await client.getFileMetadata(handle.fileId)) throw err
       }
       await handles.deleteHandle(vaultId)
     },
diff --git a/packages/to-icloud/src/index.ts b/packages/to-icloud/src/index.ts
index 3b9423e..5d920c3 100644
--- a/packages/to-icloud/src/index.ts
+++ b/packages/to-icloud/src/index.ts
@@ -178,8 +178,9 @@ export function icloud(options: ICloudStoreOptions): NoydbBundleStore {
       const path = await pathFor(vaultId)
       try {
         await fs.unlink(path)
-      } catch {
-        // Idempotent
+      } catch (err) {
+        // Idempotent — but a file that is still there was not deleted.
+        if (await fs.stat(path)) throw err
       }
     },
 
@@ -206,19 +207,25 @@ export function icloud(options: ICloudStoreOptions): NoydbBundleStore {
 export async function nodeFs(): Promise<ICloudFs> {
   const fs = await import('node:fs/promises')
   const { spawn } = await import('node:child_process')
+  const isMissing = (err: unknown): boolean => (err as { code?: string }).code === 'ENOENT'
   return {
     async readFile(path) {
       try {
         return await fs.readFile(path)
-      } catch {
-        return null
+      } catch (err) {
+        if (isMissing(err)) return null
+        throw err
       }
     },
     async writeFile(path, data) {
       await fs.writeFile(path, data)
     },
     async unlink(path) {
-      await fs.unlink(path).catch(() => undefined)
+      try {
+        await fs.unlink(path)
+      } catch (err) {
+        if (!isMissing(err)) throw err
+      }
     },
     async readdir(path) {
       return fs.readdir(path)
@@ -227,8 +234,9 @@ export async function nodeFs(): Promise<ICloudFs> {
       try {
         const s = await fs.stat(path)
         return { mtimeMs: s.mtimeMs, size: s.size }
-      } catch {
-        return null
+      } catch (err) {
+        if (isMissing(err)) return null
+        throw err
       }
     },
     async triggerDownload(path) {
-- 
2.43.0


From 9a7aeb8b80f42046be3ec73998012a0a50f0bffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:49:01 +0000
Subject: [PATCH 24/58] fix: wait for a change to be recorded for sync before
 the write completes

---
 packages/hub/src/noydb.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/hub/src/noydb.ts b/packages/hub/src/noydb.ts
index 378b930..12888c1 100644
--- a/packages/hub/src/noydb.ts
+++ b/packages/hub/src/noydb.ts
@@ -240,7 +240,7 @@ export class Noydb {
             // Fan out dirty tracking to all sync engines for this vault
             for (const [key, engine] of this.syncEngines) {
               if (key === name || key.startsWith(`${name}::`)) {
-                void engine.trackChange(coll, id, action, version)
+                await engine.trackChange(coll, id, action, version)
               }
             }
           }
-- 
2.43.0


From 5aac80a8b2b5de769f14b2009aa997326e6f1ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:49:01 +0000
Subject: [PATCH 25/58] fix: drop the cold copy of a record only after the hot
 write, and report failed cold deletes

---
 packages/hub/src/store/route-store.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/packages/hub/src/store/route-store.ts b/packages/hub/src/store/route-store.ts
index a3690c1..3111d9e 100644
--- a/packages/hub/src/store/route-store.ts
+++ b/packages/hub/src/store/route-store.ts
@@ -518,12 +518,13 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
 
       const s = storeFor(vault, collection)
 
+      await s.put(vault, collection, id, envelope, expectedVersion)
+
       // Age tiering: if a cold record is being updated, it goes to hot.
+      // The cold copy is dropped only once the hot one is in place.
       if (opts.age && !isInternal(collection)) {
-        opts.age.cold.delete(vault, collection, id).catch(() => {})
+        await opts.age.cold.delete(vault, collection, id).catch(() => {})
       }
-
-      return s.put(vault, collection, id, envelope, expectedVersion)
     },
 
     async delete(vault, collection, id) {
@@ -536,7 +537,7 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
 
       // Also delete from cold store if age-tiered
       if (opts.age && !isInternal(collection)) {
-        await opts.age.cold.delete(vault, collection, id).catch(() => {})
+        await opts.age.cold.delete(vault, collection, id)
       }
     },
 
-- 
2.43.0


From 21c1cd381b1c24a2b6582b4762295d0b3952fed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:49:01 +0000
Subject: [PATCH 26/58] fix: quote non-numeric values of numeric columns and
 escape backslashes for MySQL

---
 packages/as-sql/src/index.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/as-sql/src/index.ts b/packages/as-sql/src/index.ts
index 329a2df..0a753e9 100644
--- a/packages/as-sql/src/index.ts
+++ b/packages/as-sql/src/index.ts
@@ -198,7 +198,8 @@ function formatLiteral(dialect: SqlDialect, type: SqlType, value: unknown): stri
     if (dialect === 'mysql' || dialect === 'sqlite') return value ? '1' : '0'
     return value ? 'TRUE' : 'FALSE'
   }
-  if (type === 'integer' || type === 'real') return stringifyScalar(value)
+  // The column type comes from a sample of rows; anything else is quoted.
+  if ((type === 'integer' || type === 'real') && typeof value === 'number') return stringifyScalar(value)
   if (type === 'timestamp') {
     const s = value instanceof Date ? value.toISOString() : stringifyScalar(value)
     return quoteString(dialect, s)
@@ -220,7 +221,8 @@ function stringifyScalar(value: unknown): string {
 
 function quoteString(dialect: SqlDialect, s: string): string {
   // Both standard SQL and common dialects use '' to escape single quotes.
-  const escaped = s.replace(/'/g, "''")
+  // MySQL additionally reads a backslash as an escape character.
+  const escaped = (dialect === 'mysql' ? s.replace(/\\/g, '\\\\') : s).replace(/'/g, "''")
   return `'${escaped}'`
 }
 
-- 
2.43.0


From ad0d872988c701364f94abac714e2848529486e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:52:21 +0000
Subject: [PATCH 27/58] fix: make the default record element of XML exports a
 valid element name

---
 packages/as-xml/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/as-xml/src/index.ts b/packages/as-xml/src/index.ts
index d46b659..e87159e 100644
--- a/packages/as-xml/src/index.ts
+++ b/packages/as-xml/src/index.ts
@@ -63,7 +63,7 @@ export async function toString(vault: Vault, options: AsXMLOptions): Promise<str
   }
 
   const rootName = options.rootElement ?? 'Records'
-  const recordName = options.recordElement ?? pascalSingular(options.collection)
+  const recordName = options.recordElement ?? escapeElementName(pascalSingular(options.collection))
   const fields = options.fields ?? inferFields(records)
   const pretty = options.pretty !== false
   const declaration = options.xmlDeclaration !== false
-- 
2.43.0


From f5064915004889fae9fce4fbf0d1e280f6717625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:52:21 +0000
Subject: [PATCH 28/58] fix: keep dot segments of record ids and slots out of
 zip entry paths

---
 packages/as-zip/src/index.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/as-zip/src/index.ts b/packages/as-zip/src/index.ts
index b276d11..e02a5dd 100644
--- a/packages/as-zip/src/index.ts
+++ b/packages/as-zip/src/index.ts
@@ -420,5 +420,7 @@ function toPojo(value: unknown): unknown {
  */
 function sanitiseFsSegment(s: string): string {
   // eslint-disable-next-line no-control-regex
-  return s.replace(/[/\\:*?"<>|\x00-\x1f]/g, '_') || '_'
+  const safe = s.replace(/[/\\:*?"<>|\x00-\x1f]/g, '_')
+  // `.` and `..` would name the directory itself or its parent.
+  return /^\.{0,2}$/.test(safe) ? safe.replace(/\./g, '_') || '_' : safe
 }
-- 
2.43.0


From 13f34943fdf2f8153c66c9c58eb86650019865b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:52:21 +0000
Subject: [PATCH 29/58] fix: report aborted browser transactions

---
 packages/to-browser-idb/src/index.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/to-browser-idb/src/index.ts b/packages/to-browser-idb/src/index.ts
index 7675052..40250fe 100644
--- a/packages/to-browser-idb/src/index.ts
+++ b/packages/to-browser-idb/src/index.ts
@@ -164,6 +164,7 @@ function createIndexedDBAdapter(prefix: string, obfuscate: boolean, obfKey: stri
       const complete = new Promise<void>((resolve, reject) => {
         transaction.oncomplete = () => resolve()
         transaction.onerror = () => reject(transaction.error)
+        transaction.onabort = () => reject(transaction.error)
       })
       return { store, complete }
     })
-- 
2.43.0


From 94afaf51748125efcd6a30b5276c7f064640a872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:52:21 +0000
Subject: [PATCH 30/58] fix: write the merged bundle when retrying after a
 version conflict

---
 packages/hub/src/store/bundle-store.ts | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/packages/hub/src/store/bundle-store.ts b/packages/hub/src/store/bundle-store.ts
index 3171585..902264d 100644
--- a/packages/hub/src/store/bundle-store.ts
+++ b/packages/hub/src/store/bundle-store.ts
@@ -104,17 +104,16 @@ export function wrapBundleStore(
   }
 
   async function flush(vault: string): Promise<void> {
-    const snapshot = snapshots.get(vault) ?? {}
-    const format: BundleStoreData = {
-      _noydb_bundle_store: BUNDLE_STORE_VERSION,
-      vault,
-      ts: new Date().toISOString(),
-      data: snapshot,
-    }
-    const bytes = new TextEncoder().encode(JSON.stringify(format))
-    const expectedVersion = versions.get(vault) ?? null
-
     for (let attempt = 0; attempt < MAX_CONFLICT_RETRIES; attempt++) {
+      const snapshot = snapshots.get(vault) ?? {}
+      const format: BundleStoreData = {
+        _noydb_bundle_store: BUNDLE_STORE_VERSION,
+        vault,
+        ts: new Date().toISOString(),
+        data: snapshot,
+      }
+      const bytes = new TextEncoder().encode(JSON.stringify(format))
+      const expectedVersion = versions.get(vault) ?? null
       try {
         const { version: newVersion } = await bundle.writeBundle(vault, bytes, expectedVersion)
         versions.set(vault, newVersion)
-- 
2.43.0


From c7d1822ad0d0f7c6c7051ad6d348bfab4b4a8a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:52:21 +0000
Subject: [PATCH 31/58] fix: decode each path segment of WebDAV listings
 exactly once

---
 packages/to-webdav/src/index.ts | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/packages/to-webdav/src/index.ts b/packages/to-webdav/src/index.ts
index b9cd6a1..037390a 100644
--- a/packages/to-webdav/src/index.ts
+++ b/packages/to-webdav/src/index.ts
@@ -135,13 +135,13 @@ export function webdav(options: WebDAVStoreOptions): NoydbStore {
     // Extract <d:href>...</d:href> entries, drop the collection self-ref,
     // keep only .json leaves, and return the id portion.
     const hrefs = Array.from(xml.matchAll(/<(?:\w+:)?href>([^<]+)<\/(?:\w+:)?href>/g))
-      .map(m => decodeURIComponent(m[1]!))
-    const selfPath = new URL(url).pathname.replace(/\/+$/, '')
+      .map(m => m[1]!)
+    const selfPath = decodeURIComponent(new URL(url).pathname.replace(/\/+$/, ''))
     const ids: string[] = []
     for (const href of hrefs) {
       const hrefPath = href.replace(/\/+$/, '')
-      if (hrefPath === selfPath) continue
-      const filename = hrefPath.split('/').pop()!
+      if (decodeURIComponent(hrefPath) === selfPath) continue
+      const filename = decodeURIComponent(hrefPath.split('/').pop()!)
       if (!filename.endsWith('.json')) continue
       ids.push(filename.slice(0, -'.json'.length))
     }
@@ -206,13 +206,13 @@ export function webdav(options: WebDAVStoreOptions): NoydbStore {
       }
       const xml = await res.text()
       const hrefs = Array.from(xml.matchAll(/<(?:\w+:)?href>([^<]+)<\/(?:\w+:)?href>/g))
-        .map(m => decodeURIComponent(m[1]!))
-      const selfPath = new URL(rootUrl).pathname.replace(/\/+$/, '')
+        .map(m => m[1]!)
+      const selfPath = decodeURIComponent(new URL(rootUrl).pathname.replace(/\/+$/, ''))
       const collections = new Set<string>()
       for (const href of hrefs) {
         const hrefPath = href.replace(/\/+$/, '')
-        if (hrefPath === selfPath) continue
-        const segment = hrefPath.slice(selfPath.length + 1).split('/')[0]
+        if (decodeURIComponent(hrefPath) === selfPath) continue
+        const segment = hrefPath.split('/').pop()
         if (segment) collections.add(decodeURIComponent(segment))
       }
       const snap: VaultSnapshot = {}
-- 
2.43.0


From c44fdebac6bade76add4b3c5e2d342e540907f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:21:22 +0000
Subject: [PATCH 32/58] fix: validate records written with putAtTier like put
 does

putAtTier skipped the schema, the multilingual field rules and strict
reference checks, so a record that put() rejects could be stored.
---
 packages/hub/src/collection.ts | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 530d74d..0abf084 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -2699,6 +2699,18 @@ export class Collection<T> {
       throw new ReadOnlyError()
     }
 
+    // Same gates as put(): validate the record shape, then i18n fields,
+    // then outbound refs, before anything is encrypted or written.
+    if (this.schema !== undefined) {
+      record = await validateSchemaInput(this.schema, record, `putAtTier(${id})`)
+    }
+    if (this.i18nPutValidator !== undefined) {
+      this.i18nPutValidator(record)
+    }
+    if (this.refEnforcer !== undefined) {
+      await this.refEnforcer.enforceRefsOnPut(this.name, record)
+    }
+
     const key = dekKey(this.name, tier)
     const dek = await this.getDEK(key)
 
-- 
2.43.0


From 1c81af2339493ef31394f6d1393d496e6a237873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:21:22 +0000
Subject: [PATCH 33/58] fix: validate elevated records on getAtTier reads

Reads of records above tier 0 returned the decrypted value without
running the collection schema, unlike every other read.
---
 packages/hub/src/collection.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 0abf084..9bbdb87 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -2777,7 +2777,10 @@ export class Collection<T> {
 
     const dek = await this.getDEK(key)
     const plaintext = await decrypt(envelope._iv, envelope._data, dek)
-    const record = JSON.parse(plaintext) as T
+    let record = JSON.parse(plaintext) as T
+    if (this.schema !== undefined) {
+      record = await validateSchemaOutput(this.schema, record, `${this.name}@v${envelope._v}`)
+    }
 
     this.emitCrossTierEvent({
       actor: this.keyring.userId,
-- 
2.43.0


From a51846923a6d24bbabfd084ca40379f0955ed68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:25:27 +0000
Subject: [PATCH 34/58] fix: apply the period guard to validated records and to
 tier writes

putAtTier, elevate and demote could change a record sealed by a closed
period, put() compared the date of the record before the schema rewrote
it, and records stored above tier 0 were not recognised as sealed.
---
 packages/hub/src/collection.ts | 65 ++++++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 15 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 9bbdb87..563d102 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -888,9 +888,21 @@ export class Collection<T> {
       throw new ReadOnlyError()
     }
 
-    // accounting-period guard. Runs BEFORE any other
+    // Schema validation — runs BEFORE encryption so invalid records are
+    // rejected at the store boundary. The validator may transform the
+    // input (e.g., coerce strings → numbers, strip unknown fields), in
+    // which case we persist the validated value rather than the raw one.
+    // Users who pass a bad shape get a SchemaValidationError with a
+    // structured issue list, not a stack trace from deep inside the
+    // encrypt path.
+    if (this.schema !== undefined) {
+      record = await validateSchemaInput(this.schema, record, `put(${id})`)
+    }
+
+    // accounting-period guard. Runs on the validated record (the
+    // schema may rewrite the business date) and BEFORE any other
     // work so a closed-period write fails fast and leaves no partial
-    // trace (no schema work, no i18n translation, no history). Reads
+    // trace (no i18n translation, no history). Reads
     // the existing envelope + decrypts the prior record so
     // business-date comparison against the closed period's
     // `dateField` can use the stored value (late entries don't slip
@@ -901,7 +913,7 @@ export class Collection<T> {
       let priorRecord: Record<string, unknown> | null = null
       if (existingEnv) {
         try {
-          priorRecord = (await this.decryptRecord(existingEnv, { skipValidation: true })) as unknown as Record<string, unknown>
+          priorRecord = await this.decryptPriorRecord(existingEnv)
         } catch {
           priorRecord = null
         }
@@ -912,17 +924,6 @@ export class Collection<T> {
       )
     }
 
-    // Schema validation — runs BEFORE encryption so invalid records are
-    // rejected at the store boundary. The validator may transform the
-    // input (e.g., coerce strings → numbers, strip unknown fields), in
-    // which case we persist the validated value rather than the raw one.
-    // Users who pass a bad shape get a SchemaValidationError with a
-    // structured issue list, not a stack trace from deep inside the
-    // encrypt path.
-    if (this.schema !== undefined) {
-      record = await validateSchemaInput(this.schema, record, `put(${id})`)
-    }
-
     // Auto-translate missing i18nText translations.
     // Runs BEFORE i18n validation so translated values satisfy the
     // required-locale constraint. Throws TranslatorNotConfiguredError
@@ -1189,7 +1190,7 @@ export class Collection<T> {
       let priorRecord: Record<string, unknown> | null = null
       if (existingEnv) {
         try {
-          priorRecord = (await this.decryptRecord(existingEnv, { skipValidation: true })) as unknown as Record<string, unknown>
+          priorRecord = await this.decryptPriorRecord(existingEnv)
         } catch {
           priorRecord = null
         }
@@ -2672,6 +2673,37 @@ export class Collection<T> {
     }
   }
 
+  /**
+   * Decrypt the stored record for the period guard, with the key of
+   * the tier it is stored at.
+   */
+  private async decryptPriorRecord(envelope: EncryptedEnvelope): Promise<Record<string, unknown>> {
+    const tier = envelope._tier ?? 0
+    if (tier === 0) {
+      return (await this.decryptRecord(envelope, { skipValidation: true })) as unknown as Record<string, unknown>
+    }
+    assertTierAccess(this.keyring, this.name, tier)
+    const dek = await this.getDEK(dekKey(this.name, tier))
+    return JSON.parse(await decrypt(envelope._iv, envelope._data, dek)) as Record<string, unknown>
+  }
+
+  /** accounting-period guard for the tier-aware writes (same contract as put). */
+  private async assertPeriodOpen(existing: EncryptedEnvelope | null, incoming: T | null): Promise<void> {
+    if (this.periodGuard === undefined) return
+    let priorRecord: Record<string, unknown> | null = null
+    if (existing) {
+      try {
+        priorRecord = await this.decryptPriorRecord(existing)
+      } catch {
+        priorRecord = null
+      }
+    }
+    await this.periodGuard(
+      existing ? { ts: existing._ts, record: priorRecord } : null,
+      incoming as unknown as Record<string, unknown> | null,
+    )
+  }
+
   /**
    * tier-aware put. Encrypts the record with the
    * collection's tier-N DEK and stamps `_tier: N` on the envelope. The
@@ -2715,6 +2747,7 @@ export class Collection<T> {
     const dek = await this.getDEK(key)
 
     const existing = await this.adapter.get(this.vault, this.name, id)
+    await this.assertPeriodOpen(existing, record)
     const version = existing ? existing._v + 1 : 1
     const json = JSON.stringify(record)
     const { iv, data } = await encrypt(json, dek)
@@ -2846,6 +2879,7 @@ export class Collection<T> {
     const fromDek = await this.getDEK(fromKey)
     const toDek = await this.getDEK(toKey)
 
+    await this.assertPeriodOpen(envelope, null)
     const plaintext = await decrypt(envelope._iv, envelope._data, fromDek)
     const { iv, data } = await encrypt(plaintext, toDek)
     const now = new Date().toISOString()
@@ -2904,6 +2938,7 @@ export class Collection<T> {
     const fromDek = await this.getDEK(dekKey(this.name, fromTier))
     const toDek = await this.getDEK(dekKey(this.name, toTier))
 
+    await this.assertPeriodOpen(envelope, null)
     const plaintext = await decrypt(envelope._iv, envelope._data, fromDek)
     const { iv, data } = await encrypt(plaintext, toDek)
     const now = new Date().toISOString()
-- 
2.43.0


From 7398dbe20fba5766e6a638fa09da70b459ac734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:18 +0000
Subject: [PATCH 35/58] fix: treat a date-only period end as covering the whole
 last day

A record dated with a time on the last day of a closed period sorted
after the date-only end and was not sealed.
---
 packages/hub/src/periods/periods.ts | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/hub/src/periods/periods.ts b/packages/hub/src/periods/periods.ts
index 7cbe6fc..02908ab 100644
--- a/packages/hub/src/periods/periods.ts
+++ b/packages/hub/src/periods/periods.ts
@@ -272,7 +272,7 @@ export function assertTsWritable(
       const checkRecord = (label: string, r: Record<string, unknown> | null): void => {
         if (!r) return
         const v = r[p.dateField!]
-        if (typeof v === 'string' && v <= p.endDate) {
+        if (typeof v === 'string' && isAtOrBefore(v, p.endDate)) {
           throw new PeriodClosedError(p.name, p.endDate, `${label}[${p.dateField}]=${v}`)
         }
       }
@@ -282,12 +282,20 @@ export function assertTsWritable(
     }
     // Fallback: write-time seal via envelope _ts.
     const existingTs = existing?.ts ?? null
-    if (existingTs !== null && existingTs <= p.endDate) {
+    if (existingTs !== null && isAtOrBefore(existingTs, p.endDate)) {
       throw new PeriodClosedError(p.name, p.endDate, existingTs)
     }
   }
 }
 
+/**
+ * ISO comparison against an inclusive cutoff. A date-only cutoff covers
+ * that whole day, so a timestamp is compared at the cutoff's precision.
+ */
+function isAtOrBefore(value: string, cutoff: string): boolean {
+  return value.slice(0, cutoff.length) <= cutoff
+}
+
 /**
  * Sanity-check a proposed period name + endDate against existing
  * records. Shared by closePeriod / openPeriod so the two pathways
-- 
2.43.0


From a8727543c2e407d0bdcb62ca1c5dc59d0cd7c153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:01:04 +0000
Subject: [PATCH 36/58] fix: append a ledger entry for writes at a tier

putAtTier, elevate and demote replaced the stored record without a
ledger entry, so the ledger no longer described the stored data and
backup verification failed afterwards.
---
 packages/hub/src/collection.ts | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 563d102..3eeec25 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -2704,6 +2704,20 @@ export class Collection<T> {
     )
   }
 
+  /** Ledger append for the tier-aware writes (same contract as put). */
+  private async afterTierWrite(id: string, envelope: EncryptedEnvelope): Promise<void> {
+    if (this.ledger) {
+      await this.ledger.append({
+        op: 'put',
+        collection: this.name,
+        id,
+        version: envelope._v,
+        actor: this.keyring.userId,
+        payloadHash: await this.historyStrategy.envelopePayloadHash(envelope),
+      })
+    }
+  }
+
   /**
    * tier-aware put. Encrypts the record with the
    * collection's tier-N DEK and stamps `_tier: N` on the envelope. The
@@ -2762,6 +2776,7 @@ export class Collection<T> {
     }
 
     await this.adapter.put(this.vault, this.name, id, envelope)
+    await this.afterTierWrite(id, envelope)
 
     if (tier > 0) {
       this.emitCrossTierEvent({
@@ -2894,6 +2909,7 @@ export class Collection<T> {
       _elevatedBy: this.keyring.userId,
     }
     await this.adapter.put(this.vault, this.name, id, next)
+    await this.afterTierWrite(id, next)
 
     this.emitCrossTierEvent({
       actor: this.keyring.userId,
@@ -2952,6 +2968,7 @@ export class Collection<T> {
       ...(toTier > 0 && { _tier: toTier }),
     }
     await this.adapter.put(this.vault, this.name, id, next)
+    await this.afterTierWrite(id, next)
 
     this.emitCrossTierEvent({
       actor: this.keyring.userId,
-- 
2.43.0


From f53c8e029f19d70bc770feeb7f1d099afa49163c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:01:04 +0000
Subject: [PATCH 37/58] fix: do not append a second ledger entry when a stale
 delta exists

A delta left over at the claimed index made the delta write conflict.
The append was then retried and recorded the same operation twice.
---
 packages/hub/src/history/ledger/store.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/hub/src/history/ledger/store.ts b/packages/hub/src/history/ledger/store.ts
index 0c0d67a..0adbe7f 100644
--- a/packages/hub/src/history/ledger/store.ts
+++ b/packages/hub/src/history/ledger/store.ts
@@ -306,14 +306,16 @@ export class LedgerStore {
       0,
     )
 
-    // Chain slot claimed. Now write the delta record (if any).
+    // Chain slot claimed. Now write the delta record (if any). The
+    // claim makes this index ours, so a delta left over at it is stale
+    // and gets replaced: a conflict here would make append() retry and
+    // write a second entry for the same operation.
     if (deltaEnvelope) {
       await this.adapter.put(
         this.vault,
         LEDGER_DELTAS_COLLECTION,
         paddedIndex(entry.index),
         deltaEnvelope,
-        0,
       )
     }
 
-- 
2.43.0


From ca773ca893ea71d1e30255726cf77826e2a88360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:20:40 +0000
Subject: [PATCH 38/58] fix: refresh cache, indexes, sync and listeners after
 writes at a tier

putAtTier, elevate and demote left the previous record readable from the
cache and the indexes, never queued the change for sync and never emitted
a change event. Opening a collection that holds a record above tier 0
failed because hydration decrypted it with the base key.
---
 packages/hub/src/collection.ts | 53 ++++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 3eeec25..c56e029 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -1921,7 +1921,7 @@ export class Collection<T> {
     const ids = await this.adapter.list(this.vault, this.name)
     for (const id of ids) {
       const envelope = await this.adapter.get(this.vault, this.name, id)
-      if (envelope) {
+      if (envelope && !envelope._tier) {
         const record = await this.decryptRecord(envelope)
         this.cache.set(id, { record, version: envelope._v })
       }
@@ -1933,6 +1933,7 @@ export class Collection<T> {
   /** Hydrate from a pre-loaded snapshot (used by Vault). */
   async hydrateFromSnapshot(records: Record<string, EncryptedEnvelope>): Promise<void> {
     for (const [id, envelope] of Object.entries(records)) {
+      if (envelope._tier) continue
       const record = await this.decryptRecord(envelope)
       this.cache.set(id, { record, version: envelope._v })
     }
@@ -2704,8 +2705,16 @@ export class Collection<T> {
     )
   }
 
-  /** Ledger append for the tier-aware writes (same contract as put). */
-  private async afterTierWrite(id: string, envelope: EncryptedEnvelope): Promise<void> {
+  /**
+   * Bookkeeping after a tier-aware write (same contract as put). Only
+   * records at tier 0 are kept in memory and indexed: above it the
+   * plain view no longer contains the record.
+   */
+  private async afterTierWrite(
+    id: string,
+    previous: EncryptedEnvelope | null,
+    envelope: EncryptedEnvelope,
+  ): Promise<void> {
     if (this.ledger) {
       await this.ledger.append({
         op: 'put',
@@ -2716,6 +2725,38 @@ export class Collection<T> {
         payloadHash: await this.historyStrategy.envelopePayloadHash(envelope),
       })
     }
+
+    const version = envelope._v
+    const record: T | null = envelope._tier ? null : await this.decryptRecord(envelope, { skipValidation: true })
+    if (this.lazy && this.lru) {
+      const before: T | null = previous && !previous._tier
+        ? await this.decryptRecord(previous, { skipValidation: true })
+        : null
+      if (record !== null) {
+        this.lru.set(id, { record, version }, estimateRecordBytes(record))
+        await this.maintainPersistedIndexesOnPut(id, record, before, version)
+      } else {
+        this.lru.remove(id)
+        if (before !== null) await this.maintainPersistedIndexesOnDelete(id, before)
+      }
+    } else if (this.hydrated) {
+      const before: T | null = this.cache.get(id)?.record ?? null
+      if (record !== null) {
+        this.cache.set(id, { record, version })
+        this.indexes?.upsert(id, record, before)
+      } else {
+        this.cache.delete(id)
+        if (before !== null) this.indexes?.remove(id, before)
+      }
+    }
+
+    await this.onDirty?.(this.name, id, 'put', version)
+    this.emitter.emit('change', {
+      vault: this.vault,
+      collection: this.name,
+      id,
+      action: 'put',
+    } satisfies ChangeEvent)
   }
 
   /**
@@ -2776,7 +2817,7 @@ export class Collection<T> {
     }
 
     await this.adapter.put(this.vault, this.name, id, envelope)
-    await this.afterTierWrite(id, envelope)
+    await this.afterTierWrite(id, existing, envelope)
 
     if (tier > 0) {
       this.emitCrossTierEvent({
@@ -2909,7 +2950,7 @@ export class Collection<T> {
       _elevatedBy: this.keyring.userId,
     }
     await this.adapter.put(this.vault, this.name, id, next)
-    await this.afterTierWrite(id, next)
+    await this.afterTierWrite(id, envelope, next)
 
     this.emitCrossTierEvent({
       actor: this.keyring.userId,
@@ -2968,7 +3009,7 @@ export class Collection<T> {
       ...(toTier > 0 && { _tier: toTier }),
     }
     await this.adapter.put(this.vault, this.name, id, next)
-    await this.afterTierWrite(id, next)
+    await this.afterTierWrite(id, envelope, next)
 
     this.emitCrossTierEvent({
       actor: this.keyring.userId,
-- 
2.43.0


From 9eddea0c76618357d076248fa0d17c76b6f6ffcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:20:40 +0000
Subject: [PATCH 39/58] fix: audit tier-aware reads and writes while consent is
 active

getAtTier, putAtTier, elevate and demote left no consent audit entry.
---
 packages/hub/src/collection.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index c56e029..a25231b 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -2757,6 +2757,7 @@ export class Collection<T> {
       id,
       action: 'put',
     } satisfies ChangeEvent)
+    await this.onAccess?.('put', id)
   }
 
   /**
@@ -2853,7 +2854,9 @@ export class Collection<T> {
     if (!envelope) return null
     const tier = envelope._tier ?? 0
     if (tier === 0) {
-      return this.decryptRecord(envelope)
+      const record = await this.decryptRecord(envelope)
+      await this.onAccess?.('get', id)
+      return record
     }
 
     const key = dekKey(this.name, tier)
@@ -2881,6 +2884,7 @@ export class Collection<T> {
       ts: new Date().toISOString(),
     })
 
+    await this.onAccess?.('get', id)
     return record
   }
 
-- 
2.43.0


From cd3f520f94c74a154422ac5ce2ada401968cd799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:20:40 +0000
Subject: [PATCH 40/58] fix: save the previous version before every replacing
 write

A CRDT put saved the history snapshot after overwriting the record, so a
failure in between lost it. A delete on a collection that was not loaded
yet saved none at all and left the record in the indexes.
---
 packages/hub/src/collection.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index a25231b..b8ba3de 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -1024,8 +1024,6 @@ export class Collection<T> {
       }
 
       const version = existingVersion + 1
-      const envelope = await this.encryptJsonString(JSON.stringify(crdtState), version)
-      await this.adapter.put(this.vault, this.name, id, envelope)
 
       // Resolve snapshot for cache and history
       const resolvedRecord = this.crdtStrategy.resolveCrdtSnapshot(crdtState) as T
@@ -1042,6 +1040,9 @@ export class Collection<T> {
         }
       }
 
+      const envelope = await this.encryptJsonString(JSON.stringify(crdtState), version)
+      await this.adapter.put(this.vault, this.name, id, envelope)
+
       if (this.ledger) {
         const appendInput: Parameters<typeof this.ledger.append>[0] = {
           op: 'put', collection: this.name, id, version, actor: this.keyring.userId,
@@ -1225,6 +1226,7 @@ export class Collection<T> {
         }
       }
     } else {
+      await this.ensureHydrated()
       existing = this.cache.get(id)
     }
 
-- 
2.43.0


From a2c72445be4d564749c598f64db61ce0b3412027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:31:49 +0000
Subject: [PATCH 41/58] fix: keep one record's history apart from records whose
 id extends its id

Reading, pruning or clearing the history of record 'a' also matched the
entries of record 'a:b', because only the prefix was compared. An empty
record id was treated as the whole collection.
---
 packages/hub/src/history/history.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages/hub/src/history/history.ts b/packages/hub/src/history/history.ts
index 0579b31..4ff3a0d 100644
--- a/packages/hub/src/history/history.ts
+++ b/packages/hub/src/history/history.ts
@@ -31,8 +31,10 @@ function parseHistoryId(id: string): { collection: string; recordId: string; ver
 }
 
 function matchesPrefix(id: string, collection: string, recordId?: string): boolean {
-  if (recordId) {
-    return id.startsWith(`${collection}:${recordId}:`)
+  if (recordId !== undefined) {
+    // Record ids may contain ':', so the remainder must be the version alone.
+    const prefix = `${collection}:${recordId}:`
+    return id.startsWith(prefix) && /^\d+$/.test(id.slice(prefix.length))
   }
   return id.startsWith(`${collection}:`)
 }
@@ -103,7 +105,7 @@ export async function pruneHistory(
 ): Promise<number> {
   const allIds = await adapter.list(vault, HISTORY_COLLECTION)
   const matchingIds = allIds
-    .filter(id => recordId ? matchesPrefix(id, collection, recordId) : matchesPrefix(id, collection))
+    .filter(id => matchesPrefix(id, collection, recordId))
     .sort()
 
   let toDelete: string[] = []
@@ -147,7 +149,7 @@ export async function clearHistory(
   const allIds = await adapter.list(vault, HISTORY_COLLECTION)
   let toDelete: string[]
 
-  if (collection && recordId) {
+  if (collection && recordId !== undefined) {
     toDelete = allIds.filter(id => matchesPrefix(id, collection, recordId))
   } else if (collection) {
     toDelete = allIds.filter(id => matchesPrefix(id, collection))
-- 
2.43.0


From 3c6ba0e78a170b2a6f46b8250b33353befd6025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:21:00 +0000
Subject: [PATCH 42/58] fix: undo every attempted write of a failed batch and
 refresh cache and indexes

A transaction or atomic putMany only reverted operations that had returned,
so one that failed after its store write stayed in place. The revert also
wrote behind the collection's cache and indexes, which kept serving the
abandoned records.
---
 packages/hub/src/collection.ts     | 73 ++++++++++++++++++++----------
 packages/hub/src/tx/transaction.ts | 15 +++---
 2 files changed, 55 insertions(+), 33 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index b8ba3de..db6e484 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -1395,15 +1395,15 @@ export class Collection<T> {
     const executed: Array<{ id: string; prior: EncryptedEnvelope | null }> = []
     try {
       for (const [id, record] of entries) {
-        await this.put(id, record)
+        // Noted first: a put that throws may already have reached the store.
         executed.push({ id, prior: priors.get(id) ?? null })
+        await this.put(id, record)
       }
       return { ok: true, success: executed.map((e) => e.id), failures: [] }
     } catch (err) {
       for (const { id, prior } of executed.slice().reverse()) {
         try {
-          if (prior) await this.adapter.put(this.vault, this.name, id, prior)
-          else await this.adapter.delete(this.vault, this.name, id)
+          await this._restore(id, prior)
         } catch { /* best-effort */ }
       }
       throw err
@@ -2707,29 +2707,16 @@ export class Collection<T> {
     )
   }
 
-  /**
-   * Bookkeeping after a tier-aware write (same contract as put). Only
-   * records at tier 0 are kept in memory and indexed: above it the
-   * plain view no longer contains the record.
-   */
-  private async afterTierWrite(
+  /** Bring cache and indexes in line with the stored copy of one record. */
+  private async refreshCached(
     id: string,
     previous: EncryptedEnvelope | null,
-    envelope: EncryptedEnvelope,
+    envelope: EncryptedEnvelope | null,
   ): Promise<void> {
-    if (this.ledger) {
-      await this.ledger.append({
-        op: 'put',
-        collection: this.name,
-        id,
-        version: envelope._v,
-        actor: this.keyring.userId,
-        payloadHash: await this.historyStrategy.envelopePayloadHash(envelope),
-      })
-    }
-
-    const version = envelope._v
-    const record: T | null = envelope._tier ? null : await this.decryptRecord(envelope, { skipValidation: true })
+    const version = envelope?._v ?? 0
+    const record: T | null = envelope && !envelope._tier
+      ? await this.decryptRecord(envelope, { skipValidation: true })
+      : null
     if (this.lazy && this.lru) {
       const before: T | null = previous && !previous._tier
         ? await this.decryptRecord(previous, { skipValidation: true })
@@ -2751,8 +2738,46 @@ export class Collection<T> {
         if (before !== null) this.indexes?.remove(id, before)
       }
     }
+  }
 
-    await this.onDirty?.(this.name, id, 'put', version)
+  /**
+   * Put the stored copy of one record back to what it was before a
+   * multi-record write that failed part-way.
+   *
+   * @internal
+   */
+  async _restore(id: string, prior: EncryptedEnvelope | null): Promise<void> {
+    const current = await this.adapter.get(this.vault, this.name, id)
+    if (current?._v === prior?._v && current?._data === prior?._data) return
+    if (prior) await this.adapter.put(this.vault, this.name, id, prior)
+    else await this.adapter.delete(this.vault, this.name, id)
+    await this.refreshCached(id, current, prior)
+  }
+
+  /**
+   * Bookkeeping after a tier-aware write (same contract as put). Only
+   * records at tier 0 are kept in memory and indexed: above it the
+   * plain view no longer contains the record.
+   */
+  private async afterTierWrite(
+    id: string,
+    previous: EncryptedEnvelope | null,
+    envelope: EncryptedEnvelope,
+  ): Promise<void> {
+    if (this.ledger) {
+      await this.ledger.append({
+        op: 'put',
+        collection: this.name,
+        id,
+        version: envelope._v,
+        actor: this.keyring.userId,
+        payloadHash: await this.historyStrategy.envelopePayloadHash(envelope),
+      })
+    }
+
+    await this.refreshCached(id, previous, envelope)
+
+    await this.onDirty?.(this.name, id, 'put', envelope._v)
     this.emitter.emit('change', {
       vault: this.vault,
       collection: this.name,
diff --git a/packages/hub/src/tx/transaction.ts b/packages/hub/src/tx/transaction.ts
index e24d6b6..83b20d0 100644
--- a/packages/hub/src/tx/transaction.ts
+++ b/packages/hub/src/tx/transaction.ts
@@ -232,28 +232,29 @@ export async function runTransaction<T>(
 
   // Phase 2 — execute via the Collection layer so history snapshots,
   // ledger entries, and change events fire normally. We capture each
-  // successful op so a mid-batch throw can revert in Phase 3.
+  // attempted op so a mid-batch throw can revert in Phase 3.
   const executed: Array<{ op: StagedOp; priorEnvelope: EncryptedEnvelope | null }> = []
   try {
     for (const op of ctx._ops) {
       const coll = db.vault(op.vaultName).collection(op.collectionName)
       const key = keyOf(op)
       const prior = priorEnvelopes.get(key) ?? null
+      // Noted first: an op that throws may already have reached the store.
+      executed.push({ op, priorEnvelope: prior })
       if (op.type === 'put') {
         // eslint-disable-next-line @typescript-eslint/no-explicit-any
         await coll.put(op.id, op.record as any)
       } else {
         await coll.delete(op.id)
       }
-      executed.push({ op, priorEnvelope: prior })
     }
     return bodyResult
   } catch (err) {
     // Phase 3 — best-effort revert. Restore captured prior envelopes
     // via the raw store to avoid re-firing Collection-level side
     // effects (we don't want a cascade of change events undoing
-    // themselves). The ledger is left as-is: each committed op
-    // appended an entry; the revert is deliberately not recorded as a
+    // themselves); only cache and indexes follow the restored state.
+    // The ledger is left as-is: each committed op appended an entry; the revert is deliberately not recorded as a
     // compensating entry because #240's contract is "atomic or not at
     // all" from the caller's view, not "every write visible in the
     // audit trail." Auditors who need the intermediate state can still
@@ -261,11 +262,7 @@ export async function runTransaction<T>(
     // timestamp.
     for (const { op, priorEnvelope } of executed.slice().reverse()) {
       try {
-        if (priorEnvelope) {
-          await store.put(op.vaultName, op.collectionName, op.id, priorEnvelope)
-        } else {
-          await store.delete(op.vaultName, op.collectionName, op.id)
-        }
+        await db.vault(op.vaultName).collection(op.collectionName)._restore(op.id, priorEnvelope)
       } catch {
         // swallow — best-effort. Surfacing the revert error would
         // mask the original one that triggered the rollback.
-- 
2.43.0


From a963ec0e3ecd6fd69323439996f20f3af1ea7b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:21:00 +0000
Subject: [PATCH 43/58] fix: drop the index entries of an uncached record on
 delete without history

In lazy mode the previous record was only read when history was enabled,
so its index entries stayed behind and queries kept returning its id.
---
 packages/hub/src/collection.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index db6e484..5b1e7ca 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -1214,11 +1214,12 @@ export class Collection<T> {
     }
 
     // In lazy mode the record may not be cached; ask the adapter so we
-    // can still write a history snapshot if history is enabled.
+    // can still write a history snapshot if history is enabled, and
+    // tear down the index entries of the record.
     let existing: { record: T; version: number } | undefined
     if (this.lazy && this.lru) {
       existing = this.lru.get(id)
-      if (!existing && this.historyConfig.enabled !== false) {
+      if (!existing && (this.historyConfig.enabled !== false || this.persistedIndexes)) {
         const previousEnvelope = await this.adapter.get(this.vault, this.name, id)
         if (previousEnvelope) {
           const previousRecord = await this.decryptRecord(previousEnvelope)
-- 
2.43.0


From 40c6c2e98ae12dc7c8c36be6cd10cc00cbb1e88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:08:22 +0000
Subject: [PATCH 44/58] fix: count a published version's reference before the
 version is stored

---
 packages/hub/src/blobs/blob-set.ts | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/packages/hub/src/blobs/blob-set.ts b/packages/hub/src/blobs/blob-set.ts
index a000d18..f9f300b 100644
--- a/packages/hub/src/blobs/blob-set.ts
+++ b/packages/hub/src/blobs/blob-set.ts
@@ -678,18 +678,17 @@ export class BlobSet {
     const existing = await this.loadVersionRecord(slotName, label)
     if (existing && existing.eTag === slot.eTag) return // no-op: same blob
 
-    // Write the version record
     const record: VersionRecord = {
       label,
       eTag: slot.eTag,
       publishedAt: new Date().toISOString(),
       ...(this.userId !== undefined ? { publishedBy: this.userId } : {}),
     }
-    await this.writeVersionRecord(slotName, record)
-
-    // Increment refCount for the new version's eTag
+    // Count the new version's reference before it exists
     await this.casUpdateRefCount(slot.eTag, +1)
 
+    await this.writeVersionRecord(slotName, record)
+
     // If overwriting an existing version with a different eTag, decrement the old one
     if (existing && existing.eTag !== slot.eTag) {
       await this.casUpdateRefCount(existing.eTag, -1).catch(() => {})
-- 
2.43.0


From ba35ae2c4062314d70a183449635000b5fd1775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:08:22 +0000
Subject: [PATCH 45/58] fix: decide afresh which blob reference a retried slot
 update replaced

---
 packages/hub/src/blobs/blob-set.ts | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/packages/hub/src/blobs/blob-set.ts b/packages/hub/src/blobs/blob-set.ts
index f9f300b..6abf686 100644
--- a/packages/hub/src/blobs/blob-set.ts
+++ b/packages/hub/src/blobs/blob-set.ts
@@ -511,6 +511,7 @@ export class BlobSet {
 
     // Step 7 — CAS-update slot metadata
     const uploaderUserId = opts?.uploadedBy ?? this.userId
+    let replacedETag: string | undefined
     await this.casUpdateSlots((slots) => {
       const oldETag = slots[slotName]?.eTag
       slots[slotName] = {
@@ -522,24 +523,18 @@ export class BlobSet {
         ...(uploaderUserId !== undefined ? { uploadedBy: uploaderUserId } : {}),
       }
       // Schedule old eTag refCount decrement (non-blocking best-effort)
-      if (oldETag && oldETag !== eTag) {
-        this._deferredRefDecrement = oldETag
-      }
+      replacedETag = oldETag && oldETag !== eTag ? oldETag : undefined
       return slots
     })
 
     // Decrement old eTag refCount outside the CAS loop
-    if (this._deferredRefDecrement) {
-      const oldETag = this._deferredRefDecrement
-      this._deferredRefDecrement = undefined
-      await this.casUpdateRefCount(oldETag, -1).catch(() => {
+    if (replacedETag) {
+      await this.casUpdateRefCount(replacedETag, -1).catch(() => {
         // Best-effort — blobGC will reconcile
       })
     }
   }
 
-  private _deferredRefDecrement: string | undefined
-
   /**
    * Fetch all bytes for the named slot.
    * Returns `null` if the slot does not exist.
@@ -574,6 +569,7 @@ export class BlobSet {
     let eTagToDecrement: string | undefined
 
     await this.casUpdateSlots((slots) => {
+      eTagToDecrement = undefined // a retried attempt decides afresh
       if (!(slotName in slots)) return null
       eTagToDecrement = slots[slotName]!.eTag
       delete slots[slotName]
-- 
2.43.0


From 8bbccd47605297608a330418dba2c55858f76eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:08:22 +0000
Subject: [PATCH 46/58] fix: write first slots and first index entry of a blob
 only if there are none yet

---
 packages/hub/src/blobs/blob-set.ts | 36 +++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/packages/hub/src/blobs/blob-set.ts b/packages/hub/src/blobs/blob-set.ts
index 6abf686..9b5b8c6 100644
--- a/packages/hub/src/blobs/blob-set.ts
+++ b/packages/hub/src/blobs/blob-set.ts
@@ -232,7 +232,7 @@ export class BlobSet {
       this.slotsCollection,
       this.recordId,
       envelope,
-      currentVersion > 0 ? currentVersion : undefined,
+      currentVersion,
     )
   }
 
@@ -495,18 +495,28 @@ export class BlobSet {
         )
       }
 
-      // Step 6 — write blob index entry after all chunks succeed
-      await this.writeBlobObject({
-        eTag,
-        size: data.byteLength,
-        compressedSize: compressed.byteLength,
-        compression: algorithm,
-        chunkSize,
-        chunkCount,
-        ...(mimeType !== undefined ? { mimeType } : {}),
-        createdAt: new Date().toISOString(),
-        refCount: 1,
-      })
+      // Step 6 — write blob index entry after all chunks succeed. The same
+      // content may have been uploaded meanwhile: keep its references.
+      for (let attempt = 0; ; attempt++) {
+        const current = attempt === 0 ? null : await this.loadBlobObject(eTag)
+        try {
+          await this.writeBlobObject({
+            eTag,
+            size: data.byteLength,
+            compressedSize: compressed.byteLength,
+            compression: algorithm,
+            chunkSize,
+            chunkCount,
+            ...(mimeType !== undefined ? { mimeType } : {}),
+            createdAt: new Date().toISOString(),
+            refCount: (current?.blob.refCount ?? 0) + 1,
+          }, current?.version ?? 0)
+          break
+        } catch (err) {
+          if (err instanceof ConflictError && attempt < MAX_CAS_RETRIES - 1) continue
+          throw err
+        }
+      }
     }
 
     // Step 7 — CAS-update slot metadata
-- 
2.43.0


From 47e9c32c2f57f36c2485160e78a63663fa7d4eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:08:22 +0000
Subject: [PATCH 47/58] fix: drop keys first on close and keep a closed
 instance from unlocking again

---
 packages/hub/src/noydb.ts | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/packages/hub/src/noydb.ts b/packages/hub/src/noydb.ts
index 12888c1..652c628 100644
--- a/packages/hub/src/noydb.ts
+++ b/packages/hub/src/noydb.ts
@@ -176,7 +176,7 @@ export class Noydb {
     name: string,
     opts?: { locale?: string },
   ): Promise<Vault> {
-    if (this.closed) throw new ValidationError('Instance is closed')
+    this.assertOpen()
     this.touchPolicy(name)
 
     let comp = this.vaultCache.get(name)
@@ -189,6 +189,7 @@ export class Noydb {
     }
 
     const keyring = await this.getKeyring(name)
+    this.assertOpen()
 
     // Set up sync engine(s) — handles bare NoydbStore, SyncTarget, or SyncTarget[]
     let syncEngine: SyncEngine | undefined
@@ -285,7 +286,7 @@ export class Noydb {
                 this.options.user,
                 this.options.secret as string,
               )
-              this.keyringCache.set(name, refreshed)
+              this.rememberKeyring(name, refreshed)
               return refreshed
             }
           : undefined,
@@ -296,6 +297,7 @@ export class Noydb {
 
   /** Synchronous vault access (must call openVault first, or auto-opens). */
   vault(name: string): Vault {
+    this.assertOpen()
     const cached = this.vaultCache.get(name)
     if (cached) return cached
 
@@ -394,7 +396,7 @@ export class Noydb {
     // Refresh the cached keyring so subsequent operations see the
     // freshly-rotated DEKs. Without this, `ensureCollectionDEK` on
     // the next Collection access would still hold the old ones.
-    this.keyringCache.set(vault, keyring)
+    this.rememberKeyring(vault, keyring)
   }
 
   /** List all users with access to a vault. */
@@ -468,7 +470,7 @@ export class Noydb {
   async listAccessibleVaults(
     options: ListAccessibleVaultsOptions = {},
   ): Promise<AccessibleVault[]> {
-    if (this.closed) throw new ValidationError('Instance is closed')
+    this.assertOpen()
     this.resetSessionTimer()
 
     const adapter = this.options.store
@@ -527,7 +529,7 @@ export class Noydb {
       // Opportunistically prime the keyring cache so a subsequent
       // openVault() doesn't have to re-derive the KEK. The cost
       // is one Map.set per vault we already paid to unwrap.
-      this.keyringCache.set(vault, keyring)
+      this.rememberKeyring(vault, keyring)
     }
 
     return accessible
@@ -586,7 +588,7 @@ export class Noydb {
     fn: (vault: Vault) => Promise<T>,
     options: QueryAcrossOptions = {},
   ): Promise<QueryAcrossResult<T>[]> {
-    if (this.closed) throw new ValidationError('Instance is closed')
+    this.assertOpen()
     this.resetSessionTimer()
 
     const concurrency = Math.max(1, options.concurrency ?? 1)
@@ -654,7 +656,7 @@ export class Noydb {
       keyring,
       newPassphrase,
     )
-    this.keyringCache.set(vault, updated)
+    this.rememberKeyring(vault, updated)
   }
 
   // ─── Sync ──────────────────────────────────────────────────────
@@ -786,6 +788,11 @@ export class Noydb {
 
   close(): void {
     this.closed = true
+    // Keys first: a later step that throws must not leave them behind
+    this.keyringCache.clear()
+    this.vaultCache.clear()
+    // Revoke all in-memory session keys
+    this.sessionStrategy.revokeAllSessions()
     if (this.sessionTimer) {
       clearTimeout(this.sessionTimer)
       this.sessionTimer = null
@@ -795,15 +802,11 @@ export class Noydb {
       enforcer.destroy()
     }
     this.policyEnforcers.clear()
-    // Revoke all in-memory session keys
-    this.sessionStrategy.revokeAllSessions()
     // Stop all sync engines
     for (const engine of this.syncEngines.values()) {
       engine.stopAutoSync()
     }
     this.syncEngines.clear()
-    this.keyringCache.clear()
-    this.vaultCache.clear()
     this.emitter.removeAllListeners()
     // Clear translator state — same lifetime as KEK/DEKs
     this.translatorCache.clear()
@@ -870,6 +873,7 @@ export class Noydb {
 
   /** Get or load the keyring for a vault. */
   private async getKeyring(vault: string): Promise<UnlockedKeyring> {
+    this.assertOpen()
     if (this.options.encrypt === false) {
       return createPlaintextKeyring(this.options.user)
     }
@@ -894,9 +898,19 @@ export class Noydb {
       }
     }
 
-    this.keyringCache.set(vault, keyring)
+    this.assertOpen() // closed while the keyring was being unlocked
+    this.rememberKeyring(vault, keyring)
     return keyring
   }
+
+  private assertOpen(): void {
+    if (this.closed) throw new ValidationError('Instance is closed')
+  }
+
+  /** Cache an unlocked keyring, unless the instance was closed meanwhile. */
+  private rememberKeyring(vault: string, keyring: UnlockedKeyring): void {
+    if (!this.closed) this.keyringCache.set(vault, keyring)
+  }
 }
 
 /** Create a new NOYDB instance. */
-- 
2.43.0


From 665438d11a28452a6f5f0b60f1d32ed5267c54a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:37:03 +0000
Subject: [PATCH 48/58] fix: keep the store cache from serving values it has
 overwritten

A read that overlapped a write put the replaced value into the cache, and
whole-vault saves and transactions left the cached records in place.
---
 packages/hub/src/store/store-middleware.ts | 60 +++++++++++++++++++---
 1 file changed, 53 insertions(+), 7 deletions(-)

diff --git a/packages/hub/src/store/store-middleware.ts b/packages/hub/src/store/store-middleware.ts
index 1949e99..0398fff 100644
--- a/packages/hub/src/store/store-middleware.ts
+++ b/packages/hub/src/store/store-middleware.ts
@@ -418,10 +418,20 @@ export function withCache(opts: StoreCacheOptions = {}): StoreMiddleware {
     cache.set(key, { envelope, cachedAt: Date.now() })
   }
 
+  // Counts the starts and ends of writes, so that a read or write that
+  // overlapped another write is not cached.
+  let writes = 0
+
   function invalidate(key: string): void {
+    writes++
     cache.delete(key)
   }
 
+  function invalidateAll(): void {
+    writes++
+    cache.clear()
+  }
+
   return (next) => ({
     ...next,
     name: next.name ? `cache(${next.name})` : 'cache',
@@ -430,25 +440,61 @@ export function withCache(opts: StoreCacheOptions = {}): StoreMiddleware {
       const key = cacheKey(vault, collection, id)
       const cached = getFromCache(key)
       if (cached !== undefined) return cached
+      const before = writes
       const result = await next.get(vault, collection, id)
-      setInCache(key, result)
+      if (writes === before) setInCache(key, result)
       return result
     },
 
     async put(vault, collection, id, env, ev) {
-      invalidate(cacheKey(vault, collection, id))
-      await next.put(vault, collection, id, env, ev)
-      setInCache(cacheKey(vault, collection, id), env)
+      const key = cacheKey(vault, collection, id)
+      invalidate(key)
+      const before = writes
+      try {
+        await next.put(vault, collection, id, env, ev)
+      } catch (err) {
+        invalidate(key)
+        throw err
+      }
+      const alone = writes === before
+      invalidate(key)
+      if (alone) setInCache(key, env)
     },
 
     async delete(vault, collection, id) {
-      invalidate(cacheKey(vault, collection, id))
-      await next.delete(vault, collection, id)
+      const key = cacheKey(vault, collection, id)
+      invalidate(key)
+      try {
+        await next.delete(vault, collection, id)
+      } finally {
+        invalidate(key)
+      }
     },
 
     list: (v, c) => next.list(v, c),
     loadAll: (v) => next.loadAll(v),
-    saveAll: (v, d) => next.saveAll(v, d),
+
+    async saveAll(v, d) {
+      invalidateAll()
+      try {
+        await next.saveAll(v, d)
+      } finally {
+        invalidateAll()
+      }
+    },
+
+    ...(next.tx
+      ? {
+          tx: async (ops) => {
+            invalidateAll()
+            try {
+              await next.tx!(ops)
+            } finally {
+              invalidateAll()
+            }
+          },
+        } satisfies Pick<NoydbStore, 'tx'>
+      : {}),
   })
 }
 
-- 
2.43.0


From 048b5bf34c8d05a1bd9e881f6851e159a0e9cf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:37:03 +0000
Subject: [PATCH 49/58] fix: read, list and delete blob chunks in the size tier
 they were written to

Small chunks were written to the small tier but looked up only in the large
one, and the tiering ignored overrides and vault routes.
---
 packages/hub/src/store/route-store.ts | 34 +++++++++++++++++++++------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/packages/hub/src/store/route-store.ts b/packages/hub/src/store/route-store.ts
index 3111d9e..7619744 100644
--- a/packages/hub/src/store/route-store.ts
+++ b/packages/hub/src/store/route-store.ts
@@ -471,6 +471,16 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
     return tieredBlobs.large
   }
 
+  /** The tier a size-tiered blob chunk lives in when it is not in `s`. */
+  function otherTier(collection: string, s: NoydbStore): NoydbStore | undefined {
+    if (!tieredBlobs || !isBlobChunks(collection)) return undefined
+    const small = tieredBlobs.small ?? primary
+    if (small === tieredBlobs.large) return undefined
+    if (s === tieredBlobs.large) return small
+    if (s === small) return tieredBlobs.large
+    return undefined // overridden or suspended
+  }
+
   /**
    * Age routing: check if a record is cold based on `_ts`.
    */
@@ -494,6 +504,10 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
       const s = storeFor(vault, collection)
       const result = await s.get(vault, collection, id)
 
+      // Size tiering: the chunk may live in the other tier
+      const other = otherTier(collection, s)
+      if (result === null && other) return other.get(vault, collection, id)
+
       // Age tiering: if hot store returned null, try cold
       if (result === null && opts.age && !isInternal(collection)) {
         if (!opts.age.collections?.length || opts.age.collections.includes(collection)) {
@@ -510,13 +524,14 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
       if (maybeQueueWrite(rn, 'put', vault, collection, id, envelope, expectedVersion)) return
 
       // Size-tiered blob routing
-      if (isBlobChunks(collection) && tieredBlobs) {
-        const dataSize = envelope._data.length
-        const s = blobStoreForSize(dataSize)
-        return s.put(vault, collection, id, envelope, expectedVersion)
-      }
-
       const s = storeFor(vault, collection)
+      if (isBlobChunks(collection) && tieredBlobs && s === tieredBlobs.large) {
+        const tier = blobStoreForSize(envelope._data.length)
+        await tier.put(vault, collection, id, envelope, expectedVersion)
+        const stale = otherTier(collection, tier)
+        if (stale) await stale.delete(vault, collection, id)
+        return
+      }
 
       await s.put(vault, collection, id, envelope, expectedVersion)
 
@@ -534,6 +549,8 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
 
       const s = storeFor(vault, collection)
       await s.delete(vault, collection, id)
+      const other = otherTier(collection, s)
+      if (other) await other.delete(vault, collection, id)
 
       // Also delete from cold store if age-tiered
       if (opts.age && !isInternal(collection)) {
@@ -543,7 +560,10 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
 
     async list(vault, collection) {
       const s = storeFor(vault, collection)
-      const ids = await s.list(vault, collection)
+      const other = otherTier(collection, s)
+      const ids = other
+        ? [...new Set([...await s.list(vault, collection), ...await other.list(vault, collection)])]
+        : await s.list(vault, collection)
 
       // Age tiering: merge IDs from cold store, deduplicate
       if (opts.age && !isInternal(collection)) {
-- 
2.43.0


From 9913a21466050b9cd114cf4b5fbb8a2624895c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:37:03 +0000
Subject: [PATCH 50/58] fix: report store errors when a routed store loads or
 lists

A failing store was left out silently, so a snapshot or listing could be
incomplete without any sign of it.
---
 packages/hub/src/store/route-store.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/hub/src/store/route-store.ts b/packages/hub/src/store/route-store.ts
index 7619744..5a32a27 100644
--- a/packages/hub/src/store/route-store.ts
+++ b/packages/hub/src/store/route-store.ts
@@ -568,7 +568,7 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
       // Age tiering: merge IDs from cold store, deduplicate
       if (opts.age && !isInternal(collection)) {
         if (!opts.age.collections?.length || opts.age.collections.includes(collection)) {
-          const coldIds = await opts.age.cold.list(vault, collection).catch(() => [] as string[])
+          const coldIds = await opts.age.cold.list(vault, collection)
           if (coldIds.length > 0) {
             const merged = new Set(ids)
             for (const id of coldIds) merged.add(id)
@@ -584,7 +584,7 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
       // Query all distinct stores in parallel, merge snapshots
       const stores = getStoresForVault(vault)
       const snapshots = await Promise.all(
-        stores.map(s => s.loadAll(vault).catch(() => ({}) as VaultSnapshot)),
+        stores.map(s => s.loadAll(vault)),
       )
       return mergeSnapshots(snapshots)
     },
@@ -703,7 +703,7 @@ export function routeStore(opts: RouteStoreOptions): RoutedNoydbStore {
       const results = await Promise.all(
         [...allStores]
           .filter(s => s.listVaults !== undefined)
-          .map(s => s.listVaults!().catch(() => [] as string[])),
+          .map(s => s.listVaults!()),
       )
       return [...new Set(results.flat())]
     }
-- 
2.43.0


From 5745e35edae6c4dfd75fa071942e4341857762e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:15:49 +0000
Subject: [PATCH 51/58] fix: keep a change that is tracked while a push or pull
 is running queued

---
 packages/hub/src/team/sync.ts | 53 ++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 29 deletions(-)

diff --git a/packages/hub/src/team/sync.ts b/packages/hub/src/team/sync.ts
index 232d3b6..bff440d 100644
--- a/packages/hub/src/team/sync.ts
+++ b/packages/hub/src/team/sync.ts
@@ -125,10 +125,9 @@ export class SyncEngine {
     let pushed = 0
     const conflicts: Conflict[] = []
     const errors: Error[] = []
-    const completed: number[] = []
+    const completed = new Set<DirtyEntry>()
 
-    for (let i = 0; i < this.dirty.length; i++) {
-      const entry = this.dirty[i]!
+    for (const entry of [...this.dirty]) {
 
       // Partial sync: skip collections not in the filter
       if (options?.collections && !options.collections.includes(entry.collection)) {
@@ -138,13 +137,13 @@ export class SyncEngine {
       try {
         if (entry.action === 'delete') {
           await this.remote.delete(this.vault, entry.collection, entry.id)
-          completed.push(i)
+          completed.add(entry)
           pushed++
         } else {
           const envelope = await this.local.get(this.vault, entry.collection, entry.id)
           if (!envelope) {
             // Record was deleted locally after being marked dirty
-            completed.push(i)
+            completed.add(entry)
             continue
           }
 
@@ -156,7 +155,7 @@ export class SyncEngine {
               envelope,
               entry.version - 1,
             )
-            completed.push(i)
+            completed.add(entry)
             pushed++
           } catch (err) {
             if (err instanceof ConflictError) {
@@ -172,17 +171,17 @@ export class SyncEngine {
                 conflicts.push(conflict)
                 if (handled === 'local') {
                   await this.remote.put(this.vault, entry.collection, entry.id, conflict.local)
-                  completed.push(i)
+                  completed.add(entry)
                   pushed++
                 } else if (handled === 'remote') {
                   await this.local.put(this.vault, entry.collection, entry.id, conflict.remote)
-                  completed.push(i)
+                  completed.add(entry)
                 } else if (handled === 'merged' && conflict.local !== envelope) {
                   // Merged envelope is stored in conflict.local (the winner)
                   const merged = conflict.local
                   await this.remote.put(this.vault, entry.collection, entry.id, merged)
                   await this.local.put(this.vault, entry.collection, entry.id, merged)
-                  completed.push(i)
+                  completed.add(entry)
                   pushed++
                 }
                 // handled === 'deferred': leave in dirty log
@@ -197,10 +196,9 @@ export class SyncEngine {
       }
     }
 
-    // Remove completed entries from dirty log (reverse order to preserve indices)
-    for (const i of completed.sort((a, b) => b - a)) {
-      this.dirty.splice(i, 1)
-    }
+    // Remove completed entries from dirty log. A change tracked meanwhile is
+    // a different entry and stays queued.
+    this.dirty = this.dirty.filter(d => !completed.has(d))
 
     this.lastPush = new Date().toISOString()
     await this.persistMeta()
@@ -242,8 +240,8 @@ export class SyncEngine {
               pulled++
             } else if (remoteEnvelope._v > localEnvelope._v) {
               // Remote is newer — check if we have a dirty entry for this
-              const isDirty = this.dirty.some(d => d.collection === collName && d.id === id)
-              if (isDirty) {
+              const dirtyEntry = this.dirty.find(d => d.collection === collName && d.id === id)
+              if (dirtyEntry) {
                 // Both changed — conflict
                 const { handled, conflict } = await this.handleConflict(
                   collName,
@@ -255,12 +253,12 @@ export class SyncEngine {
                 conflicts.push(conflict)
                 if (handled === 'remote') {
                   await this.local.put(this.vault, collName, id, conflict.remote)
-                  this.dirty = this.dirty.filter(d => !(d.collection === collName && d.id === id))
+                  this.dirty = this.dirty.filter(d => d !== dirtyEntry)
                   pulled++
                 } else if (handled === 'merged' && conflict.local !== localEnvelope) {
                   const merged = conflict.local
                   await this.local.put(this.vault, collName, id, merged)
-                  this.dirty = this.dirty.filter(d => !(d.collection === collName && d.id === id))
+                  this.dirty = this.dirty.filter(d => d !== dirtyEntry)
                   pulled++
                 }
                 // 'local' or 'deferred': push handles it
@@ -306,21 +304,20 @@ export class SyncEngine {
     let pushed = 0
     const conflicts: Conflict[] = []
     const errors: Error[] = []
-    const completed: number[] = []
+    const completed = new Set<DirtyEntry>()
 
-    for (let i = 0; i < this.dirty.length; i++) {
-      const entry = this.dirty[i]!
+    for (const entry of [...this.dirty]) {
       if (!predicate(entry)) continue
 
       try {
         if (entry.action === 'delete') {
           await this.remote.delete(this.vault, entry.collection, entry.id)
-          completed.push(i)
+          completed.add(entry)
           pushed++
         } else {
           const envelope = await this.local.get(this.vault, entry.collection, entry.id)
           if (!envelope) {
-            completed.push(i)
+            completed.add(entry)
             continue
           }
 
@@ -332,7 +329,7 @@ export class SyncEngine {
               envelope,
               entry.version - 1,
             )
-            completed.push(i)
+            completed.add(entry)
             pushed++
           } catch (err) {
             if (err instanceof ConflictError) {
@@ -348,16 +345,16 @@ export class SyncEngine {
                 conflicts.push(conflict)
                 if (handled === 'local') {
                   await this.remote.put(this.vault, entry.collection, entry.id, conflict.local)
-                  completed.push(i)
+                  completed.add(entry)
                   pushed++
                 } else if (handled === 'remote') {
                   await this.local.put(this.vault, entry.collection, entry.id, conflict.remote)
-                  completed.push(i)
+                  completed.add(entry)
                 } else if (handled === 'merged' && conflict.local !== envelope) {
                   const merged = conflict.local
                   await this.remote.put(this.vault, entry.collection, entry.id, merged)
                   await this.local.put(this.vault, entry.collection, entry.id, merged)
-                  completed.push(i)
+                  completed.add(entry)
                   pushed++
                 }
               }
@@ -371,9 +368,7 @@ export class SyncEngine {
       }
     }
 
-    for (const i of completed.sort((a, b) => b - a)) {
-      this.dirty.splice(i, 1)
-    }
+    this.dirty = this.dirty.filter(d => !completed.has(d))
 
     this.lastPush = new Date().toISOString()
     await this.persistMeta()
-- 
2.43.0


From 97c115434c30253fab7a8a69eae426a75155fd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:15:49 +0000
Subject: [PATCH 52/58] fix: load the persisted sync queue once when several
 callers ask for it

---
 packages/hub/src/team/sync.ts | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/packages/hub/src/team/sync.ts b/packages/hub/src/team/sync.ts
index bff440d..f36f671 100644
--- a/packages/hub/src/team/sync.ts
+++ b/packages/hub/src/team/sync.ts
@@ -32,7 +32,8 @@ export class SyncEngine {
   private dirty: DirtyEntry[] = []
   private lastPush: string | null = null
   private lastPull: string | null = null
-  private loaded = false
+  /** Load of the persisted dirty log, shared by all callers. */
+  private loading: Promise<void> | null = null
   private autoSyncInterval: ReturnType<typeof setInterval> | null = null
   private isOnline = true
 
@@ -506,9 +507,15 @@ export class SyncEngine {
 
   // ─── Persistence ─────────────────────────────────────────────────
 
-  private async ensureLoaded(): Promise<void> {
-    if (this.loaded) return
+  private ensureLoaded(): Promise<void> {
+    this.loading ??= this.loadMeta().catch((err: unknown) => {
+      this.loading = null
+      throw err
+    })
+    return this.loading
+  }
 
+  private async loadMeta(): Promise<void> {
     const envelope = await this.local.get(this.vault, '_sync', 'meta')
     if (envelope) {
       const meta = JSON.parse(envelope._data) as SyncMetadata
@@ -516,8 +523,6 @@ export class SyncEngine {
       this.lastPush = meta.last_push
       this.lastPull = meta.last_pull
     }
-
-    this.loaded = true
   }
 
   private async persistMeta(): Promise<void> {
-- 
2.43.0


From 739c3bd18eb9d0e7343dba41e4f18af0a62f1846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:15:49 +0000
Subject: [PATCH 53/58] fix: write sync results against the version that was
 seen

---
 packages/hub/src/team/sync.ts | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/packages/hub/src/team/sync.ts b/packages/hub/src/team/sync.ts
index f36f671..d108f7e 100644
--- a/packages/hub/src/team/sync.ts
+++ b/packages/hub/src/team/sync.ts
@@ -171,17 +171,17 @@ export class SyncEngine {
                 )
                 conflicts.push(conflict)
                 if (handled === 'local') {
-                  await this.remote.put(this.vault, entry.collection, entry.id, conflict.local)
+                  await this.remote.put(this.vault, entry.collection, entry.id, conflict.local, remoteEnvelope._v)
                   completed.add(entry)
                   pushed++
                 } else if (handled === 'remote') {
-                  await this.local.put(this.vault, entry.collection, entry.id, conflict.remote)
+                  await this.local.put(this.vault, entry.collection, entry.id, conflict.remote, envelope._v)
                   completed.add(entry)
                 } else if (handled === 'merged' && conflict.local !== envelope) {
                   // Merged envelope is stored in conflict.local (the winner)
                   const merged = conflict.local
-                  await this.remote.put(this.vault, entry.collection, entry.id, merged)
-                  await this.local.put(this.vault, entry.collection, entry.id, merged)
+                  await this.remote.put(this.vault, entry.collection, entry.id, merged, remoteEnvelope._v)
+                  await this.local.put(this.vault, entry.collection, entry.id, merged, envelope._v)
                   completed.add(entry)
                   pushed++
                 }
@@ -237,7 +237,7 @@ export class SyncEngine {
 
             if (!localEnvelope) {
               // New record from remote
-              await this.local.put(this.vault, collName, id, remoteEnvelope)
+              await this.local.put(this.vault, collName, id, remoteEnvelope, 0)
               pulled++
             } else if (remoteEnvelope._v > localEnvelope._v) {
               // Remote is newer — check if we have a dirty entry for this
@@ -253,19 +253,19 @@ export class SyncEngine {
                 )
                 conflicts.push(conflict)
                 if (handled === 'remote') {
-                  await this.local.put(this.vault, collName, id, conflict.remote)
+                  await this.local.put(this.vault, collName, id, conflict.remote, localEnvelope._v)
                   this.dirty = this.dirty.filter(d => d !== dirtyEntry)
                   pulled++
                 } else if (handled === 'merged' && conflict.local !== localEnvelope) {
                   const merged = conflict.local
-                  await this.local.put(this.vault, collName, id, merged)
+                  await this.local.put(this.vault, collName, id, merged, localEnvelope._v)
                   this.dirty = this.dirty.filter(d => d !== dirtyEntry)
                   pulled++
                 }
                 // 'local' or 'deferred': push handles it
               } else {
                 // Remote is newer, no local changes — update
-                await this.local.put(this.vault, collName, id, remoteEnvelope)
+                await this.local.put(this.vault, collName, id, remoteEnvelope, localEnvelope._v)
                 pulled++
               }
             }
@@ -345,16 +345,16 @@ export class SyncEngine {
                 )
                 conflicts.push(conflict)
                 if (handled === 'local') {
-                  await this.remote.put(this.vault, entry.collection, entry.id, conflict.local)
+                  await this.remote.put(this.vault, entry.collection, entry.id, conflict.local, remoteEnvelope._v)
                   completed.add(entry)
                   pushed++
                 } else if (handled === 'remote') {
-                  await this.local.put(this.vault, entry.collection, entry.id, conflict.remote)
+                  await this.local.put(this.vault, entry.collection, entry.id, conflict.remote, envelope._v)
                   completed.add(entry)
                 } else if (handled === 'merged' && conflict.local !== envelope) {
                   const merged = conflict.local
-                  await this.remote.put(this.vault, entry.collection, entry.id, merged)
-                  await this.local.put(this.vault, entry.collection, entry.id, merged)
+                  await this.remote.put(this.vault, entry.collection, entry.id, merged, remoteEnvelope._v)
+                  await this.local.put(this.vault, entry.collection, entry.id, merged, envelope._v)
                   completed.add(entry)
                   pushed++
                 }
-- 
2.43.0


From e3b5d8ecf995fe3e06d738e4e52db048f715003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:15:49 +0000
Subject: [PATCH 54/58] fix: write a merge made during a pull to the remote
 store too

---
 packages/hub/src/team/sync.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/hub/src/team/sync.ts b/packages/hub/src/team/sync.ts
index d108f7e..9d482e2 100644
--- a/packages/hub/src/team/sync.ts
+++ b/packages/hub/src/team/sync.ts
@@ -258,6 +258,7 @@ export class SyncEngine {
                   pulled++
                 } else if (handled === 'merged' && conflict.local !== localEnvelope) {
                   const merged = conflict.local
+                  await this.remote.put(this.vault, collName, id, merged, remoteEnvelope._v)
                   await this.local.put(this.vault, collName, id, merged, localEnvelope._v)
                   this.dirty = this.dirty.filter(d => d !== dirtyEntry)
                   pulled++
-- 
2.43.0


From 7d6d4d14e41ee1f234b154f7fbf1f7acea7995ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:15:49 +0000
Subject: [PATCH 55/58] fix: do not bring back a locally deleted record during
 a pull

---
 packages/hub/src/team/sync.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/hub/src/team/sync.ts b/packages/hub/src/team/sync.ts
index 9d482e2..52ee84a 100644
--- a/packages/hub/src/team/sync.ts
+++ b/packages/hub/src/team/sync.ts
@@ -236,6 +236,9 @@ export class SyncEngine {
             const localEnvelope = await this.local.get(this.vault, collName, id)
 
             if (!localEnvelope) {
+              // Deleted locally and not pushed yet — push will handle it
+              if (this.dirty.some(d => d.collection === collName && d.id === id && d.action === 'delete')) continue
+
               // New record from remote
               await this.local.put(this.vault, collName, id, remoteEnvelope, 0)
               pulled++
-- 
2.43.0


From aecbbe6485fbe611c63a260745bab521070ea763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:15:49 +0000
Subject: [PATCH 56/58] fix: report a push conflict whose remote record is gone

---
 packages/hub/src/team/sync.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/hub/src/team/sync.ts b/packages/hub/src/team/sync.ts
index 52ee84a..6b4b548 100644
--- a/packages/hub/src/team/sync.ts
+++ b/packages/hub/src/team/sync.ts
@@ -186,6 +186,9 @@ export class SyncEngine {
                   pushed++
                 }
                 // handled === 'deferred': leave in dirty log
+              } else {
+                // Gone from remote: nothing to resolve against, report it
+                throw err
               }
             } else {
               throw err
@@ -362,6 +365,8 @@ export class SyncEngine {
                   completed.add(entry)
                   pushed++
                 }
+              } else {
+                throw err
               }
             } else {
               throw err
-- 
2.43.0


From cbe5a57d482a0adabfc040af86fe28651b25fb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:09:35 +0000
Subject: [PATCH 57/58] fix: bundle-store snapshots leave internal collections
 alone

loadAll() of a wrapped bundle store returned key files and other internal
collections as user data, and restoring such a snapshot with saveAll()
replaced the whole vault, so a snapshot of user data deleted the key files.
loadAll() now skips internal collections and saveAll() keeps them.
---
 packages/hub/src/store/bundle-store.ts | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/packages/hub/src/store/bundle-store.ts b/packages/hub/src/store/bundle-store.ts
index 902264d..c30bb51 100644
--- a/packages/hub/src/store/bundle-store.ts
+++ b/packages/hub/src/store/bundle-store.ts
@@ -206,11 +206,22 @@ export function wrapBundleStore(
     },
 
     async loadAll(vault: string): Promise<VaultSnapshot> {
-      return await load(vault)
+      const snap = await load(vault)
+      const out: VaultSnapshot = {}
+      for (const [coll, records] of Object.entries(snap)) {
+        if (coll.startsWith('_')) continue // skip _keyring, _ledger, …
+        out[coll] = { ...records }
+      }
+      return out
     },
 
     async saveAll(vault: string, data: VaultSnapshot): Promise<void> {
-      snapshots.set(vault, data)
+      const snap: VaultSnapshot = { ...data }
+      for (const [coll, records] of Object.entries(await load(vault))) {
+        // keep _keyring, _ledger, … — a snapshot of user data lacks them
+        if (coll.startsWith('_') && !snap[coll]) snap[coll] = records
+      }
+      snapshots.set(vault, snap)
       loaded.add(vault)
       await flush(vault)
     },
-- 
2.43.0


From a00d1f0fe528586c46e5365f4c8aa2b2e17a7bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:09:35 +0000
Subject: [PATCH 58/58] fix: index entries are not records

With a persisted index in a lazy collection, count(), listPage(), the first
load and exportStream() treated the stored index entries as records: counts
were too high and index entries were listed, cached and exported. They are
skipped now.
---
 packages/hub/src/collection.ts | 9 +++++----
 packages/hub/src/vault.ts      | 3 ++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/packages/hub/src/collection.ts b/packages/hub/src/collection.ts
index 5b1e7ca..481d691 100644
--- a/packages/hub/src/collection.ts
+++ b/packages/hub/src/collection.ts
@@ -1762,7 +1762,7 @@ export class Collection<T> {
   async count(): Promise<number> {
     if (this.lazy) {
       const ids = await this.adapter.list(this.vault, this.name)
-      return ids.length
+      return ids.filter(id => !decodeIdxId(id)).length
     }
     await this.ensureHydrated()
     return this.cache.size
@@ -1792,7 +1792,7 @@ export class Collection<T> {
     if (this.adapter.listPage) {
       const result = await this.adapter.listPage(this.vault, this.name, opts.cursor, limit)
       const decrypted: T[] = []
-      for (const { record, version, id } of await this.decryptPage(result.items)) {
+      for (const { record, version, id } of await this.decryptPage(result.items.filter(i => !decodeIdxId(i.id)))) {
         // Update cache opportunistically — if the page-fetched record isn't
         // in cache yet, populate it. This makes a subsequent .get(id) free.
         // In LAZY mode we deliberately do NOT populate the LRU here:
@@ -1811,7 +1811,7 @@ export class Collection<T> {
     // native path because every id requires its own round-trip, but
     // correct for adapters that haven't opted in.
     warnOnceFallback(this.adapter.name ?? 'unknown')
-    const ids = (await this.adapter.list(this.vault, this.name)).slice().sort()
+    const ids = (await this.adapter.list(this.vault, this.name)).filter(id => !decodeIdxId(id)).sort()
     const start = opts.cursor ? parseInt(opts.cursor, 10) : 0
     const end = Math.min(start + limit, ids.length)
     const items: T[] = []
@@ -1923,6 +1923,7 @@ export class Collection<T> {
 
     const ids = await this.adapter.list(this.vault, this.name)
     for (const id of ids) {
+      if (decodeIdxId(id)) continue
       const envelope = await this.adapter.get(this.vault, this.name, id)
       if (envelope && !envelope._tier) {
         const record = await this.decryptRecord(envelope)
@@ -1936,7 +1937,7 @@ export class Collection<T> {
   /** Hydrate from a pre-loaded snapshot (used by Vault). */
   async hydrateFromSnapshot(records: Record<string, EncryptedEnvelope>): Promise<void> {
     for (const [id, envelope] of Object.entries(records)) {
-      if (envelope._tier) continue
+      if (envelope._tier || decodeIdxId(id)) continue
       const record = await this.decryptRecord(envelope)
       this.cache.set(id, { record, version: envelope._v })
     }
diff --git a/packages/hub/src/vault.ts b/packages/hub/src/vault.ts
index 11e521c..6d99362 100644
--- a/packages/hub/src/vault.ts
+++ b/packages/hub/src/vault.ts
@@ -58,6 +58,7 @@ import {
   type RefDescriptor,
   type RefViolation,
 } from './refs.js'
+import { decodeIdxId } from './indexing/persisted-indexes.js'
 import type { DictionaryHandle, DictionaryOptions, DictKeyDescriptor } from './i18n/dictionary.js'
 import { isDictCollectionName } from './i18n/dictionary.js'
 import type { I18nTextDescriptor } from './i18n/core.js'
@@ -2336,7 +2337,7 @@ export class Vault {
       const coll = this.collection(collectionName)
       const schema = coll.getSchema() ?? null
       const refs = this.refRegistry.getOutbound(collectionName)
-      const ids = Object.keys(snapshot[collectionName] ?? {})
+      const ids = Object.keys(snapshot[collectionName] ?? {}).filter(id => !decodeIdxId(id))
 
       const dictionaries = dictSnapshotCache.get(collectionName)
 
-- 
2.43.0

