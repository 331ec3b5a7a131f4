From f89ba9eb8cfb01c2a73c1295dd59ff4cf3fb4e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 01/33] fix: a failing procedure no longer revokes the secret
 that was already stored at its target

---
 client/src/types/client.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/src/types/client.rs b/client/src/types/client.rs
index ae13eba..bec4ec4 100644
--- a/client/src/types/client.rs
+++ b/client/src/types/client.rs
@@ -243,9 +243,7 @@ impl Client {
         let mut log = Vec::new();
         // Execute the procedures sequentially.
         for proc in procedures {
-            if let Some(output) = proc.output() {
-                log.push(output);
-            }
+            let target = proc.output();
             let output = match proc.execute(self) {
                 Ok(o) => o,
                 Err(e) => {
@@ -255,6 +253,8 @@ impl Client {
                     return Err(e);
                 }
             };
+            // Only a procedure that succeeded has written to its target.
+            log.extend(target);
             out.push(output);
         }
         Ok(out)
-- 
2.43.0


From 80bc528356d3fa6f7673887f639ff9278eb3148c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:40 +0000
Subject: [PATCH 02/33] fix: outputs of AesKeyWrapDecrypt and ConcatSecret are
 revoked when a later procedure of the chain fails

---
 client/src/procedures/primitives.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index 9aa5386..e46f534 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -135,6 +135,11 @@ impl StrongholdProcedure {
             | StrongholdProcedure::X25519DiffieHellman(X25519DiffieHellman { shared_key: output, .. })
             | StrongholdProcedure::Hkdf(Hkdf { okm: output, .. })
             | StrongholdProcedure::ConcatKdf(ConcatKdf { output, .. })
+            | StrongholdProcedure::AesKeyWrapDecrypt(AesKeyWrapDecrypt { output, .. })
+            | StrongholdProcedure::ConcatSecret(ConcatSecret {
+                output_location: output,
+                ..
+            })
             | StrongholdProcedure::Pbkdf2Hmac(Pbkdf2Hmac { output, .. }) => Some(output.clone()),
             _ => None,
         }
-- 
2.43.0


From 4e2bbca791af02e4ae42a3fffc23f31523ed1d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:32 +0000
Subject: [PATCH 03/33] fix: AES key wrap procedures panic if the key
 encryption key does not have 32 bytes

---
 client/src/procedures/primitives.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index e46f534..211960c 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -985,6 +985,18 @@ pub enum AesKeyWrapCipher {
     Aes256,
 }
 
+/// `Aes256Kw` panics on keys that don't have the size of an AES-256 key.
+fn check_aes_kw_key(key: &[u8]) -> Result<(), FatalProcedureError> {
+    const AES_256_KEY_LEN: usize = 32;
+    if key.len() != AES_256_KEY_LEN {
+        return Err(FatalProcedureError::from(format!(
+            "key encryption key needs to have a length of {} bytes",
+            AES_256_KEY_LEN
+        )));
+    }
+    Ok(())
+}
+
 /// Encrypts a key in a vault using another key, and returns the ciphertext.
 #[derive(Debug, Clone, Serialize, Deserialize)]
 pub struct AesKeyWrapEncrypt {
@@ -1014,6 +1026,7 @@ impl AesKeyWrapEncrypt {
         // The enum was added for future proofing so support for other variants can be added non-breakingly.
         let mut ciphertext: Vec<u8> = vec![0; wrap_key.len() + Aes256Kw::BLOCK];
 
+        check_aes_kw_key(encryption_key)?;
         let wrap: Aes256Kw = Aes256Kw::new(encryption_key);
         wrap.wrap_key(wrap_key, &mut ciphertext)?;
 
@@ -1066,6 +1079,7 @@ impl AesKeyWrapDecrypt {
         })?;
         let mut plaintext: Vec<u8> = vec![0; plaintext_len];
 
+        check_aes_kw_key(decryption_key)?;
         let wrap: Aes256Kw = Aes256Kw::new(decryption_key);
         wrap.unwrap_key(self.wrapped_key.as_ref(), &mut plaintext)?;
 
-- 
2.43.0


From ef36d0932996b17a33e5d8e67fd1853bd49de13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:32 +0000
Subject: [PATCH 04/33] fix: ConcatKdf overflows on huge key lengths instead of
 returning the iteration overflow error

---
 client/src/procedures/primitives.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index 211960c..816f495 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -941,7 +941,8 @@ impl ConcatKdf {
 
         let mut output: Vec<u8> = Vec::new();
 
-        let target: usize = (len + (<D as Digest>::output_size() - 1)) / <D as Digest>::output_size();
+        let target: usize =
+            len / <D as Digest>::output_size() + usize::from(len % <D as Digest>::output_size() != 0);
         let rounds: u32 =
             u32::try_from(target).map_err(|_| FatalProcedureError::from("u32 iteration overflow".to_owned()))?;
 
-- 
2.43.0


From 4ab1e7e7ac9cb04ee7d8ec5f1989753c2d3af201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:49 +0000
Subject: [PATCH 05/33] fix: inserting into a store with a huge lifetime panics
 and poisons the store

---
 engine/src/store/storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/src/store/storage.rs b/engine/src/store/storage.rs
index 7c8b217..a843a47 100644
--- a/engine/src/store/storage.rs
+++ b/engine/src/store/storage.rs
@@ -20,7 +20,8 @@ impl<T> Value<T> {
     pub fn new(val: T, duration: Option<Duration>) -> Self {
         Value {
             val,
-            expiration: duration.map(|d| SystemTime::now() + d),
+            // a lifetime that ends after the last representable point in time never ends
+            expiration: duration.and_then(|d| SystemTime::now().checked_add(d)),
         }
     }
 
-- 
2.43.0


From 5d7cb42449bf9aa36e0f6445767a85a0c14ff691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:49 +0000
Subject: [PATCH 06/33] fix: keys of expired entries are still listed by the
 store

---
 engine/src/store/storage/cache.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/engine/src/store/storage/cache.rs b/engine/src/store/storage/cache.rs
index b0b66f0..0494bfa 100644
--- a/engine/src/store/storage/cache.rs
+++ b/engine/src/store/storage/cache.rs
@@ -242,7 +242,13 @@ impl<K: Hash + Eq + Clone, V: Clone + Debug> Cache<K, V> {
 
     /// Returns a list of all keys inside the [`Cache`] as references
     pub fn keys(&self) -> Vec<K> {
-        self.table.keys().cloned().collect()
+        let now = SystemTime::now();
+
+        self.table
+            .iter()
+            .filter(|(_, value)| !value.has_expired(now))
+            .map(|(key, _)| key.clone())
+            .collect()
     }
 
     /// attempts to remove expired items based on the current system time provided.
-- 
2.43.0


From 0f9e327189adbec16868d3f4a993dc81c65d282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 07/33] fix: a refused load_client_from_snapshot replaces the
 in-memory snapshot

---
 client/src/types/stronghold.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/client/src/types/stronghold.rs b/client/src/types/stronghold.rs
index 0c3e3ab..2d69fb9 100644
--- a/client/src/types/stronghold.rs
+++ b/client/src/types/stronghold.rs
@@ -129,14 +129,16 @@ impl Stronghold {
         let mut snapshot = self.snapshot.write()?;
         let mut clients = self.clients.write()?;
 
-        load_snapshot!(snapshot, snapshot_path, keyprovider);
-
         // If a client has already been loaded returns an error
         if clients.contains_key(&client_id) {
             return Err(ClientError::ClientAlreadyLoaded(client_id));
         }
 
-        let client_state: ClientState = snapshot
+        // The current snapshot is only replaced if the client can be loaded
+        let mut loaded = Snapshot::default();
+        load_snapshot!(&mut loaded, snapshot_path, keyprovider);
+
+        let client_state: ClientState = loaded
             .get_state(client_id)
             .map_err(|e| ClientError::Inner(e.to_string()))?;
 
@@ -145,6 +147,7 @@ impl Stronghold {
 
         // insert client as ref into Strongholds client ref
         clients.insert(client_id, client.clone());
+        *snapshot = loaded;
 
         Ok(client)
     }
-- 
2.43.0


From da56c66b1cf7a8f5ba44432d8bb5718ee781dbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:32 +0000
Subject: [PATCH 08/33] fix: storing the snapshot key in a vault named like a
 client destroys the client's state key

The keys of the encrypted client states and those of the vaults with snapshot
keys were kept in one keystore, although their ids are derived the same way.
---
 client/src/types/snapshot.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/client/src/types/snapshot.rs b/client/src/types/snapshot.rs
index dbca914..9710dd0 100644
--- a/client/src/types/snapshot.rs
+++ b/client/src/types/snapshot.rs
@@ -52,8 +52,10 @@ impl<'a> SyncClients<'a> for ClientState {
 /// Wrapper for the [`SnapshotState`] data structure.
 #[derive(Default)]
 pub struct Snapshot {
-    // Keys for vaults in db and for the encrypted client states.
+    // Keys for vaults in db.
     keystore: KeyStore<Provider>,
+    // Keys for the encrypted client states. The id of a client may be the same as the id of a vault in db.
+    state_keys: KeyStore<Provider>,
     // Db with snapshot keys.
     db: DbView<Provider>,
     // Loaded snapshot states with each client state separately encrypted.
@@ -165,7 +167,7 @@ impl Snapshot {
         let ((encrypted, store), key) = match self
             .states
             .get(&id)
-            .and_then(|state| self.keystore.get_key(vid).map(|pkey| (state, pkey)))
+            .and_then(|state| self.state_keys.get_key(vid).map(|pkey| (state, pkey)))
             .and_then(|(state, pkey)| {
                 let k = &pkey.key;
                 k.borrow().deref().try_into().ok().map(|k| (state, k))
@@ -248,7 +250,7 @@ impl Snapshot {
         let mut buffer = Vec::new();
         write(&bytes, &mut buffer, &key, &[])?;
         let pkey = PKey::load(key.into()).expect("Provider::box_key_len == KEY_SIZE == 32");
-        self.keystore.insert_key(vault_id, pkey)?;
+        self.state_keys.insert_key(vault_id, pkey)?;
         self.states.insert(id, (buffer, store));
         Ok(())
     }
@@ -393,6 +395,7 @@ impl Snapshot {
     /// but from [`crate::Stronghold::clear()`]
     pub(crate) fn clear(&mut self) -> Result<(), SnapshotError> {
         self.keystore.clear_keys();
+        self.state_keys.clear_keys();
         self.db.clear();
         self.states.clear();
 
-- 
2.43.0


From 1495f8aa7741a740209bff4e2a99aa50dac4c224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 09/33] fix: a record with a damaged or exchanged blob panics
 instead of returning an error

---
 engine/src/vault/view.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/engine/src/vault/view.rs b/engine/src/vault/view.rs
index 3874686..ebe21be 100644
--- a/engine/src/vault/view.rs
+++ b/engine/src/vault/view.rs
@@ -510,7 +510,10 @@ impl Record {
 
         let blob = SealedBlob::from(self.blob.as_ref())
             .decrypt(key, tx.blob)
-            .expect("Unable to decrypt blob");
+            .map_err(|e| match e {
+                DecryptError::Provider(e) => RecordError::Provider(e),
+                DecryptError::Invalid => unreachable!("Vec<u8>: TryFrom<Vec<u8>> is infallible."),
+            })?;
 
         let guarded = Buffer::alloc(&blob, tx.len.u64() as usize);
 
-- 
2.43.0


From fb7cfa50ccf60f80b24ec8c249ae94ef2a661644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 10/33] fix: importing records with a wrong key panics instead
 of returning an error

---
 engine/src/vault/view.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/engine/src/vault/view.rs b/engine/src/vault/view.rs
index ebe21be..b784bb8 100644
--- a/engine/src/vault/view.rs
+++ b/engine/src/vault/view.rs
@@ -299,9 +299,7 @@ impl<P: BoxProvider> DbView<P> {
             self.init_vault(new_key, vid);
         }
         for (rid, record) in &mut records {
-            record
-                .update_meta(old_key, (*rid).into(), new_key, (*rid).into())
-                .unwrap();
+            record.update_meta(old_key, (*rid).into(), new_key, (*rid).into())?;
         }
         let vault = self.vaults.get_mut(&vid).expect("Vault was initiated.");
         vault.extend(new_key, records.into_iter().map(|(rid, r)| (rid.0, r)))
-- 
2.43.0


From 6fbc1a51fa98f6998ef264482442e1569464a2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 11/33] fix: opening a sealed box that is too short panics
 instead of returning an error

---
 client/src/internal/provider.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client/src/internal/provider.rs b/client/src/internal/provider.rs
index ff42932..80efabf 100644
--- a/client/src/internal/provider.rs
+++ b/client/src/internal/provider.rs
@@ -59,6 +59,14 @@ impl BoxProvider for Provider {
 
     /// Decrypts the data using the xchacha20-poly1305 algorithm.
     fn box_open(key: &Key<Self>, ad: &[u8], data: &[u8]) -> Result<Vec<u8>, Self::Error> {
+        if data.len() < Self::box_overhead() {
+            return Err(crypto::Error::BufferSize {
+                name: "sealed box",
+                needs: Self::box_overhead(),
+                has: data.len(),
+            });
+        }
+
         let (tag, ct) = data.split_at(Self::TAG_LEN);
         let (nonce, cipher) = ct.split_at(Self::NONCE_LEN);
 
-- 
2.43.0


From 50a7ddbcdf7f510f1c854c04c43f732faac6604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 12/33] fix: listing the records of a vault fails if a record
 is revoked

---
 engine/src/vault/view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/vault/view.rs b/engine/src/vault/view.rs
index b784bb8..111441d 100644
--- a/engine/src/vault/view.rs
+++ b/engine/src/vault/view.rs
@@ -374,7 +374,7 @@ impl<P: BoxProvider> Vault<P> {
     /// List the [`RecordId`]s of the entries stored in this [`Vault`].
     fn list_entries(&self, key: &Key<P>) -> Result<Vec<(RecordId, BlobId)>, RecordError<P::Error>> {
         let mut buf = Vec::new();
-        for (&id, record) in self.entries.iter() {
+        for (&id, record) in self.entries.iter().filter(|(_, record)| record.revoke.is_none()) {
             let blob_id = record.get_blob_id(key, id)?;
             buf.push((id.into(), blob_id))
         }
-- 
2.43.0


From 874686dd36403499344ce0c4ccfae549543c6dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 13/33] fix: a cache with a cleaner panics if the clock is set
 back

---
 engine/src/store/storage/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/store/storage/cache.rs b/engine/src/store/storage/cache.rs
index 0494bfa..33d88d6 100644
--- a/engine/src/store/storage/cache.rs
+++ b/engine/src/store/storage/cache.rs
@@ -256,7 +256,7 @@ impl<K: Hash + Eq + Clone, V: Clone + Debug> Cache<K, V> {
         if let Some(frequency) = self.scan_freq {
             let since = now
                 .duration_since(self.last_scan_at.unwrap_or(self.created_at))
-                .expect("System time is before the scanned time");
+                .unwrap_or_default();
 
             if since >= frequency {
                 self.table.retain(|_, value| !value.has_expired(now));
-- 
2.43.0


From 22869c5138ecb53e41f93aa87fff0fcfde9abc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:09 +0000
Subject: [PATCH 14/33] fix: a wrong length in serialised memory aborts the
 process instead of returning an error

---
 engine/runtime/src/memories/buffer.rs               | 3 ++-
 engine/runtime/src/memories/file_memory.rs          | 2 +-
 engine/runtime/src/memories/noncontiguous_memory.rs | 2 +-
 engine/runtime/src/memories/ram_memory.rs           | 2 +-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/engine/runtime/src/memories/buffer.rs b/engine/runtime/src/memories/buffer.rs
index 2b32dca..3c7b5e9 100644
--- a/engine/runtime/src/memories/buffer.rs
+++ b/engine/runtime/src/memories/buffer.rs
@@ -261,7 +261,8 @@ where
     where
         E: SeqAccess<'de>,
     {
-        let mut seq = Vec::<T>::with_capacity(access.size_hint().unwrap_or(0));
+        // The hint is part of the input: it must not decide how much memory is allocated.
+        let mut seq = Vec::<T>::with_capacity(access.size_hint().unwrap_or(0).min(4096));
 
         while let Some(e) = access.next_element()? {
             seq.push(e);
diff --git a/engine/runtime/src/memories/file_memory.rs b/engine/runtime/src/memories/file_memory.rs
index 1fdec12..cb21df7 100644
--- a/engine/runtime/src/memories/file_memory.rs
+++ b/engine/runtime/src/memories/file_memory.rs
@@ -266,7 +266,7 @@ impl<'de> Visitor<'de> for FileMemoryVisitor {
     where
         E: SeqAccess<'de>,
     {
-        let mut seq = Vec::<u8>::with_capacity(access.size_hint().unwrap_or(0));
+        let mut seq = Vec::<u8>::with_capacity(access.size_hint().unwrap_or(0).min(4096));
 
         while let Some(e) = access.next_element()? {
             seq.push(e);
diff --git a/engine/runtime/src/memories/noncontiguous_memory.rs b/engine/runtime/src/memories/noncontiguous_memory.rs
index a7f7fab..a0fe56e 100644
--- a/engine/runtime/src/memories/noncontiguous_memory.rs
+++ b/engine/runtime/src/memories/noncontiguous_memory.rs
@@ -308,7 +308,7 @@ impl<'de> Visitor<'de> for NonContiguousMemoryVisitor {
     where
         E: SeqAccess<'de>,
     {
-        let mut seq = Vec::<u8>::with_capacity(access.size_hint().unwrap_or(0));
+        let mut seq = Vec::<u8>::with_capacity(access.size_hint().unwrap_or(0).min(4096));
 
         while let Some(e) = access.next_element()? {
             seq.push(e);
diff --git a/engine/runtime/src/memories/ram_memory.rs b/engine/runtime/src/memories/ram_memory.rs
index 5ff1f87..b171e59 100644
--- a/engine/runtime/src/memories/ram_memory.rs
+++ b/engine/runtime/src/memories/ram_memory.rs
@@ -125,7 +125,7 @@ impl<'de> Visitor<'de> for RamMemoryVisitor {
     where
         E: SeqAccess<'de>,
     {
-        let mut seq = Vec::<u8>::with_capacity(access.size_hint().unwrap_or(0));
+        let mut seq = Vec::<u8>::with_capacity(access.size_hint().unwrap_or(0).min(4096));
 
         while let Some(e) = access.next_element()? {
             seq.push(e);
-- 
2.43.0


From 528ee9eec6f6c31228ae45e8725fdb8ab774fe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:39 +0000
Subject: [PATCH 15/33] fix: a refused import of records leaves an empty vault
 behind

---
 engine/src/vault/view.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engine/src/vault/view.rs b/engine/src/vault/view.rs
index 111441d..b133768 100644
--- a/engine/src/vault/view.rs
+++ b/engine/src/vault/view.rs
@@ -295,12 +295,12 @@ impl<P: BoxProvider> DbView<P> {
         vid: VaultId,
         mut records: Vec<(RecordId, Record)>,
     ) -> Result<(), RecordError<P::Error>> {
-        if !self.vaults.contains_key(&vid) {
-            self.init_vault(new_key, vid);
-        }
         for (rid, record) in &mut records {
             record.update_meta(old_key, (*rid).into(), new_key, (*rid).into())?;
         }
+        if !self.vaults.contains_key(&vid) {
+            self.init_vault(new_key, vid);
+        }
         let vault = self.vaults.get_mut(&vid).expect("Vault was initiated.");
         vault.extend(new_key, records.into_iter().map(|(rid, r)| (rid.0, r)))
     }
-- 
2.43.0


From deb54b2c515066d41e4bfd09440bc4047bb4370a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:41 +0000
Subject: [PATCH 16/33] fix: repeating a sync into a mapped vault fails because
 the source vault's key is used for the target

---
 client/src/sync.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/src/sync.rs b/client/src/sync.rs
index ee7bdee..6cd41a0 100644
--- a/client/src/sync.rs
+++ b/client/src/sync.rs
@@ -158,14 +158,14 @@ pub(crate) trait SyncClients<'a> {
                 }
                 match &key_provider {
                     KeyProvider::KeyStore(ks) => {
-                        if let Some(target_key) = ks.get_key(vid) {
+                        if let Some(target_key) = ks.get_key(mapped_vid) {
                             if db.get_blob_id(&target_key, mapped_vid, rid)? == bid {
                                 continue;
                             }
                         }
                     }
                     KeyProvider::KeyMap(map) => {
-                        if let Some(target_key) = map.get(&vid) {
+                        if let Some(target_key) = map.get(&mapped_vid) {
                             if db.get_blob_id(target_key, mapped_vid, rid)? == bid {
                                 continue;
                             }
-- 
2.43.0


From d575f97d11864b8c3b70e18164c27b79b6eac1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:09 +0000
Subject: [PATCH 17/33] fix: sync_vaults ignores the selected records if the
 target vault does not exist

---
 client/src/sync.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/client/src/sync.rs b/client/src/sync.rs
index 6cd41a0..eedfc2d 100644
--- a/client/src/sync.rs
+++ b/client/src/sync.rs
@@ -136,12 +136,16 @@ pub(crate) trait SyncClients<'a> {
                 }
             }
             let mapped_vid = config.map_vaults.get(&vid).copied().unwrap_or(vid);
+            let select_records = config.select_records.get(&vid);
             if !db.contains_vault(&mapped_vid) {
-                let d = list.into_iter().map(|(rid, _)| rid).collect();
+                let d = list
+                    .into_iter()
+                    .map(|(rid, _)| rid)
+                    .filter(|rid| select_records.map_or(true, |select| select.contains(rid)))
+                    .collect();
                 diff.insert(vid, d);
                 continue;
             }
-            let select_records = config.select_records.get(&vid);
             let mut record_diff = Vec::new();
             for (rid, bid) in list {
                 if let Some(select_records) = select_records {
-- 
2.43.0


From 7c6ac780268c20435b84388fac59e98934fbbfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:56 +0000
Subject: [PATCH 18/33] fix: merging snapshots ignores the client and vault
 mapping and hides failures

---
 client/src/sync.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/client/src/sync.rs b/client/src/sync.rs
index eedfc2d..dee19e2 100644
--- a/client/src/sync.rs
+++ b/client/src/sync.rs
@@ -190,6 +190,8 @@ pub(crate) trait SyncClients<'a> {
         let db = self.get_db()?;
         let mut export = HashMap::new();
         for (vid, select) in select {
+            // A revoked record can not be imported anywhere.
+            let select = select.into_iter().filter(|rid| db.contains_record(vid, *rid));
             let records = db.export_records(vid, select)?;
             export.insert(vid, records);
         }
@@ -314,7 +316,7 @@ pub(crate) trait SyncSnapshots {
                 };
                 Ok(Some(client_diff))
             };
-            if let Some(client_diff) = self.get_from_state(cid, f)? {
+            if let Some(client_diff) = self.get_from_state(mapped_cid, f)? {
                 diff.insert(cid, client_diff);
             }
         }
@@ -369,23 +371,23 @@ pub(crate) trait SyncSnapshots {
                         records.retain(|(rid, _)| select_records.contains(rid));
                     }
                     let mapped_vid = config.map_vaults.get(&vid).copied().unwrap_or(vid);
-                    state.0.entry(vid).or_insert_with(Key::random);
+                    state.0.entry(mapped_vid).or_insert_with(Key::random);
                     let old_key = old_keystore
                         .get(&vid)
                         .ok_or_else(|| SnapshotError::Inner(format!("Missing Key for vault {:?}", vid)))?;
                     let new_key = state.0.get(&mapped_vid).expect("Key was inserted.");
-                    state.1.import_records(old_key, new_key, vid, records)?;
+                    state.1.import_records(old_key, new_key, mapped_vid, records)?;
                 }
                 Ok(())
             };
-            let f = match config.client_config.get(&cid) {
-                Some(c) => self.update_state(cid, |state| import_records(state, c)),
+            match config.client_config.get(&cid) {
+                Some(c) => self.update_state(mapped_cid, |state| import_records(state, c))?,
                 None => {
                     let config = SyncClientsConfig {
                         merge_policy: config.merge_policy,
                         ..Default::default()
                     };
-                    self.update_state(cid, |state| import_records(state, &config))
+                    self.update_state(mapped_cid, |state| import_records(state, &config))?
                 }
             };
         }
-- 
2.43.0


From c149a2851cb47596841639c8a12f001b584c52b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:51 +0000
Subject: [PATCH 19/33] fix: debug text of snapshot keys and procedures shows
 secrets

---
 client/src/procedures/primitives.rs | 12 ++++++------
 client/src/types/snapshot.rs        |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index 816f495..e7675a9 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -347,7 +347,7 @@ impl FromStr for MnemonicLanguage {
 
 /// Generate a BIP39 seed and its corresponding mnemonic sentence (optionally protected by a
 /// passphrase). Store the seed and return the mnemonic sentence as data output.
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(GuardDebug, Clone, Serialize, Deserialize)]
 pub struct BIP39Generate {
     pub passphrase: Option<String>,
     pub language: MnemonicLanguage,
@@ -393,7 +393,7 @@ impl Drop for BIP39Generate {
 
 /// Use a BIP39 mnemonic sentence (optionally protected by a passphrase) to create or recover
 /// a BIP39 seed and store it in the `output` location
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(GuardDebug, Clone, Serialize, Deserialize)]
 pub struct BIP39Recover {
     pub passphrase: Option<String>,
     pub mnemonic: String,
@@ -733,7 +733,7 @@ impl DeriveSecret<1> for Hkdf {
     }
 }
 
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(GuardDebug, Clone, Serialize, Deserialize)]
 pub struct Pbkdf2Hmac {
     pub hash_type: Sha2Hash,
 
@@ -782,7 +782,7 @@ impl Drop for Pbkdf2Hmac {
     }
 }
 
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(GuardDebug, Clone, Serialize, Deserialize)]
 pub struct AeadEncrypt {
     pub cipher: AeadCipher,
 
@@ -878,7 +878,7 @@ impl UseSecret<1> for AeadDecrypt {
 /// and algorithms (e.g. "A128GCM").
 /// The provided hash function is applied to those inputs in a loop,
 /// until enough key material was produced.
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(GuardDebug, Clone, Serialize, Deserialize)]
 pub struct ConcatKdf {
     /// The hash function to use in the kdf.
     pub hash: Sha2Hash,
@@ -1092,7 +1092,7 @@ impl AesKeyWrapDecrypt {
 /// By its very nature, this procedure is not secure to use and is by default
 /// inactive. it MUST NOT be used in production setups.
 /// Returns `vec![1]` if `expected` matches the secret at `location`, `vec![0]` otherwise.
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(GuardDebug, Clone, Serialize, Deserialize)]
 #[cfg(feature = "insecure")]
 pub struct CompareSecret {
     /// The location to look for the specified value
diff --git a/client/src/types/snapshot.rs b/client/src/types/snapshot.rs
index 9710dd0..97117f1 100644
--- a/client/src/types/snapshot.rs
+++ b/client/src/types/snapshot.rs
@@ -20,7 +20,7 @@ use std::{
     ops::Deref,
     path::{Path, PathBuf},
 };
-use stronghold_utils::random;
+use stronghold_utils::{random, GuardDebug};
 use zeroize::Zeroize;
 
 use crate::{
@@ -127,7 +127,7 @@ impl Display for SnapshotPath {
     }
 }
 
-#[derive(Clone, Debug)]
+#[derive(Clone, GuardDebug)]
 pub enum UseKey {
     Key(snapshot::Key),
     Stored(Location),
-- 
2.43.0


From 430af7354e3637b342c29026e2b8d67994f2405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:13 +0000
Subject: [PATCH 20/33] fix: borrowed buffers of different lengths are compared
 past their end

---
 engine/runtime/src/types/const_eq.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/runtime/src/types/const_eq.rs b/engine/runtime/src/types/const_eq.rs
index f827ef5..9682232 100644
--- a/engine/runtime/src/types/const_eq.rs
+++ b/engine/runtime/src/types/const_eq.rs
@@ -8,6 +8,11 @@ use libsodium_sys::sodium_memcmp;
 /// A trait for comparing types in Constant Time using [`sodium_memcmp`].
 pub trait ConstEq: ContiguousBytes {
     fn const_eq(&self, rhs: &Self) -> bool {
+        // the comparison must not run past the end of the shorter one
+        if self.as_bytes().len() != rhs.as_bytes().len() {
+            return false;
+        }
+
         unsafe {
             sodium_memcmp(
                 self.as_bytes().as_ptr() as *const _,
-- 
2.43.0


From 1f0dc7d15db614799d1046b0857376f0f77c2686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:13 +0000
Subject: [PATCH 21/33] fix: locked memories panic or truncate when payload and
 size disagree

---
 engine/runtime/src/memories/file_memory.rs          |  1 +
 engine/runtime/src/memories/noncontiguous_memory.rs |  1 +
 engine/runtime/src/memories/ram_memory.rs           |  2 ++
 engine/runtime/src/utils.rs                         | 13 +++++++++++++
 4 files changed, 17 insertions(+)

diff --git a/engine/runtime/src/memories/file_memory.rs b/engine/runtime/src/memories/file_memory.rs
index cb21df7..6300b72 100644
--- a/engine/runtime/src/memories/file_memory.rs
+++ b/engine/runtime/src/memories/file_memory.rs
@@ -42,6 +42,7 @@ impl FileMemory {
         if size == 0 {
             return Err(ZeroSizedNotAllowed);
         }
+        check_size(payload, size)?;
 
         // We actually don't want to have plain data in file
         // therefore we noise it
diff --git a/engine/runtime/src/memories/noncontiguous_memory.rs b/engine/runtime/src/memories/noncontiguous_memory.rs
index a0fe56e..e53fe8a 100644
--- a/engine/runtime/src/memories/noncontiguous_memory.rs
+++ b/engine/runtime/src/memories/noncontiguous_memory.rs
@@ -107,6 +107,7 @@ impl NonContiguousMemory {
         if size != NC_DATA_SIZE {
             return Err(NCSizeNotAllowed);
         };
+        check_size(payload, size)?;
         let random = random_vec(NC_DATA_SIZE);
         let digest = blake2b::Blake2b256::digest(&random);
         let digest = xor(&digest, payload, NC_DATA_SIZE);
diff --git a/engine/runtime/src/memories/ram_memory.rs b/engine/runtime/src/memories/ram_memory.rs
index b171e59..04fc913 100644
--- a/engine/runtime/src/memories/ram_memory.rs
+++ b/engine/runtime/src/memories/ram_memory.rs
@@ -4,6 +4,7 @@
 use crate::{
     locked_memory::LockedMemory,
     memories::buffer::Buffer,
+    utils::check_size,
     MemoryError::{self, *},
     ZeroizeOnDrop, DEBUG_MSG,
 };
@@ -36,6 +37,7 @@ impl RamMemory {
         if size == 0 {
             return Err(ZeroSizedNotAllowed);
         }
+        check_size(payload, size)?;
 
         Ok(RamMemory {
             buf: Buffer::alloc(payload, size),
diff --git a/engine/runtime/src/utils.rs b/engine/runtime/src/utils.rs
index f8bb500..8aa9028 100644
--- a/engine/runtime/src/utils.rs
+++ b/engine/runtime/src/utils.rs
@@ -1,6 +1,7 @@
 // Copyright 2020-2021 IOTA Stiftung
 // SPDX-License-Identifier: Apache-2.0
 
+use crate::MemoryError;
 use random::{distributions::Alphanumeric, thread_rng, Rng, RngCore};
 
 pub fn xor(payload: &[u8], noise: &[u8], size: usize) -> Vec<u8> {
@@ -11,6 +12,18 @@ pub fn xor(payload: &[u8], noise: &[u8], size: usize) -> Vec<u8> {
     data
 }
 
+/// Checks that the payload has exactly the size it is going to be stored with
+pub fn check_size(payload: &[u8], size: usize) -> Result<(), MemoryError> {
+    if payload.len() != size {
+        return Err(MemoryError::Allocation(format!(
+            "payload of {} bytes does not match the size of {} bytes",
+            payload.len(),
+            size
+        )));
+    }
+    Ok(())
+}
+
 pub fn random_vec(size: usize) -> Vec<u8> {
     let mut rng = thread_rng();
     let mut v = vec![0u8; size];
-- 
2.43.0


From 651f3cdecad6899551d8d2ca7f542edb1c4dc236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:13 +0000
Subject: [PATCH 22/33] fix: serialising or deserialising locked memories
 panics instead of failing

---
 engine/runtime/src/memories/file_memory.rs          | 6 ++----
 engine/runtime/src/memories/noncontiguous_memory.rs | 9 ++-------
 engine/runtime/src/memories/ram_memory.rs           | 7 ++-----
 3 files changed, 6 insertions(+), 16 deletions(-)

diff --git a/engine/runtime/src/memories/file_memory.rs b/engine/runtime/src/memories/file_memory.rs
index 6300b72..3cd597e 100644
--- a/engine/runtime/src/memories/file_memory.rs
+++ b/engine/runtime/src/memories/file_memory.rs
@@ -241,7 +241,7 @@ impl Serialize for FileMemory {
     where
         S: Serializer,
     {
-        let buf = self.unlock().expect("Failed to unlock file memory for serialization");
+        let buf = self.unlock().map_err(serde::ser::Error::custom)?;
         buf.serialize(serializer)
     }
 }
@@ -273,9 +273,7 @@ impl<'de> Visitor<'de> for FileMemoryVisitor {
             seq.push(e);
         }
 
-        let seq = FileMemory::alloc(seq.as_slice(), seq.len()).expect("Failed to deserialize file memory");
-
-        Ok(seq)
+        FileMemory::alloc(seq.as_slice(), seq.len()).map_err(serde::de::Error::custom)
     }
 }
 
diff --git a/engine/runtime/src/memories/noncontiguous_memory.rs b/engine/runtime/src/memories/noncontiguous_memory.rs
index e53fe8a..076d99a 100644
--- a/engine/runtime/src/memories/noncontiguous_memory.rs
+++ b/engine/runtime/src/memories/noncontiguous_memory.rs
@@ -281,9 +281,7 @@ impl Serialize for NonContiguousMemory {
     where
         S: Serializer,
     {
-        let buf = self
-            .unlock()
-            .expect("Failed to unlock NonContiguousMemory for serialization");
+        let buf = self.unlock().map_err(serde::ser::Error::custom)?;
         buf.serialize(serializer)
     }
 }
@@ -315,10 +313,7 @@ impl<'de> Visitor<'de> for NonContiguousMemoryVisitor {
             seq.push(e);
         }
 
-        let seq = NonContiguousMemory::alloc(seq.as_slice(), seq.len(), NC_CONFIGURATION)
-            .expect("Failed to allocate NonContiguousMemory during deserialization");
-
-        Ok(seq)
+        NonContiguousMemory::alloc(seq.as_slice(), seq.len(), NC_CONFIGURATION).map_err(serde::de::Error::custom)
     }
 }
 
diff --git a/engine/runtime/src/memories/ram_memory.rs b/engine/runtime/src/memories/ram_memory.rs
index 04fc913..ab9f8fe 100644
--- a/engine/runtime/src/memories/ram_memory.rs
+++ b/engine/runtime/src/memories/ram_memory.rs
@@ -101,7 +101,7 @@ impl Serialize for RamMemory {
     where
         S: Serializer,
     {
-        let buf = self.unlock().expect("Failed to unlock RamMemory for serialization");
+        let buf = self.unlock().map_err(serde::ser::Error::custom)?;
         buf.serialize(serializer)
     }
 }
@@ -133,10 +133,7 @@ impl<'de> Visitor<'de> for RamMemoryVisitor {
             seq.push(e);
         }
 
-        let seq =
-            RamMemory::alloc(seq.as_slice(), seq.len()).expect("Failed to allocate RamMemory during deserialization");
-
-        Ok(seq)
+        RamMemory::alloc(seq.as_slice(), seq.len()).map_err(serde::de::Error::custom)
     }
 }
 
-- 
2.43.0


From d890f20a708d07865d8207043f0be57cd095d353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:13 +0000
Subject: [PATCH 23/33] fix: a fragment that is too close is deallocated twice

---
 engine/runtime/src/memories/frag.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/runtime/src/memories/frag.rs b/engine/runtime/src/memories/frag.rs
index 715317b..bcc9c2f 100644
--- a/engine/runtime/src/memories/frag.rs
+++ b/engine/runtime/src/memories/frag.rs
@@ -127,7 +127,7 @@ impl<T: Default + Clone> Frag<T> {
 
         for _ in 0..MAX_RETRY_ATTEMPTS {
             let config = Some(FragConfig::new(a.ptr.as_ptr() as usize));
-            let mut b = match strategy {
+            let b = match strategy {
                 FragStrategy::Direct => DirectAlloc::alloc(config),
                 FragStrategy::Map => MemoryMapAlloc::alloc(config),
                 FragStrategy::Hybrid => MemoryMapAlloc::alloc(config),
@@ -141,7 +141,7 @@ impl<T: Default + Clone> Frag<T> {
                     b.ptr.as_ptr() as usize,
                     &a as *const _ as usize
                 );
-                Frag::dealloc(&mut b)?;
+                // dropping `b` deallocates it
                 continue;
             }
             info!("Mapped 2 fragments: at {:?} and {:?}", a.ptr, b.ptr);
-- 
2.43.0


From 528702c0e392bf8db739ebe6d922fa8a4fa8b0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:13 +0000
Subject: [PATCH 24/33] fix: clones of a memory fragment share and deallocate
 the same memory

---
 engine/runtime/src/memories/frag.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/engine/runtime/src/memories/frag.rs b/engine/runtime/src/memories/frag.rs
index bcc9c2f..2634cb2 100644
--- a/engine/runtime/src/memories/frag.rs
+++ b/engine/runtime/src/memories/frag.rs
@@ -57,7 +57,6 @@ pub trait Alloc<T: Default + Clone> {
 
 /// Frag is being used as control object to load different allocators
 /// according to their strategy
-#[derive(Clone)]
 pub struct Frag<T: Default + Clone> {
     ptr: NonNull<T>,
     strategy: FragStrategy,
@@ -72,6 +71,25 @@ pub struct Frag<T: Default + Clone> {
     info: Option<(windows::Win32::Foundation::HANDLE, *const libc::c_void)>,
 }
 
+/// A clone owns a fragment of its own, as every fragment deallocates its memory when dropped.
+impl<T: Default + Clone> Clone for Frag<T> {
+    fn clone(&self) -> Self {
+        let error_msg = "Error while allocating fragment memory";
+        let mut frag = match self.strategy {
+            FragStrategy::Direct => DirectAlloc::alloc(None),
+            FragStrategy::Map => MemoryMapAlloc::alloc(None),
+            FragStrategy::Hybrid => unreachable!("Frag are allocated only using map or direct allocation"),
+        }
+        .expect(error_msg);
+
+        match self.get() {
+            Ok(data) => frag.set(data.clone()).expect(error_msg),
+            Err(_) => frag.zeroize(),
+        }
+        frag
+    }
+}
+
 impl<T: Default + Clone> Zeroize for Frag<T> {
     fn zeroize(&mut self) {
         self.live = false;
-- 
2.43.0


From a56c4dafe4f5d9f9687d8cf5e2af06a42592259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:42 +0000
Subject: [PATCH 25/33] fix: directly allocated fragments are misaligned

---
 engine/runtime/src/memories/frag.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/engine/runtime/src/memories/frag.rs b/engine/runtime/src/memories/frag.rs
index 2634cb2..78c15be 100644
--- a/engine/runtime/src/memories/frag.rs
+++ b/engine/runtime/src/memories/frag.rs
@@ -423,8 +423,10 @@ where
             };
 
             // we are searching for some address in between
-            let offset = rng.gen::<usize>().min(max - actual_size);
-            let actual_mem = ((mem_ptr as usize) + offset) as *mut T;
+            // that is suitably aligned for the object
+            let align = std::mem::align_of::<T>();
+            let offset = rng.gen::<usize>().min(max - actual_size - align);
+            let actual_mem = (((mem_ptr as usize) + offset + align - 1) & !(align - 1)) as *mut T;
             actual_mem.write(T::default());
 
             Ok(Frag {
-- 
2.43.0


From 0b17c65ab5f867c4de2016f362951dc24d17dbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:24 +0000
Subject: [PATCH 26/33] fix: concurrent borrows of a guarded buffer corrupt its
 protection state

---
 engine/runtime/src/boxed.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/engine/runtime/src/boxed.rs b/engine/runtime/src/boxed.rs
index 452e4ff..773e12d 100644
--- a/engine/runtime/src/boxed.rs
+++ b/engine/runtime/src/boxed.rs
@@ -11,6 +11,7 @@ use core::{
     ptr::NonNull,
     slice,
 };
+use std::sync::{Mutex, MutexGuard, PoisonError};
 
 use libsodium_sys::{
     sodium_allocarray, sodium_free, sodium_init, sodium_mlock, sodium_mprotect_noaccess, sodium_mprotect_readonly,
@@ -27,7 +28,6 @@ enum Prot {
 type RefCount = u8;
 
 /// A protected piece of memory.
-#[derive(Eq)]
 pub(crate) struct Boxed<T: Bytes> {
     // the pointer to the underlying protected memory
     ptr: NonNull<T>,
@@ -37,6 +37,8 @@ pub(crate) struct Boxed<T: Bytes> {
     prot: Cell<Prot>,
     // The number of current borrows of this pointer.
     refs: Cell<RefCount>,
+    // Serializes the changes of `prot` and `refs`, since the memory may be borrowed by several threads.
+    lock: Mutex<()>,
 }
 
 impl<T: Bytes> Boxed<T> {
@@ -154,10 +156,17 @@ impl<T: Bytes> Boxed<T> {
             len,
             prot: Cell::new(Prot::ReadWrite),
             refs: Cell::new(1),
+            lock: Mutex::new(()),
         }
     }
 
+    fn exclusive(&self) -> MutexGuard<'_, ()> {
+        // the guarded values are consistent even if a check failed while the lock was held
+        self.lock.lock().unwrap_or_else(PoisonError::into_inner)
+    }
+
     fn retain(&self, prot: Prot) {
+        let _guard = self.exclusive();
         let refs = self.refs.get();
 
         if refs == 0 {
@@ -185,6 +194,8 @@ impl<T: Bytes> Boxed<T> {
     }
 
     fn release(&self) {
+        let _guard = self.exclusive();
+
         assert!(self.refs.get() != 0, "Releases exceeded retains");
 
         assert!(
@@ -290,6 +301,8 @@ impl<T: Bytes + ConstEq> PartialEq for Boxed<T> {
     }
 }
 
+impl<T: Bytes + Eq> Eq for Boxed<T> {}
+
 impl<T: Bytes + Zeroed> From<&mut T> for Boxed<T> {
     fn from(data: &mut T) -> Self {
         Self::new(1, |b| unsafe { data.copy_and_zero(b.as_mut()) })
-- 
2.43.0


From 009215c3580f52278afe7fe5adf1ce829fd7e683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:32 +0000
Subject: [PATCH 27/33] fix: concurrent readers of a file memory withdraw its
 access rights from each other

---
 engine/runtime/src/memories/file_memory.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/engine/runtime/src/memories/file_memory.rs b/engine/runtime/src/memories/file_memory.rs
index 3cd597e..8706018 100644
--- a/engine/runtime/src/memories/file_memory.rs
+++ b/engine/runtime/src/memories/file_memory.rs
@@ -17,6 +17,7 @@ use std::{
     fs::{self, File},
     io::{self, prelude::*},
     path::PathBuf,
+    sync::{Mutex, PoisonError},
 };
 
 #[cfg(unix)]
@@ -35,6 +36,9 @@ pub struct FileMemory {
     noise: Vec<u8>,
     // Size of the decrypted data
     size: usize,
+    // Held while the access rights of the file are opened up, so that concurrent readers
+    // do not withdraw them from each other
+    access: Mutex<()>,
 }
 
 impl FileMemory {
@@ -51,7 +55,12 @@ impl FileMemory {
 
         // Write to file
         let fname = FileMemory::new_fname().or(Err(FileSystemError))?;
-        let fm = FileMemory { fname, noise, size };
+        let fm = FileMemory {
+            fname,
+            noise,
+            size,
+            access: Mutex::new(()),
+        };
         fm.write_to_file(&data).or(Err(FileSystemError))?;
         Ok(fm)
     }
@@ -93,6 +102,7 @@ impl FileMemory {
 
     // Set access control before and after reading the file
     fn read_file(&self) -> Result<Vec<u8>, std::io::Error> {
+        let _guard = self.access.lock().unwrap_or_else(PoisonError::into_inner);
         self.set_read_only()?;
         let content = fs::read(&self.fname)?;
         self.lock_file()?;
@@ -223,6 +233,7 @@ impl Clone for FileMemory {
     fn clone(&self) -> Self {
         let error_msg = "Issue while copying file";
         let fname = FileMemory::new_fname().expect(error_msg);
+        let _guard = self.access.lock().unwrap_or_else(PoisonError::into_inner);
         self.set_read_only().expect(error_msg);
         fs::copy(&self.fname, fname.clone()).expect(error_msg);
         self.lock_file().expect(error_msg);
@@ -230,6 +241,7 @@ impl Clone for FileMemory {
             fname,
             noise: self.noise.clone(),
             size: self.size,
+            access: Mutex::new(()),
         };
         fm.lock_file().expect(error_msg);
         fm
-- 
2.43.0


From 94e960b80f221a778eb49ddf2831f94bfc26d511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:34 +0000
Subject: [PATCH 28/33] fix: give every transaction an identifier of its own

---
 stm/src/stm/stm.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/stm/src/stm/stm.rs b/stm/src/stm/stm.rs
index 38ec18c..a58bfb7 100644
--- a/stm/src/stm/stm.rs
+++ b/stm/src/stm/stm.rs
@@ -39,8 +39,7 @@ impl Stm {
     }
 
     pub fn increment_tx_ids(&self) -> usize {
-        self.transaction_ids.fetch_add(1, Ordering::SeqCst);
-        self.transaction_ids.load(Ordering::SeqCst)
+        self.transaction_ids.fetch_add(1, Ordering::SeqCst) + 1
     }
 
     /// This runs a transaction with the given context. The TL2 algorithm makes
-- 
2.43.0


From 397fa92f067f4e5e19215665d6d2b994d05ded90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 29/33] fix: a read within the same context loses the write of
 a live write guard

---
 stm/src/rlu/guard/write.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stm/src/rlu/guard/write.rs b/stm/src/rlu/guard/write.rs
index f02ac1d..0cb751a 100644
--- a/stm/src/rlu/guard/write.rs
+++ b/stm/src/rlu/guard/write.rs
@@ -127,7 +127,9 @@ where
         };
 
         info!("successfully written data to copy");
-        // end RLU section
+        // end RLU section. A read in the same context since this guard was acquired may have
+        // cleared the writer flag, without which the log would not be written back.
+        self.context.set_writer();
         if let Err(err) = self.context.read_unlock() {
             let id = self.context.id.load(Ordering::SeqCst);
             info!("({}) Read unlock for writeguard failed: {:?}", id, err);
-- 
2.43.0


From 5b24b82a271833a8a7406b74e5547657d5aae88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 30/33] fix: a refused passphrase is left in memory

---
 client/src/security/keyprovider.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/client/src/security/keyprovider.rs b/client/src/security/keyprovider.rs
index c68c738..0f3f9b3 100644
--- a/client/src/security/keyprovider.rs
+++ b/client/src/security/keyprovider.rs
@@ -151,6 +151,7 @@ impl KeyProvider {
     {
         digest.update(passphrase.as_ref());
         let key = digest.finalize().to_vec();
+        passphrase.zeroize();
 
         if key.len() != KEY_SIZE_HASHED {
             // This restriction refers to the current implementation of the non-contiguous types
@@ -158,10 +159,7 @@ impl KeyProvider {
             // another size than 32 bytes.
             return Err(ClientError::IllegalKeySize(32));
         }
-        let result = Self::try_from(key).map_err(|e| ClientError::Inner(e.to_string()));
-        passphrase.zeroize();
-
-        result
+        Self::try_from(key).map_err(|e| ClientError::Inner(e.to_string()))
     }
 
     /// Creates a new [`KeyProvider`] from a passphrase, that will be hashed by `blake2b`.
@@ -265,13 +263,11 @@ impl KeyProvider {
         let config = argon2::Config::default();
 
         let key = argon2::hash_raw(passphrase.as_ref(), salt.as_ref(), &config)
-            .map_err(|e| ClientError::Inner(e.to_string()))?;
-
-        let result = Self::try_from(key.to_vec()).map_err(|e| ClientError::Inner(e.to_string()));
+            .map_err(|e| ClientError::Inner(e.to_string()));
         passphrase.zeroize();
         salt.zeroize();
 
-        result
+        Self::try_from(key?).map_err(|e| ClientError::Inner(e.to_string()))
     }
 }
 
-- 
2.43.0


From 405b12b381bbff956112401899e86ed5bbd04e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 31/33] fix: native calls return a pointer to a vector instead
 of its bytes

---
 bindings/native/src/lib.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/bindings/native/src/lib.rs b/bindings/native/src/lib.rs
index d2c75cf..3c15781 100644
--- a/bindings/native/src/lib.rs
+++ b/bindings/native/src/lib.rs
@@ -146,11 +146,21 @@ pub unsafe extern "C" fn stronghold_destroy_data_pointer(ptr: *mut u8) {
         return;
     }
 
-    let _ = Box::from_raw(ptr);
+    libc::free(ptr as *mut libc::c_void);
 
     info!("[Rust] Destroyed instance");
 }
 
+/// Copies the bytes into memory, that is to be released by [`stronghold_destroy_data_pointer`], which isn't told
+/// the number of bytes.
+unsafe fn into_data_pointer(data: &[u8]) -> *mut u8 {
+    let ptr = libc::malloc(data.len().max(1)) as *mut u8;
+    assert!(!ptr.is_null());
+    ptr::copy_nonoverlapping(data.as_ptr(), ptr, data.len());
+
+    ptr
+}
+
 /// # Safety
 #[no_mangle]
 pub unsafe extern "C" fn stronghold_generate_ed25519_keypair(
@@ -183,7 +193,7 @@ pub unsafe extern "C" fn stronghold_generate_ed25519_keypair(
         }
     };
 
-    Box::into_raw(Box::new(chain_code)) as *mut _
+    into_data_pointer(&[chain_code as u8])
 }
 
 /// # Safety
@@ -306,7 +316,7 @@ pub unsafe extern "C" fn stronghold_get_public_key(
         }
     };
 
-    Box::into_raw(Box::new(public_key)) as *mut _
+    into_data_pointer(&public_key)
 }
 
 /// # Safety
@@ -338,5 +348,5 @@ pub unsafe extern "C" fn stronghold_sign(
         }
     };
 
-    Box::into_raw(Box::new(signature)) as *mut _
+    into_data_pointer(&signature)
 }
-- 
2.43.0


From 2861f40f06709e52ab2ba2e532f168d686fb5f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:58 +0000
Subject: [PATCH 32/33] fix: a commit beside clear leaves client state in the
 cleared snapshot

---
 client/src/types/stronghold.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client/src/types/stronghold.rs b/client/src/types/stronghold.rs
index 2d69fb9..2a9fc7f 100644
--- a/client/src/types/stronghold.rs
+++ b/client/src/types/stronghold.rs
@@ -374,8 +374,10 @@ impl Stronghold {
     /// snapshot file. Use [`Self::load_client_from_snapshot`] to reload any [`Client`] and
     /// [`Snapshot`] state
     pub fn clear(&self) -> Result<(), ClientError> {
-        self.snapshot.write()?.clear()?;
+        // held until the end: a concurrent commit must not write the clients to the cleared snapshot
+        let mut snapshot = self.snapshot.write()?;
         let mut clients = self.clients.write()?;
+        snapshot.clear()?;
         self.store.clear()?;
         self.key_location.write()?.take();
         for (_, client) in clients.drain() {
-- 
2.43.0


From f90c36ba6d33674b53e0b23f111453152ad28039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:41 +0000
Subject: [PATCH 33/33] fix: Slip10Generate with a size that cannot be
 allocated aborts

---
 client/src/procedures/primitives.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/src/procedures/primitives.rs b/client/src/procedures/primitives.rs
index e7675a9..7d9a157 100644
--- a/client/src/procedures/primitives.rs
+++ b/client/src/procedures/primitives.rs
@@ -448,7 +448,10 @@ impl GenerateSecret for Slip10Generate {
 
     fn generate(self) -> Result<Products<Self::Output>, FatalProcedureError> {
         let size_bytes = self.size_bytes.unwrap_or(64);
-        let mut seed = vec![0u8; size_bytes];
+        let mut seed = Vec::new();
+        seed.try_reserve_exact(size_bytes)
+            .map_err(|e| FatalProcedureError::from(e.to_string()))?;
+        seed.resize(size_bytes, 0u8);
         fill(&mut seed)?;
         Ok(Products {
             secret: seed,
-- 
2.43.0

