#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one property per line) from the table below.
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": hook}})

p("C01", "A client's vaults behave as a map from location to the last secret written",
  "After any sequence of write, overwrite, procedure output, revoke, delete and garbage-collection calls on one client, a location is reported to exist and its secret is usable exactly when its last successful write has not since been revoked or deleted, and the usable value is then bit-for-bit the one last written. Operations on one location or vault never change the visibility or the value of any other location. Revoked data stays unreadable, a revoked location becomes writable again after garbage collection, and a secret is only ever returned to procedures, never to the caller.",
  ["histories", "inputs"],
  "All finite histories of vault operations over several clients, vaults and records with arbitrary byte paths (generic and counter) and payloads of any length from empty up.",
  "The unit tests write, delete and check a handful of fixed locations once; the claim is over every interleaving of overwrites, revocations and collections and every payload length.",
  ["client/src/procedures/clientrunner.rs", "client/src/types/vault.rs", "client/src/types/client.rs", "engine/src/vault/view.rs"],
  [("record write / update / revoke / garbage collect", "engine/src/vault/view.rs"), ("keystore take/reinsert around each operation", "client/src/procedures/clientrunner.rs")],
  ["Client::record_exists", "Client::vault_exists", "procedures CompareSecret and CopyRecord", "ClientVault"])
p("C02", "Committing to a snapshot and loading it back restores the exact state",
  "For every set of clients, vaults, secrets and stores, a successful commit followed by loading the file with the same key, in the same or a fresh instance, yields clients whose secrets, vault and record existence and store entries (with remaining lifetimes) equal those at the time of the commit. Clients present only in the previously loaded snapshot are kept by the commit, later changes that were not committed are not in the file, and a commit never changes the live state. Writing, committing and loading can be repeated any number of times with the same result; snapshots of different names are independent files.",
  ["histories", "inputs", "configurations"],
  "All histories of client operations interleaved with write_client, commit, commit_with_keyprovider, load_snapshot, load_client, load_client_from_snapshot and unload, with state sizes from empty to hundreds of kilobytes, and every key source.",
  "Existing tests commit one or two fixed clients with one secret and load once.",
  ["client/src/types/stronghold.rs", "client/src/types/snapshot.rs", "engine/src/snapshot/logic.rs", "client/src/security/keystore.rs"],
  [("state serialisation and per-client encryption", "client/src/types/snapshot.rs"), ("file encode/decode", "engine/src/snapshot/logic.rs")],
  ["Stronghold", "snapshot file", "Client", "Store"])
p("C03", "The client registry follows its documented lifecycle",
  "For every sequence of create, get, load, unload, write, purge, commit, load-snapshot and clear calls, each call succeeds or fails with the documented error exactly as a reference registry predicts: a client is either loaded or not, loading twice is refused, unknown or never-written clients are refused, purged clients are gone from memory and from later commits. A refused call leaves the registry, the clients and the in-memory snapshot as they were (a refused commit may already have written the clients to the in-memory snapshot).",
  ["histories"],
  "All finite call sequences over several client paths, two snapshot files and right, wrong or missing keys and files.",
  "Tests run each lifecycle call once along the happy path; error paths and their absence of side effects are not exercised in combination.",
  ["client/src/types/stronghold.rs", "client/src/types/snapshot.rs"],
  [("client map and in-memory snapshot under locks", "client/src/types/stronghold.rs")],
  ["Stronghold methods' results", "Client handles"])
p("C04", "A damaged, foreign or wrong-key snapshot is rejected cleanly",
  "Reading a snapshot whose bytes differ in any way from those written (flipped, truncated, extended, spliced, random), or with another key or other associated data, returns an error: it never yields data, never panics and never crashes. An intact snapshot is accepted and yields exactly the bytes that were written, in whatever parts these are read, and a failed load leaves the loaded clients and the in-memory snapshot untouched.",
  ["inputs", "fault_sequences"],
  "All plaintexts, keys and associated data, and all byte-level mutations of the resulting file, including mutations of an inner layer re-sealed under a valid key.",
  "The tests corrupt one fixed byte position or use one wrong key; the claim is over every position, length and structure.",
  ["engine/src/snapshot/logic.rs", "engine/src/snapshot/files.rs", "client/src/types/snapshot.rs", "client/src/types/stronghold.rs"],
  [("magic/version check, AEAD tag check", "engine/src/snapshot/logic.rs")],
  ["engine::snapshot::read_from", "Stronghold::load_snapshot"])
p("C05", "Writing a snapshot is atomic under crashes and I/O faults",
  "At every point at which a snapshot write can be cut short by a crash or an I/O failure, the snapshot path holds either the complete previous contents or the complete new contents, and never a mixture, a truncated file or nothing where a file was. A write that reports success is completely on the path (data flushed before it replaces the old file), and a write that fails reports the failure and leaves the previous file usable.",
  ["crash_points", "fault_sequences"],
  "Every system call of the write as a crash point and as a failing call (ENOSPC, EIO, short writes), for fresh and pre-existing targets and many state sizes.",
  "Unit tests only see uninterrupted writes.",
  ["engine/src/snapshot/logic.rs", "client/src/types/snapshot.rs"],
  [("write to a temporary file, sync, rename", "engine/src/snapshot/logic.rs")],
  ["the file at the snapshot path as seen by a later process"])
p("C06", "The insecure store is a faithful key-value map with expiry",
  "For every history of insert, get, delete, contains, keys and clear, the store returns exactly what a map with per-entry expiry times predicts: the previous value on insert and delete, the last value on get, and nothing for an entry whose lifetime has elapsed. An entry without a lifetime never disappears, background cleaning of expired entries never removes a live entry, and stores of different clients are independent.",
  ["histories", "inputs"],
  "All histories over arbitrary byte keys and values, lifetimes of zero, short, long and none, and any scan frequency of the cleaner, including round trips of the store through a snapshot.",
  "The tests use three fixed keys and one lifetime.",
  ["client/src/types/store.rs", "engine/src/store/storage/cache.rs", "engine/src/store/storage.rs"],
  [("cache table with expiry and scanner", "engine/src/store/storage/cache.rs")],
  ["Store", "engine::store::Cache"])
p("C07", "Paths map to identifiers deterministically and without collisions",
  "The same client, vault and record path always resolves to the same identifier in every process and release, and two different paths, counters or vault/record splits resolve to different identifiers. A generic location never resolves to the identifier of a counter location. Identifiers depend on the complete path bytes, whatever their length or content.",
  ["inputs"],
  "All pairs of byte-string paths (empty, prefix-related, long, binary) and counters, excluding the HMAC key-padding aliases recorded as a finding.",
  "Tests compare a few hand-written paths.",
  ["client/src/types/location.rs", "client/src/utils/ids.rs", "engine/src/vault/types/utils.rs"],
  [("HMAC-SHA512 based id derivation", "client/src/utils/ids.rs"), ("location resolution", "client/src/types/location.rs")],
  ["Location::resolve", "derive_vault_id", "derive_record_id", "Client::id"])
p("C08", "Key generation, derivation and signing procedures compute the standard functions",
  "For every input, the seed generation, BIP39, SLIP-10, Ed25519 and X25519 procedures store and return exactly what the corresponding public standard prescribes for the secrets held at their source locations: derived keys, chain codes, public keys, signatures and shared secrets agree with an independent implementation. Generated keys, seeds and mnemonics have the requested size, mnemonics recover the seed that was stored, and invalid inputs (key sizes, non-hardened chains) are refused with an error and without a stored result.",
  ["inputs"],
  "All seeds, entropy, passphrases, derivation chains (hardened and not, any depth) and messages.",
  "Tests use one or two published vectors and self-consistency round trips.",
  ["client/src/procedures/primitives.rs", "client/src/procedures/types.rs"],
  [("Slip10Generate/Derive, BIP39Generate/Recover, GenerateKey, PublicKey, Ed25519Sign, X25519DiffieHellman", "client/src/procedures/primitives.rs")],
  ["procedure outputs", "secrets at target locations compared inside the vault"])
p("C09", "Hash, MAC, KDF and cipher procedures compute the standard functions",
  "For every input, the HMAC, HKDF, PBKDF2, Concat-KDF, AES-GCM/XChaCha20-Poly1305, AES key-wrap, copy and concatenation procedures produce exactly the output of the corresponding standard on the secret at the source location, and encrypt/decrypt and wrap/unwrap are inverse to each other. Any change to ciphertext, tag, nonce, associated data or key makes decryption or unwrapping fail, without a panic and without a stored or returned plaintext.",
  ["inputs"],
  "All keys, salts, labels, messages, nonces and sizes, hash variants and tampered ciphertexts.",
  "Tests use one fixed vector or a single round trip per procedure.",
  ["client/src/procedures/primitives.rs"],
  [("Hmac, Hkdf, Pbkdf2Hmac, ConcatKdf, AeadEncrypt/Decrypt, AesKeyWrapEncrypt/Decrypt, CopyRecord, ConcatSecret", "client/src/procedures/primitives.rs")],
  ["procedure outputs", "secrets at target locations compared inside the vault"])
p("C10", "A failing procedure or chain is refused cleanly and leaves no partial secrets",
  "When any procedure of a chain fails, for whatever reason (missing source, wrong sizes, bad arguments), the call returns an error and none of the secrets that the chain produced remains readable, while every other secret is unchanged and the client stays fully usable. When a chain succeeds it returns one output per procedure in order, with the same results as running the procedures one by one. No procedure input makes the library panic, abort or lock up.",
  ["inputs", "histories", "fault_sequences"],
  "All chains of procedures with valid and invalid arguments, missing or odd-sized source secrets, and failures at any position.",
  "Tests contain a single failing chain.",
  ["client/src/types/client.rs", "client/src/procedures/types.rs", "client/src/procedures/primitives.rs", "client/src/procedures/clientrunner.rs"],
  [("revocation of logged outputs on failure", "client/src/types/client.rs"), ("error propagation out of the guarded closure", "client/src/procedures/clientrunner.rs")],
  ["execute_procedure_chained", "record_exists", "usability of the client afterwards"])
p("C11", "Synchronising clients and vaults transfers exactly the selected records",
  "After synchronising a target client or vault from a source, the target holds for each selected record under its mapped vault the source's value, except that under the keep-old policy records already present in the target keep their value; all records not selected, and everything else in the target, are unchanged. The source is never changed, the transferred secrets are usable in the target, and repeating the same synchronisation changes nothing.",
  ["histories", "inputs", "configurations"],
  "All pairs of client states (including deleted and revoked records), selections of vaults and records, vault mappings and both merge policies.",
  "Tests compare hierarchies of ids for a few fixed configurations.",
  ["client/src/sync.rs", "client/src/types/client.rs", "engine/src/vault/view.rs"],
  [("hierarchy, diff, export, import", "client/src/sync.rs"), ("re-encryption on import", "engine/src/vault/view.rs")],
  ["Client::sync_with", "Client::sync_vaults", "secrets compared in the target"])
p("C12", "Exchanging snapshot state between instances merges exactly the selected data",
  "Merging a snapshot state, directly or serialised and encrypted for a peer's public key, gives the target exactly the selected clients, vaults and records of the source under the configured merge policy and leaves all else unchanged. The serialised form is readable only with the matching private key, and a modified or foreign message is refused without changing the target.",
  ["histories", "inputs", "configurations"],
  "All pairs of multi-client snapshot states, selections, policies and message mutations.",
  "Tests exchange one or two fixed snapshots.",
  ["client/src/types/snapshot.rs", "client/src/sync.rs"],
  [("diff, export, import across clients", "client/src/sync.rs"), ("Diffie-Hellman protected export", "client/src/types/snapshot.rs")],
  ["Snapshot::merge_state", "Snapshot::export_to_serialized_state", "Snapshot::import_from_serialized_state"])
p("C13", "Secrets never appear in files, serialised state, debug output or errors",
  "No secret, vault key, snapshot key, store value or client path appears in the clear in a snapshot file, no stored secret, key or secret procedure argument appears in the debug or error text of any public object, and no secret appears in the clear in the serialised form of a vault or in an exchanged message. Every encryption uses fresh randomness: writing the same state or the same secret twice yields unrelated ciphertexts, keys, nonces and ephemeral keys.",
  ["inputs", "histories"],
  "All secrets, keys and states; every file and every debug/error string produced along a history.",
  "Tests do not inspect file contents or debug output.",
  ["engine/src/snapshot/logic.rs", "engine/src/vault/view.rs", "client/src/types", "client/src/internal/provider.rs", "utils/src/lib.rs"],
  [("encryption at rest", "engine/src/snapshot/logic.rs"), ("redacted Debug implementations", "derive/src/lib.rs, utils/src/lib.rs, engine/runtime")],
  ["snapshot files", "format!(\"{:?}\")", "error strings"])
p("C14", "Protected memory containers return exactly the data stored in them",
  "For every payload and every container kind (guarded buffer, RAM, file-backed, all non-contiguous split configurations, and memory fragments), unlocking yields exactly the stored bytes, any number of times and from any number of threads, after cloning, serialisation round trips, share refreshing, and locking of new contents; a copy is independent of its original. Comparisons between buffers reflect their contents and length, no split container's shares and no file contain the payload in the clear, and requests whose size is zero or does not fit the payload, foreign serialised forms and the use of a zeroized container are refused with an error, not a crash.",
  ["inputs", "histories", "schedules"],
  "All payload lengths and contents, all configurations, histories of lock, unlock, clone, serialise and refresh, and concurrent unlocks with refresh.",
  "Tests use a few fixed payloads per container.",
  ["engine/runtime/src/memories", "engine/runtime/src/locked_memory.rs"],
  [("XOR shares and refresh", "engine/runtime/src/memories/noncontiguous_memory.rs"), ("boxed allocation", "engine/runtime/src/boxed.rs")],
  ["LockedMemory::unlock", "Buffer::borrow", "file contents"])
p("C15", "Guarded memory is inaccessible while locked, guarded at its edges and wiped",
  "Outside an active borrow the contents of a guarded buffer cannot be read or written, during a shared borrow they cannot be written, any access past the end is stopped by the operating system, and a write just before the start is detected at release. Access rights follow the borrows exactly, for every nesting, for up to 255 borrows at a time and from any number of threads, and are withdrawn when the last one ends. Contents are wiped when a buffer or container is dropped or zeroized, and the file of a file-backed container is overwritten and removed.",
  ["histories", "inputs"],
  "All sizes around page and word boundaries, all borrow histories, and every offset at and beyond the edges.",
  "Tests check a few sizes and offsets.",
  ["engine/runtime/src/boxed.rs", "engine/runtime/src/memories/buffer.rs", "engine/runtime/src/memories/file_memory.rs", "engine/runtime/src/memories/frag.rs"],
  [("protection counting", "engine/runtime/src/boxed.rs"), ("guarded allocation", "libsodium via engine/runtime/src/boxed.rs")],
  ["signals raised by accesses in a forked process", "/proc/self/maps of the own process", "Debug of the buffer"])
p("C16", "Software transactions are atomic and serialisable",
  "For every concurrent execution of transactions over transactional variables, the values read by each committed transaction and the final values are those of some serial order of the committed transactions, consistent with real-time order, and no committed update is lost. A transaction that aborts or returns an error leaves no effect, a transaction sees its own writes, and every committed transaction reports an identifier of its own. Uncontended transactions always complete.",
  ["schedules", "programs"],
  "All transaction programs over a small set of variables and all schedules the harness can drive them through, including retries and aborts.",
  "Tests run a few fixed workloads under whatever schedule happens to occur.",
  ["stm/src/stm/stm.rs", "stm/src/stm/transaction.rs", "stm/src/stm/tvar.rs", "stm/src/stm/shared_value.rs"],
  [("global version clock, read-set validation, locking of every variable used", "stm/src/stm")],
  ["values returned by committed transactions", "final variable values"])
p("C17", "Read-log-update writes reach every later reader",
  "For every history of read-log-update contexts used in turn (one after another, nested, or on different threads one after another) in which no two guards of one variable are alive at once: the value behind a guard is the value last written, a write becomes visible to every later read of every context and to the variable itself when its guard is given back, whatever other guards the context holds, and no write is lost. A failing closure is repeated or given up exactly as the chosen strategy says.",
  ["histories", "programs"],
  "All histories of contexts used in turn (nested or on different threads one after another) over a small set of variables, with guards kept and given back in any order, and all strategies.",
  "Tests run a few fixed workloads.",
  ["stm/src/rlu"],
  [("write log, write-back, context clocks", "stm/src/rlu/rlu.rs")],
  ["values behind guards", "RLUVar::get"])
p("C18", "Snapshot compression is lossless and its decoder is total",
  "For every byte string, decompressing its compressed form yields the same bytes, and the compressed form is an LZ4 block that any LZ4 block decoder reads back to the same bytes. For every other byte string the decoder terminates with a result or an error, without a panic, and agrees with an independent LZ4 block decoder (one that also accepts an empty block or a block ending after a match) on whether and to what it decodes.",
  ["inputs"],
  "All byte strings, in particular long runs, repetitions at all distances, and lengths around encoding boundaries; all malformed compressed inputs.",
  "Tests use three fixed texts.",
  ["engine/src/snapshot/compression/encoder.rs", "engine/src/snapshot/compression/decoder.rs"],
  [("LZ4 encoder and decoder", "engine/src/snapshot/compression")],
  ["engine::snapshot::compress", "engine::snapshot::decompress"])
p("C19", "Text and wire encodings round-trip and reject malformed input",
  "Every byte string encoded as padded URL-safe base64, and every identifier, hint, location, procedure and procedure output in its text, byte or serialised form, decodes back to an equal value that behaves the same; the base64 form is that of RFC 4648. Malformed text is refused with an error exactly where the standard's format is violated (unused trailing bits of the last digit are ignored), identifiers of a wrong length are refused, and decoding never panics.",
  ["inputs"],
  "All byte strings and identifiers, and arbitrary texts for decoding.",
  "Tests cover a few fixed vectors.",
  ["engine/src/vault/base64.rs", "engine/src/vault/types/utils.rs", "client/src/procedures/types.rs", "client/src/types/location.rs"],
  [("base64 alphabet and padding handling", "engine/src/vault/base64.rs"), ("identifier conversions", "engine/src/vault/types/utils.rs")],
  ["Base64Encodable/Base64Decodable", "TryFrom<Vec<u8>> of ids", "serde"])
p("C20", "A vault opens only with its own key and its records cannot be swapped",
  "Every operation on a vault with a key other than its own is refused or has no effect, for every operation and key. Records and their ciphertexts are bound to their identity: a record moved to another id or vault, or whose sealed parts are exchanged or modified, is refused rather than decrypted. Listings, hints and blob identifiers reflect exactly the live records, and a blob identifier changes with each write. Keys compare as their bytes do, keys of a wrong size are refused, and a sealed vault key opens only with the key and associated data it was sealed with.",
  ["histories", "inputs"],
  "All histories of engine-level vault operations with right and wrong keys, imports and exports, and all modifications of serialised records.",
  "Tests cover one fixed vault and key.",
  ["engine/src/vault/view.rs", "engine/src/vault/types/transactions.rs", "engine/src/vault/crypto_box.rs", "client/src/internal/provider.rs"],
  [("key check per operation", "engine/src/vault/view.rs"), ("associated data binding", "engine/src/vault/view.rs")],
  ["engine::vault::DbView"])
p("C21", "Snapshot key providers derive the same correct key every time",
  "For every passphrase or raw key, each key provider yields exactly the key its documented construction prescribes, the same on every use and in every process, so that snapshots written with one provider open with any other built from the same input and with no provider whose prescribed key differs. Inputs of a wrong size are refused with the documented error, and the input passphrase is wiped from the caller-visible object whether the provider is built or refused.",
  ["inputs"],
  "All passphrases and raw keys of any length for each provider construction.",
  "Tests use one passphrase per construction.",
  ["client/src/security/keyprovider.rs", "engine/runtime/src/memories/noncontiguous_memory.rs"],
  [("hash, truncating hash and Argon2 derivations", "client/src/security/keyprovider.rs")],
  ["KeyProvider::try_unlock", "commit/load with separately built providers"])
p("C22", "The native interface returns correct data and fails without crashing",
  "For every sequence of native calls with valid pointers to UTF-8 strings, keys generated, signatures made and public keys returned are those of the seed or key stored at the given paths, verify under the standard, and survive saving and reopening with the same key. Bad arguments (missing file, wrong key, unwritable place, missing or short record) are reported through the return value and the error string, never by a crash, and every returned object, or a null pointer, can be given to its release function once.",
  ["histories", "inputs"],
  "All call sequences over create, load, unload, write/remove, seed and key generation, derive, public key and sign.",
  "The repository has no automated tests for the native interface.",
  ["bindings/native/src/lib.rs", "bindings/native/src/wrapper.rs"],
  [("C interface over the client library", "bindings/native/src/lib.rs")],
  ["bytes behind the returned pointers"])
p("C23", "Clients, stores and the instance may be used from many threads at once",
  "When threads use one instance, its clients, vaults and stores concurrently, every operation takes effect atomically at some point between its call and its return, so that results and the final state are those of some sequential order (a commit and clear act on one client after the other, a deletion revokes and then collects, a chain executes one procedure after the other). No schedule crashes, panics, deadlocks or corrupts the state, also while clients are synchronised, and a snapshot committed meanwhile is loadable and holds, for each client, a state that existed during the commit.",
  ["schedules", "histories"],
  "All programs of a few threads each performing several operations on shared clients, and the schedules that occur with randomised delays.",
  "Two tests run one fixed multi-threaded workload.",
  ["client/src/types/client.rs", "client/src/types/stronghold.rs", "client/src/procedures/clientrunner.rs", "engine/runtime/src/boxed.rs"],
  [("reader-writer locks around keystore, db and store", "client/src/types/client.rs")],
  ["operation results", "final state", "committed file"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
