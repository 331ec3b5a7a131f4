CHECKS = {
 "C01": ("stateful property-based testing against a reference map", "exploration",
   "Random operation histories on the real client compared with a reference model after every step; single-threaded; secrets observed through the comparison procedure."),
 "C06": ("stateful property-based testing against a reference map with expiry", "exploration",
   "Random histories with lifetimes and real clock waits compared with a model that brackets each call's time."),
 "C07": ("property-based testing with an independent identifier derivation as oracle", "exploration",
   "Random and near-colliding paths compared with an own HMAC/BLAKE2b derivation and checked for injectivity through the vault."),
 "C08": ("property-based differential testing against independent implementations", "exploration",
   "Random procedure inputs compared with own implementations of BIP39, SLIP-10, Ed25519 and X25519."),
 "C09": ("property-based differential and metamorphic testing", "exploration",
   "Random procedure inputs compared with own implementations of the MAC, KDF and cipher standards; systematic tampering of ciphertexts."),
 "C10": ("stateful property-based testing with fault-injecting procedure chains", "exploration",
   "Random chains with failing procedures at random positions compared with a reference executor; every location is observed after each chain."),
 "C14": ("stateful property-based testing against a reference model, with a search of files and own memory", "exploration",
   "Random histories of every container kind and its copies, requests with arbitrary sizes, fragments of several types, files and memory searched for the payload, concurrent use as an unprivileged user."),
 "C15": ("stateful property-based testing with the operating system as oracle for access rights and wiping", "exploration",
   "Random borrow histories with access rights asked from the kernel after every step, executed accesses at and beyond the edges, memory looked at after zeroize and at the moment it is given back, hard links to removed files."),
 "C18": ("property-based differential fuzzing against an independent LZ4 decoder", "exploration",
   "Structured and damaged blocks, compared with an own decoder of the block format."),
 "C19": ("property-based round-trip and differential testing", "exploration",
   "Random values and near-valid texts against an own RFC 4648 codec; procedures are executed after a serialisation round trip."),
 "C02": ("stateful property-based testing against a reference model", "exploration",
   "Random histories of contents changes, commits and loads over three clients and four files, every loaded client compared with the model, files read back by a fresh instance."),
 "C03": ("stateful property-based testing against a reference registry", "exploration",
   "Random histories of registry calls with right, wrong and missing keys, files and clients; registry membership and contents compared after every call."),
 "C04": ("property-based fuzzing of files, keys and associated data against an accept-only-identical oracle", "exploration",
   "Random and exhaustive single-bit changes of files, keys and associated data at the engine; the whole instance compared after a refused load; changed contents under the right key must not crash."),
 "C05": ("property-based fault injection with exhaustive single faults per generated write", "fault_enumeration",
   "Every file system call of generated writes is the point of a crash, power failure or error (interposed C library calls in a forked child), plus random fault pairs and concurrent readers and writers."),
 "C20": ("stateful property-based testing against a reference model, and structure-aware tampering of serialised vaults", "exploration",
   "Random histories with right, wrong and one-bit-different keys compared with a model; records moved, exchanged, cut or mixed in the serialised form must be refused."),
 "C11": ("stateful property-based testing against a reference model of the synchronisation rules", "exploration",
   "Random histories of writes and client and vault synchronisations with selections, mappings and policies; all clients are compared record by record with the model after each synchronisation."),
 "C12": ("stateful property-based testing against a reference model, and fuzzing of the encrypted messages", "exploration",
   "Random histories of merges and messages between two snapshots compared record by record with a model; modified, foreign and resealed messages must be refused."),
 "C13": ("property-based testing with recognisable secrets: search of files, serialised forms and texts, and disjointness of repeated encryptions", "exploration",
   "Random instances with marked secrets, keys and paths; every file, message, debug and error text is searched for them in several encodings, and repeated encryptions of equal contents must share no 8 bytes."),
"C16": ("property-based testing of concurrent programs under generated and randomly disturbed schedules, against a serialisability oracle", "exploration",
   "Programs driven step by step through generated schedules and explained by a search for a serial order; free-running threads, stopped at arbitrary instructions, whose dependencies must form an order."),
 "C17": ("stateful property-based testing against a reference model", "exploration",
   "Random histories of contexts used in turn, nested, on several threads, with kept guards and failing attempts; every guard and variable is compared with a model after every step."),
 "C21": ("property-based differential testing against own implementations of the key derivations", "exploration",
   "Random passphrases, salts and raw keys through every provider construction, compared with own BLAKE2b and Argon2i; wiping of the input observed after success and refusal; snapshots exchanged between providers."),
 "C22": ("stateful property-based testing against a reference model, in a child process", "exploration",
   "Random histories of native calls on several files and handles compared with a model that derives keys and verifies signatures itself; a crash or a leaked or doubly released object is a failure."),
"C23": ("property-based concurrency testing: generated programs under randomly disturbed schedules, linearizability checking against a sequential model", "exploration",
   "Small random programs whose results and final state must be explained by a sequential order found by search; long programs on places of their own with committed files that must be states between two calls of each thread; synchronisation beside other calls."),
}
NOT_APPLICABLE = []
