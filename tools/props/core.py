from propfmt import MC, P

PROPS = [
    P("C01", "Reputation ledger: balance is what is left of unexpired packets",
      "The reputation of every identity always equals the sum of what is left of the packets it gained that have not expired, whatever the sequence of gains, expirations, penalties, reloads and direct adjustments. "
      "Expiring returns exactly the points that disappear, a penalty takes exactly what the penalty function asks (latest-expiring packets first, never below zero, never creating points) and returns the total taken, and a refused operation changes nothing. "
      "Listings, orderings and the stored form of the ledger agree with those balances.",
      ["histories", "inputs"], "every sequence of gain / expire / penalise-many / direct edits / reload over any identities, amounts, expiry times and penalty functions",
      "The unit tests fix a handful of sequences with few identities; the ledger keeps a balance cache beside the packet queue, and only arbitrary interleavings of expiry and penalties show whether they stay equal.",
      ["reputation/src/trs.rs"],
      [("packet queue ordered by expiration, cache of balances", "reputation/src/trs.rs"), ("penalize_many, expire, gain", "reputation/src/trs.rs")],
      MC + "Arithmetic of the ledger is that of the real u32-like test types used by the harness."),
    P("C02", "Active set: an identity is active iff it appears in the recent window",
      "An identity is in the active reputation set exactly if it took part in at least one of the last N recorded epochs, where N is the capacity of the window and skipped epochs count as empty. "
      "That holds for every sequence of updates, pushes, clears and reloads in any order, the set lists each identity once, and updating with a time that is not after the last one is refused and changes nothing.",
      ["histories", "inputs"], "every history of updates with any identities, times, gaps and any capacity",
      "The unit tests walk through short fixed windows; the implementation counts appearances incrementally, and an error in the counts only shows after particular insertions and evictions.",
      ["reputation/src/ars.rs"],
      [("counting map beside a circular buffer of rows", "reputation/src/ars.rs")], MC),
    P("C03", "Merkle root is a function of the leaf list, however it is computed",
      "The root of a list of hashes is the same whether it is computed at once, by pushing leaves one at a time in any split, or through the general tree builder, and it is the root the Witnet tree shape defines for every number of leaves. "
      "The root of an empty list is the hash of the empty string; different lists of the same length give different roots.",
      ["inputs", "histories"], "every list of leaves of any length, and every way to feed it",
      "The tests compare a few fixed lengths; the progressive computation keeps one node per tree level and only particular lengths exercise particular merge chains.",
      ["crypto/src/merkle.rs"],
      [("progressive merkle tree", "crypto/src/merkle.rs"), ("full merkle tree", "crypto/src/merkle.rs")], MC + "SHA-256 is checked against hashlib."),
    P("C04", "Merkle inclusion proofs: complete for members, sound for all else",
      "For every list and every position in it, the inclusion proof produced for that position verifies against the list's root and determines the position and lemma the tree shape defines; for positions outside of the list there is no proof. "
      "A proof that was altered, or is checked against another leaf, another position or another root, does not verify, unless the alteration describes the same path.",
      ["inputs"], "every list length, every position, and every alteration of index, lemma and leaf",
      "The tests try a few lists with correct proofs; soundness is about all the proofs that nobody made.",
      ["crypto/src/merkle.rs"],
      [("inclusion proof creation and verification", "crypto/src/merkle.rs")], MC + "Hashes are free terms in the model (collision freedom is assumed) and real SHA-256 in the code."),
    P("C05", "Key/value storage: every backend is a map, and failures have no effect",
      "Whatever was last written to a key and not deleted since is what reading it returns, and reading by prefix returns exactly the stored entries whose key begins with the prefix, in any of the backends. "
      "A batch applies all of its operations in order or none; an operation that reports an error has had no effect; the backend that stores nothing refuses everything.",
      ["histories", "inputs", "fault_sequences"], "every sequence of put, get, delete, prefix read and batch, over every key including empty, 0xff and prefix-related ones, with backend failures at any point",
      "The tests put and get single keys in one backend; prefix iteration bounds, the order inside batches and failure paths are reached only by systematic histories.",
      ["storage/src/storage.rs", "storage/src/backends/hashmap.rs", "storage/src/backends/rocks.rs", "storage/src/backends/nobackend.rs"],
      [("Storage trait", "storage/src/storage.rs"), ("backends", "storage/src/backends")],
      MC + "The rocksdb crate is not available offline: its backend runs over an ordered-map stand-in with the same iterator and batch contract and injectable errors."),
    P("C06", "Shared storage is linearizable and batches are atomic under threads",
      "When several threads use one store at the same time, every read and prefix read returns a state the store really was in between its call and its return, operations of different threads appear in one order consistent with real time, and no thread sees half a batch.",
      ["schedules", "histories"], "every interleaving of concurrent puts, gets, deletes, batches and prefix reads",
      "The tests are single threaded.",
      ["storage/src/backends/hashmap.rs", "storage/src/storage.rs"],
      [("read/write lock around the in-memory map", "storage/src/backends/hashmap.rs")],
      "Concurrent histories of the real code under stress scheduling are checked for linearizability against the map specification by TLC; schedules are sampled, not enumerated."),
    P("C07", "HD keys: derivation is BIP-32, path-composable and parent-public consistent",
      "Every master key and every derived key equals the one BIP-32 defines for that seed and path, the depth grows by one per step, deriving a path at once equals deriving it step by step, and the public key belongs to the private one. "
      "Hardened and plain steps are told apart, the written form of a path reads back as the same path, and seeds of a length outside what the standard allows are refused.",
      ["inputs", "programs"], "every seed, every derivation path of any depth and index, hardened or not",
      "The tests compare a few published vectors; a slip in the padding or in the carry of a key addition shows only for rare keys and indices.",
      ["crypto/src/key.rs"],
      [("derivation and master key generation", "crypto/src/key.rs")], MC + "Byte values come from an independent BIP-32 written in Python."),
    P("C08", "Exported keys import as the same key; malformed exports are refused",
      "Exporting any extended private key in SLIP-32 form with its path and importing the text gives the same key, chain code and path, at any depth the format can hold, and the text is the one the standard defines. "
      "Text with a changed character, a wrong prefix, a wrong length or an impossible key is refused with an error and never read as some key, and nothing makes the import or export panic.",
      ["inputs"], "every key, chain code, depth and path; every malformed text",
      "The tests round-trip a few shallow keys and check a few errors.",
      ["crypto/src/key.rs", "crypto/src/cipher.rs"],
      [("SLIP-32 export and import", "crypto/src/key.rs"), ("Bech32 coding", "crypto/src/key.rs")], MC + "The oracle for texts is an independent Bech32/SLIP-32 in Python."),
    P("C09", "A signature verifies for exactly the key and digest that made it",
      "A signature verifies under the public key of the signer for the digest that was signed, and under no other key and for no other digest; an altered signature does not verify, for any order of signings and verifications. "
      "Data that is not a 32-byte digest is refused by signing and verifying alike.",
      ["inputs", "histories"], "every key, digest and alteration, in any order of use",
      "The tests sign one message with one key.",
      ["crypto/src/signature.rs"],
      [("sign and verify over the shared engine", "crypto/src/signature.rs")], MC + "secp256k1 itself is trusted."),
    P("C10", "Encryption at rest: only the right key opens it, to the same plaintext",
      "Decrypting what was encrypted with the same key and initialization vector returns exactly the plaintext, of any length; with any other key, vector or a changed ciphertext it never returns that plaintext as if nothing had happened, and malformed input gives an error rather than a panic. "
      "Ciphertexts and stretched keys are those the standards define (AES-256-CBC with padding, PBKDF2-HMAC-SHA256), and generated vectors and salts have the length asked for and do not repeat.",
      ["inputs"], "every plaintext, key, vector, password, salt, iteration count and corruption",
      "The tests encrypt one text; padding and wrong-key behaviour depend on the length and the bytes.",
      ["crypto/src/cipher.rs", "crypto/src/pbkdf2.rs", "crypto/src/hash.rs"],
      [("AES-CBC", "crypto/src/cipher.rs"), ("key stretching", "crypto/src/pbkdf2.rs")], MC + "Expected bytes come from an independent AES and from hashlib."),
    P("C11", "Seed phrases: valid ones only, one seed per phrase and passphrase",
      "A phrase is accepted exactly if it has 12, 15, 18, 21 or 24 words of the list and a right checksum; a generated phrase has the number of words asked for, is accepted again and does not repeat. "
      "The seed is the one BIP-39 defines for the phrase and the passphrase.",
      ["inputs"], "every phrase, passphrase and length",
      "The tests check the word counts of generated phrases and a single seed.",
      ["crypto/src/mnemonic.rs"],
      [("mnemonic generation, parsing, seed", "crypto/src/mnemonic.rs")], MC + "The oracle is an independent BIP-39."),
    P("C12", "Protected secrets are wiped when dropped and never printed",
      "When a protected value is dropped, replaced or converted, no memory given back to the allocator still holds the secret, and printing it in debug form shows nothing of it. "
      "What goes in comes out unchanged, also through serialisation, clones are independent, and comparisons are those of the contents.",
      ["histories", "inputs"], "every sequence of creating, cloning, converting, overwriting, reloading and dropping secrets of any length",
      "The tests look at the value and one debug string; freed memory is outside of what a test assertion sees.",
      ["protected/src/lib.rs"],
      [("zeroising drop, opaque Debug", "protected/src/lib.rs")], MC + "An instrumented allocator looks for the secret in freed blocks; registers, stack and swap are not covered."),
    P("C13", "Derived partial structs keep every field, optional unless said otherwise",
      "For every structure, the derived partial one has the same fields in the same order and visibility, each optional, except that fields marked to be skipped keep their type and fields given another type have that type. "
      "Attributes meant for the partial structure reach it and nothing else is lost, so that any subset of the fields of a document loads, missing ones being absent and given ones being kept.",
      ["programs", "inputs"], "every structure: number, types and marks of fields, named or positional, attributes joined or apart; every document",
      "The tests derive six fixed structures; what a macro does to the combinations of marks, attributes and shapes is a property of all programs.",
      ["partial_struct/src/lib.rs"],
      [("derive macro", "partial_struct/src/lib.rs")], MC + "Loading is observed through serde_json; structures are compiled from a program generated from the specification."),
    P("C14", "Flattening nested results keeps value, error kind, timing and wake-ups",
      "A flattened future resolves at the very poll its inner future does, polling it once per poll and leaving its wake-ups alone, to the same value or to the error converted by the conversion of its own kind. "
      "Whether the inner or the outer layer failed is never confused.",
      ["schedules", "inputs"], "every number of pending polls, every outcome and payload",
      "The tests use futures that are ready at once.",
      ["futures_utils/src/lib.rs"],
      [("flatten_err", "futures_utils/src/lib.rs")], MC),
]
