"""What each property's check runs: program, scenarios with weights, number of runs."""
ASSUMPTIONS = [
    'Primitives of OpenSSL 3 used by the oracle (X25519, X448, AES-GCM, ChaCha20-Poly1305, SHA-2, BLAKE2, HMAC, PBKDF2, Ed25519) are correct.',
    'Search is seeded sampling: what was not drawn was not explored.',
]
COMPONENTS = {
    'main': {'real': 'all of src/ (protocol, crypto, backends, keys, protobufs) in three builds (reference, libsodium, OpenSSL back ends) and the command line tools, compiled from the working tree with AddressSanitizer; libsodium and OpenSSL themselves',
             'stub': 'malloc family, random source (open/read of /dev/urandom, getrandom, libsodium randombytes), files and stdio streams, exit/abort, clock, passphrase prompt, EVP_CIPHER_CTX calls (pass through with failure injection); the network is simulated'},
    'conc': {'real': 'all of src/ in three builds, compiled from the working tree with a callback at every load, store, call and atomic operation; real threads with real thread-local data', 'stub': 'the thread scheduler (one thread holds a baton; the seeded scheduler passes it on at callbacks), locks and pthread_once (same meaning, waiting yields to the scheduler), malloc family, random source, files, clock'},
    'gen': {'real': 'noise-protoc (scanner, parser, generator, options) and the code it generates, with the protobuf library under it, all built from the working tree with AddressSanitizer', 'stub': 'malloc family, files and stdio streams, exit, standard error'},
    'echo': {'real': 'echo-server and echo-client (options, key files, framing, accept loop, forking and reaping, echo loops) and all of src/ under them, in three builds, compiled from the working tree with AddressSanitizer; every process has its own globals, stack, heap contents and descriptors', 'stub': 'the kernel: process scheduling, fork, waitpid, signals, sockets and TCP, poll, standard streams, name lookup; random source, files, malloc family, clock; in some sessions the peer is the independent model'},
}
HS = 'Handshakes over random suites (pattern, DH, hybrid, cipher, hash, PSK), random builds or the independent model per party, random prologues, keys, payload sizes, and a network that flips, truncates, extends, drops, duplicates, reorders, misdelivers, replays, reflects, splices and forges messages.'
TR = HS + ' Then transport traffic with the same faults, nonce jumps, exhaustion, failing cipher back ends.'
ST = 'Certificates, chains and private keys (random fields, Unicode text, sizes up to the limits) are saved by one build and loaded by another through a simulated disk that fails opens, reads, writes, closes and seeks, fills up, cuts reads short and dies in the middle of a write; files are flipped, truncated, extended, spliced, zeroed, written by a foreign encoder with unknown fields and unusual but valid encodings, and opened with wrong passphrases; allocations fail.'
EC = 'One echo server process (forking a child per connection) and up to five participants chosen at random: real clients of any build with matching or mismatching keys, model clients that behave, send altered, replayed, reordered, truncated or reflected frames or hold wrong keys, clients that send garbage, stall, reset or vanish, and real clients of model servers that behave, impersonate or answer with altered, replayed, reflected, oversized or empty frames; over links that split, delay, flip, drop, insert, repeat, cut and reset; with interrupted, short and failing system calls, killed processes and failing allocations. Then all faults stop, a client must be served while others stall, and three fresh clients after all are gone.'
CHECKS = {
    'H01': dict(program='main', scenarios=[('net', 4), ('fallback', 1)], quick=14000, rule=HS),
    'H02': dict(program='main', scenarios=[('net', 4), ('fallback', 1)], quick=14000, rule=HS),
    'H03': dict(program='main', scenarios=[('net', 4), ('fallback', 1)], quick=14000, rule=HS + ' At random points a step that is not legal there is attempted.'),
    'H04': dict(program='main', scenarios=[('fallback', 1)], quick=14000, rule='Abbreviated handshakes over random suites whose first message is aimed at a stale key, damaged, truncated or forged, or which the responder abandons anyway; both sides fall back at random points, possibly with new prologue, pre-shared key or identity, under network faults, and are compared with the independent model.'),
    'H05': dict(program='main', scenarios=[('net', 3), ('transport', 1), ('fallback', 1), ('obj', 1)], quick=12000, rule=TR + ' And single objects (hashes, ciphers, key exchange, symmetric states) used in arbitrary order with arbitrary lengths.'),
    'T01': dict(program='main', scenarios=[('transport', 1)], quick=8000, rule=TR),
    'T02': dict(program='main', scenarios=[('transport', 1)], quick=8000, rule=TR),
    'T03': dict(program='main', scenarios=[('transport', 1)], quick=8000, rule=TR),
    'S01': dict(program='main', scenarios=[('store', 1)], quick=4000, rule=ST),
    'S02': dict(program='main', scenarios=[('store', 1)], quick=4000, rule=ST),
    'S03': dict(program='main', scenarios=[('store', 1)], quick=4000, rule=ST),
    'S04': dict(program='main', scenarios=[('edit', 1)], quick=6000, rule='Up to three certificates, chains, private keys or encrypted keys at a time are edited at random places of the tree in all library builds: fields set, replaced and cleared, elements added, inserted at any position and lists cleared, while allocations fail; in between they are written by one build and read by another that goes on with them. After every step the whole record is read back and compared with a plain record that underwent the same edits.'),
    'V01': dict(program='main', scenarios=[('sign', 1)], quick=5000, rule='Signers and verifiers in random builds or the independent implementation, keys set, generated, copied or restored from an encrypted key file of another build; messages, signatures and keys are altered, swapped or extended on the way.'),
    'P01': dict(program='main', scenarios=[('pbuf', 1)], quick=12000, rule='Random trees of typed fields are measured and written by one build into buffers of random capacity, damaged or not on the wire (bit flips, truncation, extension, splices, lost and repeated ranges), and read field by field by another build under wrong tags, skips, too small buffers and failing allocations, against an independent reader; lists grow with failing allocations.'),
    'M03': dict(program='main', scenarios=[('net', 3), ('transport', 2), ('store', 1), ('pbuf', 2), ('obj', 3), ('tools', 1), ('edit', 1), ('sign', 1)], quick=9000, rule='Whatever the network, the disk or the application supplies: damaged and forged handshake and transport messages, damaged and foreign files, damaged encodings, buffers and lengths of every size for every kind of object, names without terminators, unknown identifiers; every buffer is a heap block of exactly the stated size in an address-sanitised build, and every run has a CPU limit.'),
    'M01': dict(program='main', scenarios=[('oom', 3), ('obj', 2), ('store', 2), ('pbuf', 1), ('transport', 1), ('edit', 1)], quick=10000, rule='In sessions, fallbacks, single objects, records and their edits, saves, loads and message decoding, arbitrary allocations (one, several, or all from some point on, including those of the cipher library) fail; the failing call must report it and leave no handle and no memory behind, its repetition with memory available must succeed, everything must still work, and nothing may be left allocated at the end.'),
    'M02': dict(program='main', scenarios=[('net', 2), ('transport', 1), ('fallback', 1), ('sign', 1), ('store', 1), ('oom', 2), ('obj', 1), ('rand', 1), ('edit', 1)], quick=9000, rule='Every block the library frees in sessions (completed, failed by bad messages, short of memory), fallbacks, signing, saving, loading and editing key records, single objects and random generators is searched for every secret known to the simulator: private keys, pre-shared keys, chaining and session keys, passphrase-derived keys and generator states, also in the forms hash functions keep them in; so are output buffers after failing calls.'),
    'R01': dict(program='main', scenarios=[('entropy', 1)], quick=5000, rule='Key generation of every algorithm, random generators, padding, handshake messages, saving of private keys and the key generation tools run while the random device cannot be opened, fails, ends early, is cut short or is interrupted at arbitrary calls; output is compared with a second run fed only the bytes that were delivered.'),
    'R02': dict(program='main', scenarios=[('rand', 1)], quick=9000, rule='Random generators of all builds serve arbitrary requests (0 bytes to several megabytes, long series of small ones, padding, reseeds) side by side; output windows are compared across all requests, entropy draws are counted, generator states are compared before and after requests, and outputs and generated keys are recomputed with the same and with slightly different entropy.'),
    'K01': dict(program='main', scenarios=[('tools', 1)], quick=6000, rule='The key tools generate keys (random identities in Unicode, algorithm lists, passphrases by option or prompt, bad arguments) onto a disk that fails opens, writes and closes, fills up or dies in the middle of a write, while allocations fail; whatever they report as success is read back by an independent reader. Files written by the tools or by a foreign encoder, damaged or not, are displayed under wrong passphrases, read errors and short reads, and the output is compared with what the bytes mean.'),
    'K02': dict(program='gen', scenarios=[('protoc', 1)], quick=16000, rule='Random definitions (nested and repeated messages, enumerations, every type and label, extreme field numbers) are written down in random ways (layout, comments, order of fields, ways to refer to types) or damaged (cut off at any byte, field numbers and names used twice, forbidden numbers, missing or stray characters, constructs that are not supported) and given to noise-protoc by all forms of its options, with and without a license file and older output files, while the disk fails to open, read, write or close, cuts reads short or fills up at any byte, the process dies in a write, and allocations fail.'),
    'K03': dict(program='gen', scenarios=[('gen', 1)], quick=16000, rule='The code that noise-protoc generates from 12 definitions (thorough: 60; the first has every type in every label, the others are random) is compiled and records of it are built, edited at random places, written into buffers that fit exactly or do not, read back from its own or from unusual but valid encodings with unknown fields, or from damaged ones, and freed, while allocations fail; a model that knows the definitions only follows. Misuse with missing objects is mixed in.'),
    'E01': dict(program='echo', scenarios=[('echo', 1)], quick=8000, states='distinct (state and place of every process, state of every connection) at scheduling points', rule=EC),
    'E02': dict(program='echo', scenarios=[('echo', 1)], quick=8000, states='distinct (state and place of every process, state of every connection) at scheduling points', rule=EC),
    'E03': dict(program='echo', scenarios=[('echo', 1)], quick=8000, states='distinct (state and place of every process, state of every connection) at scheduling points', rule=EC),
    'C01': dict(program='conc', scenarios=[('conc', 1)], quick=10000, states='distinct (number of switches, steps executed, operation kind, threads, scheduling regime)', rule='Two or three threads with objects of their own run random programs (hashing, key derivation, encryption, key exchange, signing, symmetric states, complete sessions, random generators, names, records, certificate and key files; in 70% of the runs the same operations with different data; in a quarter starting from an uninitialised library) under a scheduler that switches after random numbers of memory accesses, at a few random points, or at accesses to the global data of the library; every result of every thread is compared with its run alone.'),
}
