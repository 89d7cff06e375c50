#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
P=[]
HS='src/protocol/handshakestate.c'; SY='src/protocol/symmetricstate.c'; CI='src/protocol/cipherstate.c'
DH='src/protocol/dhstate.c'; IN='src/protocol/internal.c'; PA='src/protocol/patterns.c'; UT='src/protocol/util.c'
RO='src/protocol/rand_os.c'; RN='src/protocol/randstate.c'; LO='src/keys/loader.c'; CE='src/keys/certificate.c'
PB='src/protobufs/protobufs.c'; SS='src/protocol/signstate.c'
EC='examples/echo/echo-server/echo-common.c'; ES='examples/echo/echo-server/echo-server.c'; EL='examples/echo/echo-client/echo-client.c'
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if observe: a['observe_at']=observe
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    a['hook_needed']=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier={'over':over,'text':text},why_tests_cant=why,anchors=a))

p('H01','Completed handshakes agree on everything',
 'Whenever two parties complete a handshake with each other, they hold the same handshake hash, matching transport keys (what one sends the other can decrypt, in both directions), the other party\'s true static public key wherever the pattern carries or presupposes one, and each has received exactly the payloads the other wrote. If the network delivers every message intact and both sides were configured consistently, the handshake does complete. If they disagree on the protocol, prologue, pre-shared key or a presupposed static key, they never reach a session in which both sides\' keys and hashes match.',
 ['inputs','histories','configurations'],
 'every supported protocol name, key material, prologue, pre-shared key, payload size sequence, build configuration on either side, and any number of concurrent or repeated sessions between the same parties',
 'The unit tests and vectors run each pattern once, in lock step, inside one process and one build with fixed keys; they do not mix builds, vary payload sizes, entropy, prologue and key disagreements, or run many sessions between the same parties.',
 [HS,SY,PA,CI,DH],[('token interpreter for writing and reading','noise_handshakestate_write / noise_handshakestate_read in '+HS),('pre-message and prologue mixing','noise_handshakestate_start in '+HS),('key derivation and split','noise_symmetricstate_mix_key / _split in '+SY)],
 ['handshake hash getter','remote public key getter','payload buffers returned by read','ciphers returned by split'])
p('H02','Tampered, truncated or replayed handshake messages are never accepted',
 'If a handshake message that a party reads was altered, truncated, extended, replayed from another session, reflected or delivered out of order by the network, then that party never shares a session (matching handshake hash and keys) with anyone, and any part of a message that the pattern authenticates at that point (an encrypted static key or an encrypted payload) is rejected by the receiving read itself. A rejected message returns an error, hands out no payload, and permanently fails that handshake: it cannot be continued or split (other than by falling back to another pattern). An ephemeral or hybrid public key that is null, or any public key that key agreement refuses, ends the handshake as well.',
 ['inputs','histories','fault_sequences'],
 'every supported pattern, message index, byte position and kind of in-flight modification, and every replay or cross-session splice of recorded messages',
 'Tests corrupt at most a couple of fixed bytes in fixed handshakes; the property is about every byte of every message, every message order and every splice of concurrent sessions.',
 [HS,SY,CI],[('MAC verification inside read','noise_symmetricstate_decrypt_and_hash in '+SY),('terminal failure state','noise_handshakestate_read_message in '+HS)],
 ['return code of read','action getter after an error','handshake hash getter','split'])
p('H03','Handshake calls are only honoured in the right order',
 'At every point of a handshake exactly one kind of step is legal, the object reports which, and every other step (writing when a read is due, splitting early, starting twice, changing the prologue or pre-shared key after the start, using a finished or failed handshake) is refused with an error and without changing the course of the handshake. A handshake that lacks required key material does not start, and says which material is missing.',
 ['programs','histories','configurations'],
 'every sequence of API calls on a handshake, for every supported pattern and role, with any subset of key material supplied',
 'The unit tests try a handful of misordered calls on a few patterns; the guarantee covers every call sequence, including misuse interleaved with a handshake that must then still complete.',
 [HS],[('action field checked by each entry point',HS),('requirement flags derived from the pattern','noise_handshakestate_requirements in '+HS)],
 ['return codes','action getter','later success of the same handshake'])
p('H04','Falling back from an abbreviated handshake keeps both sides consistent',
 'When the responder cannot process the first message of an abbreviated handshake because it was aimed at an outdated static key, both sides can fall back to the full fallback handshake, in which the first message\'s ephemeral key is reused, and then complete it in agreement exactly as a handshake started afresh would. Falling back is refused for patterns and states where it is not defined, and the abandoned handshake\'s keys play no part in the new session.',
 ['histories','configurations','fault_sequences'],
 'every pattern that permits fallback, hybrid and pre-shared-key variants, stale or corrupted first messages, and network faults during the fallback exchange',
 'Fallback vectors cover a fixed list of names with a clean network; stale keys combined with corruption, role swapping, API misuse around the fallback point and cross-build pairs are not reached.',
 [HS,PA],[('fallback restart','noise_handshakestate_fallback_to in '+HS),('fallback pre-messages','noise_handshakestate_start in '+HS)],
 ['return codes','protocol id getter','handshake hash, transport messages'])
p('H05','Independently built parties produce the bytes the protocol specifies',
 'For the same entropy, keys and inputs, every build configuration produces byte-for-byte the same handshake and transport messages as an independent implementation of the protocol specification, and any mix of builds and that independent implementation can complete handshakes and exchange data with each other.',
 ['configurations','inputs','histories'],
 'every supported protocol name, each of the three build configurations and the independent implementation on either end, all payload sizes, sequences of transport messages, forward nonce jumps and nonces beyond 32 bits',
 'Test vectors pin a few messages with short payloads and small nonces per name in one build at a time; agreement for large nonces, long or empty payloads, block-boundary sizes and mixed builds is not exercised.',
 [HS,SY,CI,'src/backend/ref','src/backend/sodium','src/backend/openssl'],[('backend selection','src/protocol/internal.h and the *_new_by_id functions'),('nonce encoding per cipher','src/backend/*/cipher-*.c')],
 ['bytes on the simulated wire'])
p('T01','Transport delivers authentic messages in order, exactly once',
 'After a handshake, whatever the network drops, duplicates, reorders, truncates, corrupts, reflects or replays from other sessions, a receiver accepts a message only if it is byte-for-byte the next one its peer sent in that direction of that session (or, when the application sets the receive nonce, the one sent under that nonce with that associated data), and it returns exactly the plaintext that was sent. Once messages are delivered intact and in order again, they are accepted.',
 ['inputs','histories','fault_sequences'],
 'every interleaving of sends and deliveries across concurrent sessions under message loss, duplication, reordering, corruption, truncation, extension, reflection and replay, for every cipher and build',
 'The tests decrypt a few correct messages and a few corrupted ones; they never run many messages of two directions and several sessions through a hostile network.',
 [CI,SY,'src/backend/ref/cipher-aesgcm.c','src/backend/ref/cipher-chachapoly.c','src/backend/sodium','src/backend/openssl'],[('MAC check and nonce counter','noise_cipherstate_decrypt_with_ad in '+CI),('directional keys','noise_handshakestate_split in '+HS)],
 ['return code and buffer of each decrypt'])
p('T02','No nonce is ever used twice, up to and including exhaustion',
 'Under one key, each successful encryption uses a nonce strictly greater than every earlier one, whatever mix of successes, failures and forward nonce jumps preceded it; the nonce can be moved forward but never backward. When the last permitted nonce has been used, every further encryption and decryption fails instead of wrapping, and the final reserved nonce value is never used.',
 ['histories','inputs','fault_sequences'],
 'every sequence of encryptions, decryptions, failing calls and nonce jumps over the whole 64-bit range, for every cipher and build',
 'Tests use the first few nonces and one exhaustion case; sequences mixing failures, jumps across 32-bit boundaries and exhaustion on live sessions are not explored.',
 [CI],[('monotone counter with exhaustion test','noise_cipherstate_encrypt_with_ad / _decrypt_with_ad / _set_nonce in '+CI)],
 ['ciphertexts, decrypted by the model under the nonce the model expects'])
p('T03','A failed decryption is harmless',
 'A message that fails authentication, is too short or too long, or is refused for any other reason leaves the receiver exactly as it was, so the next genuine message is still accepted; the error is reported, and no part of the unauthenticated plaintext is left in the caller\'s buffer. A failing encryption is reported too; it may skip one nonce, but no nonce is reused and the session stays usable.',
 ['inputs','histories','fault_sequences'],
 'every kind of bad message at every point of a session, for every cipher and build, including allocation failures inside the cipher',
 'Tests check return codes for a few bad messages, not the residue left in the buffer nor the continued usability of the session in all builds.',
 [CI,'src/backend/openssl/cipher-aesgcm.c','src/backend/ref/cipher-aesgcm.c','src/backend/sodium/cipher-chachapoly.c'],[('MAC verified before decrypting, counter advanced only on success',CI)],
 ['buffer contents after an error','later traffic'])
p('M01','Running out of memory is reported and does no harm',
 'If any allocation fails at any point, the operation in progress returns an error (never success with missing or truncated results), nothing is leaked or freed twice, output object pointers are not left pointing at freed memory, the process neither crashes nor hangs, and objects that already existed can still be used or freed; repeating the operation with memory available succeeds.',
 ['fault_sequences','inputs','programs'],
 'every allocation site reached by creating, running, splitting and freeing protocol objects and by loading, saving and parsing keys and certificates, failing once or persistently',
 'No existing test makes an allocation fail.',
 [HS,CI,DH,'src/protocol/hashstate.c',SY,UT,LO,CE,PB],[('constructor error paths','*_new* functions in src/protocol and src/backend'),('generated parser error handling','src/keys/certificate.c')],
 ['return codes','simulated heap','subsequent retry'],hook='none: allocator calls are interposed at link time')
p('M02','Released memory holds no secrets',
 'When protocol objects, key files or private-key records are freed or an operation fails, memory handed back to the allocator contains no private key, pre-shared key, chaining key, session key, passphrase-derived key or random-generator key, and caller-supplied output buffers for secrets hold none after a failing call. A Curve25519, Curve448 or Ed25519 key object no longer holds a private key that was replaced, cleared or superseded by a public key. This holds on error paths (bad message, failed allocation, failed I/O) as well as on success.',
 ['fault_sequences','histories','inputs'],
 'every object lifetime and every error path, for every protocol name and build',
 'Freed memory is not observable to the tests, and the error paths involved are never taken by them.',
 [UT,HS,SY,CI,DH,SS,RO,LO,CE,PB],[('wiping free','noise_free and noise_clean in '+UT),('per-object destroy functions','src/backend')],
 ['contents of blocks at the moment they are freed','output buffers after errors'],hook='none: allocator calls are interposed at link time')
p('M03','Hostile bytes and odd sizes never corrupt memory, crash or hang',
 'Whatever bytes and lengths a peer or a stored file supplies, and whatever sizes of buffers the caller supplies, the library reads and writes only inside the buffers it was given, terminates, and reports an error rather than crashing; it writes no more than a buffer\'s stated capacity and reports sizes within it.',
 ['inputs','histories','fault_sequences'],
 'every handshake and transport message and every stored key or certificate file, truncated, extended or altered anywhere, with caller buffers of any capacity from zero up',
 'Tests use ample buffers and well-formed or lightly damaged input without memory checking.',
 [HS,CI,SY,PB,LO,CE],[('size checks before copying','noise_handshakestate_read/_write, decrypt_with_ad, protobuf readers')],
 ['AddressSanitizer','guard bytes around exactly-sized buffers','watchdog'])
p('R01','A failing entropy source never yields a predictable key',
 'If the operating system\'s random source fails, is missing, returns fewer bytes than asked or is interrupted, then no key, nonce salt or random output is produced from anything but bytes the source actually delivered: the operation either retries until it has full entropy or stops without producing output.',
 ['fault_sequences','histories'],
 'every fault or sequence of faults of the system random source at every point where the library asks it for bytes, in the builds that read it directly',
 'No existing test makes the random source fail or return short.',
 [RO,RN,DH,LO],[('loop until the seed is complete, abort otherwise','noise_rand_bytes in '+RO),('seeding of the generator','noise_randstate_reseed in '+RN)],
 ['generated public keys, salts and random output against delivered entropy'],hook='none: open/read/getrandom are interposed at link time')
p('R02','Random output is always fresh',
 'Random output, random padding and generated keys never repeat across requests or generator instances, depend on entropy delivered to that instance, and fill exactly the requested bytes (padding leaves the payload intact). The generator takes new system entropy before more than about 1.6 million bytes have been produced, and after each request the state it keeps no longer contains the key that produced the output.',
 ['histories','inputs','fault_sequences'],
 'every sequence of generate, pad, reseed, create and free calls of any size, with interruptions of the system source',
 'The tests check a few requests for not being equal; the reseed bound, the absence of rollback state and padding over all sizes are not looked at.',
 [RN,RO],[('rekeying after each request and reseed counter',RN)],
 ['returned bytes','simulated entropy log','heap state of the generator'])
p('S01','A successful save is complete on disk and loads back identically',
 'If saving a private key, certificate or certificate chain reports success, the complete encoding has been accepted by the operating system and loading it returns the identical record; if the disk fails, fills up or cannot be opened at any point, the save reports an error. Likewise a load that meets a read error reports it and never returns a record built from part of the file.',
 ['fault_sequences','inputs','crash_points'],
 'every record, every disk fault (open failure, short write, full disk, I/O error at write, flush or close, short read, read error) at any operation',
 'Existing tests never load or save files and never inject I/O errors.',
 [LO,CE,PB],[('stdio based load and save','noise_load_file / noise_save_to_file in '+LO)],
 ['return codes','bytes the simulated disk accepted'],hook='none: fopen is interposed at link time')
p('S02','A damaged stored file is rejected or read exactly as its bytes say',
 'Loading a certificate, certificate chain or key file whose bytes were torn, truncated, bit-flipped or extended either reports an error or returns exactly the fields the surviving bytes encode according to the published message format; it never returns fields that are not in the file, never loses fields that are, and well-formed files, including those with unknown fields and any valid UTF-8 text, are accepted.',
 ['crash_points','inputs','fault_sequences'],
 'every stored file after any torn write, truncation, bit flip, insertion or splice of other records',
 'There are no tests of the parsers with real files at all, and none with damaged ones.',
 [PB,CE,LO],[('backwards writer and bounded reader',PB),('generated readers',CE)],
 ['loaded records compared with an independent parser'])
p('S03','Encrypted private keys open only with the right passphrase and intact',
 'A private key saved under a passphrase can be loaded with that passphrase and yields the same key; with any other passphrase, or if any byte of its protected contents, salt, algorithm or iteration count was changed on disk, loading fails and yields nothing. The stored bytes never contain the private key in clear, every save uses a fresh salt, and saving always terminates.',
 ['inputs','fault_sequences','crash_points'],
 'every key record, passphrase, protection algorithm, disk corruption and allocation or entropy fault during save or load',
 'Nothing in the test suite exercises encrypted private key files.',
 [LO],[('PBKDF2 key derivation and AEAD','noise_load_private_key_from_buffer / noise_save_private_key_to_buffer in '+LO)],
 ['bytes on the simulated disk','load results'])
p('S04','Edited records stay exactly as edited',
 'A certificate, certificate chain, private key or encrypted key record in memory holds exactly the fields that were set, added, inserted (at the position asked for, later elements moving up) and not cleared since, at every level of the tree and in every build; the accessors agree with it, writing it produces exactly its encoding and reading that back in any build produces an equal record that can be edited further. An edit that fails for lack of memory reports it, changes no other field, leaves a single-element field either as it was or absent, and loses or duplicates no list element.',
 ['inputs','fault_sequences'],
 'every sequence of edits on any record, interleaved with writes, reads and allocation failures',
 'The test suite does not touch the record accessors.',
 [CE,PB],[('generated accessors',CE),('growing arrays','noise_protobuf_add_to_array / noise_protobuf_insert_into_array in '+PB)],
 ['accessor results','written bytes','live heap blocks'])
p('V01','Signatures verify everywhere for exactly what was signed',
 'A signature made by any build verifies in every build under the signer\'s public key for exactly the signed message; if the message, signature or public key was altered in transit, or another signer made it, verification fails. Signing keys restored from a saved private key produce signatures under the same public key.',
 ['inputs','configurations','fault_sequences'],
 'every message length, key and build pair, and every alteration of message, signature or key on the network',
 'The tests check a few fixed vectors in one build and a single corrupted byte.',
 [SS,'src/backend/ref/sign-ed25519.c','src/backend/sodium/sign-ed25519.c'],[('verify','noise_signstate_verify in '+SS)],
 ['return code of verify'])
p('P01','Message encoding round-trips in every build',
 'Whatever sequence of typed fields and nested elements is written through the message-encoding API (any value, any tag, any size) is read back identical by every build; the bytes are exactly the published wire format, the measured size is the written size, and a buffer that is too small makes that write and every later one on the message fail. Reading a damaged message, asking for the wrong field or supplying a buffer that is too small either reports an error, which stays in force until the message is finished, or yields exactly the values its bytes say; lists keep exactly the entries added to them, even when growing fails.',
 ['inputs','fault_sequences','configurations'],
 'every tree of typed fields, every buffer capacity, every damage to the bytes in transit and every failing allocation, with any build writing and any build reading',
 'The tests write and read a few fixed values per type; nested random messages, damaged ones, boundary capacities and failing allocations are not reached.',
 [PB],[('backwards writer with error latch','noise_protobuf_write_* in '+PB),('bounded reader with error latch','noise_protobuf_read_* in '+PB),('growing arrays','noise_protobuf_add_to_array / insert_into_array in '+PB)],
 ['return codes, values read, bytes written'])
p('C01','Concurrent sessions on different threads never affect each other',
 'Threads using separate protocol objects at the same time obtain exactly the results each would have obtained alone, for every interleaving of their execution.',
 ['schedules','programs'],
 'every interleaving of threads running handshakes, transport, hashing, key generation, signing and key-file operations on objects of their own',
 'All tests are single-threaded.',
 ['src/protocol','src/backend','src/crypto'],[('no mutable global state','all of src')],
 ['each thread\'s outputs compared with a solo run'],hook='none: compiler coverage callbacks provide the switch points')
p('E01','The echo application returns every message unchanged and in order',
 'For every protocol both sides support, whatever the segmentation, delay, short reads and writes or interrupted system calls of the network, an echo client that completes its handshake has each line it sends returned exactly and in order; when the link stays up and no faults occur, the handshake completes and every line is echoed.',
 ['schedules','inputs','fault_sequences'],
 'every scheduling of client, server and network segmentation, every supported protocol, padding choice and line length',
 'The example programs have no tests.',
 [EC,ES,EL],[('framing and partial I/O loops','echo_recv / echo_send in '+EC)],
 ['client output','server log'],hook='none: socket calls are interposed at link time')
p('E02','The echo server keeps serving whatever single clients do',
 'No behaviour of one client or its link (resetting, stalling, closing early, sending garbage, oversized frames, or vanishing between connecting and being accepted) and no transient failure of accepting, forking or reaping stops the server from accepting and serving later clients, and it never busy-loops while children are still running.',
 ['schedules','fault_sequences','histories'],
 'every sequence of client connections, aborts, garbage, child exits and transient system-call failures',
 'The example programs have no tests.',
 [ES,EC],[('accept loop, fork per connection, child reaping','echo_accept in '+EC)],
 ['service of a fresh client after faults stop'],hook='none: socket and process calls are interposed at link time')
p('E03','The echo server and client refuse strangers and tampering',
 'An echo endpoint configured with keys for its peer never delivers or echoes data for a peer that does not hold the corresponding private key or pre-shared key, and any change to the bytes in flight ends the connection without altered data being delivered.',
 ['inputs','fault_sequences','histories'],
 'every position and kind of modification of the byte stream and every mismatch of configured keys',
 'The example programs have no tests.',
 [EC,ES,EL],[('key loading and identification of the protocol',EC)],
 ['plaintext delivered at either end'],hook='none: socket calls are interposed at link time')
p('K01','Key tools tell the truth about what they wrote',
 'When a key generation tool exits with success, exactly the requested keys exist on disk, complete, loadable and with matching public and private halves; if anything went wrong on the way (disk full, write, flush or close error, bad arguments, missing memory) it exits with failure. The tools that display keys report the data that is in the file.',
 ['fault_sequences','inputs','crash_points'],
 'every tool invocation and every disk or memory fault at any operation',
 'The tools have no tests.',
 ['tools/keytool/generate.c','tools/keytool/show.c','tools/keytool/sign.c','examples/echo/echo-keygen/echo-keygen.c',LO],[('error paths and exit status','main functions of the tools')],
 ['exit status','simulated disk contents','standard output'],hook='none: stdio and exit are interposed at link time')

# --- not applicable to this technique -----------------------------------
p('K02','The message compiler turns a definition into its code completely or fails',
 'When noise-protoc exits with success, the definition it was given is valid, and the source and header files it names hold the complete code for the whole definition: the same code however the definition is laid out, commented, ordered within messages or refers to its types. A definition that is cut off, malformed, uses a field number or name twice, a forbidden field number or an unsupported construct is refused. Whenever anything goes wrong (bad definition, bad arguments, unreadable input, disk full, write or close error, missing memory) it exits with failure and leaves no incomplete output file behind.',
 ['inputs','fault_sequences','configurations'],
 'every definition in the supported part of the language, every way of writing it down, every damage to it, and every disk or memory fault at any operation',
 'The compiler has no tests of its own: the build runs it on a few fixed definitions with a healthy disk, and nothing looks at what it does with damaged definitions or failing writes.',
 ['tools/protoc'],[('scanner and parser','tools/protoc/proto3-lexer.l and proto3-grammar.y'),('name resolution, redeclaration checks','tools/protoc/proto3-ast.c'),('output and clean-up','tools/protoc/main.c')],
 ['exit status','simulated disk contents'],hook='none: stdio, malloc and exit are interposed at link time')
p('K03','Generated message code does what the definition says',
 'For every definition that noise-protoc accepts, the generated code compiles, and behaves as the definition says: every field can be set, added to, inserted into, read back, tested for presence and cleared, independently of all other fields; a record that is written has the standard encoding of exactly its fields, with their numbers, types and packing, in exactly as many bytes as it needs; reading it back, or any other valid encoding of it including unknown fields, gives the same record; malformed input is refused. When memory runs short, the call reports it, nothing is leaked, no record is handed out with elements missing, and the rest of the record is intact.',
 ['programs','inputs','histories','fault_sequences'],
 'every message definition in the supported subset, every sequence of edits, writes and reads of its records, and every allocation that can fail',
 'No test uses code generated from any definition but those of the library\'s own key files, which use only some of the field types and labels, and none lets an allocation fail.',
 ['tools/protoc','src/protobufs'],[('field code generators','tools/protoc/proto3-generate-c.c'),('runtime','src/protobufs/protobufs.c')],
 ['return codes and values of the generated functions','bytes written'],hook='none: malloc is interposed at link time')
p('N01','Primitive algorithms equal their published definitions',
 'Each hash, cipher, key exchange, signature and password-hashing primitive computes exactly the function its standard defines, for every input.',
 ['inputs'],'every input of every primitive','Vectors sample single inputs.',
 ['src/crypto','src/backend'],[('primitive implementations','src/crypto')])
p('N02','Algorithm and protocol names map one-to-one to identifiers',
 'Formatting an identifier and parsing the resulting name give back the same identifier, and every malformed name is rejected.',
 ['inputs'],'every string and identifier','Tests try the valid names and a few bad ones.',
 ['src/protocol/names.c'],[('name tables','src/protocol/names.c')])
p('N03','Secret data does not influence timing',
 'Operations on secret keys take time and memory accesses independent of the secret values.',
 ['inputs'],'every pair of secrets','Timing is not measured by tests.',
 ['src/crypto','src/protocol/util.c'],[('constant-time comparison and ladders','noise_is_equal in '+UT)])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+'\n')
print(len(P))
