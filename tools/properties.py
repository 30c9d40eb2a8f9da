"""The properties, the single source of properties.jsonl and MANIFEST.json.

Each entry: id, title, statement, over, text, why, files, mechanism
[(name, where)], technique, note, level.
"""
P = []
K = 'python/src/keyczar/'


def prop(id, title, statement, over, text, why, files, mechanism, technique, note,
         level='exploration'):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text,
                  why=why, files=[f if '/' in f else K + f for f in files],
                  mechanism=mechanism, technique=technique, note=note, level=level))


STABLE = ('The tests that pass reliably exercise only the interop driver; the library tests '
          'sample a few fixed messages and keys.')

prop('C01', 'Decryption inverts encryption',
     'Decrypting what an encrypter (from the private or the exported public key set) produced '
     'returns exactly the original bytes, for AES keys of every supported size and RSA keys, for '
     'every message length and content, with the default, a custom or no encoder. A message that '
     'is too long for an RSA key is refused with a Keyczar error and never truncated.',
     'inputs histories', 'all messages, key sets, encoders and sequences of uses of one object',
     STABLE, ['keyczar.py', 'keys.py', 'util.py'],
     [('AES-CBC with PKCS5 padding', K + 'keys.py AesKey'),
      ('RSA-OAEP encoding and decoding', K + 'keys.py RsaPublicKey, RsaPrivateKey')],
     'property-based round trip, exhaustive message lengths',
     'Generated key sets, messages and call sequences; every length up to 130 bytes (quick).')

prop('C02', 'An altered ciphertext is never accepted',
     'If a ciphertext is changed in any way (bits, bytes, truncation, extension, splicing, the '
     'key identifier, the IV, the MAC, the padding), decrypting it raises a Keyczar error and '
     'never returns a plaintext. Data encrypted with a key that is not in the set is never '
     'decrypted.',
     'inputs', 'all ciphertexts and alterations of them; for RSA, alterations of the number',
     STABLE, ['keyczar.py', 'keys.py'],
     [('HMAC over header, IV and ciphertext', K + 'keys.py AesKey.Decrypt'),
      ('OAEP checks', K + 'keys.py RsaPrivateKey')],
     'mutation fuzzing, exhaustive single-bit and cut enumeration, forged inputs',
     'All single-bit flips and cuts of small ciphertexts, generated mutations and forgeries.')

prop('C03', 'Ciphertexts follow the published Keyczar format',
     'An AES ciphertext is version byte, 4-byte key hash, 16-byte IV, PKCS5-padded AES-CBC data '
     'and an HMAC-SHA1 over all of it; an RSA ciphertext is header plus the OAEP-SHA1 encryption '
     'padded to the modulus length. An independent implementation decrypts everything Keyczar '
     'writes, Keyczar decrypts everything such an implementation writes, and the stored data of '
     'earlier releases still decrypts.',
     'inputs', 'all keys, messages, IVs and OAEP seeds, in both directions',
     STABLE, ['keyczar.py', 'keys.py', 'util.py'],
     [('ciphertext layout', K + 'keys.py AesKey.Encrypt, RsaPublicKey.Encrypt')],
     'differential testing against an independent implementation, golden data',
     'The reference (lib/ref.py, pure-Python AES) is trusted.')

prop('C04', 'A genuine signature always verifies',
     'A signature made by the primary key of a key set (HMAC, DSA or RSA) verifies for the same '
     'message with the signer, a verifier on the same key set and a verifier on the exported '
     'public keys, for every message and with the default, a custom or no encoder, however often '
     'and in whatever order the objects are used.',
     'inputs histories', 'all messages, key sets, encoders and call orders',
     STABLE, ['keyczar.py', 'keys.py', 'util.py'],
     [('sign and verify', K + 'keyczar.py Signer, Verifier')],
     'property-based round trip over generated key sets and histories',
     'Generated messages, keys, randomness and call orders.')

prop('C05', 'A forged or altered signature never verifies',
     'Verification succeeds only for a signature that the named key made over exactly this '
     'message: any other message, or a signature that is altered, truncated, extended, out of '
     'range, wrongly padded, made by another key or carrying another key identifier is answered '
     'with False or a Keyczar error.',
     'inputs', 'all (message, signature) pairs that the key did not produce',
     STABLE, ['keyczar.py', 'keys.py', 'util.py'],
     [('HMAC comparison', K + 'keys.py HmacKey'),
      ('strict DER parsing and range checks of DSA signatures', K + 'util.py ParseDsaSig'),
      ('RSA length and range check, full padding comparison', K + 'keys.py RsaPublicKey.Verify')],
     'mutation fuzzing, exhaustive single-bit enumeration, crafted forgeries',
     'All single-bit flips of sample signatures, generated mutations, crafted RSA/DSA forgeries.')

prop('C06', 'Signatures follow the published Keyczar format',
     'A signature is the 5-byte header followed by HMAC-SHA1, DSA-SHA1 (DER r and s) or '
     'RSA PKCS#1 v1.5 SHA1 over the message and the version byte; an attached signature is '
     'header, length-prefixed message and the signature over message, length-prefixed nonce and '
     'version byte. Keyczar and an independent implementation accept each other\'s signatures, '
     'and signatures stored by earlier releases still verify.',
     'inputs', 'all keys, messages and nonces, in both directions',
     STABLE, ['keyczar.py', 'keys.py', 'util.py'],
     [('signature layout', K + 'keyczar.py Signer')],
     'differential testing against an independent implementation, golden data',
     'The reference (lib/ref.py) is trusted.')

prop('C07', 'Attached signatures return exactly the signed data, bound to the nonce',
     'Verifying an attached signature with the nonce used to sign returns exactly the signed '
     'data, for every data and nonce including empty ones. With a different nonce, altered data '
     'or an altered blob it returns None or raises a Keyczar error, and never returns data.',
     'inputs', 'all data, nonces and alterations of the blob',
     STABLE, ['keyczar.py', 'util.py'],
     [('attached signing', K + 'keyczar.py Signer.AttachedSign, Verifier.AttachedVerify'),
      ('length-prefixed packing', K + 'util.py')],
     'property-based round trip, mutation fuzzing, differential',
     'Pairs (data, nonce) whose signed byte strings coincide by the format are skipped.')

prop('C08', 'Unversioned signatures are plain and verify with any key of the set',
     'An unversioned signature is the bare HMAC-SHA1, DSA-SHA1 or RSA-SHA1 signature of the '
     'message alone, made with the primary key. It verifies if and only if some key of the '
     'verifying set, whatever its status and position, made it; altered ones are never accepted.',
     'inputs configurations', 'all key sets, statuses, messages and signatures',
     STABLE, ['keyczar.py', 'keys.py'],
     [('unversioned signing', K + 'keyczar.py UnversionedSigner, UnversionedVerifier')],
     'property-based testing against a reference, mutation fuzzing',
     'Generated key sets and signers; the reference is trusted.')

prop('C09', 'Outputs name their key, and the named key alone is used',
     'Every ciphertext and versioned signature starts with version byte 0 and the 4-byte hash of '
     'the key that made it; this hash is the same for a private key, its public key, any encoding '
     'of its numbers and after the key was stored and read back. Input naming an unknown key '
     'raises the key-not-found error and input with another version byte the bad-version error.',
     'inputs', 'all keys of all types, their encodings, and all headers',
     STABLE, ['keyczar.py', 'keys.py', 'util.py'],
     [('key hash', K + 'keys.py _Hash methods'),
      ('header parsing', K + 'keyczar.py _ParseHeader')],
     'differential testing against a reference hash, header enumeration',
     'Generated keys and headers; the reference hash is trusted.')

prop('C10', 'Key rotation keeps old data usable and uses the new primary',
     'Through every history of adding, promoting, demoting and revoking keys, new output is '
     'always made with the current primary key, and everything made with a key that is still in '
     'the set (whatever its status) still decrypts or verifies to the same data. Output of a '
     'revoked key is refused.',
     'histories', 'all histories of key management and use, also through storage and reloading',
     STABLE, ['keyczar.py', 'keydata.py'],
     [('status changes', K + 'keyczar.py GenericKeyczar')],
     'stateful model-based testing',
     'Generated histories against a model of versions, statuses and outputs.')

prop('C11', 'Key status changes follow the life-cycle rules',
     'Version numbers are unique and a new version gets one more than the highest in the set; '
     'there is at most one primary; promote moves inactive to active to primary (demoting the old '
     'primary to active) and demote the reverse; only inactive versions can be revoked. Every '
     'other request (unknown version, promoting a primary, demoting an inactive, revoking a '
     'non-inactive, unsupported size) raises a Keyczar error and leaves the set unchanged.',
     'histories', 'all sequences of add, promote, demote, revoke with any arguments',
     STABLE, ['keyczar.py', 'keydata.py', 'keyinfo.py'],
     [('life-cycle operations', K + 'keyczar.py GenericKeyczar')],
     'stateful model-based testing',
     'Generated sequences against a model.')

prop('C12', 'The command-line tool does to the stored key set what it says',
     'After every successful sequence of create, addkey, promote, demote, revoke and pubkey '
     'commands, the files hold exactly the key set described by the usage text: purpose, type, '
     'name, versions, statuses, sizes, encryption and one key file per version. Keys not '
     'concerned by a command keep their key material, files that are written again keep the '
     'permissions they were given, and a revoked key\'s file is gone.',
     'histories', 'all sequences of commands with any valid flags, in any flag order; of a flag given twice '
     'the last one counts',
     STABLE, ['keyczart.py', 'keyczar.py', 'writers.py', 'readers.py'],
     [('commands', K + 'keyczart.py main')],
     'stateful model-based testing on scratch directories',
     'Generated command histories against a model of the directory.')

prop('C13', 'A failing command changes nothing on disk',
     'When a command of the tool fails (missing or bad flag, unknown version, illegal status '
     'change, existing key set, unsupported size, wrong or missing crypter, no destination), it '
     'raises a Keyczar error or returns a failure or usage message, and every file of the key set '
     'and destination keeps its bytes.',
     'histories inputs', 'all failing commands in all reachable states',
     STABLE, ['keyczart.py', 'keyczar.py', 'writers.py'],
     [('validation before writing', K + 'keyczart.py')],
     'stateful testing with before/after snapshots',
     'Generated states and failing commands; whole directories are compared.')

prop('C14', 'A crash or I/O error during a command never loses keys',
     'If the tool is killed at any file operation, or an operation fails, while it creates a key '
     'set, adds, promotes, demotes or revokes a key or exports public keys, the stored key set '
     'afterwards can still be read and is either the one before or the one after the command, '
     'with every key it names, and the next command works. An I/O failure is reported as a '
     'Keyczar error, never as success of a command that did not take effect.',
     'crash_points fault_sequences', 'every file operation of every command, crash or error',
     'No test injects a crash or an I/O error.', ['util.py', 'writers.py', 'keyczar.py', 'keyczart.py'],
     [('write to a temporary file, then rename', K + 'util.py WriteFile'),
      ('keys before metadata; metadata before removal', K + 'keyczar.py Write, keyczart.py Revoke')],
     'fault enumeration: the Nth file operation is a crash or fails',
     'Every operation index of each generated command; the C library calls are intercepted '
     '(LD_PRELOAD) in a forked child. Torn sectors and lost unsynced pages are not modelled.',
     'fault_enumeration')

prop('C15', 'A stored key set reads back unchanged',
     'Writing a key set and reading it back yields the same name, purpose, type, encryption flag, '
     'versions, statuses, exportable flags, sizes and key material, and writing it again yields '
     'the same contents; the JSON has the published fields, which other implementations read, and '
     'key sets other implementations wrote are read with the same meaning.',
     'inputs', 'all metadata and keys of all types',
     STABLE, ['keydata.py', 'keys.py', 'keyczar.py', 'writers.py', 'readers.py'],
     [('JSON forms', K + 'keydata.py, keys.py __str__ and Read')],
     'property-based round trip, differential against a reference parser',
     'Generated metadata and keys of all types; the reference parser is trusted.')

prop('C16', 'An encrypted key set never shows key material and needs its crypter',
     'A key set written with a crypter has only ciphertext in its key files, is marked as '
     'encrypted, and works exactly like the plain set when read with that crypter. Reading it '
     'without a crypter, with another one, or with altered files raises a Keyczar error.',
     'inputs histories', 'all key sets, crypters and alterations of the files',
     STABLE, ['writers.py', 'readers.py', 'keyczar.py', 'keyczart.py'],
     [('encryption on write', K + 'writers.py FileWriter.WriteKey'),
      ('encrypted reader', K + 'readers.py EncryptedReader, keyczar.py Keyczar')],
     'property-based testing with a search for secrets in the files',
     'Generated sets; files are searched for the key bytes in several encodings.')

prop('C17', 'A public key export holds the public keys only, and matches',
     'Exporting an asymmetric key set writes a set of the matching public type and the purpose '
     'encrypt or verify, with the same name, versions and statuses and the same public numbers, '
     'which encrypts or verifies for the private set. No private number appears in it, the '
     'private set is not changed, and sets with no public half refuse to export with a Keyczar '
     'error and write nothing.',
     'inputs', 'all key sets of all types and statuses',
     STABLE, ['keyczar.py', 'keys.py', 'keyczart.py'],
     [('export', K + 'keyczar.py GenericKeyczar.PublicKeyExport')],
     'property-based testing against a reference, search for secrets',
     'Generated sets; exported files are searched for every private number.')

prop('C18', 'A key set is only usable for its purpose',
     'An encrypter opens only sets with purpose encrypt or decrypt-and-encrypt, a crypter only '
     'decrypt-and-encrypt, a signer (also unversioned) only sign-and-verify, a verifier (also '
     'unversioned) only verify or sign-and-verify; every other combination raises a Keyczar error. '
     'This holds however the set is opened: reader object, location, encrypted reader.',
     'configurations', 'all purposes, key types, statuses, classes and ways of opening',
     STABLE, ['keyczar.py', 'keyinfo.py'],
     [('purpose check', K + 'keyczar.py IsAcceptablePurpose')],
     'exhaustive enumeration of the configuration matrix, generated sets',
     'The whole matrix of purposes, types and classes is enumerated.')

prop('C19', 'Without a primary key nothing is produced, but old data stays readable',
     'On a key set that has no primary version (empty, never promoted, or demoted), encrypting, '
     'opening an encrypting stream, signing, attached signing, unversioned signing and starting a '
     'session raise the no-primary-key error. Decrypting and verifying with the keys that are '
     'present still works.',
     'configurations histories', 'all key sets without a primary, and all operations',
     STABLE, ['keyczar.py'],
     [('primary lookup', K + 'keyczar.py _GetPrimaryKey')],
     'property-based testing over key sets and operations',
     'Generated sets with zero to four keys and no primary.')

prop('C20', 'Session encryption round-trips and needs the right session',
     'A session decrypter built from the session material with the matching crypter decrypts '
     'everything the session encrypter encrypted, for every message and any number of messages, '
     'and the material holds, encrypted, exactly the packed AES and HMAC keys of the session. '
     'Material or ciphertext of another session, an altered one, or another crypter raises a '
     'Keyczar error and never yields a plaintext. Sessions that another implementation started, '
     'with AES keys of any supported size, are read as well.',
     'inputs histories', 'all key sets, messages, and mixes of sessions',
     STABLE, ['keyczar.py', 'util.py'],
     [('session key handling', K + 'keyczar.py SessionEncrypter, SessionDecrypter')],
     'stateful property-based testing with several concurrent sessions',
     'Generated interleavings of sessions, reference packing of the material.')

prop('C21', 'Signed sessions authenticate and bind data to the session',
     'A signed session decrypter with the matching crypter, verifier and session material returns '
     'the original message for everything the signed session encrypter produced, whatever the '
     'message (also empty). Data that is altered, signed by another signer, or from another '
     'session gives None or a Keyczar error, never a plaintext. Sessions that another implementation '
     'started, with AES keys of any supported size and nonces of any length, are read as well.',
     'inputs histories', 'all key sets, messages, and mixes of sessions and signers',
     STABLE, ['keyczar.py', 'util.py'],
     [('nonce-bound attached signatures', K + 'keyczar.py SignedSessionEncrypter')],
     'stateful property-based testing with several sessions, mutation fuzzing',
     'Generated interleavings and mutations; reference parsing of the material.')

prop('C22', 'Streaming and one-shot encryption are interchangeable',
     'For every message, every way of splitting it into writes and reads, every buffer size, and '
     'sources that have no data for a while, what the encrypting stream wrote decrypts in one '
     'shot, a one-shot ciphertext decrypts through the decrypting stream, and stream to stream '
     'gives back the exact message. Reads never return more characters than asked for and report '
     'the end only at the end.',
     'inputs schedules', 'all messages, chunkings, read sizes, buffer sizes and pauses',
     STABLE, ['keys.py', 'keyczar.py', 'util.py'],
     [('streams', K + 'keys.py EncryptingStreamWriter, DecryptingStreamReader')],
     'property-based testing over chunk schedules',
     'Generated chunk schedules including pauses; the reference also decrypts the stream.')

prop('C23', 'A corrupted or truncated stream is always reported',
     'Reading an encrypted stream that was altered, truncated at any point, extended, or made with '
     'another key to its end raises a Keyczar error, however it is chunked and read; a reader '
     'never reports a normal end for it. What was returned before the error is a prefix of the '
     'message if the altered part comes after it.',
     'inputs schedules', 'all alterations and cut points of a stream, all chunkings',
     STABLE, ['keys.py', 'util.py'],
     [('MAC check at the end', K + 'keys.py DecryptingStreamReader')],
     'mutation fuzzing over chunk schedules, exhaustive cuts and bit flips',
     'Every cut and bit flip of sample streams, generated mutations and schedules.')

prop('C24', 'Web-safe Base64 coding is exact',
     'Encoding gives the URL-safe Base64 text without padding, and decoding inverts it for every '
     'byte string, ignoring spaces and line breaks anywhere. Text whose length without them is '
     'one more than a multiple of four raises the Base64 decoding error.',
     'inputs', 'all byte strings, and all texts over the alphabet with whitespace',
     STABLE, ['util.py'], [('codec', K + 'util.py Base64WSEncode, Base64WSDecode')],
     'property-based testing against a bit-level reference',
     'Generated strings and exhaustive short ones.')

prop('C25', 'Streaming Base64 equals one-shot Base64',
     'Writing a byte string to the Base64 stream writer in any pieces and flushing at the end '
     'gives the one-shot encoding; reading the encoding from any source (also one that has no '
     'data for a while) in any read sizes gives back exactly the byte string, and never more '
     'characters than asked for. The incremental coders give the same for any split.',
     'inputs schedules', 'all byte strings, chunkings, read sizes and pauses',
     STABLE, ['util.py'],
     [('stream coders', K + 'util.py IncrementalBase64WSStreamWriter/Reader')],
     'property-based testing over chunk schedules',
     'Generated strings and schedules; exhaustive splits of short strings.')

prop('C26', 'Byte-string primitives meet their definitions',
     'The shared helpers equal their definitions for every argument: integer and bit-string '
     'conversions (big-endian, minimal or 4 bytes), XOR, leading-zero trimming and padding, SHA-1 '
     'and length-prefixed SHA-1 of several parts, the MGF1 mask, the PKCS#1 v1.5 SHA-1 block, and '
     'packing of byte arrays with 4-byte lengths, which unpacking inverts. A wrong length or a '
     'packing cut inside an array is refused with a Keyczar error.',
     'inputs', 'all arguments of the documented types',
     STABLE, ['util.py'], [('helpers', K + 'util.py')],
     'differential testing against definitions',
     'Generated arguments against int, hashlib and struct.')

prop('C27', 'Key export in PKCS#8 and X.509 form is standard and round-trips',
     'Exporting RSA and DSA keys as PKCS#8 or X.509 gives the standard DER, which other tools '
     'parse to the same numbers, and parsing gives back exactly the exported numbers; the DER '
     'coding of DSA signatures round-trips. Other algorithms, versions, field counts and malformed '
     'structures or signatures are refused with a Keyczar error.',
     'inputs', 'all key parameters and signatures, in both directions',
     STABLE, ['util.py'], [('ASN.1 coding', K + 'util.py')],
     'differential testing against an independent DER coder',
     'Generated numbers and keys; the reference DER coder is trusted.')

prop('C28', 'Every secret is fresh and full-strength',
     'Each encryption uses a new random IV or seed, each key, session and nonce is newly drawn, '
     'and each DSA signature a new secret number, all over their whole range and from the '
     'operating system\'s secure random source, so outputs never repeat and do not depend on the '
     'seed of an ordinary random generator, on time or on earlier outputs.',
     'histories', 'all sequences of operations, in one and in several objects',
     STABLE, ['keys.py', 'keyczar.py', 'util.py'],
     [('random bytes', K + 'util.py RandBytes')],
     'statistical and metamorphic testing with a controlled random source',
     'Collisions, stuck bits, dependence on the ordinary generator, entropy consumed.')

prop('C29', 'The choice of crypto library does not change results',
     'With either supported AES library active, encryption (one-shot and streaming) produces the '
     'same bytes for the same key, IV and message, and each decrypts what the other produced; the '
     'same alterations are refused.',
     'configurations inputs', 'both libraries, all key sizes, messages and chunkings',
     STABLE, ['keys.py'], [('cipher adaptors', K + 'keys.py AESAdaptor, EVPAdaptor')],
     'differential testing between the two libraries',
     'PyCrypto\'s AES does not run on this Python, so a stand-in with its API is used.')

prop('C30', 'Arbitrary input never breaks decryption or verification',
     'Whatever bytes or text are given as ciphertext, signature, signed blob, session material or '
     'AES-encrypted stream that is not authentic, the result is a Keyczar error, False or None - '
     'never another exception, a hang, or a change of the object, which still works afterwards.',
     'inputs', 'all inputs, to all key types and operations',
     STABLE, ['keyczar.py', 'keys.py', 'util.py'],
     [('validation', K + 'keyczar.py, keys.py, util.py')],
     'fuzzing with structured generators',
     'Generated inputs near every format, under a CPU limit per case.')

prop('C31', 'Generated keys have the requested type and size and are valid',
     'A generated key has exactly the requested type and size (the default when none is given), '
     'its numbers form a valid key (RSA primes, exponents and CRT values; DSA group and key '
     'pair), it works at once, and its identifier differs from those of the other keys in the '
     'set. Sizes and types that are not supported are refused with a Keyczar error.',
     'inputs histories', 'all key types and sizes, repeated generation',
     STABLE, ['keys.py', 'keyinfo.py', 'keyczar.py'],
     [('generation', K + 'keys.py Generate methods, GenKey')],
     'property-based testing with number-theoretic oracles',
     'RSA-4096 generation is sampled in the thorough tier only.')

prop('C32', 'Readers and writers can be plugged in and are chosen by location',
     'A location is opened with the first reader or writer that accepts it, including those in '
     'plug-in directories named by the environment; every class opens key sets through this '
     'choice. A location nobody accepts raises a Keyczar error, and an in-memory key works like a '
     'stored one.',
     'configurations', 'all sets of plug-ins, locations and classes',
     STABLE, ['readers.py', 'writers.py', 'util.py', 'keyczar.py'],
     [('factories', K + 'readers.py CreateReader, writers.py CreateWriter')],
     'property-based testing with generated plug-ins in child processes',
     'Generated plug-in directories and locations.')

prop('C33', 'The interop driver runs every configured combination exactly once',
     'For every configuration, the tests the interop driver sets up (and lists) are exactly the '
     'cross product of implementations, operations, matching key sets, sizes and options, with '
     'public key variants for asymmetric keys, minus the combinations that match an ignore rule; '
     'each carries exactly the parameters in its name. The options '
     'it shows are those that the combinations use.',
     'configurations', 'all configurations of algorithms, operations, options and ignore rules',
     'The unit tests sample a few small configurations.', ['interop/interop.py'],
     [('matrix generation', 'interop/interop.py InteropTestRunner')],
     'differential testing of generated configurations against a reference enumeration',
     'Generated configurations; the reference enumeration is trusted.')

prop('C34', 'The interop driver creates every key set it will use',
     'For every configuration, key creation calls each implementation with the documented '
     'create, addkey and pubkey commands for every algorithm and size (two keys, all primary; '
     'plus one encrypted set each) in fresh directories named after algorithm and size; a '
     'directory that exists is emptied of files, and nothing outside is touched.',
     'configurations', 'all configurations and prior directory contents',
     'The unit tests check a few calls with mocks.', ['interop/interop.py'],
     [('key creation', 'interop/interop.py CreateKeys')],
     'property-based testing with recording stand-in implementations',
     'Generated configurations and directory contents in a scratch directory.')

prop('C35', 'An interop test passes exactly when the implementation accepts the data',
     'Each interop test hands the tested implementation exactly the data the generating '
     'implementation produced, with the same operation, algorithm, key path and options; it fails '
     'if and only if that implementation exits with an error. The flags of the driver select '
     'creation and verbosity, and bad flags give the usage text and a failure status without '
     'running anything.',
     'configurations inputs', 'all configurations, outputs and exit behaviours',
     'The unit tests check a few calls with mocks.', ['interop/interop.py'],
     [('generate and test calls', 'interop/interop.py SetupInteropTests, _Test, main')],
     'property-based testing with scripted stand-in implementations',
     'Generated configurations run end to end with scripted implementations.')

prop('C36', 'An inconsistent key set is refused',
     'Opening a key set with two primary versions, the same version number twice, an '
     'unknown purpose, type or status, an unknown or unsupported cipher mode, a missing key file or missing metadata raises a Keyczar error, with every class and '
     'way of opening. A set is never silently opened with fewer keys than it names.',
     'inputs configurations', 'all key sets with one such defect',
     STABLE, ['keyczar.py', 'keydata.py', 'keyinfo.py', 'readers.py'],
     [('checks on opening', K + 'keyczar.py Keyczar, keyinfo.py')],
     'property-based testing with generated defects',
     'Generated sets with one injected defect each.')

prop('C37', 'genkey rebuilds the reference key sets and touches nothing else',
     'Run on a location with the directories of the reference sets, whatever plain files they '
     'held before, genkey leaves in each of them exactly the metadata, two new keys of default '
     'size (1 active, 2 primary) and for each key the sample text encrypted or signed by it, the '
     'aes-crypted set encrypted with the aes set, and exports the public keys of dsa and '
     'rsa-sign. Subdirectories, targets of links and everything beside keep their bytes; a '
     'missing location or set directory is a Keyczar error.',
     'inputs configurations', 'all prior contents of the location',
     STABLE, ['keyczart.py'],
     [('genkey', K + 'keyczart.py GenKeySet, Clean, UseKey')],
     'property-based testing with generated directory contents',
     'Generated prior contents; RSA and DSA primes come from a pool.')

prop('C38', 'Objects do not influence one another, even in concurrent threads',
     'For any number of crypters, signers, verifiers, sessions and streams in one process, also '
     'several on one key set, every interleaving of their operations gives each operation the '
     'result it gives alone, in sequence and in concurrent threads; a crypter, signer or verifier '
     'may itself be shared by threads. Failing operations disturb nothing, and changing an opened '
     'key set (add, promote, demote, revoke) does not change other objects opened on it.',
     'histories schedules', 'all interleavings of operations and switch points of threads',
     STABLE, ['keyczar.py', 'keys.py', 'util.py', 'keydata.py'],
     [('per-call and per-stream state', K + 'keys.py, keyczar.py, util.py')],
     'stateful property-based testing with a generated line-level thread scheduler',
     'Threads are switched at lines of the library, one running at a time.')
