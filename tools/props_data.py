# flake8: noqa  -- executed by tools/props.py
p('C01', 'TLV framing is lossless and never mis-declares its length',
  'Encoding any 16-bit type with any value of up to 65535 bytes yields exactly two type bytes, two length bytes equal to '
  'the number of value bytes, and the value, and decoding that returns the same type and value even when more bytes follow. '
  'A type or a value too large for its 16-bit field is refused, never wrapped or cut. '
  'Decoding a buffer that is shorter than its header or its declared length is refused with a parse error.',
  ['inputs'], 'every type, every value content, every value length including the 16-bit boundary, every truncation point',
  'Tests encode a few short TLVs; the 16-bit boundaries, arbitrary content and every truncation point are not reached.',
  ['ccnpy/core/Tlv.py', 'ccnpy/core/TlvType.py'],
  [('Tlv encode/decode', 'ccnpy/core/Tlv.py: Tlv._serialize, Tlv.deserialize, Tlv.flatten, Tlv.extend')],
  'bytes of a serialized TLV and the TLV obtained by parsing them',
  'types over all integers, values of 0..1025 bytes fully symbolic and up to 65536 bytes with symbolic edges, every truncation of '
  'buffers up to 40 bytes; longer fully symbolic values are outside the bounds')

p('C02', 'Integer TLV fields round-trip exactly or are refused',
  'Every number stored in an integer-valued field is read back from the wire as the same number. '
  'A number the field cannot represent (negative, or beyond its width) is refused when the field is built, never silently reduced to another number.',
  ['inputs'], 'every integer for the fixed-width and the variable-length integer fields, including all byte-width boundaries and out-of-range values',
  'Tests use a handful of small numbers; the width boundaries (2^8, 2^16, 2^24, 2^32, 2^64) and negative values are not sampled.',
  ['ccnpy/core/Tlv.py', 'ccnpy/flic/tlvs/TlvNumbers.py', 'ccnpy/flic/tlvs', 'ccnpy/core/TlvType.py'],
  [('number encoders', 'ccnpy/core/Tlv.py: number_to_array, uint8/16/64; ccnpy/core/TlvType.py: IntegerTlvType')],
  'value accessor of the parsed field',
  'all integers in -2^70..2^70 per field; wire values of 0..9 bytes')

p('C03', 'Every leaf field survives encode and decode with its meaning intact',
  'Parsing the encoding of any leaf field (timestamps, payloads and payload types, hash values, key ids, tags, nonces, salts, pads, '
  'suffix types, protocol flags, vendor fields, organisation fields) gives a field equal to the original, with the same content and the same encoding, '
  'and the length it reports is the length of its encoding. '
  'Parsing a field as a different kind is refused.',
  ['inputs'], 'every content within the size bound, for every kind of leaf field',
  'Tests round-trip one fixed sample of some kinds, with content that never hits empty values, leading zeros or boundary lengths.',
  ['ccnpy/core', 'ccnpy/flic/tlvs', 'ccnpy/core/TlvType.py'],
  [('leaf TLV base classes', 'ccnpy/core/TlvType.py: OctetTlvType, IntegerTlvType; ccnpy/core/HashTlvType.py'),
   ('pads and vendor fields', 'ccnpy/core/Pad.py, ccnpy/flic/tlvs/Vendor.py')],
  'accessors, equality and encoding of the parsed field',
  'contents of 0..40 bytes plus boundary lengths 255/256, all bytes symbolic')

p('C04', 'Names and links are exact, immutable sequences of components',
  'A name round-trips through its encoding as the same sequence of components, with every component type and byte preserved. '
  'Appending a component, a chunk number or a manifest number yields a longer name with that component last, decoding to the number given, and leaves the original name unchanged. '
  'A link round-trips with exactly the name, key restriction and digest restriction it was built with, absent parts staying absent.',
  ['inputs', 'histories'], 'every list of components, every component content and number, every subset of link parts',
  'Tests use a few ASCII names and small numbers; empty components, arbitrary bytes, prefix relations and large numbers are not tried.',
  ['ccnpy/core/Name.py', 'ccnpy/core/Link.py', 'ccnpy/core/HashValue.py'],
  [('name components', 'ccnpy/core/Name.py: Name, NameComponent'), ('links', 'ccnpy/core/Link.py')],
  'components, equality and encoding of names and links',
  'up to 4 components of up to 6 symbolic bytes, chunk/manifest numbers over all 64-bit integers, all subsets of link parts with 32-byte digests')

p('C05', 'Content objects round-trip every field exactly',
  'Parsing the encoding of any content object gives an equal object with the same name, expiry time, payload type, payload and last-chunk marker, absent fields staying absent. '
  'A body with a repeated or unknown field is refused.',
  ['inputs'], 'every subset of optional fields, every field content within bounds',
  'Tests build two or three fixed content objects; the subsets of optional fields and arbitrary contents are not covered.',
  ['ccnpy/core/ContentObject.py', 'ccnpy/core/ExpiryTime.py', 'ccnpy/core/FinalChunkId.py', 'ccnpy/core/Payload.py', 'ccnpy/core/PayloadType.py'],
  [('content object', 'ccnpy/core/ContentObject.py: __init__, parse, serialize')],
  'accessors of the parsed content object',
  'all 32 subsets of fields, names of up to 3 components, payloads of up to 16 symbolic bytes and the 255/256 boundary')

p('C06', 'Packets round-trip and their header describes them exactly',
  'The header of every packet states the true packet length, and parsing the packet bytes gives an equal packet with the same body, signature algorithm and signature payload. '
  'A buffer whose header has a wrong version, an impossible length, or a body that is truncated is refused. '
  'Saving a packet to a file and loading it again gives an equal packet.',
  ['inputs'], 'every combination of body, signature algorithm and payload; every header byte',
  'Tests check fixed packets; arbitrary header bytes, every truncation and the 65535 limit are not tried.',
  ['ccnpy/core/Packet.py', 'ccnpy/core/FixedHeader.py'],
  [('packet', 'ccnpy/core/Packet.py: Packet.deserialize, __init__, serialize'), ('fixed header', 'ccnpy/core/FixedHeader.py')],
  'packet accessors and bytes',
  'unsigned, CRC and RSA validation forms, payloads of up to 16 symbolic bytes, every 8-byte header, every truncation of sample packets with symbolic content')

p('C07', 'A packet hash covers exactly the body and its validation parts',
  'The hash of a packet is the SHA-256 of its encoding without the fixed header: the same whether the packet was just built or received, and independent of the header. '
  'Any change of body, signature algorithm or signature payload changes the hashed bytes.',
  ['inputs'], 'every packet within the bounds, every fixed header',
  'Tests compare a few constant digests; they do not quantify over contents, headers, or build-versus-receive.',
  ['ccnpy/core/Packet.py', 'ccnpy/core/HashValue.py'],
  [('hash computation', 'ccnpy/core/Packet.py: content_object_hash')],
  'hash value returned for a packet',
  'packets of C06; SHA-256 itself is an uninterpreted injective function in the encoding and real in the replay')

p('C08', 'Equality and hashing of protocol objects are consistent and type-aware',
  'Two objects of the same kind are equal exactly when they have the same encoding, and objects with different encodings are never equal. '
  'Equality is symmetric, equal objects have equal hashes, and comparing with anything else gives unequal rather than an error.',
  ['inputs'], 'every pair of objects over the kinds of the library with arbitrary contents',
  'Tests compare objects with a copy of themselves; pairs of different contents or kinds, and hashing, are not explored.',
  ['ccnpy/core', 'ccnpy/flic/tlvs', 'ccnpy/crypto'],
  [('equality', '__eq__ and __hash__ of the classes in ccnpy/core, ccnpy/flic/tlvs and ccnpy/crypto')],
  'results of == and hash()',
  '54 kinds in 3 shapes each with independent symbolic contents (fields of up to 3 octets, numbers over their range); each kind against one shape of every other kind; '
  'same encoding but different kinds is left unspecified')

p('C09', 'Manifest structures round-trip with every field in place',
  'Parsing the encoding of any manifest, node, node metadata, hash group, group metadata, pointer list, locator, name-constructor definition or schema, clear or encrypted, gives an equal structure: '
  'the same hashes in the same order and every optional field carried with its value, absent ones staying absent.',
  ['inputs'], 'every subset of optional fields and every hash content within bounds',
  'Tests round-trip a few fixed structures; subsets of optional fields, several groups, empty lists and boundary values are not covered.',
  ['ccnpy/flic/tlvs'],
  [('structures', 'ccnpy/flic/tlvs: Manifest, Node, NodeData, HashGroup, GroupData, Pointers, Locators, NcDef, NcSchema, SecurityCtx')],
  'accessors, equality and encoding of the parsed structures',
  'all subsets of optional fields, up to 3 hash groups of up to 3 hashes, symbolic hash and number contents')

p('C10', 'Decoders never mis-read hostile bytes',
  'Whatever bytes arrive, a decoder either raises an exception or returns an object whose known fields equal what those bytes say, reading only inside the bounds of the enclosing field. '
  'It always terminates, and an accepted object can be encoded and decoded again to an equal object.',
  ['inputs'], 'every byte string up to the bound, for every decoder',
  'Tests feed well-formed input and one or two malformed ones; arbitrary bytes are out of their reach.',
  ['ccnpy/core/Tlv.py', 'ccnpy/core/TlvType.py', 'ccnpy/core/Packet.py', 'ccnpy/flic/tlvs'],
  [('generic inner-TLV parser', 'ccnpy/core/TlvType.py: auto_parse, manual parse loops'), ('structure parsers', 'parse methods of ccnpy/core and ccnpy/flic/tlvs')],
  'returned object or exception',
  'every byte string of up to 8..14 bytes per decoder (value part of the outer field), all bytes symbolic')

p('C11', 'Walking a node yields every hash once, in order, with its name position',
  'Iterating a node yields every hash of every hash group exactly once, in group order and position order, each labelled with the name constructor of its group. '
  'When the group declares a start segment, the hash at position i is labelled with that start plus i, and otherwise it has no segment.',
  ['inputs'], 'every number and size of hash groups, every start segment and constructor id',
  'Tests iterate one or two fixed nodes.',
  ['ccnpy/flic/tlvs/Node.py', 'ccnpy/flic/tlvs/HashGroup.py', 'ccnpy/flic/tlvs/Pointers.py'],
  [('node iteration', 'ccnpy/flic/tlvs/Node.py: Node.Iterator / HashIterator')],
  'sequence of yielded values',
  'up to 4 groups of 0..4 hashes, symbolic ids, start segments and hashes')

p('C12', 'An encrypted manifest decrypts to exactly the original node',
  'Encrypting a node with a symmetric key and decrypting the resulting manifest with that key gives back an equal node, for every key size and with or without a salt. '
  'The key number in the manifest is the one configured.',
  ['inputs', 'configurations'], 'every node within bounds, key, key number and salt; AES-GCM and AES-CCM, 128 and 256 bit keys',
  'Tests encrypt a couple of fixed nodes; they do not quantify over node contents, salts and key numbers.',
  ['ccnpy/flic/aeadctx/AeadImpl.py', 'ccnpy/crypto/AeadKey.py', 'ccnpy/flic/ManifestEncryptor.py'],
  [('AEAD encrypt and decrypt', 'ccnpy/flic/aeadctx/AeadImpl.py; ccnpy/crypto/AeadKey.py')],
  'decrypted manifest',
  'ideal AEAD cipher (uninterpreted, injective) in the encoding; real AES in the replay; nodes of up to 2 groups with symbolic hashes')

p('C13', 'Tampered or mis-keyed ciphertext is never accepted',
  'Decrypting with another key, another salt, or after any change to the ciphertext, the tag, the nonce, the key number or any other byte of the security context fails and never yields a node. '
  'The security context is authenticated together with the ciphertext.',
  ['inputs', 'fault_sequences'], 'every single or multiple byte change of the encrypted manifest, every other key or salt',
  'Tests never tamper with a manifest.',
  ['ccnpy/flic/aeadctx/AeadImpl.py', 'ccnpy/crypto/AeadKey.py', 'ccnpy/flic/tlvs/AeadCtx.py'],
  [('authenticated data', 'ccnpy/flic/aeadctx/AeadImpl.py: _encrypt/_decrypt, AeadKey.decrypt')],
  'exception or node from decryption',
  'ideal AEAD cipher; all changes of ciphertext, tag (every length), nonce, mode and key number that leave it parseable')

p('C14', 'Nonces and salts form the initialisation vector as specified',
  'Every encryption uses a 96-bit initialisation vector: the configured 32-bit salt followed by an 8-byte nonce, or a 12-byte nonce when no salt is configured. '
  'The nonce is freshly drawn for every encryption and stored in the manifest; the salt of a preset key is never written to it.',
  ['inputs', 'histories'], 'every salt, every nonce, repeated encryptions under one key',
  'Tests only check that encryption followed by decryption works.',
  ['ccnpy/flic/aeadctx/AeadImpl.py', 'ccnpy/crypto/AeadKey.py', 'ccnpy/flic/tlvs/Nonce.py'],
  [('nonce and IV', 'ccnpy/flic/aeadctx/AeadImpl.py: _create_nonce, _iv_from_nonce; ccnpy/crypto/AeadKey.py: nonce')],
  'vector given to the cipher and nonce field of the manifest',
  'all 32-bit salts and nonces, up to 3 encryptions per key')

p('C15', 'Key transport wraps the content key and salt for the right recipient',
  'With RSA key transport the holder of the RSA private key recovers exactly the content key and salt and so the original node, while any other RSA key or a changed wrapped key, key number or key id fails. '
  'Once a wrapped key has been opened, later manifests carrying only its key number decrypt with the same key and salt.',
  ['inputs', 'histories'], 'every content key, salt, key number and node; sequences of manifests with and without the wrapped key',
  'Tests wrap one fixed key; multi-manifest histories, other salts and wrong recipients are not explored.',
  ['ccnpy/flic/RsaOaepCtx', 'ccnpy/crypto/RsaKey.py'],
  [('key wrap', 'ccnpy/flic/RsaOaepCtx/WrappedKey.py, RsaOaepImpl.py, RsaOaepWrapper.py')],
  'decrypted manifest, keystore content',
  'ideal RSA-OAEP and AEAD; 128/256-bit symbolic keys, symbolic 32-bit salts, sequences of up to 3 manifests')

p('C16', 'The decryptor used always matches the manifest and the keystore',
  'A manifest is decrypted with the key its security context names, looked up in the keystore at that moment when not seen before, whatever other manifests were decrypted earlier. '
  'A manifest naming an unknown key fails without affecting later manifests, even for that same key once it becomes known.',
  ['histories'], 'every order of manifests under several keys and algorithms, with key arrival in between',
  'Tests decrypt with one key at a time.',
  ['ccnpy/flic/tree/DecryptorCache.py', 'ccnpy/flic/tree/Traversal.py'],
  [('decryptor selection', 'ccnpy/flic/tree/DecryptorCache.py: get_or_create')],
  'node obtained or exception for every manifest of a history',
  'all histories of 3 manifests (and some of 6) over two preset keys and two key transports, with the arrival of a key at any step; symbolic keys, salts, numbers and contents')

p('C17', 'Signatures and checksums bind the packet they validate',
  'A packet produced with a signer verifies under the matching verifier, and the same packet with a change to the body, the signature algorithm fields or the signature is rejected. '
  'A validator looks up the key by the key id in the packet, reports an unknown key as such and never accepts a signed packet whose signature does not verify under the stored key.',
  ['inputs', 'fault_sequences'], 'every packet content and every change to the signed region or the signature',
  'Tests verify untouched packets.',
  ['ccnpy/crypto/Crc32c.py', 'ccnpy/crypto/RsaSha256.py', 'ccnpy/core/PacketValidator.py', 'ccnpy/core/ValidationAlg.py'],
  [('signing and verification', 'ccnpy/crypto/*Signer/Verifier, ccnpy/core/PacketValidator.py')],
  'verifier and validator results',
  'CRC32C is exact (bursts of up to 32 changed bits, where it is guaranteed to detect); RSA is ideal: a signature is accepted only for exactly the octets and the key it was made with; symbolic contents of up to 12 octets')

p('C18', 'Chunking stores every byte of the file once, in order, within the chunk size',
  'Splitting a file yields data objects whose payloads, in order, concatenate to the file, all of one size (which follows the packet size limit) except the last, which is not larger, and the listed digest and size of each chunk match its packet. '
  'Every data packet fits in the maximum packet size.',
  ['inputs', 'configurations'], 'every file content and length, every schema and packet size within bounds',
  'Tests use one file per schema; the lengths around chunk boundaries are not covered.',
  ['ccnpy/flic/name_constructor/SchemaImpl.py', 'ccnpy/flic/tree/FileChunks.py'],
  [('chunking', 'ccnpy/flic/name_constructor/SchemaImpl.py: chunk_data')],
  'packets written and chunk list returned',
  'files of up to 3 chunks with symbolic bytes, all lengths around the chunk boundaries, all three schemas')

p('C19', 'The tree plan always fits its node capacity and has room for every pointer',
  'For every number of data pointers and node capacity, the chosen plan uses at least one direct pointer per node where data must be stored, never more pointers per node than the capacity, and enough height and nodes to hold all data pointers. '
  'The waste it reports is never negative.',
  ['configurations', 'inputs'], 'every number of data objects and node capacity within bounds',
  'Tests check a few published examples.',
  ['ccnpy/flic/tree/TreeOptimizer.py', 'ccnpy/flic/tree/OptimizerResult.py', 'ccnpy/flic/tree/TreeParameters.py'],
  [('optimizer', 'ccnpy/flic/tree/TreeOptimizer.py: minimize_k_min_waste')],
  'optimizer result',
  'node capacity and pointer count symbolic within bounds')

p('C20', 'Writing a file as a manifest tree and reading it back gives the same bytes',
  'For every non-empty file and every supported combination of naming schema, tree degree, packet size, signing and encryption, traversing the tree from its root name reproduces the file byte for byte.',
  ['inputs', 'configurations'], 'every content and length within bounds, all schemas, degrees, encryption on and off',
  'Tests use a few sizes and one configuration each.',
  ['ccnpy/flic/ManifestTree.py', 'ccnpy/flic/tree/TreeBuilder.py', 'ccnpy/flic/tree/Traversal.py', 'ccnpy/flic/name_constructor'],
  [('build', 'ccnpy/flic/tree/TreeBuilder.py'), ('traverse', 'ccnpy/flic/tree/Traversal.py')],
  'bytes written by the traversal',
  'up to about 20 data objects, degrees 2..4, symbolic bytes, ideal cryptography')

p('C21', 'Manifests respect the configured degree and packet size',
  'No manifest holds more pointers than the configured tree degree. '
  'No packet, data or manifest, is larger than the configured maximum packet size, the root packet excepted, which carries extra fields.',
  ['configurations', 'inputs'], 'all packet sizes, degrees, schemas, signing and encryption options within bounds',
  'Tests check the limit in three configurations.',
  ['ccnpy/flic/tree/ManifestSizeCalculator.py', 'ccnpy/flic/tree/TreeBuilder.py', 'ccnpy/flic/tree/TreeParameters.py'],
  [('size reservation', 'ccnpy/flic/tree/ManifestSizeCalculator.py')],
  'size of every packet written',
  'bounds of C20 plus solver queries on the size arithmetic')

p('C22', 'Every packet is published under the name and segment the manifests say',
  'Each data or manifest packet below the root has exactly the name that the name constructor and segment number in its parent manifest produce, and the pointer is its hash. '
  'Names of different objects are different and segment numbers of data follow file order from zero.',
  ['configurations', 'inputs'], 'all schemas, degrees and tree sizes within bounds',
  'Tests check one tree per schema.',
  ['ccnpy/flic/name_constructor', 'ccnpy/flic/tree/TreeBuilder.py', 'ccnpy/flic/tree/ManifestIdFactory.py', 'ccnpy/flic/HashGroupBuilder.py'],
  [('naming', 'ccnpy/flic/name_constructor/*SchemaImpl.py, NameConstructorContext.py')],
  'names and hashes of the packets written, compared with the walk of the manifests',
  'bounds of C20')

p('C23', 'Size annotations state the true number of bytes below a manifest',
  'When subtree annotations are enabled, the subtree size of a node or group is the number of file bytes reachable from it and the leaf size of a group is the number of file bytes in the data objects it points to directly. '
  'When the options disable them, they are absent.',
  ['inputs', 'configurations'], 'all trees within bounds with annotations on and off',
  'Tests check a single small tree.',
  ['ccnpy/flic/tree/TreeBuilder.py', 'ccnpy/flic/HashGroupBuilder.py', 'ccnpy/flic/ManifestFactory.py'],
  [('annotations', 'ccnpy/flic/HashGroupBuilder.py; ccnpy/flic/tree/TreeBuilder.py')],
  'subtree and leaf sizes in the manifests written',
  'bounds of C20')

p('C24', 'Name constructors are inherited down the tree and never leak sideways',
  'A name-constructor definition seen in a manifest applies to that manifest and everything below it, overriding an outer definition of the same id, and is forgotten outside that subtree. '
  'A hash group that names an undefined constructor is an error.',
  ['inputs', 'histories'], 'every nesting of definitions over small trees',
  'Tests traverse trees whose definitions are all in the root.',
  ['ccnpy/flic/tree/Traversal.py'],
  [('constructor cache', 'ccnpy/flic/tree/Traversal.py: NameConstructorCache')],
  'names requested during traversal',
  'trees of up to 3 levels with symbolic definition ids')

p('C25', 'Packet storage returns exactly the packet asked for, or fails',
  'A packet written to a packet directory is returned unchanged when asked by name and hash, by hash alone if it has no name, or by name alone if named packets are linked (the one written last under that name). '
  'A missing packet, or one whose stored bytes do not have the requested hash, is an error, never a different packet.',
  ['inputs', 'histories', 'fault_sequences'], 'every set of packets within bounds, every corruption of a stored file',
  'Tests write and read a single packet.',
  ['ccnpy/flic/tree/TreeIO.py'],
  [('directory storage', 'ccnpy/flic/tree/TreeIO.py: PacketDirectoryWriter, PacketDirectoryReader')],
  'packet returned by the reader',
  'up to 3 packets with symbolic names and payloads, files of the store replaced by arbitrary bytes; file system modelled in memory')

p('C26', 'The keystore returns exactly the key stored under an id',
  'A key stored under an id is returned for that id and only for it, with the salt it was stored with, whatever other keys are stored; a later key under the same id takes its place. '
  'Asking for an unknown id is reported as unknown.',
  ['histories', 'inputs'], 'every sequence of insertions and look-ups within bounds',
  'Tests store one key of each kind.',
  ['ccnpy/crypto/InsecureKeystore.py'],
  [('keystore', 'ccnpy/crypto/InsecureKeystore.py')],
  'returned keys',
  'sequences of up to 3 insertions with symbolic ids, keys and salts')

p('C27', 'Key derivation depends on every declared input',
  'The key derivation function returns the HKDF output of the declared length for the configured hash, input key, salt and info, and the same for equal inputs. '
  'An unknown derivation algorithm is refused, by identifier and by name. A manifest says which key derivation it uses, and a node whose parameters configure one is not encrypted under the configured key itself, nor under another key when they configure none.',
  ['inputs'], 'every key, salt and info within bounds, all algorithms',
  'Tests derive one key.',
  ['ccnpy/crypto/KDF.py', 'ccnpy/crypto/HpkeKdfIdentifiers.py'],
  [('KDF', 'ccnpy/crypto/KDF.py'), ('AeadImpl._derive_key', 'ccnpy/flic/aeadctx/AeadImpl.py')],
  'derived key; key under which a node is encrypted',
  'ideal HKDF; symbolic keys of 16..32 bytes, salts and infos absent or of up to 20 bytes, output lengths up to the maximum; algorithm names of up to 12 characters')

p('C28', 'Command-line options reach the packets they configure',
  'Values given on the command line (names, sizes, degree, keys, key numbers, salts, expiry, locators) configure the produced packets exactly; malformed values are refused.',
  ['inputs', 'configurations'], 'every option value within bounds',
  'Tests run the tools with one set of options.',
  ['ccnpy/apps/cli_utils.py', 'ccnpy/apps/manifest_writer.py'],
  [('option parsing', 'ccnpy/apps/cli_utils.py')],
  'objects created from the options',
  'symbolic option strings and integers')

p('C29', 'Timestamps are exact to the millisecond',
  'An expiry or signature time built from a date and time is encoded as its milliseconds since the epoch, rounded to the nearest millisecond, and decoding it gives the same instant. '
  'Negative or too large times are refused.',
  ['inputs'], 'every instant at millisecond precision',
  'Tests use two instants.',
  ['ccnpy/core/Timestamp.py', 'ccnpy/core/ExpiryTime.py', 'ccnpy/core/SignatureTime.py'],
  [('timestamp', 'ccnpy/core/Timestamp.py')],
  'encoded number and decoded instant',
  'all millisecond values of 64 bits for the encoding; datetime conversion over 1970..2100')

p('C30', 'The in-memory packet store finds every packet by name and hash',
  'A packet put into the in-memory store is found by its name and hash, and listed in the order it was put; packets put later do not disturb it. '
  'A look-up never returns a packet with another hash, or a named packet under another name.',
  ['histories', 'inputs'], 'every sequence of puts and gets within bounds',
  'Tests put packets and read them back in order.',
  ['ccnpy/flic/tree/TreeIO.py'],
  [('memory store', 'ccnpy/flic/tree/TreeIO.py: PacketMemoryWriter/Reader')],
  'packet returned',
  'up to 4 packets with symbolic names and payloads')

p('C31', 'Hash group builders keep pointer order and their counts',
  'Adding or prepending pointers to a hash group builder never loses, duplicates or reorders pointers, is refused beyond its capacity, and the group it builds lists them in file order with the right start segment and sizes.',
  ['histories'], 'every sequence of builder operations within bounds',
  'Tests drive one fixed sequence.',
  ['ccnpy/flic/HashGroupBuilder.py', 'ccnpy/flic/tree/HashGroupBuilderPair.py'],
  [('builder', 'ccnpy/flic/HashGroupBuilder.py')],
  'hash groups built',
  'operation sequences of up to 6 steps with symbolic values')

p('C32', 'Using protocol objects never changes them',
  'Printing, comparing, hashing, iterating or measuring an object, reading its fields, and building, signing or encoding other objects from it never changes what it encodes to. '
  'A buffer handed to a parser is left unmodified, and parsing it twice gives equal objects.',
  ['histories', 'inputs'], 'every object kind with arbitrary contents, and sequences of uses of it',
  'Tests use each object once, for one purpose, with one content.',
  ['ccnpy/core', 'ccnpy/flic/tlvs'],
  [('object state', 'constructors, accessors, iteration and encoding of the classes in ccnpy/core and ccnpy/flic/tlvs')],
  'encoding before and after each use; the input buffer after parsing',
  '54 kinds in 3 shapes each with symbolic contents; one fixed sequence of uses per kind and one shared-parts history; changing the '
  'array an object returned is outside (the library returns its own buffers)')

p('C34', 'Everything that can be built or decoded can be displayed',
  'The printable form of any protocol object, built by a program or decoded from any accepted octets, can always be produced, never fails on unusual contents, and producing it leaves the object unchanged.',
  ['inputs'], 'every object kind, every content that the constructors or the parsers accept, and both display modes',
  'Tests print a few ordinary packets; names that are not UTF-8, malformed manifest payloads, unknown modes and absent parts are not printed.',
  ['ccnpy/core', 'ccnpy/flic/tlvs'],
  [('printable forms', '__repr__/__str__ and Name.as_uri of the classes in ccnpy/core and ccnpy/flic/tlvs')],
  'repr(), str() and as_uri() of objects',
  '54 kinds in 3 shapes as built and as decoded; names of up to 4 arbitrary octets; content objects with every payload type and up to '
  '8 arbitrary payload octets; fields over their wire range')

p('C33', 'Encodings follow the published wire layout byte for byte',
  'The encoding of every packet, content object, name, link, signature part, manifest, node, hash group, metadata block, pointer list, locator, naming schema and security context is exactly the published layout: '
  'the assigned type number, two length bytes and the fields in their fixed order, numbers in their shortest allowed width. '
  'So a peer that implements the published format reads every field where it expects it.',
  ['inputs'], 'every structure kind, every subset of optional fields, every field content within bounds',
  'Tests compare a few fixed encodings; most subsets of fields and number widths are never compared with the format.',
  ['ccnpy/core', 'ccnpy/flic/tlvs', 'ccnpy/flic/tlvs/TlvNumbers.py'],
  [('type numbers and field order', 'ccnpy/flic/tlvs/TlvNumbers.py; constructors and serialize of ccnpy/core and ccnpy/flic/tlvs')],
  'encoded bytes compared with an independent encoder of the published layout',
  'all subsets of optional fields, symbolic contents and 64-bit numbers; up to 3 groups of up to 3 hashes')

p('C35', 'A file survives the writer and reader tools octet for octet',
  'A file cut into packets by the writer tool is restored octet for octet by the reader tool run with the matching options and keys, for every naming schema, tree shape and encryption mode, looked up by name through the link or by root hash. '
  'Without the right decryption or signature key, or when any stored packet is missing, altered or exchanged for another, the reader tool fails and never writes octets that are not the file\'s.',
  ['inputs', 'fault schedules'], 'every file content, key and salt, every schema and encryption mode, every damaged packet of the store',
  'Tests call the classes under the tools, never the tools themselves, and no test damages a store the tools wrote.',
  ['ccnpy/apps/manifest_writer.py', 'ccnpy/apps/manifest_reader.py', 'ccnpy/apps/cli_utils.py', 'ccnpy/flic/tree'],
  [('writer and reader tools', 'ccnpy/apps/manifest_writer.py: ManifestWriter; ccnpy/apps/manifest_reader.py: ManifestReader')],
  'the octets of the output file and the failure of the tool',
  'files of 1..7 (thorough: 20) data objects with symbolic octets, 700-octet packets, symbolic AES keys and salts, fixed RSA keys, in-memory '
  'file system; damage to any one packet (removed, exchanged, or one octet at 8 places replaced by any other value)')

p('C36', 'The packet viewer never vouches for or shows what it cannot verify',
  'The packet viewer reports a signed packet as valid exactly when its checksum or signature verifies under the named key, refuses it when it does not, and says nothing about validity when it is unsigned or the key is not at hand. '
  'For an encrypted manifest it shows exactly the decrypted content when it holds the key, and otherwise shows no content and reports that it cannot decrypt.',
  ['inputs'], 'every packet content, every altered part, every key store and every key number',
  'No test exercises the viewer or its helpers.',
  ['ccnpy/apps/packet_utils.py', 'ccnpy/apps/packet_reader.py'],
  [('verdict', 'ccnpy/apps/packet_utils.py: validate_packet'), ('display', 'ccnpy/apps/packet_utils.py: decrypt_manifest; ccnpy/apps/packet_reader.py')],
  'lines printed, result or failure of the viewer',
  'bodies with symbolic contents and 4-octet alterations at fixed places; manifests of one shape with symbolic keys, salts and numbers; '
  'ideal signatures and ciphers; packets of the writer tool viewed with right and wrong keys')

p('C37', 'A root hash commits to one file',
  'Two different files cut with the same options never produce trees with the same root hash, and neither do equal files published under different root names. '
  'The same file cut again with the same options and fixed expiry times and signer gives the same root hash and the same packets, octet for octet.',
  ['inputs'], 'every pair of files, naming schema, tree shape and root name',
  'Tests build one tree per file and never compare the trees of two files.',
  ['ccnpy/flic/tree', 'ccnpy/flic/ManifestFactory.py', 'ccnpy/core/Packet.py', 'ccnpy/core/HashValue.py'],
  [('tree building', 'ccnpy/flic/tree/TreeBuilder.py; ccnpy/flic/ManifestTree.py: build'), ('object hash', 'ccnpy/core/Packet.py: content_object_hash'),
   ('chunking', 'ccnpy/flic/tree/FileMetadata.py: from_file_chunks and ccnpy/flic/tree/TreeIO.py')],
  'root hash and packets of two builds',
  'unencrypted trees of up to 6 (thorough: 30) data objects signed with CRC-32C; files that differ in any octet, in length, or by exchanged or repeated objects; '
  'ideal SHA-256')

p('C38', 'Encrypted manifests show nothing but their size',
  'With an encryptor configured every manifest of a tree, the root included, leaves encrypted. Outside the nonce, the wrapped key, the ciphertext and the tag, the octets of an encrypted manifest do not depend on the node, '
  'the file, the key or the salt, the ciphertext is exactly the output of the configured cipher on the node under the nonce that was drawn, and nothing of the plaintext is left beside it.',
  ['inputs'], 'every node, file, key, salt and key number; every cipher and key transport; every naming schema',
  'Tests check that decryption inverts encryption; what else an encrypted manifest carries is never compared.',
  ['ccnpy/flic/aeadctx/AeadImpl.py', 'ccnpy/flic/aeadctx/AeadEncryptor.py', 'ccnpy/flic/RsaOaepCtx', 'ccnpy/flic/ManifestFactory.py', 'ccnpy/flic/tree'],
  [('encryption of nodes', 'ccnpy/flic/aeadctx/AeadImpl.py: encrypt; ccnpy/flic/RsaOaepCtx/RsaOaepEncryptor.py'), ('manifest assembly', 'ccnpy/flic/ManifestFactory.py: build, build_packet'),
   ('root manifest', 'ccnpy/flic/ManifestTree.py')],
  'the octets of encrypted manifests, compared between two nodes, files, keys and salts',
  'nodes of up to 3 pointers with every field; trees of 1..12 (thorough: 21) data objects; AES-GCM and AES-CCM, 128 and 256 bits; ideal ciphers')

p('C39', 'Reading a tree stops at the first packet that is missing or bad',
  'When any packet of a tree is missing, fails its checksum or signature, is signed by an unknown or another key, has the wrong payload type, cannot be decrypted, is not a manifest or refers to an undefined naming schema, '
  'the traversal fails and has written exactly the octets of the data objects before that packet. The fault leaves nothing behind: a sound tree reads in full before and after it with the same reader.',
  ['inputs', 'fault schedules', 'histories'], 'every position and kind of fault, every content, clear and encrypted, with every kind of signature',
  'Tests read sound trees only.',
  ['ccnpy/flic/tree/Traversal.py', 'ccnpy/crypto', 'ccnpy/flic/aeadctx', 'ccnpy/flic/tlvs'],
  [('traversal', 'ccnpy/flic/tree/Traversal.py: traverse, preorder'), ('validation', 'ccnpy/core/PacketValidator.py; ccnpy/crypto/Crc32c.py; ccnpy/crypto/RsaSha256.py'), ('decryption', 'ccnpy/flic/aeadctx/AeadDecryptor.py')],
  'the failure of the traversal and the octets written',
  'a tree of three manifests and five data objects; 15 kinds of fault with symbolic values at any of six packets; up to 4 readings with one reader; ideal signatures and ciphers')

p('C40', 'Packets sent over a connection arrive whole and in order',
  'A network writer connects once to the given address and sends the encoding of every packet in the order it was put, complete and unaltered, whatever part of the octets the connection takes at a time. '
  'A broken connection is reported, and closing closes the connection. What the writer tool sends with -T cuts into packets that read as the file.',
  ['inputs', 'fault schedules'], 'every sequence of packets within bounds, every partial send, a break at any packet, every file content',
  'No test exercises the network writer.',
  ['ccnpy/flic/tree/TreeIO.py', 'ccnpy/apps/manifest_writer.py'],
  [('network writer', 'ccnpy/flic/tree/TreeIO.py: PacketNetworkWriter'), ('-T', 'ccnpy/apps/manifest_writer.py')],
  'octets received by the other end, failure of the writer',
  'up to 4 packets of up to 65000 octets; partial sends at three places; stand-in for the socket; files of 1, 3 and 6 data objects')

p('C41', 'Diagnostics change nothing',
  'Turning on debugging output (the tree option, the DEBUG switches of the classes, log level DEBUG on every logger), showing packets, or collecting a manifest graph changes neither the packets that are built nor the octets that are read, '
  'and fails nothing that works without it; damaged manifests are refused the same way. A graph collected while a tree is built or read has exactly the packets of the tree, each with its name, and each manifest with its pointers in order.',
  ['inputs', 'configurations'], 'every content, naming schema, tree shape, key and encryption',
  'Tests run with diagnostics off, or only look whether a graph can be saved.',
  ['ccnpy/flic', 'ccnpy/crypto'],
  [('tree options and building', 'ccnpy/flic/tree/TreeBuilder.py; ccnpy/flic/ManifestTree.py'), ('reading', 'ccnpy/flic/tree/Traversal.py'), ('graph', 'ccnpy/flic/tree/ManifestGraph.py: add_manifest, add_data'), ('switches', 'DEBUG in AeadKey, AeadData, RsaOaepWrapper, RsaOaepCtx, KdfData, Node, HashGroupBuilderPair')],
  'packets, octets and errors with and without diagnostics; what the graph is given',
  'files of 1..9 data objects (thorough 27); the drawing of a graph (networkx, pydot, matplotlib) is outside')

p('C42', 'Key files open with their password only, and keys survive them',
  'A private key saved under a password is loaded with that password, as octets or as text, by the library and by the command-line tools, and is then the same key: same key id, same public key, it signs, verifies and decrypts as before. '
  'No other password, and no password, loads it, the file does not have the key in clear, and a save that is refused leaves the file as it was. New keys have the size asked for and come from fresh random octets.',
  ['inputs', 'histories'], 'every password and wrong password, every key size asked for, files that exist already',
  'Tests load a few fixed keys and save under one password.',
  ['ccnpy/crypto/RsaKey.py', 'ccnpy/crypto/AeadKey.py', 'ccnpy/apps/cli_utils.py'],
  [('key files', 'ccnpy/crypto/RsaKey.py: save_private_key, load_pem_key, __init__'), ('new keys', 'ccnpy/crypto/AeadKey.py: generate, nonce; ccnpy/crypto/RsaKey.py: generate_private_key'), ('passwords of the tools', 'ccnpy/apps/cli_utils.py: fixup_key_password, create_keystore, rsa_signer_from_cli_args')],
  'keys loaded, refusals, file contents, files restored by the tools',
  'passwords of 1..32 octets; passwords that differ in zeros at the end only are one password for PBKDF2; ideal key encryption (a table of password and key); RSA keys of 1024 and 2048 bits')
