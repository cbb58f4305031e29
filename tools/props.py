"""The properties, and what their checks cover."""

STUBS = [
    'Hashes are an uninterpreted collision-free function per algorithm; '
    'ciphers of one block are uninterpreted permutations per key; RSA, DSA '
    'and ElGamal primitives are ideal (only the matching key inverts or '
    'verifies); replays use the real libraries.',
    'Ciphertexts and signature numbers of the ideal primitives are tokens '
    'unlike one another: their last octet is arbitrary, 0, 1, 9 or 17 of '
    'their leading bits are zero; decrypting with another key gives no '
    'validly padded block (chance below 2^-16).',
    'CPython 3.12 semantics for the symbolic run, PyPy 3.9 (the project\'s '
    'runtime) for every replay.',
]

PLAIN = STUBS[2:]

PROPS = [
    dict(
        id='P01', harness='h_frames.py',
        title='Packet framing is exact, lossless, the same for memory and streams',
        statement='For every tag and body length, a packet is written with the header RFC 4880 prescribes for its format followed by exactly its body. Every sequence of packets in any mixture of old format, new format, partial-body and indeterminate lengths is read back to the same tags and bodies in the same order, with nothing lost, repeated or shifted. The in-memory reader and the stream reader agree on what they return.',
        over=['inputs'],
        quantifier='every tag, format, body length and body content, every split of a body into partial chunks, and every sequence of packets',
        why='Only whole keys and messages of a few fixed sizes are parsed in the tests; length classes, partial bodies, indeterminate lengths and tag 0 are never met, and nothing compares the two readers.',
        files=['pgp/utils.py', 'pgp/packets/packets.py', 'pgp/packets/parsers.py'],
        mechanism=[('length codecs', 'pgp/utils.py: new_packet_length_from_stream, old_packet_length_from_stream, new_packet_length_to_bytes, old_packet_length_to_bytes'),
                   ('packet reader', 'pgp/packets/packets.py: packet_from_packet_data, packet_from_packet_stream'),
                   ('packet writer', 'pgp/packets/packets.py: Packet.__bytes__'),
                   ('sequences of packets', 'pgp/packets/parsers.py: parse_binary_packet_data, parse_binary_packet_stream')],
        observe_at=['pgp.packets.parsers.parse_binary_packet_data', 'bytes(packet)'],
        bounds='All 2^32 length values for the length codecs; whole packets with bodies of 16 sizes up to 65536 octets around every length boundary (thorough: 60 sizes up to 2^24), symbolic tags and first octets; 12 (thorough 16) shapes of packet sequences with symbolic bodies; every two-octet header in front of 0, 3 and 8 octets.',
        assumptions=PLAIN + ['Inputs end where the last packet ends: truncated packets are outside this property.'],
    ),
    dict(
        id='P02', harness='h_numbers.py',
        title='Multiprecision integers, hex and count codecs are exact at any size',
        statement='Every non-negative integer is written as a multiprecision integer with its exact bit count and the fewest octets, and reads back as itself from any offset with the following offset right, at every size up to the largest the format can hold. Fixed-width integers, hex strings and S2K iteration counts convert exactly both ways, keep leading zeros, and refuse values that do not fit.',
        over=['inputs'],
        quantifier='every integer, octet string, offset and coded count',
        why='The tests convert four byte values; the sizes at which floating point logarithms round, zero, leading zero octets and all other boundaries are never sampled.',
        files=['pgp/utils.py'],
        mechanism=[('MPI codec', 'pgp/utils.py: mpi_to_int, int_to_mpi, mpi_length'),
                   ('fixed width', 'pgp/utils.py: int_to_2byte, int_to_4byte, short_to_int, long_to_int, int_to_bytes, bytes_to_int'),
                   ('hex', 'pgp/utils.py: bytearray_to_hex, hex_to_bytes, int_to_hex'),
                   ('S2K count', 'pgp/utils.py: s2k_count_to_int, int_to_s2k_count')],
        observe_at=['pgp.utils'],
        bounds='Integers of up to 129 symbolic bits (thorough 521) and, near powers of two, up to 2048 (thorough 65000) bits; MPI bodies of up to 2048 (thorough 16384) bits at offsets 0 and 5; all 256 coded S2K counts; hex strings of up to 20 octets.',
        assumptions=PLAIN,
    ),
    dict(
        id='P03', harness='h_bodies.py',
        title='Every packet type is read into its fields and written back unchanged',
        statement='Each packet type other than signatures (session keys, one-pass signatures, keys, secret keys in every protection mode, compressed and encrypted data, literal data, marker, trust, user IDs, user attributes and unknown types) exposes exactly the field values RFC 4880 assigns to its octets. Writing a packet that was read gives back the same octets, from memory or from a stream, and a packet made from fields reads back with those fields. Packets that differ in a field do not compare equal.',
        over=['inputs'],
        quantifier='every field value and octet string of every packet type, version, algorithm and protection mode',
        why='The tests parse a handful of ordinary keys and messages; most packet types, algorithms, versions and protection modes have no test, and no test writes back what it read.',
        files=['pgp/packets/packets.py', 'pgp/packets/user_attribute_subpackets.py', 'pgp/s2k.py', 'pgp/utils.py'],
        mechanism=[('packet classes', 'pgp/packets/packets.py: from_packet_content, content, __eq__ of each class'),
                   ('user attribute subpackets', 'pgp/packets/user_attribute_subpackets.py'),
                   ('S2K specifiers', 'pgp/s2k.py: parse_s2k_bytes, S2K.to_bytes')],
        observe_at=['pgp.packets.parsers.parse_binary_packet_data', 'packet attributes', 'bytes(packet)'],
        bounds='Both header formats; MPIs of 9 to 1024 bits (thorough 2048) with symbolic values; opaque parts of up to 40 (thorough 300) octets; names and user IDs of up to 8 and 3 (thorough 4) arbitrary octets; user attributes of up to 3 subpackets.',
        assumptions=PLAIN + ['MPIs are canonical (their top bit is set): others are written back canonically.'],
    ),
    dict(
        id='P04', harness='h_subpackets.py',
        title='Signature packets and subpackets are exact, unhashed data stays outside',
        statement='Every signature packet, of version 2, 3 or 4 and with any subpackets in any order in either area, is read into exactly the values its octets hold and is written back unchanged. A subpacket found in one area is never reported, hashed or written in the other, and one that claims to reach beyond its area is refused. Subpackets made from values, or changed after reading, are written as RFC 4880 lays them out and read back with those values.',
        over=['inputs'],
        quantifier='every sequence of subpackets, known, critical or unknown, with any content and any length style in either area',
        why='Tests hold a few signatures made by GnuPG with the usual subpackets; no test looks at other types, odd lengths, malformed areas or writes them back.',
        files=['pgp/packets/packets.py', 'pgp/packets/signature_subpackets.py', 'pgp/utils.py'],
        mechanism=[('signature packet', 'pgp/packets/packets.py: SignaturePacket'),
                   ('subpackets', 'pgp/packets/signature_subpackets.py'),
                   ('subpacket areas', 'pgp/packets/signature_subpackets.py: signature_subpackets_from_data and pgp/utils.py: new_packet_length_from_stream')],
        observe_at=['SignaturePacket attributes', 'bytes(packet)', 'subpacket attributes'],
        bounds='All subpacket types with symbolic content, up to 3 subpackets per area and 4 MPIs; areas of up to 5 (thorough 16) arbitrary octets split freely; one subpacket longer than 8383 octets.',
        assumptions=PLAIN + ['MPIs are canonical.'],
    ),
    dict(
        id='P05', harness='h_armor.py',
        title='ASCII armor is lossless and refuses what was damaged on the way',
        statement='For all data, kinds, parts and headers, armoring writes the RFC 4880 form (header line, headers, Radix-64 lines of at most 76 characters, CRC-24, tail line) and reading it, with any line width and line endings, gives back the same data, kind, part numbers and headers. Armor with a wrong checksum, a changed data character, a tail that does not match its header line, an unknown header line, or an early end is refused.',
        over=['inputs'],
        quantifier='all data, header values, line widths and line endings, and every single character changed',
        why='Tests read armored keys made elsewhere; none writes armor, checks the CRC against its definition, or damages a character.',
        files=['pgp/armor.py', 'pgp/crc24.py', 'pgp/packets/parsers.py'],
        mechanism=[('armor reader and writer', 'pgp/armor.py: ASCIIArmor.from_ascii, ASCIIArmor.__str__, is_armor'),
                   ('checksum', 'pgp/crc24.py: crc24'),
                   ('armored packets', 'pgp/packets/parsers.py: parse_ascii_packet_data')],
        observe_at=['pgp.armor.ASCIIArmor', 'pgp.crc24.crc24', 'pgp.packets.parsers.parse_ascii_packet_data'],
        bounds='All data of 0 to 60 and of 108, 109 octets (thorough: to 500) with symbolic octets; CRC of 0 to 40 (thorough 200) octets against its bitwise definition; headers of 3 printable characters; one character changed to any other at each position of data of up to 10 (thorough 50) octets. Data of 768, 1000, 5000, 9000 and 12000 octets, fixed but for some around the usual sizes.',
        assumptions=PLAIN,
    ),
    dict(
        id='P06', harness='h_sighash.py',
        title='What is hashed for a signature is exactly what RFC 4880 prescribes',
        statement='For every signature version and type, the octets hashed are exactly those RFC 4880 section 5.2.4 lists: the document (with CR, LF line endings when it is signed as text), or the key, subkey, user ID, user attribute or signature that is signed with its prefix and length, then the hashed fields of the signature and its trailer. Secret parts of keys and unhashed subpackets are never hashed. Hashing the parsed packets of a key and hashing its objects give the same result.',
        over=['inputs'],
        quantifier='every key, subkey, user ID, user attribute, signature and document, every signature version, type, hash and hashed area',
        why='The tests verify a few version 4 signatures that GnuPG made; other versions, types, algorithms, attributes, secret keys and line endings are never hashed.',
        files=['pgp/utils.py', 'pgp/signature.py', 'pgp/transferrable_keys.py', 'pgp/message.py'],
        mechanism=[('packets', 'pgp/utils.py: hash_packet_for_signature, hash_key, hash_user_data, hash_signature'),
                   ('signature fields', 'pgp/signature.py: BaseSignature.to_signable_data'),
                   ('keys', 'pgp/transferrable_keys.py: to_signable_data of keys, subkeys, user IDs and attributes'),
                   ('documents', 'pgp/message.py: to_signable_data of literal messages')],
        observe_at=['pgp.utils.hash_packet_for_signature', 'to_signable_data'],
        bounds='Keys of version 2, 3 and 4 and all public key algorithms with MPIs of 9 to 17 symbolic bits; user IDs of 0 to 3 (thorough 300), attributes of up to 200 (thorough 9000), hashed areas of 0, 7 (thorough 65535) symbolic octets; documents of up to 3 (thorough 5) arbitrary octets or characters. Documents of 5000 and 70000, user IDs of 300 and 9000, attributes of 9000 and 70000 octets and hashed areas of 300, fixed but for octets around the usual sizes; key numbers of 2040 to 3000 symbolic bits.',
        assumptions=STUBS + ['User IDs longer than one octet are ASCII.'],
    ),
    dict(
        id='P08', harness='h_session.py',
        title='Session keys reach their recipients, nobody else, and are never reused',
        statement='A session key encrypted for a public key or a passphrase has the octets RFC 4880 sections 5.1, 5.3 and 13.1 prescribe, down to key ID, algorithm, checksum and padding, and its owner gets back exactly that algorithm and key, also when the encrypted number begins with zeros. Whatever else was encrypted is accepted only with a right checksum and padding; among several recipients, hidden or not, and passphrases in any order each one reads the message, and a key or passphrase it is not for, or a locked key, does not. Session keys, paddings and ElGamal exponents are drawn anew for every message.',
        over=['inputs'],
        quantifier='every session key, cipher, recipient key, passphrase, salt and order of recipients, and every decrypted octet string',
        why='Tests decrypt messages for one key at a time, made by one tool; wrong checksums, hidden recipients, other ciphers inside, leading zeros, ElGamal and reuse of randomness are never met.',
        files=['pgp/message.py', 'pgp/packets/packets.py', 'pgp/s2k.py'],
        mechanism=[('public key session keys', 'pgp/packets/packets.py: PublicKeyEncryptedSessionKeyPacket, PKCS115_ElGamal_Cipher'),
                   ('passphrase session keys', 'pgp/packets/packets.py: SymmetricKeyEncryptedSessionKeyPacket'),
                   ('recipients', 'pgp/message.py: BaseMessage.public_key_encrypt, symmetric_encrypt, EncryptedMessageWrapper.get_message')],
        observe_at=['pgp.message.BaseMessage', 'pgp.message.EncryptedMessageWrapper', 'pgp.message.PublicKeySessionKey', 'pgp.message.SymmetricSessionKey'],
        bounds='All 11 ciphers with symbolic session keys (IDEA: fixed); fixed genuine keys of 256 to 1024 bits (RSA version 3 and 4, ElGamal); decrypted strings of 0, 1, 3, 4, 19, 35 (thorough to 53) symbolic octets; ElGamal paddings of up to 8 symbolic octets; 20 (thorough 25) orders of up to 4 (thorough 5) recipients, some of 6 to 9; passphrases of up to 20 octets.',
        assumptions=STUBS + ['With several passphrases, another one\'s session key decrypts to no known cipher number.'],
    ),
    dict(
        id='P09', harness='h_s2k.py',
        title='Keys made from passphrases are those RFC 4880 prescribes',
        statement='For every passphrase, salt, hash and cipher, the simple, salted and iterated string-to-key specifiers give exactly the key of RFC 4880 section 3.7, of the length the cipher needs, each time they are asked. Every specifier, GnuPG\'s extensions included, is read into what its octets say and written back unchanged, specifiers that differ are not equal, and unknown kinds are refused.',
        over=['inputs'],
        quantifier='every passphrase, salt, count, hash and cipher, and every specifier',
        why='The tests decrypt a few keys with one passphrase, one hash and one count; keys longer than a hash, short counts, long passphrases and the other kinds are never derived.',
        files=['pgp/s2k.py', 'pgp/utils.py'],
        mechanism=[('derivation', 'pgp/s2k.py: SimpleS2K.to_key'),
                   ('specifiers', 'pgp/s2k.py: parse_s2k_bytes, from_bytes and __bytes__ of each class'),
                   ('tables', 'pgp/utils.py: hash_lengths, symmetric_cipher_key_lengths, s2k_count_to_int')],
        observe_at=['pgp.s2k'],
        bounds='All 11 ciphers, 7 hashes and 3 kinds; passphrases of 0 to 200 and around 1024 symbolic octets; counts of up to 65536 (thorough 1 MiB) octets; serial numbers of up to 40 octets.',
        assumptions=STUBS,
    ),
    dict(
        id='P10', harness='h_ciphers.py',
        title='Block cipher modes and IDEA compute the standard result and its inverse',
        statement='For every key, IV and data, each cipher the library builds or wraps itself gives the standard result in ECB, CBC, CFB, OFB and CTR mode, whether the data is passed at once or in parts, and decryption gives the data back; keys, IVs, data and counters of a wrong size are refused. IDEA is the published cipher: its product, inverse, key schedules and rounds are right for every key and block. Every algorithm number opens its own cipher with its key and block size.',
        over=['inputs'],
        quantifier='every key, IV, counter and data, every split of the data, and every pair of 16-bit factors',
        why='Tests use one or two ciphers through whole messages; IDEA, the other modes, split data and rare carries in the arithmetic are never run.',
        files=['pgp/cipher/base.py', 'pgp/cipher/aidea.py', 'pgp/cipher/twofish.py', 'pgp/cipher/camellia.py', 'pgp/cipher/wrapper.py', 'pgp/utils.py'],
        mechanism=[('modes', 'pgp/cipher/base.py: _InternalObj'),
                   ('IDEA', 'pgp/cipher/aidea.py: mul, mul_inv, AIDEA'),
                   ('wrappers', 'pgp/cipher/wrapper.py, twofish.py, camellia.py'),
                   ('algorithm numbers', 'pgp/utils.py: get_symmetric_cipher and its tables')],
        observe_at=['pgp.cipher', 'pgp.utils.get_symmetric_cipher'],
        bounds='Data of up to 4 blocks (thorough 6), split once; CFB segments of 1, 2, 4, half a block and a block; IDEA: all 2^32 factor pairs, all keys and blocks for the rounds and both key schedules (over uninterpreted product and inverse), inverses of 384 (thorough all 65536) numbers. Data of up to 1003 octets in ten cases.',
        assumptions=STUBS + ['65537 is prime.'],
    ),
    dict(
        id='P11', harness='h_encdata.py',
        title='Encrypted and compressed data is exact, and never read when tampered with',
        statement='Encrypted data has the octets RFC 4880 sections 5.7 and 5.13 prescribe: a prefix drawn anew, its repeated end, the message, and by default a modification detection code; it decrypts to the message for every cipher and length. Integrity protected data is read only if the repeated octets and the code are right and the code is at its end: any change to what it covers is refused. Compressed data holds the message in the format its algorithm number names, is read back whatever made it, also nested, and unknown algorithms are refused.',
        over=['inputs'],
        quantifier='every message, key, prefix, cipher and length modulo the block size, and every change of what is protected',
        why='Tests decrypt a few messages and encrypt one; no test changes or drops a detection code, and lengths, ciphers and compressions other than the usual are not met.',
        files=['pgp/message.py', 'pgp/packets/packets.py', 'pgp/utils.py'],
        mechanism=[('encrypted data', 'pgp/message.py: SymmetricallyEncryptedMessageData.encrypt, decrypt, check_session_key'),
                   ('compressed data', 'pgp/packets/packets.py: CompressedDataPacket; pgp/message.py: CompressedMessageWrapper; pgp/utils.py: get_compression_instance')],
        observe_at=['pgp.message.BaseMessage', 'pgp.message.SymmetricallyEncryptedMessageData', 'pgp.message.CompressedMessageWrapper'],
        bounds='All 11 ciphers with symbolic keys (IDEA: fixed) and data of 0 to 16 symbolic octets, every length modulo the block for CAST and AES (thorough: all ciphers, to 2 blocks and 200); changes of one octet to any value after the prefix (thorough: anywhere), of packet headers by 11 masks; wrong check octets and codes arbitrary; compressed data of 0, 1, 40 (thorough to 3000) octets. Data of 9000 and 20000 octets (IDEA, last octet symbolic) and 300 (AES); compressed data of up to 70000 octets, fixed but for some around the usual sizes.',
        assumptions=STUBS + ['zlib and bz2 containers hold stored data in the symbolic run.', 'A detection code is not right by chance.'],
    ),
    dict(
        id='P12', harness='h_messages.py',
        title='Messages have exactly the structure of RFC 4880; nothing else is read as one',
        statement='A literal, signed, compressed or encrypted message is written as exactly the packets RFC 4880 section 11.3 prescribes, in that order, with one-pass packets that mirror the signatures after the message and mark the last one, and with its data, format, file name and time; it is read back, from memory, armor or a file, as the same message. Every sequence of packets that is such a message is read, with marker packets ignored, and every other one (missing, surplus, misplaced or foreign packets) is refused.',
        over=['inputs'],
        quantifier='every sequence of packets, contents of literal packets, and nesting',
        why='Tests read and write a handful of complete messages of one shape; two signatures, nested messages, surplus or missing packets never occur.',
        files=['pgp/message.py', 'pgp/shortcuts.py', 'pgp/packets/packets.py'],
        mechanism=[('reading', 'pgp/message.py: open_pgp_message_from_packets, SignedMessageWrapper.from_packets, EncryptedMessageWrapper.from_packets'),
                   ('writing', 'pgp/message.py: to_packets of each class'),
                   ('entry', 'pgp/shortcuts.py: read_message, read_message_file')],
        observe_at=['pgp.shortcuts.read_message', 'pgp.message'],
        bounds='All sequences of up to 3 packets of 12 kinds, sequences of 4 after 10 beginnings (thorough: all beginnings) and 57 chosen ones of up to 7, with symbolic contents; up to 3 (thorough 5) signatures, and 12 in some; literal data of up to 186 (thorough 300) symbolic octets (text: 7 symbolic), names of up to 20 (thorough 100), every time. Literal data of 5000, 9000 and 70000 octets, fixed but for some around the usual sizes.',
        assumptions=STUBS,
    ),
    dict(
        id='P13', harness='h_secrets.py',
        title='A passphrase opens a protected secret key to exactly its numbers, or not at all',
        statement='A secret key or subkey protected in any form of RFC 4880 section 5.5.3 (in the clear; with a string-to-key specifier and a SHA-1 hash or a checksum; with the MD5 of the passphrase; in version 3 or 4) is unlocked by its passphrase to exactly the numbers it holds if its hash or checksum is right, and else stays locked; locking forgets them again, neither changes what is written, a primary key opens with all its subkeys or not at all, a with statement leaves it locked however it ends, and public keys made from it hold none of its secrets. Secret key packets made from numbers and a passphrase have exactly the octets prescribed. Keys whose secret part GnuPG keeps elsewhere are read and written unchanged and refuse unlocking; a locked key refuses to sign and to decrypt.',
        over=['inputs', 'histories'],
        quantifier='every key, way of protection, passphrase, salt, IV, stored secret part, and sequence of unlocking and locking',
        why='Tests unlock one RSA key protected in one way; nothing checks the other forms, wrong or altered secret parts, or what a key still holds after it is locked.',
        files=['pgp/packets/packets.py', 'pgp/transferrable_keys.py', 'pgp/packets/parsers.py', 'pgp/s2k.py', 'pgp/context_managers.py'],
        mechanism=[('decryption', 'pgp/packets/packets.py: SecretKeyPacket.decrypt, encrypt, _values_to_bytes'),
                   ('checks', 'pgp/packets/packets.py: SecretKeyPacket.verify_checksum'),
                   ('keys', 'pgp/transferrable_keys.py: BaseSecretKey.unlock, lock, is_locked, to_public_key'),
                   ('with', 'pgp/context_managers.py: unlocked')],
        state=[('numbers known', 'which keys are unlocked', 'pgp/transferrable_keys.py: BaseSecretKey')],
        observe_at=['pgp.transferrable_keys.TransferableSecretKey', 'pgp.packets.packets.SecretKeyPacket'],
        bounds='RSA, DSA and ElGamal keys with symbolic secret numbers of 1 to 200 bits, every cipher (IDEA: fixed values), simple, salted and iterated string-to-key specifiers with every hash, passphrases of 0 to 20 symbolic ASCII octets, symbolic salt and IV; up to 2 subkeys; histories of up to 4 calls; signing and decrypting with RSA, DSA and ElGamal. RSA numbers of 2047 and 1024 bits, ElGamal of 2048 and passphrases of 300 octets in six cases.',
        assumptions=STUBS,
    ),
    dict(
        id='P07', harness='h_signing.py',
        title='Signatures say what they must, verify, and verify nothing else',
        statement='What an unlocked key signs, be it a document, a key, a subkey, a user ID or an attribute, is a genuine signature over the octets RFC 4880 prescribes, states the version, type, algorithms, present time, issuer and given subpackets and nothing else, verifies under the public key before and after being written, and leaves the subpackets the caller gave alone. Verification refuses it once the signed item, a hashed field, the two check octets, the algorithms, the signature numbers or the key differ; what is not hashed may differ. Each DSA signature draws a fresh number from the whole range, and keys that cannot sign refuse to.',
        over=['inputs'],
        quantifier='every document, user ID and attribute content, signing time, subpacket value, alteration of a signature and random number, for the listed keys, hashes and types',
        why='The tests verify a handful of signatures made elsewhere and never sign with more than one hash or version; alterations, reuse of subpacket lists or random numbers and the dates stated are not looked at.',
        files=['pgp/transferrable_keys.py', 'pgp/signature.py', 'pgp/utils.py', 'pgp/message.py'],
        mechanism=[('signing', 'pgp/transferrable_keys.py: BaseSecretKey.sign'),
                   ('verifying', 'pgp/transferrable_keys.py: BasePublicKey.verify'),
                   ('primitive', 'pgp/utils.py: sign_hash, verify_hash'),
                   ('documents', 'pgp/message.py: BaseMessage.sign')],
        observe_at=['pgp.transferrable_keys.TransferableSecretKey.sign', 'pgp.transferrable_keys.TransferablePublicKey.verify', 'pgp.message.BaseMessage.sign'],
        bounds='Fixed genuine keys (RSA 512 and 1024 version 3 and 4, RSA sign-only, DSA q 160), all 7 hashes they can take, signature versions 3 and 4; documents of up to 4 octets or 3 characters, user IDs of 3, attributes of 20 octets; signing times within 65536 s; one alteration at a time. Documents of 300, 5000 and 70000 octets, user IDs of 300 and attributes of 70000, fixed but for octets around the usual sizes.',
        assumptions=STUBS + ['The leading 160 bits of two digests a DSA key signs are different numbers.'],
    ),
    dict(
        id='P14', harness='h_identity.py',
        title='Fingerprints, key IDs and sizes are those of the key and never change',
        statement='The fingerprint and key ID of every version 2, 3 and 4 key are those RFC 4880 section 12.2 defines for its public octets, zero padded and in upper case, and its bit length is that of its modulus or prime. Packets, primary keys, subkeys, secret keys, locked or unlocked, their public keys and keys made from values all agree, whichever packet format they came in or are written in, and a change of the public numbers or of a version 4 creation time changes the fingerprint.',
        over=['inputs'],
        quantifier='every creation time, validity and public number of the given sizes, and every secret part',
        why='The tests look at four keys of ordinary size made by one tool; version 3 keys, small numbers, leading zeros, secret keys and keys made from values are never compared.',
        files=['pgp/utils.py', 'pgp/packets/packets.py', 'pgp/transferrable_keys.py'],
        mechanism=[('fingerprint', 'pgp/utils.py: key_packet_fingerprint'),
                   ('key ID', 'pgp/packets/packets.py: PublicKeyPacket.key_id; pgp/transferrable_keys.py: BasePublicKey.key_id'),
                   ('size', 'pgp/transferrable_keys.py: BasePublicKey.bit_length'),
                   ('octets', 'pgp/packets/packets.py: PublicKeyPacket.public_content')],
        observe_at=['fingerprint, key_id and bit_length of key packets and keys'],
        bounds='All public key algorithms the library knows; numbers of 1 to 128 (thorough 1023) symbolic bits around the 8-octet boundary of version 3 key IDs; fixed genuine keys for unlocking; keys made from values within 65536 s (version 3: until 2029, up to 4000 days). RSA moduli of 2047 and 2048 bits and DSA numbers of 1024.',
        assumptions=STUBS,
    ),
    dict(
        id='P15', harness='h_keys.py',
        title='Key blocks are read when they are keys and written back without loss',
        statement='A sequence of packets is read as a transferable key exactly when it is one by the order of RFC 4880 section 11.1 (a primary key with its direct signatures, then user IDs, user attributes and bound subkeys with theirs; no subkeys on version 3 keys), and every other sequence is refused. Each user ID, attribute, subkey and signature lands under its owner in order, and writing gives back the same packets, trust packets aside, in the packet format asked for, as octets or armored as the right kind of block, or as the whole new content of a file. The public key of a secret key is the same key without any secret part.',
        over=['inputs'],
        quantifier='every sequence of packets within the bound, every signature type octet in it and every content of its user IDs, attributes and trust packets',
        why='The tests read four well-formed keys; other orders, signature types, mixed packet formats, attributes, trust packets and malformed blocks are never tried.',
        files=['pgp/transferrable_keys.py', 'pgp/shortcuts.py', 'pgp/signature.py', 'pgp/packets/packets.py'],
        mechanism=[('grammar', 'pgp/transferrable_keys.py: validate_transferrable_key'),
                   ('parts', 'pgp/transferrable_keys.py: TransferablePublicKey.from_packets, to_packets'),
                   ('public key', 'pgp/transferrable_keys.py: TransferableSecretKey.to_public_key'),
                   ('files', 'pgp/shortcuts.py: read_key, serialize_key, read_key_file, write_key_file')],
        observe_at=['pgp.transferrable_keys.TransferablePublicKey', 'pgp.transferrable_keys.TransferableSecretKey', 'pgp.shortcuts.read_key', 'pgp.shortcuts.serialize_key'],
        bounds='Sequences of up to 5, some of up to 13 (thorough all of up to 6, some of 8) packets over seven kinds with at most 3 (thorough 4) signatures in the enumerated ones; all 256 signature types each; fixed genuine key numbers, user IDs of 1 and attributes of 5 symbolic octets. Three keys of up to 37 and 66 packets.',
        assumptions=STUBS,
    ),
    dict(
        id='P22', harness='h_sigobj.py',
        title='Signature properties say and change exactly their own subpacket',
        statement='Every property of a signature (times, issuers, trust, flags, preferences, notations, revocation reason and so on) is the value of the matching subpacket, the first hashed one before unhashed ones, or nothing where there is none, and expirations count from the time of the signature or of the key they speak of. Setting a property writes that value and leaves every other subpacket, flag and field as it was, so that writing and reading the signature gives it back; setting a list keeps what stays, adds what is new and drops the rest, and moving the creation time does not move the expiration. Signatures are equal, and hash alike, exactly when their octets are the same, and have expired exactly when their time is over.',
        over=['inputs', 'histories'],
        quantifier='every value of each subpacket, its presence in either area, and every value set',
        why='No test sets a property of a signature; the subpackets the tests read hold the few values one tool writes.',
        files=['pgp/signature.py', 'pgp/packets/signature_subpackets.py', 'pgp/transferrable_keys.py'],
        mechanism=[('properties', 'pgp/signature.py: BaseSignature properties, _get_subpacket_values, _update_subpacket_values'),
                   ('lists', 'pgp/signature.py: BaseSignature._set_issuer_key_ids and its like'),
                   ('expiration', 'pgp/signature.py: BaseSignature.signature_expiration_time, expired; pgp/transferrable_keys.py: KeySignature key expiration'),
                   ('from values', 'pgp/signature.py: BaseSignature.__init__')],
        observe_at=['the properties of signatures of keys, user IDs and subkeys', 'to_packet() of the signature'],
        bounds='All 30 properties on signatures of primary keys, subkeys and user IDs; up to two subpackets of the type in either area among up to three others; one or two symbolic octets or 16-bit-scale times each; texts of two letters; lists of up to two new and two old elements. Lists of up to eight elements in four cases.',
        assumptions=STUBS,
    ),
    dict(
        id='P16', harness='h_selfsig.py',
        title='What a key says is what its most recent self-signature says',
        statement='Every attribute of a key, subkey, user ID or user attribute (expiration, preferences, usage flags, revocation reason and so on) is that of its most recent self-signature of the applicable type, or the default where that says nothing; older ones, signatures by other keys and signatures of other types never count, whatever their order, and setting an attribute changes that one signature only. Its current self-signatures and revocations are exactly those of the applicable types made by the key or its subkeys that are not expired, revoked, or known to come from an expired or revoked key, and it is revoked exactly when it has such a revocation. Version 3 keys say what their packet says, and lists handed to callers are never shared between keys.',
        over=['inputs', 'histories'],
        quantifier='every order of signing times, every value of the attribute in each signature, every certification type, time of looking and expiration',
        why='The tests have no key with two competing self-signatures, foreign signatures or revocations, and cannot try all orders of times.',
        files=['pgp/transferrable_keys.py', 'pgp/signature.py'],
        mechanism=[('selection', 'pgp/transferrable_keys.py: SignedMixin.get_most_recent_selfsig, __selfsig_attribute'),
                   ('current', 'pgp/transferrable_keys.py: SignedMixin.current_self_signatures, revocation_signatures, revoked'),
                   ('revoked signatures', 'pgp/signature.py: BaseSignature.revoked, target, expired')],
        observe_at=['the attributes of keys, subkeys, user IDs and user attributes', 'current_self_signatures, revocation_signatures, revoked'],
        bounds='Up to three (thorough four) signatures on the thing asked, at distinct times within 10000 s; one or two issuers each; one symbolic attribute value per signature; revocations with a target that is clear from the issuer. Six signatures in two cases.',
        assumptions=STUBS,
    ),
    dict(
        id='P17', harness='h_validate.py',
        title='Key signatures are valid exactly when genuine, timely and authorised',
        statement='A signature on a key, user ID, user attribute or subkey is found valid exactly when it was made over them by the key it names, after that key was created and not in the future; it stays undecided when that key is not known and is refused otherwise. Key revocations count when made by the key or a revoker named in a signature of its own; certification revocations when made later by the same issuer or a named revoker about a revocable certification, which is the one they designate; and a binding of a subkey that may sign only with a genuine signature back by that subkey. Whether the signing key has expired or been revoked is reported with each, or refused outright in strict mode, and every signature of the whole key is judged for itself.',
        over=['inputs', 'histories'],
        quantifier='every time of signing, of revoking and of looking, every expiration, flag octet and revoker named, and every damage of the stated kinds',
        why='No test validates the signatures of a key; chronology, expiry, revokers and back signatures need combinations of keys, times and damage that cannot be sampled.',
        files=['pgp/signature_verification.py', 'pgp/signature.py', 'pgp/transferrable_keys.py', 'pgp/utils.py'],
        mechanism=[('whole key', 'pgp/signature_verification.py: validate_signatures'),
                   ('one signature', 'pgp/signature_verification.py: validate_signature'),
                   ('chronology', 'pgp/signature_verification.py: check_signature_values'),
                   ('revokers', 'pgp/signature_verification.py: check_revocation_keys, get_revocation_keys'),
                   ('back signatures', 'pgp/signature_verification.py: check_back_signatures'),
                   ('designated target', 'pgp/signature.py: BaseSignature.target')],
        observe_at=['validated, issuer_key_expired and issuer_key_revoked of each signature after pgp.signature_verification.validate_signatures'],
        bounds='One version 4 (certifications also version 3) RSA key with a user ID, an attribute and a subkey, RSA and DSA third parties; up to seven signatures; times within about 100 days around the creation of the keys; all supported hashes where the number is large enough.',
        assumptions=STUBS,
    ),
    dict(
        id='P21', harness='h_userid.py',
        title='User IDs are names, comments and addresses, each exactly what it is',
        statement='The name, comment and address of a user ID written the conventional way, Name (Comment) <address> with any of the three left out and names with special characters in quotes, are exactly those three, for keys and for signatures that carry their signer\'s user ID. Setting one of them changes that one and leaves the others as they were, and the user ID then is the conventional text of the three, which survives being written and read. Every other text is kept as it is and still gives three texts.',
        over=['inputs', 'histories'],
        quantifier='every name, comment and address of the given shapes, including letters beyond ASCII and special characters in names',
        why='The tests read a handful of user IDs in one form each and set none.',
        files=['pgp/user_id.py', 'pgp/transferrable_keys.py', 'pgp/signature.py'],
        mechanism=[('reading', 'pgp/user_id.py: parse_user_id, AddrlistClass'),
                   ('setting', 'pgp/transferrable_keys.py: UserID._make_user_id and the setters'),
                   ('in signatures', 'pgp/signature.py: BaseSignature.issuer_user_name and its like')],
        observe_at=['user_id, user_name, user_comment, user_email', 'issuer_user_name, issuer_user_comment, issuer_user_email', 'to_packet()'],
        bounds='Names of up to three words and seven characters, comments up to three and addresses up to twelve, each character any of its class (ASCII letters and digits, Latin, Greek, CJK ranges, specials in quoted names); other text up to three arbitrary ASCII characters in fixed surroundings. Two user IDs with addresses of 27 characters.',
        assumptions=PLAIN,
    ),
    dict(
        id='P18', harness='h_keyring.py',
        title='Keyrings hold exactly the keys put into them and give each back as it was',
        statement='After any sequence of adding, updating and deleting keys, through whichever open object, a keyring file holds exactly the keys that were put in and not taken out, each packet for packet the same and in the order given, and every key is listed and found under its own fingerprint even where key IDs coincide. Adding a key that is there, updating or deleting one that is not, and every change of a keyring opened for reading only are refused and change nothing; a keyring that does not exist is created empty when asked for and refused otherwise, and existing files are opened as what they are. A database of several keyrings, by default the two of GnuPG in the user\'s folder, puts public keys into the primary or else first public keyring and secret keys into the secret one, changes keys in the first keyring of their kind, and finds exactly the keys that match a fingerprint, a key ID or part of a user ID.',
        over=['histories', 'inputs', 'configurations'],
        quantifier='every sequence of operations up to the length, every choice of key and object, every content of the keys\' user IDs and trust packets, every first octets of a file',
        why='The tests of the repository have none for keyrings; histories over several keys, objects and rings cannot be sampled.',
        files=['pgp/db/gpg.py', 'pgp/transferrable_keys.py'],
        mechanism=[('keyring file', 'pgp/db/gpg.py: Keyring'),
                   ('which file, which kind', 'pgp/db/gpg.py: get_resource, BaseResource._maybe_create'),
                   ('several keyrings', 'pgp/db/gpg.py: GPGDatabase')],
        state=[('offset table', 'where each key of the file begins; read again when the file changed', 'pgp/db/gpg.py: Keyring._update_offset_table'),
               ('file', 'packets of the keys in a row', 'the keyring file')],
        observe_at=['the octets of the keyring file', 'keys(), get_transferrable_key(), the answers of search()'],
        bounds='Four keys (two with the same short key ID, two with the same key ID, version 3 and 4, with and without attribute and subkey), up to three (thorough four) of them in the file; two (thorough three) operations in a row through two objects; up to three rings; one symbolic octet per packet group. Six histories with a key of 18 packets and 11000 octets.',
        assumptions=PLAIN + [
            'Files live in memory in the symbolic run: rename and link are atomic, everything written is read back; replays use a scratch directory.',
            'GDBM files are recognised but not read or written: the C library is not installed.',
        ],
    ),
    dict(
        id='P25', harness='h_ringcrash.py',
        title='Interrupted changes leave the keyring with all old or all new keys',
        statement='When the process is killed, the machine loses power or a file operation fails at any point of creating, adding to, updating, deleting from or reading a keyring, the file afterwards holds exactly the keys from before or exactly those from after that change. The keyring is usable afterwards: the next process, even one with the same process number, is neither kept waiting for good nor refused, and can read and change it. At no point is the file, or any copy of it, readable by others than the keyring itself was.',
        over=['crash_points', 'fault_sequences'],
        quantifier='every file operation as the point of the crash or of the failure, every part of the unsynchronised data that reached the disk',
        why='No test interrupts anything; the point of interruption has to be each of the file operations.',
        files=['pgp/db/gpg.py'],
        mechanism=[('replacing', 'pgp/db/gpg.py: Keyring._write'),
                   ('creating', 'pgp/db/gpg.py: Keyring.create_db'),
                   ('stale locks', 'pgp/db/gpg.py: Lock.is_stale, Lock.take')],
        state=[('lock file', 'host and process number of the holder', '<keyring>.lock'),
               ('temporary file', 'the new content until it is renamed', 'beside the keyring')],
        observe_at=['the octets and the mode of every file in the directory at the crash', 'what the next process reads and can change'],
        bounds='One operation on a keyring of up to three keys (one of them of 11000 octets in some), one crash or one failing operation anywhere in it; after power loss each file not synchronised has its old content, a prefix of the new content or all of it.',
        assumptions=PLAIN + [
            'Files live in memory in the symbolic run: rename, link and unlink are atomic and reach the disk in order, data only when synchronised; a crash stops the process between two file operations. Replays use a scratch directory and raise at the same operation.',
        ],
    ),
    dict(
        id='P26', harness='h_ringrace.py',
        title='Simultaneous uses of a keyring are as if one came after the other',
        statement='However the operations of several processes, or of threads of one process with the same or with their own open objects, on one keyring are interleaved, what each of them gets and what the file holds at the end are what they would be had the operations been done one after another in some order. None of them fails because another is at work, and none waits forever. When all are done nothing is locked and the keyring can be used as before.',
        over=['schedules', 'histories'],
        quantifier='every interleaving at file operations with up to two (thorough three) switches besides those forced by waiting',
        why='No test has two users of a keyring; the interleavings cannot be sampled.',
        files=['pgp/db/gpg.py'],
        mechanism=[('lock', 'pgp/db/gpg.py: Lock'),
                   ('reading the file again', 'pgp/db/gpg.py: Keyring._update_offset_table')],
        state=[('lock file', 'host and process number of the holder', '<keyring>.lock'),
               ('offset table', 'where each key of the file begins', 'pgp/db/gpg.py: Keyring')],
        observe_at=['results of the operations', 'the octets of the keyring file after all are done'],
        bounds='Two processes or threads with one operation each and up to two preemptive switches, or two with two operations, or three with one, and one switch (thorough: one more each); keyrings of up to three keys.',
        assumptions=PLAIN + [
            'Threads are switched at file operations, sleeps and waits for a lock only; files live in memory in the symbolic run and in a scratch directory for replays.',
            'Two processes that take over the same stale lock of a dead process at once are outside.',
        ],
    ),
    dict(
        id='P19', harness='h_keyserver.py',
        title='Keyservers are asked for, believed and given exactly what they should be',
        statement='Requests go to the host, port and path of the server\'s URL, encrypted whenever the URL says so, and ask for exactly the key ID or the terms given. Search results say for every key and each of its user IDs exactly what the server\'s lines say, whatever fields are left out, empty, escaped or added; a key fetched is the one sent, packet for packet; errors of the server are errors. What is submitted is the public key with all its packets except signatures that are marked local or reveal a sensitive revoker, never secret material, and the key itself is left as it was.',
        over=['inputs', 'configurations'],
        quantifier='every term, key ID, time, size, flag and user ID text of the given shapes, every combination of marks on signatures',
        why='The tests have none for keyservers: no request is made and no answer is read.',
        files=['pgp/keyserver/hkp.py', 'pgp/keyserver/__init__.py'],
        mechanism=[('addresses', 'pgp/keyserver/hkp.py: HKPKeyserverClient.__init__, get_url, submit_url'),
                   ('reading results', 'pgp/keyserver/hkp.py: HKPKeyserverClient._read_mr, HKPResult, HKPUserIdResult'),
                   ('fetching and submitting', 'pgp/keyserver/hkp.py: HKPKeyserverClient.get, submit')],
        observe_at=['the requests handed to the HTTP library', 'the results of search(), HKPResult.get() and get()'],
        bounds='13 server URLs; terms of up to three characters and key IDs of up to four (thorough eight) digits; up to three keys with up to two user IDs, times and sizes with two arbitrary digits, user ID texts of up to two arbitrary characters in fixed surroundings; keys with up to two signatures on each part, one or two of them marked. 25 keys and one key with 40 user IDs.',
        assumptions=PLAIN + [
            'The HTTP library (requests) is replaced by one that records the request and gives the answer, in replays too; percent encoding of symbolic text is a model of urllib.parse, replays use the real one.',
        ],
    ),
    dict(
        id='P20', harness='h_pinentry.py',
        title='Passphrase requests give what was entered, and remember only as told',
        statement='A passphrase asked for from the agent or at the terminal is exactly the text that was entered, whatever its characters and however the agent escapes it, splits it over lines or adds other lines, and with confirmation only one that was entered the same way every time. The agent is asked with exactly the texts and options given; its errors and a connection lost at any point are errors, never a passphrase and never an endless wait, and no connection is left open. A passphrase is remembered under its ID only, used again only when that is wanted, and forgotten when told.',
        over=['inputs', 'histories', 'fault_sequences'],
        quantifier='every passphrase and text up to the length, every point at which the connection is lost, every sequence of requests up to the length',
        why='The tests have none for passphrase requests; escapes, splits and lost connections cannot be sampled.',
        files=['pgp/pinentry/gpg_agent.py', 'pgp/pinentry/getpass.py'],
        mechanism=[('agent protocol', 'pgp/pinentry/gpg_agent.py: GPGAgentPinentry.get_response, get_passphrase'),
                   ('terminal', 'pgp/pinentry/getpass.py: GetPassPinentry.get_passphrase')],
        state=[('cache', 'passphrases by ID', 'pgp/pinentry/getpass.py: GetPassPinentry._cache; in the agent')],
        observe_at=['get_passphrase(), clear_passphrase()', 'the commands the agent receives', 'what is shown at the terminal'],
        bounds='Passphrases of up to three (thorough five) characters of any plane; texts of two (thorough three); sequences of three or four requests over two IDs; up to two repeats and three rounds at the terminal. Passphrases of up to 2500 characters and texts of 200, fixed but for two characters.',
        assumptions=PLAIN + [
            'The agent is a model of the GET_PASSPHRASE and CLEAR_PASSPHRASE commands of gpg-agent behind a stand-in for the socket, the terminal a stand-in for getpass, in replays too.',
        ],
    ),
]

NOT_CLAIMED = []
