"""How each property is decided, and what strengthened the checks."""

HOW = {
    'P01': 'Reference framing (hlib/util.py) against the length codecs for symbolic 32-bit lengths, Packet.__bytes__ and both readers for bodies around every length boundary, and both readers on sequences in every mixture of framings; the in-memory and the stream reader must agree.',
    'P02': 'Every codec both ways on symbolic integers and octet strings; bit counts are step functions of the symbolic value, so rounding at any size shows up.',
    'P03': 'Reference bodies of each packet type with symbolic fields; every field is compared, then the packet is written back (old and new format) and rebuilt from its fields.',
    'P04': 'Each signature subpacket type with symbolic contents and flags, in every length encoding, alone and in areas of several; version 3 and 4 packets whole.',
    'P05': 'Armor of symbolic data compared character by character with a reference encoder (CRC-24 computed symbolically); reading back, whole-text grammar variations, one changed character anywhere must be refused.',
    'P06': 'What hashing sees is intercepted at the hash stub: the octets of each signature type over symbolic keys, user IDs, attributes, signatures and documents against RFC 4880 section 5.2.4; equal digests mean equal octets because the hash is collision-free.',
    'P08': 'Both kinds of session key packets made and read with symbolic keys; PKCS #1 blocks are taken apart by the harness; malformed blocks and unsupported algorithms must be refused.',
    'P09': 'The octets hashed for each specifier, compared through the collision-free hash; iteration counts up to the bound, every coded count by number.',
    'P10': 'Modes: the real mode code over the permutation stub against reference modes; ciphers implemented in Python (IDEA, Twofish, Camellia) bit-precisely on chosen keys: inverse laws and known answers.',
    'P11': 'Encrypted data both ways against hlib/crypt.py over the permutation stub; one changed octet anywhere must be refused where integrity is protected.',
    'P12': 'Sequences of packets of 12 kinds, exhaustive to the stated length, against a grammar written in the harness; what is written for every nesting of wrappers.',
    'P07': 'Keys with fixed genuine numbers sign symbolic documents, user IDs and attributes at symbolic times through sign() over the ideal signature tables; every field of the packet is checked, then fields are altered by symbolic masks and verify() must refuse.',
    'P13': 'Secret parts built by the harness for every protection form over the cipher and hash stubs with symbolic numbers, salts, IVs and passphrases; unlock/lock histories.',
    'P15': 'Packet sequences from the grammar and one step beyond it, with symbolic signature types and contents: acceptance is compared with a reference acceptor over those types, then parts, owners and rewritten octets are compared.',
    'P22': 'Signatures with symbolic subpacket values in the hashed and unhashed areas are read into signature objects; every property read, set and cleared is compared with the octets, and everything else in both areas must stay as it was.',
    'P16': 'Keys with up to four signatures of every class (own, by a subkey, foreign; right type, revocation, other) at symbolic distinct times in any order are asked for and given every attribute; the model picks the newest applicable one. Current self-signatures and revocations are compared with a model over symbolic clocks, expirations and flags.',
    'P17': 'Signatures made at symbolic times by ideal signers over the octets RFC 4880 defines are put on a key; the verdict of the library for each is compared with a model of genuineness, chronology, expiry, revocation, designated revokers and back signatures.',
    'P21': 'User IDs are put together from symbolic names, comments and addresses (character classes fixed per position, the characters symbolic), read back, changed part by part and written; the parts and the text are compared with the convention.',
    'P18': 'Keyring files in an in-memory file system (a real scratch directory in replays) hold keys with symbolic user IDs and signature values, among them keys with equal short and long key IDs. The operations, the keys and which of two open objects does them are symbolic choices; after each, the octets of the file are compared with a model, and at the end every way of listing and finding keys is.',
    'P25': 'Each operation runs on an in-memory file system that dies, loses unsynced data or reports an error at a symbolic operation, with symbolic cuts of what was being written; a new process then opens the keyring and must find the keys of before or after and be able to go on.',
    'P19': 'The HTTP library is a stand-in that records requests and gives answers (also in replays). Answers are put together from lines with symbolic digits and characters, escaped by independent code; what each result says is compared with what went into its line, requests with the URL table. Submitted armour is decoded and compared with the packets of the key that may be shown.',
    'P20': 'A model of gpg-agent (commands, cache, escapes, D, S and comment lines) answers behind a stand-in for the socket, delivering in pieces and closing at a symbolic point; passphrases and texts are symbolic in each UTF-8 class. Sequences of requests are compared with a dictionary. A read from a connection that has nothing to give is an endless wait.',
    'P26': 'Up to three processes or threads run on the in-memory file system as threads that hand over at operations on files; where they do is symbolic, up to a number of preemptions. Results and final file must be those of some order of the operations, and nobody may wait for ever.',
    'P14': 'Key packets built with symbolic times and numbers of given bit sizes are parsed and made into keys; fingerprint and key ID are compared with the hash stub applied to the reference octets.',
}

MISSES = [
    'notation-value-length (P04): notations made from fields had only ASCII values; non-ASCII values added.',
    'trailer-length (P06): hashed areas were short; lengths around 65530 added.',
    'elgamal-short-padding (P08): padding lengths below 8 were only tried for RSA; h_early covers both.',
    'A secret key passphrase that is not ASCII (P13) was not covered; added when planting bugs.',
    'sensitive-revoker (P17): revokers were only named with class octet 0x80; 0xc0 added.',
    'selfsig-cache (P16): each key was asked once; signatures are now replaced, moved, added and removed between questions.',
    'bare-key-offset (P18): no keyring held a key of a single packet; added.',
    'armor-pages (P05): only short bodies were symbolic; bodies up to 12000 octets added, and large sizes everywhere a length or a buffer is handled (user IDs, attributes, passphrases, secret numbers, documents, keyrings with 25 keys, answers with 40 user IDs).',
    'Changes made by a mutation tool that survived: equality of user attributes (P03, h_differ), what compressors return piecemeal (P11, h_chunks), the default version of a signature made by a message (P07), stray user ID lines in key server answers (P19); each is now a case.',
]
