"""Subpackets of every property of a signature, and values to set."""
import datetime
import re

from pgp.packets import packets as pk
from pgp.signature import BaseSignature, Notation, RevocationKeyInfo
from hlib.keys import sig4_body, subpacket
from hlib.util import be, mpi, new_frame

MADE = 1400000000
KEY_MADE = 1390000000
FLAGS = ['may_certify_others', 'may_sign_data', 'may_encrypt_comms',
         'may_encrypt_storage', 'may_have_been_split', 'may_be_used_for_auth',
         None, 'may_have_multiple_owners']


def when(t):
    return datetime.datetime.fromtimestamp(t)


def ascii_(sx, name, n):
    return b''.join([be(sx.int('%s%d' % (name, i), 0x41, 0x5a), 1)
                     for i in range(n)])


def algorithms(sx, tag):
    data = sx.bytes(tag, 2)
    return data, list(bytearray(data))


def back_signature(sx, tag):
    body = sig4_body(0x19, 17, 2, subpacket(2, be(MADE, 4)),
                     subpacket(16, b'abcdefgh'), sx.bytes(tag, 2),
                     mpi(0x77) + mpi(0x55))
    return body


def item(sx, prop, tag):
    """(subpacket type, octets, value to read)."""
    if prop == 'creation_time':
        t = sx.int(tag, MADE - 10000, MADE + 10000)
        return 2, be(t, 4), when(t)
    if prop == 'signature_expiration_time':
        s = sx.int(tag, 1, 5000000)
        return 3, be(s, 4), when(MADE) + datetime.timedelta(seconds=s)
    if prop in ('key_expiration_time', 'expiration_time'):
        s = sx.int(tag, 1, 5000000)
        return 9, be(s, 4), when(KEY_MADE) + datetime.timedelta(seconds=s)
    if prop == 'exportable':
        v = sx.int(tag, 0, 1)
        return 4, be(v, 1), v == 1
    if prop == 'revocable':
        v = sx.int(tag, 0, 1)
        return 7, be(v, 1), v == 1
    if prop == 'primary_user_id':
        v = sx.int(tag, 0, 1)
        return 25, be(v, 1), v == 1
    if prop == 'trust_depth':
        data = sx.bytes(tag, 2)
        return 5, data, bytearray(data)[0]
    if prop == 'trust_amount':
        data = sx.bytes(tag, 2)
        return 5, data, bytearray(data)[1]
    if prop == 'regular_expressions':
        text = sx.choose(tag, ['a', '^<.*@b[.]c>$', '', 'ab|c'])
        return 6, text.encode('ascii') + b'\x00', text
    if prop == 'preferred_symmetric_algorithms':
        data, v = algorithms(sx, tag)
        return 11, data, v
    if prop == 'preferred_hash_algorithms':
        data, v = algorithms(sx, tag)
        return 21, data, v
    if prop == 'preferred_compression_algorithms':
        data, v = algorithms(sx, tag)
        return 22, data, v
    if prop == 'revocation_keys':
        sensitive = sx.int(tag + ' sensitive', 0, 1)
        alg = sx.int(tag + ' alg', 0, 255)
        fp = bytes(bytearray(range(18))) + sx.bytes(tag, 2)
        return 12, be(0x80 + 0x40 * sensitive, 1) + be(alg, 1) + fp, \
            (alg, hexa(fp), sensitive == 1)
    if prop == 'issuer_key_ids':
        data = b'abcdef' + sx.bytes(tag, 2)
        return 16, data, hexa(data)
    if prop == 'notations':
        text = ascii_(sx, tag, 2)
        human = sx.choose(tag + ' human', [0, 1])
        value = ascii_(sx, tag + ' value', 2)
        name = text[:1] + b'@' + text[1:]
        return 20, be(0x80 * human, 1) + b'\0\0\0' + be(3, 2) + be(2, 2) + \
            name + value, (text[:1].decode('ascii'), text[1:].decode('ascii'),
                           value.decode('ascii') if human else value,
                           human == 1)
    if prop == 'key_server_should_not_modify':
        v = sx.int(tag, 0, 1)
        return 23, be(0x80 * v, 1), v == 1
    if prop == 'preferred_key_server':
        text = ascii_(sx, tag, 2)
        return 24, text, text.decode('ascii')
    if prop == 'policy_uri':
        text = ascii_(sx, tag, 2)
        return 26, text, text.decode('ascii')
    if prop in FLAGS:
        v = sx.int(tag, 0, 255)
        return 27, be(v, 1), ((v >> FLAGS.index(prop)) & 1) == 1
    if prop == 'issuer_user_id':
        text = ascii_(sx, tag, 2)
        return 28, text, text.decode('ascii')
    if prop == 'revocation_code':
        data = sx.bytes(tag, 1) + ascii_(sx, tag + ' text', 2)
        return 29, data, bytearray(data)[0]
    if prop == 'revocation_reason':
        data = sx.bytes(tag, 1) + ascii_(sx, tag + ' text', 2)
        return 29, data, data[1:].decode('ascii')
    if prop == 'supports_modification_detection':
        v = sx.int(tag, 0, 1)
        return 30, be(v, 1), v == 1
    if prop == 'embedded_signatures':
        body = back_signature(sx, tag)
        return 32, body, body
    raise ValueError(prop)


LISTS = ('regular_expressions', 'revocation_keys', 'issuer_key_ids',
         'notations', 'embedded_signatures')


def hexa(octets):
    return ''.join(['{0:02X}'.format(b) for b in bytearray(octets)])


def plain(prop, v):
    """An element of a list, to be compared."""
    if prop == 'regular_expressions':
        return v.pattern
    if prop == 'revocation_keys':
        return (v.public_key_algorithm, v.fingerprint, v.sensitive)
    if prop == 'notations':
        return (v.name, v.namespace, v.value, v.human_readable)
    if prop == 'embedded_signatures':
        return bytes(v.to_packet().content)
    return v


def given(prop, v, target):
    """The object to set for a value."""
    if prop == 'regular_expressions':
        return re.compile(v)
    if prop == 'revocation_keys':
        return RevocationKeyInfo(v[0], v[1], v[2])
    if prop == 'notations':
        return Notation(v[1], v[0], v[2], v[3])
    if prop == 'embedded_signatures':
        p = pk.packet_from_packet_data(bytearray(new_frame(2, v)), 0)[1]
        return BaseSignature.from_packet(p, target)
    return v


def same_value(sx, prop, a, b):
    if prop in ('revocation_keys', 'notations'):
        return sx.all(*[sx.eq(x, y) for x, y in zip(a, b)])
    if isinstance(b, list):
        a = list(a)
        if len(a) != len(b):
            return False
        return sx.all(*[x == y for x, y in zip(a, b)])
    return sx.eq(a, b)
