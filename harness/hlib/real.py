"""Packets and objects of the fixed keys in hlib/numbers.py."""
from hlib import numbers
from hlib.util import be, mpi, new_frame
from pgp.packets import packets as pk

KEYS = {'rsa': numbers.RSA_A, 'rsa_b': numbers.RSA_B, 'rsa_s': numbers.RSA_S,
        'rsa_l': numbers.RSA_L, 'dsa': numbers.DSA_A, 'dsa_b': numbers.DSA_B,
        'elg': numbers.ELG_A, 'elg_b': numbers.ELG_B}
PUBLIC = {1: 'ne', 2: 'ne', 3: 'ne', 16: 'pgy', 20: 'pgy', 17: 'pqgy'}
SECRET = {1: 'dpqu', 2: 'dpqu', 3: 'dpqu', 16: 'x', 20: 'x', 17: 'x'}
TIME = 1400000000


def mpis(name, letters):
    return b''.join([mpi(KEYS[name][c]) for c in letters])


def public_body(alg, name, time=TIME, version=4, days=0):
    body = be(version, 1) + be(time, 4)
    if version < 4:
        body += be(days, 2)
    return body + be(alg, 1) + mpis(name, PUBLIC[alg])


def secret_part(alg, name):
    return mpis(name, SECRET[alg])


def secret_body(alg, name, time=TIME, version=4, days=0):
    """Not protected."""
    part = secret_part(alg, name)
    return (public_body(alg, name, time, version, days) + b'\x00' + part +
            be(sum(bytearray(part)) & 0xffff, 2))


def packet(tag, body):
    return pk.packet_from_packet_data(bytearray(new_frame(tag, body)), 0)[1]


def number(octets):
    v = 0
    for b in bytearray(octets):
        v = (v << 8) | b
    return v
