From 54127ac81a3fc7a593d7ffcf3147d282abf61ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 001/111] fix: compute exact bit lengths instead of a rounded
 float logarithm

---
 pgp/packets/packets.py |  7 +++----
 pgp/utils.py           | 13 +++++--------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 6fe02af..334a42a 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -14,7 +14,6 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
-import math
 import os
 import time
 import warnings
@@ -968,9 +967,9 @@ class SecretKeyPacket(PublicKeyPacket):
         elif version in (2, 3):
             encrypted_data = bytearray()
             for i in values:
-                bits_required = int(math.floor(float(math.log(i, 2)))) + 1
-                bytes_required = int(math.ceil(bits_required / 8.0))
-                encrypted_data.extend(utils.int_to_2byte(bytes_required))
+                bits_required = i.bit_length()
+                bytes_required = (bits_required + 7) // 8
+                encrypted_data.extend(utils.int_to_2byte(bits_required))
                 cipher.sync()
                 mpi_value_bytes = utils.int_to_bytes(i)
                 if len(mpi_value_bytes) < bytes_required:
diff --git a/pgp/utils.py b/pgp/utils.py
index 8378b9e..0d6c839 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -113,8 +113,7 @@ def sign_hash(pub_algorithm_type, secret_key, hash_, k=None):
         return secret_key.sign(sig_string, k)
     elif pub_algorithm_type == 17:
         q = secret_key.q
-        qbits = int(math.floor(float(math.log(q, 2)))) + 1
-        qbytes = int(math.ceil(qbits / 8.0))
+        qbytes = (q.bit_length() + 7) // 8
         if k is None:
             k = random.StrongRandom().randint(1, q - 1)
 
@@ -139,8 +138,7 @@ def verify_hash(pub_algorithm_type, public_key, hash_, values):
     elif pub_algorithm_type == 17:
         # DSA
         q = public_key.q
-        qbits = int(math.floor(float(math.log(q, 2)))) + 1
-        qbytes = int(math.ceil(qbits / 8.0))
+        qbytes = (q.bit_length() + 7) // 8
 
         digest = hash_.digest()
         # Discard empty leading bytes
@@ -560,8 +558,7 @@ def mpi_to_int(bytes_, offset):
 
 
 def int_to_bytes(i):
-    bits_required = int(math.floor(float(math.log(i, 2)))) + 1
-    bytes_required = int(math.ceil(bits_required / 8.0))
+    bytes_required = (i.bit_length() + 7) // 8 or 1
     result = bytearray(
         [(i >> (j * 8)) & 0xff
          for j in range(bytes_required - 1, -1, -1)
@@ -644,8 +641,8 @@ def int_to_mpi(i):
         raise ValueError(i)
     elif i == 0:
         return bytearray([0, 0])
-    bits_required = int(math.floor(float(math.log(i, 2)))) + 1
-    bytes_required = int(math.ceil(bits_required / 8.0))
+    bits_required = i.bit_length()
+    bytes_required = (bits_required + 7) // 8
     result = bytearray() + int_to_2byte(bits_required)
     for b in range(bytes_required - 1, -1, -1):
         result.append((i >> (b * 8)) & 0xff)
-- 
2.43.0


From 210fa170c8868107b89cfaad7108bd209693202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 002/111] fix: write a four-octet length for old format packets
 of 16 MiB and more

---
 pgp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 0d6c839..f66f91c 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -762,7 +762,7 @@ def old_packet_length_to_bytes(data_length):
         length_type = 1
         length_bytes = [data_length >> 8,
                         data_length & 0xff]
-    elif data_length < 16777216:
+    elif data_length <= MAX_PACKET_LENGTH:
         length_type = 2
         length_bytes = [data_length >> 24,
                         (data_length >> 16) & 0xff,
-- 
2.43.0


From 2f219e05c05701726aba856275bc6029d58dfd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 003/111] fix: write the length octet of new format packets
 with an empty body

---
 pgp/packets/packets.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 334a42a..1e57b09 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -128,18 +128,20 @@ class Packet(object):
             offset = 0
             tag += 0x40 + packet_type
             result = bytearray([tag])
-            while remaining:
-                # "An implementation MAY use Partial Body Lengths for data
-                #  packets, be they literal, compressed, or encrypted."
-                allow_partial = self.type in constants.DATA_TYPES
+            # "An implementation MAY use Partial Body Lengths for data
+            #  packets, be they literal, compressed, or encrypted."
+            allow_partial = self.type in constants.DATA_TYPES
+            while True:
+                # Every packet carries a length, even with an empty body.
                 packet_length_bytes, remaining = \
                     utils.new_packet_length_to_bytes(
-                            data_length,
+                            remaining,
                             allow_partial)
                 result.extend(packet_length_bytes)
                 result.extend(data[offset:data_length - remaining])
                 offset = data_length - remaining
-
+                if not remaining:
+                    break
         else:
             tag += (packet_type << 2)
             length_type, length_bytes = \
-- 
2.43.0


From 97fb08193a0e35f6b0c91fb364065da231f0bc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 004/111] fix: read the packet tag once when a streamed packet
 has partial bodies

---
 pgp/packets/packets.py | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 1e57b09..f201c2b 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1623,31 +1623,25 @@ def packet_from_packet_stream(fh):
 
     packet_data = bytearray()
     incomplete = True
-    previous_tag = None
-    previous_header_type = None
+    tag = None
     while incomplete:
-        first = ord(fh.read(1))
-        tag = first & 0x3f
-        if previous_tag is not None:
-            if tag != previous_tag:
-                # TODO: complete message
-                raise ValueError()
-        previous_tag = tag
-        header_type = (
-                constants.NEW_PACKET_HEADER_TYPE
-                if bool(first & 0x40)
-                else constants.OLD_PACKET_HEADER_TYPE
-            )
-        if previous_header_type is not None:
-            if header_type != previous_header_type:
-                # TODO: complete message
-                raise ValueError()
+        if tag is None:
+            # Only the first of a series of partial bodies has a tag.
+            first = ord(fh.read(1))
+            tag = first & 0x3f
+            header_type = (
+                    constants.NEW_PACKET_HEADER_TYPE
+                    if bool(first & 0x40)
+                    else constants.OLD_PACKET_HEADER_TYPE
+                )
+            if header_type == constants.OLD_PACKET_HEADER_TYPE:
+                tag >>= 2
+                fh.seek(fh.tell() - 1)
+
         if header_type == constants.NEW_PACKET_HEADER_TYPE:
             data_length, incomplete = \
                 utils.new_packet_length_from_stream(fh)
         else:
-            tag >>= 2
-            fh.seek(fh.tell() - 1)
             data_length = utils.old_packet_length_from_stream(fh)
             incomplete = False
 
-- 
2.43.0


From e52382bb803b9d8f268f1be4e1cc495948851281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 005/111] fix: do not read the header again between partial
 bodies of a tag 0 packet

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index f201c2b..536c992 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1663,7 +1663,7 @@ def packet_from_packet_data(data, offset=0):
     incomplete = True
     tag = None
     while incomplete:
-        if not tag:
+        if tag is None:
             tag = data[offset] & 0x3f
             header_type = (
                     constants.NEW_PACKET_HEADER_TYPE
-- 
2.43.0


From 7f001f5d24f4ad6c09711357405bc73b2075aebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 006/111] fix: read indeterminate length packets from streams

---
 pgp/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index f66f91c..db90522 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -661,8 +661,9 @@ def old_packet_length_from_stream(fh):
     elif length_type == 2:
         length = long_to_int(bytearray(fh.read(4)), 0)
     else:
-        # with & 3 and the other cases, this has to be 3.
-        raise ValueError
+        # with & 3 and the other cases, this has to be 3: an indeterminate
+        # length, so the packet lasts until the end of the stream.
+        length = -1
     return length
 
 
-- 
2.43.0


From 0a418aa7aa4e53e345bdd8057ee0f57249b4a536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 007/111] fix: recognise the wildcard key ID of an encrypted
 session key

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 536c992..0670eed 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -166,7 +166,7 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
         #  card" or "speculative" Key ID.  In this case, the receiving
         #  implementation would try all available private keys, checking for a
         #  valid decrypted session key."
-        if key_id == b'0' * 16:
+        if key_id == '0' * 16:
             key_id = None
         offset += 8
         public_key_algorithm = int(data[offset])
-- 
2.43.0


From 528d68c48b1a6b1370b605a9fc85573a2589e4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 008/111] fix: restore leading zero octets of an RSA encrypted
 session key

---
 pgp/packets/packets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 0670eed..5af5b02 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -218,8 +218,10 @@ class PublicKeyEncryptedSessionKeyPacket(Packet):
             ems.append(bytes(em))
 
         if len(ems) == 1:
-            # RSA takes a single argument.
-            em = ems[0]
+            # RSA takes a single argument, as long as the modulus. The MPI
+            # has lost any leading zero octets.
+            modulus_length = (secret_key_obj.size() + 8) // 8
+            em = ems[0].rjust(modulus_length, b'\x00')
         else:
             # ElGamal takes a 2-tuple.
             em = tuple(ems)
-- 
2.43.0


From 766eb9637b128404549ddeff9234083b613b18e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 009/111] fix: restore leading zero octets of RSA signatures
 before verifying

---
 pgp/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index db90522..fd8cd4e 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -127,7 +127,9 @@ def sign_hash(pub_algorithm_type, secret_key, hash_, k=None):
 def verify_hash(pub_algorithm_type, public_key, hash_, values):
     if pub_algorithm_type in (1, 3):
         # RSA
-        s = long_to_bytes(values[0])
+        # The MPI has lost any leading zero octets.
+        s = long_to_bytes(values[0]).rjust((public_key.size() + 8) // 8,
+                                           b'\x00')
         return PKCS1_v1_5.new(public_key).verify(hash_, s)
     elif pub_algorithm_type == 20:
         # ELG
-- 
2.43.0


From be7ae77cfb7a6855e556f18d38af5ed9054eeb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 010/111] fix: do not print the secret ElGamal signature nonce

---
 pgp/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index fd8cd4e..51787c5 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -106,7 +106,6 @@ def sign_hash(pub_algorithm_type, secret_key, hash_, k=None):
                 k = random.StrongRandom().randint(1, secret_key.p - 1)
                 if GCD(k, secret_key.p - 1) == 1:
                     break
-            print(k)
         # TODO: Remove dependence on undocumented method
         sig_string = PKCS1_v1_5.EMSA_PKCS1_V1_5_ENCODE(
                             hash_, secret_key.size())
-- 
2.43.0


From aa952993b8f234ed19c4ef01dba55b7d1001d1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 011/111] fix: keep all eight octets of a version 3 signature
 key ID

---
 pgp/packets/packets.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 5af5b02..581161c 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -332,7 +332,7 @@ class SignaturePacket(Packet):
             creation_time = utils.long_to_int(data, offset)
             offset += 4
 
-            key_id = utils.bytearray_to_hex(data, offset, 8)
+            key_id = utils.bytearray_to_hex(data, offset, 16)
             offset += 8
 
             public_key_algorithm = data[offset]
@@ -428,7 +428,10 @@ class SignaturePacket(Packet):
         if version in (2, 3):
             self.creation_time = creation_time
             self.key_id = key_id
+            self.hashed_subpackets = []
+            self.unhashed_subpackets = []
         elif version >= 4:
+
             if hashed_subpackets is None:
                 hashed_subpackets = []
             if unhashed_subpackets is None:
@@ -477,7 +480,7 @@ class SignaturePacket(Packet):
             data.append(0x05)
             data.append(self.signature_type)
             data.extend(utils.int_to_4byte(self.creation_time))
-            data.extend(self.key_id)
+            data.extend(utils.hex_to_bytes(self.key_id, 8))
             data.append(self.public_key_algorithm)
             data.append(self.hash_algorithm)
         else:
-- 
2.43.0


From c6c95ae9164a133c6558e39c884174e7e280d398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 012/111] fix: terminate the pattern of a regular expression
 subpacket

---
 pgp/packets/signature_subpackets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 6c26b6c..9981c2b 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -131,6 +131,7 @@ class RegularExpressionSubpacket(SignatureSubpacket):
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) > 0
         assert sub_data[-1] == 0
+        # "The regular expression is stored as a null-terminated string."
         pattern = sub_data[:-1].decode('ascii', 'replace')
         return cls(critical, pattern)
 
@@ -141,7 +142,8 @@ class RegularExpressionSubpacket(SignatureSubpacket):
 
     @property
     def content(self):
-        return bytearray(self.pattern.encode('ascii', 'replace'))
+        return bytearray(self.pattern.encode('ascii', 'replace') + b'\x00')
+
 
 
 class RevocableSubpacket(SignatureSubpacket):
-- 
2.43.0


From 71ef509939458c06cfc7646abacf20b65df8d7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 013/111] fix: parse and write revocation key subpackets

---
 pgp/packets/signature_subpackets.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 9981c2b..fae1f4f 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -240,11 +240,11 @@ class RevocationKeySubpacket(SignatureSubpacket):
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
         assert len(sub_data) == 22
-        tag = sub_data
+        tag = int(sub_data[0])
         assert tag & 0x80
         sensitive = bool(tag & 0x40)
         public_key_algorithm = int(sub_data[1])
-        fingerprint = utils.bytearray_to_hex(sub_data, 2, 20)
+        fingerprint = utils.bytearray_to_hex(sub_data, 2, 40)
         return cls(critical, fingerprint, public_key_algorithm,
                    sensitive=sensitive)
 
@@ -253,7 +253,7 @@ class RevocationKeySubpacket(SignatureSubpacket):
 
         if isinstance(fingerprint, (bytes, bytearray)):
             assert len(fingerprint) == 20
-            fingerprint = utils.bytearray_to_hex(fingerprint, 0, 20)
+            fingerprint = utils.bytearray_to_hex(fingerprint, 0, 40)
         else:
             assert len(fingerprint) == 40
         SignatureSubpacket.__init__(
@@ -265,13 +265,12 @@ class RevocationKeySubpacket(SignatureSubpacket):
     @property
     def content(self):
         tag = 0x80 + (0x40 if self.sensitive else 0x00)
-        data = bytearray(
-                        [tag, int(self.public_key_algorithm)] +
-                        utils.bytearray_to_hex(self.fingerprint, 20)
-                    )
+        data = bytearray([tag, int(self.public_key_algorithm)])
+        data.extend(utils.hex_to_bytes(self.fingerprint, 20))
         return data
 
 
+
 class IssuerSubpacket(SignatureSubpacket):
 
     @classmethod
-- 
2.43.0


From d0a590c18859a6489d6026abe77156406b7a5feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 014/111] fix: keep the whole fingerprint of an additional
 recipient request

---
 pgp/packets/signature_subpackets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index fae1f4f..16dde3b 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -189,7 +189,7 @@ class AdditionalRecipientRequestSubpacket(SignatureSubpacket):
     def from_subpacket_content(cls, type_, critical, sub_data):
         strong_request = bool(sub_data[0] & 0x80)
         public_key_algorithm = sub_data[1]
-        fingerprint = utils.bytearray_to_hex(sub_data, 2, 20)
+        fingerprint = utils.bytearray_to_hex(sub_data, 2, 40)
         return cls(critical, strong_request, public_key_algorithm,
                    fingerprint)
 
-- 
2.43.0


From 9c5c5a93e3affa0d3097e3ff8ec8f0e2ae92fc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 015/111] fix: keep the whole digest of a signature target
 subpacket

---
 pgp/packets/signature_subpackets.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 16dde3b..f7a16ee 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -550,7 +550,7 @@ class TargetSubpacket(SignatureSubpacket):
             hash_length = len(sub_data) - 2
         else:
             assert hash_length == len(sub_data) - 2
-        hash_ = utils.bytearray_to_hex(sub_data, 2, len(sub_data) - 2)
+        hash_ = utils.bytearray_to_hex(sub_data, 2)
         return cls(critical, public_key_algorithm, hash_algorithm, hash_,
                    hash_length=hash_length)
 
@@ -573,11 +573,13 @@ class TargetSubpacket(SignatureSubpacket):
         if hash_length is None:
             hash_length = self.hash_length
 
-        return bytearray([
+        data = bytearray([
                             int(self.public_key_algorithm),
                             int(self.hash_algorithm),
-                        ] + utils.hex_to_bytes(self.hash, hash_length)
-                    )
+                        ])
+        data.extend(utils.hex_to_bytes(self.hash, hash_length))
+        return data
+
 
 
 class EmbeddedSignatureSubpacket(SignatureSubpacket):
-- 
2.43.0


From d2880488473d0606736ae8c665d891c54b107597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 016/111] fix: read the human-readable flag of notation
 subpackets

---
 pgp/packets/signature_subpackets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index f7a16ee..72d5d91 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -302,7 +302,7 @@ class NotationSubpacket(SignatureSubpacket):
         offset += 4
         assert not any(flags[1:])
         assert not flags[0] & 0x7f
-        human_readable = 0x80
+        human_readable = bool(flags[0] & 0x80)
         name_length = utils.short_to_int(sub_data, offset)
         offset += 2
         value_length = utils.short_to_int(sub_data, offset)
-- 
2.43.0


From caf8dc2271d92d479e613fc31a3e911443a0b7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 017/111] fix: keep the exact octets of parsed signature
 subpackets

---
 pgp/packets/signature_subpackets.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 72d5d91..0a8e08c 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -23,6 +23,11 @@ from pgp.packets import constants
 
 class SignatureSubpacket(object):
 
+    # The octets this subpacket was parsed from, and what its fields were
+    # encoded as at the time.
+    _parsed_data = None
+    _parsed_encoding = None
+
     @classmethod
     def from_subpacket_content(cls, type_, critical, sub_data):
         return cls(type_, critical)
@@ -31,6 +36,10 @@ class SignatureSubpacket(object):
         self.type = type_
         self.critical = critical
 
+    def keep_parsed_data(self, data):
+        self._parsed_data = bytes(data)
+        self._parsed_encoding = self._encode()
+
     def __eq__(self, other):
         return (
             self.__class__ == other.__class__
@@ -45,6 +54,14 @@ class SignatureSubpacket(object):
         return bytearray()
 
     def __bytes__(self):
+        # Signatures cover the exact octets of their subpackets, some of which
+        # the fields can't represent: keep them unless the fields are changed.
+        result = self._encode()
+        if result == self._parsed_encoding:
+            result = self._parsed_data
+        return result
+
+    def _encode(self):
         data = self.content
         data_len = len(data) + 1  # For the type
         result = bytearray()
@@ -643,6 +660,7 @@ SIGNATURE_SUBPACKET_TYPES = {
 
 
 def signature_subpacket_from_data(data, offset=0):
+    start = offset
     offset, length, partial = utils.new_packet_length(data, offset)
     # TODO: smarter error
     assert not partial
@@ -654,7 +672,7 @@ def signature_subpacket_from_data(data, offset=0):
     sub_data = data[offset:offset + length]
     offset += length
     cls = SIGNATURE_SUBPACKET_TYPES.get(subpacket_type, SignatureSubpacket)
-    return (
-        cls.from_subpacket_content(subpacket_type, critical, sub_data),
-        offset
-        )
+    subpacket = cls.from_subpacket_content(subpacket_type, critical, sub_data)
+    subpacket.keep_parsed_data(data[start:offset])
+    return subpacket, offset
+
-- 
2.43.0


From 6c11e2b65f99bca17b9be692f5a61a52ad010719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 018/111] fix: reject signature subpackets that overrun their
 area or have no type

---
 pgp/packets/packets.py              | 5 +++++
 pgp/packets/signature_subpackets.py | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 581161c..44502ac 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -369,6 +369,8 @@ class SignaturePacket(Packet):
             while offset < subpacket_end:
                 hashed_subpacket, offset = \
                     signature_subpacket_from_data(data, offset)
+                if offset > subpacket_end:
+                    raise ValueError("Signature subpacket is too long")
                 hashed_subpackets.append(hashed_subpacket)
 
             # followed by subpackets
@@ -379,8 +381,11 @@ class SignaturePacket(Packet):
             while offset < subpacket_end:
                 unhashed_subpacket, offset = \
                     signature_subpacket_from_data(data, offset)
+                if offset > subpacket_end:
+                    raise ValueError("Signature subpacket is too long")
                 unhashed_subpackets.append(unhashed_subpacket)
 
+
             hash2 = data[offset:offset + 2]
             offset += 2
         else:
diff --git a/pgp/packets/signature_subpackets.py b/pgp/packets/signature_subpackets.py
index 0a8e08c..280bcad 100644
--- a/pgp/packets/signature_subpackets.py
+++ b/pgp/packets/signature_subpackets.py
@@ -664,6 +664,8 @@ def signature_subpacket_from_data(data, offset=0):
     offset, length, partial = utils.new_packet_length(data, offset)
     # TODO: smarter error
     assert not partial
+    if length < 1:
+        raise ValueError("Signature subpacket has no type")
     tag = data[offset]
     subpacket_type = tag & 0x7f
     critical = bool(tag & 0x80)
-- 
2.43.0


From 237cb85ac9a5b9bc378bae5b24406b9831d779a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 019/111] fix: hash the hashed subpackets of a signature packet

---
 pgp/packets/packets.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 44502ac..8a413d1 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -511,9 +511,7 @@ class SignaturePacket(Packet):
             result.append(self.public_key_algorithm)
             result.append(self.hash_algorithm)
             hashed_subpacket_data = bytearray()
-            for sp in self.subpackets:
-                if not sp.hashed:
-                    continue
+            for sp in self.hashed_subpackets:
                 hashed_subpacket_data.extend(bytes(sp))
 
             hashed_subpacket_length = len(hashed_subpacket_data)
-- 
2.43.0


From 0a0ed545e5eaf3ad5c5bd0838c3df10d82984f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 020/111] fix: compare the time and issuer of version 3
 signatures

---
 pgp/packets/packets.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 8a413d1..a59d10f 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -456,6 +456,9 @@ class SignaturePacket(Packet):
             and self.hash_algorithm == other.hash_algorithm
             and self.hash2 == other.hash2
             and self.signature_values == other.signature_values
+            and (self.version >= 4
+                 or (self.creation_time == other.creation_time
+                     and self.key_id == other.key_id))
             and set(self.hashed_subpackets) == set(other.hashed_subpackets)
             and set(self.unhashed_subpackets) == set(other.unhashed_subpackets)
             )
-- 
2.43.0


From d1e4b10a67adf4d1795478c200c3c59905a020a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 021/111] fix: use 32 octet keys for 256-bit Twofish

---
 pgp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 51787c5..257b78d 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -85,7 +85,7 @@ symmetric_cipher_key_lengths = {
     7: 16,  # AES-128
     8: 24,  # AES-192
     9: 32,  # AES-256
-    10: 16,  # Twofish-256
+    10: 32,  # Twofish-256
     11: 16,  # Camellia-128
     12: 24,  # Camellia-192
     13: 32,  # Camellia-256
-- 
2.43.0


From 8142adf72aba1fe5879075df12f87bb24f8df46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 022/111] fix: always hash the whole salt and passphrase of an
 iterated S2K

---
 pgp/s2k.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pgp/s2k.py b/pgp/s2k.py
index 9624abd..b1b0334 100644
--- a/pgp/s2k.py
+++ b/pgp/s2k.py
@@ -51,7 +51,10 @@ class SimpleS2K(object):
         count = self.count
         if count is None:
             count = len2
-
+        # "If the octet count is less than the size of the salt plus
+        #  passphrase, the full salt plus passphrase will be hashed even
+        #  though that is greater than the octet count."
+        count = max(count, len2)
         while (pass_ * hash_length) < required_length:
             # "If the hash size is less than the key size, multiple instances
             #  of the hash context are created -- enough to produce the
-- 
2.43.0


From e7dee95f39f2827a5a601e2cdfcd1eb15b43b3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 023/111] fix: write GnuPG S2K specifiers as they were read

---
 pgp/s2k.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pgp/s2k.py b/pgp/s2k.py
index b1b0334..2f28eb2 100644
--- a/pgp/s2k.py
+++ b/pgp/s2k.py
@@ -164,7 +164,8 @@ class GnuPGS2K(SimpleS2K):
                         "Unexpected serial number length: %d" %
                         serial_len)
 
-            serial_number = utils.bytearray_to_hex(data, offset, serial_len)
+            serial_number = utils.bytearray_to_hex(data, offset,
+                                                   serial_len * 2)
             offset += serial_len
         else:
             raise ValueError(
@@ -194,11 +195,10 @@ class GnuPGS2K(SimpleS2K):
         pass
 
     def __bytes__(self):
-        result = bytearray(
-                [self.hash_algorithm] +
-                b'GNU' +
-                [self.mode - 1000]
-                )
+        result = bytearray([101, self.hash_algorithm])
+        result.extend(b'GNU')
+        result.append(self.mode - 1000)
+
         if self.mode == 1002 and self.serial_number is not None:
             result.append(self.serial_number_length)
             result.extend(utils.hex_to_bytes(self.serial_number,
-- 
2.43.0


From 1c264e2798b0af9d4491b22455243a178b5c0f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 024/111] fix: read secret keys that have no S2K specifier

---
 pgp/packets/packets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index a59d10f..b838e0b 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -861,6 +861,7 @@ class SecretKeyPacket(PublicKeyPacket):
         s2k_usage = int(data[offset])
         offset += 1
         s2k_specification = None
+        iv = bytearray()
         if s2k_usage == 0:
             # not encrypted
             symmetric_algorithm = 0
@@ -905,7 +906,7 @@ class SecretKeyPacket(PublicKeyPacket):
                  prime_p=None, prime_q=None, multiplicative_inverse_u=None,
                  exponent_x=None):
 
-        if None in (s2k_specification, iv, encrypted_portion):
+        if None in (iv, encrypted_portion):
             raise ValueError
         Packet.__init__(self, header_type, constants.SECRET_KEY_PACKET_TYPE)
         self.version = version
@@ -1124,7 +1125,7 @@ class SecretSubkeyPacket(SecretKeyPacket):
                  prime_p=None, prime_q=None, multiplicative_inverse_u=None,
                  exponent_x=None):
 
-        if None in (s2k_specification, iv, encrypted_portion):
+        if None in (iv, encrypted_portion):
             raise ValueError
         Packet.__init__(self, header_type,
                         constants.SECRET_SUBKEY_PACKET_TYPE)
-- 
2.43.0


From 67545c2ef5b830c07efffc76cd52167ca3f7c379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:17 +0000
Subject: [PATCH 025/111] fix: write secret keys whose secret part is stored
 elsewhere

---
 pgp/packets/packets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index b838e0b..0c542a6 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -855,6 +855,8 @@ class PublicSubkeyPacket(PublicKeyPacket):
 
 class SecretKeyPacket(PublicKeyPacket):
 
+    passphrase = None
+
     @classmethod
     def _values_from_packet_contents(cls, data):
         offset, values = PublicKeyPacket._values_from_packet_contents(data)
@@ -1087,7 +1089,7 @@ class SecretKeyPacket(PublicKeyPacket):
             data.extend(bytes(self.s2k_specification))
         if self.symmetric_algorithm != 0:
             data.extend(self.iv)
-        if self.encrypted_portion:
+        if self.encrypted_portion or self.passphrase is None:
             data.extend(self.encrypted_portion)
         else:
             if self.public_key_algorithm in (1, 2, 3):
-- 
2.43.0


From 775cd7b5b0d3297da2d3e8a433f7f7a066c5fcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 026/111] fix: check and write the checksum of secret keys and
 unlock version 3 and unencrypted ones

---
 pgp/packets/packets.py | 118 ++++++++++++++++++++++-------------------
 1 file changed, 62 insertions(+), 56 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 0c542a6..e688b4d 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -967,43 +967,53 @@ class SecretKeyPacket(PublicKeyPacket):
             raise ValueError
 
     @classmethod
-    def encrypt_key_values(cls, version, values, key, symmetric_algorithm,
-                           iv, checksum=False, hash_=False):
+    def _apply_cipher(cls, operation, symmetric_algorithm, key, iv, data):
+        """Encrypt or decrypt data of any length in CFB mode."""
 
+        if symmetric_algorithm == 0:
+            return bytearray(data)
+        block_size = utils.symmetric_cipher_block_lengths.get(
+            symmetric_algorithm, 8)
         cipher = utils.get_symmetric_cipher(
-                    symmetric_algorithm, key, utils.OPENPGP, iv,
-                    syncable=True)
+                    symmetric_algorithm, key, utils.CFB, iv)
+        padding = bytearray(-len(data) % block_size)
+        result = getattr(cipher, operation)(bytes(data + padding))
+        return bytearray(result)[:len(data)]
+
+    @classmethod
+    def encrypt_key_values(cls, version, values, key, symmetric_algorithm,
+                           iv, checksum=False, hash_=False):
 
         unencrypted_data = bytearray()
         for value in values:
             unencrypted_data.extend(utils.int_to_mpi(value))
 
+        trailer = bytearray()
+        if checksum:
+            trailer.extend(utils.int_to_2byte(sum(unencrypted_data) & 0xffff))
+        if hash_:
+            trailer.extend(SHA.new(bytes(unencrypted_data)).digest())
+
         if version >= 4:
-            encrypted_data = cipher.encrypt(unencrypted_data)
+            encrypted_data = cls._apply_cipher(
+                'encrypt', symmetric_algorithm, key, iv,
+                unencrypted_data + trailer)
         elif version in (2, 3):
+            # See decrypt_encrypted_key_portion
             encrypted_data = bytearray()
-            for i in values:
-                bits_required = i.bit_length()
-                bytes_required = (bits_required + 7) // 8
-                encrypted_data.extend(utils.int_to_2byte(bits_required))
-                cipher.sync()
-                mpi_value_bytes = utils.int_to_bytes(i)
-                if len(mpi_value_bytes) < bytes_required:
-                    mpi_value_bytes = bytearray(
-                            [0] * (bytes_required - len(mpi_value_bytes))
-                        ) + mpi_value_bytes
-                encrypted_data.extend(cipher.encrypt(mpi_value_bytes))
-
-        if checksum:
-            checksum = utils.int_to_2byte(sum(unencrypted_data) & 0xffff)
-            if version >= 4:
-                encrypted_data.extend(cipher.encrypt(checksum))
-            else:
-                encrypted_data.extend(checksum)
+            iv = bytearray(iv)
+            iv_length = len(iv)
+            for value in values:
+                mpi = utils.int_to_mpi(value)
+                encrypted_data.extend(mpi[:2])
+                encrypted_mpi_content = cls._apply_cipher(
+                    'encrypt', symmetric_algorithm, key, iv, mpi[2:])
+                encrypted_data.extend(encrypted_mpi_content)
+                iv = (iv + encrypted_mpi_content)[-iv_length:]
+            encrypted_data.extend(trailer)
+        else:
+            raise ValueError
 
-        if hash_:
-            hash_ = SHA.new(unencrypted_data).digest()
-            encrypted_data.extend(cipher.encrypt(hash_))
         return encrypted_data
 
     @classmethod
@@ -1011,30 +1021,28 @@ class SecretKeyPacket(PublicKeyPacket):
                                       iv, encrypted_data, checksum=False,
                                       hash_=False):
 
-        sym_block_size = utils.symmetric_cipher_block_lengths.get(
-            symmetric_algorithm, 8)
+        trailer_length = 0
+        if checksum:
+            trailer_length = 2
+        elif hash_:
+            trailer_length = 20
+
         if version >= 4:
-            cipher = utils.get_symmetric_cipher(
-                        symmetric_algorithm, key, utils.CFB, iv)
-            padding = bytearray([0x00] * (
-                sym_block_size - (len(encrypted_data) % sym_block_size)))
-            decrypted_data = cipher.decrypt(
-                bytes(encrypted_data + padding)
-                )[:-len(padding)]
+            # With V4 keys, the checksum is encrypted like the
+            # algorithm-specific data.
+            decrypted_data = cls._apply_cipher(
+                'decrypt', symmetric_algorithm, key, iv, encrypted_data)
         elif version in (2, 3):
             # "With V3 keys, the MPI bit count prefix (i.e., the first two
             #  octets) is not encrypted.  Only the MPI non-prefix data is
             #  encrypted.  Furthermore, the CFB state is resynchronized at the
             #  beginning of each new MPI value, so that the CFB block boundary
             #  is aligned with the start of the MPI data."
-
-            cipher = utils.get_symmetric_cipher(
-                        symmetric_algorithm, key, utils.CFB, iv,
-                        syncable=True)
             offset = 0
             decrypted_data = bytearray()
-            while offset < len(encrypted_data):
-                cipher.sync()
+            iv = bytearray(iv)
+            iv_length = len(iv)
+            while offset < len(encrypted_data) - trailer_length:
                 decrypted_data.extend(
                         encrypted_data[offset:offset + 2])
                 mpi_length = utils.mpi_length(encrypted_data, offset)
@@ -1042,28 +1050,26 @@ class SecretKeyPacket(PublicKeyPacket):
                 encrypted_mpi_content = \
                     encrypted_data[offset:offset + mpi_length]
                 offset += mpi_length
-                mpi_content = cipher.decrypt(encrypted_mpi_content)
-                decrypted_data.extend(mpi_content)
+                decrypted_data.extend(cls._apply_cipher(
+                    'decrypt', symmetric_algorithm, key, iv,
+                    encrypted_mpi_content))
+                iv = (iv + encrypted_mpi_content)[-iv_length:]
+            decrypted_data.extend(encrypted_data[offset:])
         else:
             raise ValueError
 
-        data_length = len(decrypted_data)
+        data_length = len(decrypted_data) - trailer_length
+        if data_length < 0:
+            raise ValueError
         if checksum:
-            data_length -= 2
-            if version >= 4:
-                # With V4 keys, the checksum is encrypted like the
-                # algorithm-specific data.
-                expected_checksum = utils.short_to_int(
-                        cipher.decrypt(utils.int_to_2byte(decrypted_data[-2:]))
-                    )
-            actual_checksum = sum(decrypted_data[:-2]) & 0xffff
+            expected_checksum = utils.short_to_int(decrypted_data, data_length)
+            actual_checksum = sum(decrypted_data[:data_length]) & 0xffff
             if actual_checksum != expected_checksum:
                 raise ValueError
 
-        if hash_:
-            data_length -= 20
-            expected_hash = decrypted_data[-20:]
-            actual_hash = SHA.new(decrypted_data[:-20]).digest()
+        elif hash_:
+            expected_hash = decrypted_data[data_length:]
+            actual_hash = SHA.new(bytes(decrypted_data[:data_length])).digest()
             if bytes(expected_hash) != actual_hash:
                 raise ValueError
 
-- 
2.43.0


From d68a4fb66aa54306a1e4d1376e1cb8ab3030145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 027/111] fix: check the checksum of secret keys protected
 without an S2K specifier

---
 pgp/packets/packets.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index e688b4d..38c0e27 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -885,15 +885,15 @@ class SecretKeyPacket(PublicKeyPacket):
             offset += block_length
 
         encrypted_portion = data[offset:]
-        if s2k_usage in (0, 255):
-            checksum = True
-            hash_ = False
-        elif s2k_usage == 254:
+        if s2k_usage == 254:
             hash_ = True
             checksum = False
-        else:
+        elif s2k_usage == 101:
             checksum = False
             hash_ = False
+        else:
+            checksum = True
+            hash_ = False
 
         values += (s2k_specification, symmetric_algorithm, iv,
                    encrypted_portion, checksum, hash_)
-- 
2.43.0


From 96c2c6a616dba1fb3265201f53823c32e14146f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 028/111] fix: derive the key of secret keys protected without
 an S2K specifier

---
 pgp/transferrable_keys.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 5d9b372..bdde974 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -20,7 +20,9 @@ import math
 import time
 import weakref
 
+from Crypto.Hash import MD5
 from Crypto.Hash import SHA
+
 import magic
 from zope.interface import implementer
 from zope.interface import provider
@@ -572,7 +574,9 @@ class BaseSecretKey(BasePublicKey):
             # TODO: Check encoding
             key = self.s2k_specification.to_key(passphrase.encode('utf8'))
         else:
-            key = passphrase
+            # "Any other value is a symmetric-key encryption algorithm
+            #  identifier.", used with the MD5 hash of the passphrase.
+            key = MD5.new(passphrase.encode('utf8')).digest()
 
         values = packets.SecretKeyPacket.decrypt_encrypted_key_portion(
                     self.version, key, self.symmetric_algorithm, self.iv,
-- 
2.43.0


From 08b45c1c64f2147d0b5839149b5e858f1eb9d04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 029/111] fix: read marker packets

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 38c0e27..f591841 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1243,7 +1243,7 @@ class MarkerPacket(Packet):
     def __init__(self, header_format, content, old_literal=False):
         Packet.__init__(self, header_format, constants.MARKER_PACKET_TYPE)
         self.old_literal = old_literal
-        self.content = content
+        self._content = content
 
     def __eq__(self, other):
         return (
-- 
2.43.0


From 893df1bb53d01e760c56e588af5bedfe222e7bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 030/111] fix: keep the signature cache octet of trust packets

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index f591841..937b4b4 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1341,7 +1341,7 @@ class TrustPacket(Packet):
         # GnuPG
         trust_value = int(data[0])
         sig_cache = None
-        if not trust_value and len(data) == 2:
+        if len(data) == 2:
             sig_cache = int(data[1])
             if sig_cache & 0x80:
                 raise ValueError
-- 
2.43.0


From f97c708c5f4ec28de5803c06151c12204cf0116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 031/111] fix: keep the exact octets of parsed user ID packets

---
 pgp/packets/packets.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 937b4b4..a5c0b52 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1403,7 +1403,11 @@ class UserIDPacket(Packet):
 
     @property
     def content(self):
-        return self.user_id.encode('utf8', 'replace')
+        # Signatures cover the exact octets of the user ID, even if they can't
+        # be decoded.
+        if self.user_id == self._content.decode('utf8', 'replace'):
+            return bytearray(self._content)
+        return bytearray(self.user_id.encode('utf8', 'replace'))
 
     def get_content_for_signature_hash(self, signature_version):
         result = bytearray()
-- 
2.43.0


From eaefa8cbcc5d974952952ce9f80ea58ab51ee58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 032/111] fix: write literal data packets that were read from
 data

---
 pgp/packets/packets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index a5c0b52..aca5dc3 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1319,7 +1319,9 @@ class LiteralDataPacket(Packet):
         # "Unless otherwise specified, the character set for text is the
         #  UTF-8"
         data.extend(self.filename.encode('utf8', 'replace'))
-        timestamp = int(time.mktime(self.time.timetuple()))
+        timestamp = self.time
+        if hasattr(timestamp, 'timetuple'):
+            timestamp = int(time.mktime(timestamp.timetuple()))
         data.extend(utils.int_to_4byte(timestamp))
         content = self.data
         if self.data_format in (b't', b'u'):
-- 
2.43.0


From 073c657929902e0d5d4baf315b77ddc633747255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 033/111] fix: write the length of a literal data file name in
 octets

---
 pgp/packets/packets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index aca5dc3..dd26fbe 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -1315,10 +1315,11 @@ class LiteralDataPacket(Packet):
         elif self.data_format not in (b'b', b't', b'u'):
             raise ValueError
         data = bytearray(self.data_format)
-        data.append(int(len(self.filename)))
         # "Unless otherwise specified, the character set for text is the
         #  UTF-8"
-        data.extend(self.filename.encode('utf8', 'replace'))
+        filename = self.filename.encode('utf8', 'replace')
+        data.append(int(len(filename)))
+        data.extend(filename)
         timestamp = self.time
         if hasattr(timestamp, 'timetuple'):
             timestamp = int(time.mktime(timestamp.timetuple()))
-- 
2.43.0


From 5488784ac30666e5be40a4ced47738911d2f66b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 034/111] fix: raise NotImplementedError for unknown public key
 algorithms

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index dd26fbe..4eaa726 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -809,7 +809,7 @@ class PublicKeyPacket(Packet):
             data.extend(utils.int_to_mpi(self.group_generator))
             data.extend(utils.int_to_mpi(self.key_value))
         else:
-            raise NotImplemented
+            raise NotImplementedError
 
         return data
 
-- 
2.43.0


From b02d2db66f35d175560c2605072d0b3d4b5c8e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 035/111] fix: keep the exact octets of user IDs read from key
 packets

---
 pgp/transferrable_keys.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index bdde974..e9d2251 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -670,6 +670,7 @@ class SecretSubkey(PublicSubkey, BaseSecretKey):
 class UserID(SignedMixin):
 
     signatures = None
+    _packet_content = b''
     packet_header_type = C.NEW_PACKET_HEADER_TYPE
     _self_sig_types = (C.GENERIC_CERTIFICATION,
                        C.CASUAL_CERTIFICATION,
@@ -682,12 +683,15 @@ class UserID(SignedMixin):
     def from_packet(cls, primary_public_key, packet):
         result = cls(primary_public_key, packet.user_id, [])
         result.packet_header_type = packet.header_format
+        result._packet_content = packet.content
         return result
 
     def to_packet(self, header_format=None):
         if header_format is None:
             header_format = self.packet_header_type
-        return packets.UserIDPacket(header_format, self.user_id)
+        result = packets.UserIDPacket(header_format, self.user_id)
+        result._content = self._packet_content
+        return result
 
     def to_signable_data(self, signature_type, signature_version=3):
         result = self.primary_public_key.to_signable_data(signature_type,
-- 
2.43.0


From b79897aadbc2875a4e00555111a665b64c874d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 036/111] fix: symmetrically encrypt session keys with another
 algorithm than the data

---
 pgp/message.py         | 12 ++++++++++--
 pgp/packets/packets.py |  8 +++-----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 0ad1295..5173a82 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -261,9 +261,16 @@ class SymmetricSessionKey(object):
             passphrase = passphrase.encode('utf8')
 
         return PacketCls._get_key_and_cipher_algo(
-                    self.s2k_specification, self.symmetric_algorithm,
+                    self.s2k_specification, self._get_packet_algorithm(),
                     passphrase, self.encrypted_key)
 
+    def _get_packet_algorithm(self):
+        # The algorithm for the data is encrypted together with the session
+        # key, if there is one.
+        if self.encrypted_key:
+            return self.s2k_specification.symmetric_algorithm
+        return self.symmetric_algorithm
+
     def set_session_key(self, passphrase, session_key=None):
         # "If the encrypted session key is not present (which can be detected
         #  on the basis of packet length and S2K specifier size), then the S2K
@@ -293,12 +300,13 @@ class SymmetricSessionKey(object):
         return packets.SymmetricKeyEncryptedSessionKeyPacket(
             header_format,
             4,  # "The only currently defined version is 4."
-            self.symmetric_algorithm,
+            self._get_packet_algorithm(),
             self.s2k_specification,
             self.encrypted_key
             )
 
 
+
 EncryptedSessionKey.register(SymmetricSessionKey)
 
 
diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 4eaa726..08a37a1 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -546,11 +546,9 @@ class SymmetricKeyEncryptedSessionKeyPacket(Packet):
         s2k_specification, offset = s2k.parse_s2k_bytes(symmetric_algorithm,
                                                         data,
                                                         offset)
-        encrypted_session_key_length = \
-            utils.symmetric_cipher_key_lengths.get(symmetric_algorithm)
-        # + 1 for the symmetric algorithm
-        encrypted_session_key = \
-            data[offset:offset + encrypted_session_key_length + 1]
+        # The session key may be for another algorithm, with keys of another
+        # length, than the one it's encrypted with.
+        encrypted_session_key = data[offset:]
         result = cls(header_format, version, symmetric_algorithm,
                      s2k_specification, encrypted_session_key)
         result._content = data
-- 
2.43.0


From 0c64e1feb35aebd80215dcc60d1c6b75b00a636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 037/111] fix: compress all chunks of ZLIB data

---
 pgp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 257b78d..7d01d73 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -325,7 +325,7 @@ class ZlibCompression(object):
         if self._obj is None:
             self._compress = True
             self._obj = zlib.compressobj(self.level)
-            self._result += self._obj.compress(data)
+        self._result += self._obj.compress(data)
         return b''
 
     def decompress(self, data):
-- 
2.43.0


From 7b811c0858f0baa1d198c782cc3f4894601b7a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 038/111] fix: decompress BZip2 data

---
 pgp/utils.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 7d01d73..1c681b9 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -401,6 +401,35 @@ class DeflateCompression(object):
         return result
 
 
+class Bzip2Compression(object):
+
+    def __init__(self, level):
+        self._obj = None
+        self._compress = None
+        self.level = level
+
+    def compress(self, data):
+        if self._compress is False:
+            raise ValueError
+        if self._obj is None:
+            self._compress = True
+            self._obj = bz2.BZ2Compressor(self.level)
+        return self._obj.compress(data)
+
+    def decompress(self, data):
+        if self._compress is True:
+            raise ValueError
+        if self._obj is None:
+            self._compress = False
+            self._obj = bz2.BZ2Decompressor()
+        return self._obj.decompress(data)
+
+    def flush(self):
+        if self._compress:
+            return self._obj.flush()
+        return b''
+
+
 def get_compression_instance(type_, level=None):
 
     instance = None
@@ -413,7 +442,8 @@ def get_compression_instance(type_, level=None):
         # ZLIB - RFC 1950
         instance = ZlibCompression(level)
     elif type_ == 3:
-        instance = bz2.BZ2Compressor(level)
+        instance = Bzip2Compression(level)
+
 
     return instance
 
-- 
2.43.0


From 088a389f43e669c7313b8fd4053503756b43abf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 039/111] fix: fingerprints and key IDs of version 3 key
 packets

---
 pgp/packets/packets.py | 6 ++++++
 pgp/utils.py           | 8 ++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 08a37a1..fa9d63c 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -824,6 +824,12 @@ class PublicKeyPacket(Packet):
 
     @property
     def key_id(self):
+        if self.version < 4:
+            # "For a V3 key, the eight-octet Key ID consists of the low 64
+            #  bits of the public modulus of the RSA key."
+            if self.public_key_algorithm in (1, 2, 3):
+                return utils.int_to_hex(self.modulus, 16)
+            return utils.int_to_hex(self.prime, 16)
         return self.fingerprint[-16:]
 
     @property
diff --git a/pgp/utils.py b/pgp/utils.py
index 1c681b9..8ce206d 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -921,11 +921,11 @@ def key_packet_fingerprint(packet):
         md5 = MD5.new()
         # Key type must be RSA for v2 and v3 public keys
         if packet.public_key_algorithm in (1, 2, 3):
-            md5.update(int_to_bytes(packet.modulus_n))
-            md5.update(int_to_bytes(packet.exponent_e))
+            md5.update(bytes(int_to_bytes(packet.modulus)))
+            md5.update(bytes(int_to_bytes(packet.exponent)))
         elif packet.public_key_algorithm in (16, 20):
-            md5.update(int_to_bytes(packet.prime_p))
-            md5.update(int_to_bytes(packet.group_generator_g))
+            md5.update(bytes(int_to_bytes(packet.prime)))
+            md5.update(bytes(int_to_bytes(packet.group_generator)))
         fingerprint = md5.hexdigest().upper()
     elif packet.version >= 4:
         sha1 = SHA.new()
-- 
2.43.0


From 34a6a7273144a51caca76e43bc3f90bc58f3f942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 040/111] fix: hash signatures over signatures as RFC 4880
 section 5.2.4 says

---
 pgp/utils.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 8ce206d..10cfd42 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -457,6 +457,22 @@ def hash_key(data_to_hash, key_packet_data):
     data_to_hash.extend(key_packet_data)
 
 
+def hash_signature(data_to_hash, signature_packet):
+    """Adds signature data to a hash for signature comparison."""
+
+    signature_data = bytearray(signature_packet.content)
+    if signature_packet.version >= 4:
+        # "The unhashed subpacket data of the Signature packet being hashed is
+        #  not included in the hash, and the unhashed subpacket data length
+        #  value is set to zero."
+        start = 6 + short_to_int(signature_data, 4)
+        length = short_to_int(signature_data, start)
+        signature_data[start:start + 2 + length] = int_to_2byte(0)
+    data_to_hash.append(0x88)
+    data_to_hash.extend(int_to_4byte(len(signature_data)))
+    data_to_hash.extend(signature_data)
+
+
 def packet_type_from_first_byte(byte_):
     if byte_ & 0x7f:
         return byte_ & 0x3f
@@ -505,9 +521,7 @@ def hash_packet_for_signature(packet_for_hash,
         hash_key(data_to_hash, public_key_packet_data)
         hash_key(data_to_hash, packet_data_for_hash)
     elif signature_type == constants.THIRD_PARTY_CONFIRMATION_SIGNATURE:
-        data_to_hash.append(0x88)
-        data_to_hash.append(len(packet_data_for_hash))
-        data_to_hash.extend(packet_data_for_hash)
+        hash_signature(data_to_hash, packet_for_hash)
     elif signature_type in (constants.SIGNATURE_OF_A_BINARY_DOCUMENT,
                             constants.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT):
         data_to_hash.extend(packet_data_for_hash)
@@ -531,9 +545,7 @@ def hash_packet_for_signature(packet_for_hash,
         # https://tools.ietf.org/html/rfc1991
         # http://www.imc.org/ietf-openpgp/mail-archive/msg04966.html
         # http://www.imc.org/ietf-openpgp/mail-archive/msg04970.html
-        data_to_hash.append(0x88)
-        data_to_hash.append(len(packet_data_for_hash))
-        data_to_hash.extend(packet_data_for_hash)
+        hash_signature(data_to_hash, packet_for_hash)
 
     if signature_version >= 4:
         data_to_hash.append(signature_version)
-- 
2.43.0


From 394d1600142605b577cfb498d108972896541372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:10 +0000
Subject: [PATCH 041/111] fix: keep all eight octets of a one-pass signature
 key ID

---
 pgp/packets/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index fa9d63c..1fc6609 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -651,7 +651,7 @@ class OnePassSignaturePacket(Packet):
         offset += 1
         public_key_algorithm = int(data[offset])
         offset += 1
-        key_id = utils.bytearray_to_hex(data, offset, 8)
+        key_id = utils.bytearray_to_hex(data, offset, 16)
         offset += 8
         nested = data[offset]
         offset += 1
-- 
2.43.0


From 7accaf834ac0ecb31b759071acc9b83076788f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 042/111] fix: flag the last one-pass signature and write them
 in reverse order

---
 pgp/message.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 5173a82..16b4226 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -678,7 +678,9 @@ class SignedMessageWrapper(BaseMessage):
         op_header_format = header_format
         if self.one_pass:
             i = 0
-            for sig in self.signatures:
+            # "Note that if a message contains more than one one-pass
+            #  signature, then the Signature packets bracket the message"
+            for sig in reversed(self.signatures):
                 i += 1
                 if not header_format:
                     op_header_format = sig.packet_header_type
@@ -690,7 +692,10 @@ class SignedMessageWrapper(BaseMessage):
                         sig.hash_algorithm,
                         sig.public_key_algorithm,
                         sig.issuer_key_ids[0],
-                        nested=(i != len(self.signatures))
+                        # "A zero value indicates that the next packet is
+                        #  another One-Pass Signature packet"
+                        nested=int(i == len(self.signatures))
+
                     ))
         pkts.extend(self.message.to_packets(header_format))
         for sig in self.signatures:
-- 
2.43.0


From 6f9a424b3a86861c68401429aea7dbd9e0c003a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 043/111] fix: keep user attribute subpackets of any type

---
 pgp/packets/user_attribute_subpackets.py |  8 +++++---
 pgp/transferrable_keys.py                | 22 ++++++++++++++++++----
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/pgp/packets/user_attribute_subpackets.py b/pgp/packets/user_attribute_subpackets.py
index 8a9185a..1bd6ad8 100644
--- a/pgp/packets/user_attribute_subpackets.py
+++ b/pgp/packets/user_attribute_subpackets.py
@@ -22,20 +22,22 @@ class UserAttributeSubpacket(object):
 
     @classmethod
     def from_subpacket_content(cls, sub_type, sub_data):
-        return cls(sub_type)
+        return cls(sub_type, sub_data)
 
-    def __init__(self, sub_type):
+    def __init__(self, sub_type, data=b''):
         self.sub_type = sub_type
+        self.data = data
 
     def __eq__(self, other):
         return (
             self.__class__ == other.__class__
             and self.sub_type == other.sub_type
+            and self.data == other.data
             )
 
     @property
     def content(self):
-        return bytearray()
+        return bytearray(self.data)
 
     def __bytes__(self):
         data = self.content
diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index e9d2251..cba03b5 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -757,15 +757,23 @@ class UserAttributeContentItem(object):
 
     mime_type = None
     data = None
+    _subpacket = None
+    _subpacket_mime_type = None
 
     @classmethod
     def from_subpacket(cls, subpacket):
-        if subpacket.image_format == C.JPEG_IMAGE_FORMAT:
+        if getattr(subpacket, 'image_format', None) == C.JPEG_IMAGE_FORMAT:
             mime_type = 'image/jpeg'
         else:
-            mime_type = magic.from_buffer(subpacket.data[:1024],
-                                          mime=True).decode('ascii')
-        return cls(mime_type, subpacket.data)
+            mime_type = magic.from_buffer(bytes(subpacket.data[:1024]),
+                                          mime=True)
+            if isinstance(mime_type, bytes):
+                mime_type = mime_type.decode('ascii')
+        result = cls(mime_type, subpacket.data)
+        # Not every subpacket can be made again from the type of its data.
+        result._subpacket = subpacket
+        result._subpacket_mime_type = mime_type
+        return result
 
     def __init__(self, mime_type, data):
         self.mime_type = mime_type
@@ -775,6 +783,12 @@ class UserAttributeContentItem(object):
         return '<{0} at 0x{2:x}>'.format(self.__class__.__name__, id(self))
 
     def to_subpacket(self):
+        if (
+                self._subpacket is not None
+                and self._subpacket_mime_type == self.mime_type
+                and self._subpacket.data == self.data
+                ):
+            return self._subpacket
         if self.mime_type.split('/', 1)[0] != 'image':
             return None
         header_version = 1
-- 
2.43.0


From 291df9147d6f82ce4158a6fee448c12f53fe9213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 044/111] fix: keep and write armor headers other than the
 well-known ones

---
 pgp/armor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/armor.py b/pgp/armor.py
index 3ae3616..b138dae 100644
--- a/pgp/armor.py
+++ b/pgp/armor.py
@@ -168,7 +168,7 @@ class ASCIIArmor(object):
                 repr(header_line), repr(tail_line)))
 
         return cls(data_type, data, part, total_parts, version, comment,
-                   message_id, hash_algorithms, charset)
+                   message_id, hash_algorithms, charset, extra_headers)
 
     def __init__(self, data_type, data, part=None, total_parts=None,
                  version=None, comment=None, message_id=None,
@@ -232,7 +232,7 @@ class ASCIIArmor(object):
             result_lines.append(
                 'Charset: {charset}'.format(charset=self.charset))
         if self.extra_headers is not None:
-            for k, v in self.extra_headers:
+            for k, v in self.extra_headers.items():
                 result_lines.append('{0}: {1}'.format(k, v))
 
         result_lines.append('')
-- 
2.43.0


From 5d58403762b587326ee306506cea78f73719e1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:01 +0000
Subject: [PATCH 045/111] fix: read and set whether a signature is revocable,
 not exportable

---
 pgp/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 827a31f..f11f5eb 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -455,7 +455,7 @@ class BaseSignature(object):
             C.REVOCABLE_SUBPACKET_TYPE,
             'revocable', value)
 
-    revocable = property(_get_exportable, _set_exportable)
+    revocable = property(_get_revocable, _set_revocable)
 
     def _get_notations(self):
         subpackets = self._get_subpackets(C.NOTATION_SUBPACKET_TYPE)
-- 
2.43.0


From 1513e953a3a04e852670f78e7c0c082e21479070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 046/111] fix: read and set the trust depth and amount of a
 signature

---
 pgp/signature.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index f11f5eb..fd8b9e7 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -394,24 +394,25 @@ class BaseSignature(object):
     def _get_trust_amount(self):
         return self._get_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_amount')
+            'amount')
 
     def _set_trust_amount(self, value):
         self._update_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_amount', value)
+            'amount', value)
 
     trust_amount = property(_get_trust_amount, _set_trust_amount)
 
     def _get_trust_depth(self):
         return self._get_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_depth')
+            'depth')
 
     def _set_trust_depth(self, value):
         self._update_subpacket_values(
             C.TRUST_SUBPACKET_TYPE,
-            'trust_depth', value)
+            'depth', value)
+
 
     trust_depth = property(_get_trust_depth, _set_trust_depth)
 
-- 
2.43.0


From dda13ca2415502a2c2da7f8f87f709d5bde45f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:08 +0000
Subject: [PATCH 047/111] fix: read and set the reason of a revocation
 signature

---
 pgp/signature.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index fd8b9e7..3a20add 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -498,13 +498,14 @@ class BaseSignature(object):
 
     def _get_revocation_reason(self):
         return self._get_subpacket_values(
-            C.TRUST_SUBPACKET_TYPE,
+            C.REVOCATION_REASON_SUBPACKET_TYPE,
             'revocation_reason')
 
     def _set_revocation_reason(self, value):
         self._update_subpacket_values(
-            C.TRUST_SUBPACKET_TYPE,
-            'trust_amount', value)
+            C.REVOCATION_REASON_SUBPACKET_TYPE,
+            'revocation_reason', value)
+
 
     revocation_reason = property(_get_revocation_reason,
                                  _set_revocation_reason)
-- 
2.43.0


From 8a8e5fa41abec4af64cda22dccd2df5a46463f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 048/111] fix: remove signature subpackets that are left out of
 a new list

---
 pgp/signature.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 3a20add..075fb67 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -336,7 +336,7 @@ class BaseSignature(object):
             raise ValueError
 
         for k in set(key_ids) | set(existing):
-            if k in existing and key_ids:
+            if k in existing and k in key_ids:
                 continue
             elif k in existing:
                 # Remove
@@ -428,7 +428,7 @@ class BaseSignature(object):
         regexes = [regex.pattern for regex in regexes]
 
         for k in set(regexes) | set(existing):
-            if k in existing and regexes:
+            if k in existing and k in regexes:
                 continue
             elif k in existing:
                 # Remove
@@ -469,7 +469,7 @@ class BaseSignature(object):
         existing = self.notations
 
         for k in set(notations) | set(existing):
-            if k in existing and notations:
+            if k in existing and k in notations:
                 continue
             elif k in existing:
                 # Remove
@@ -533,7 +533,7 @@ class BaseSignature(object):
         existing = self.embedded_signatures
 
         for k in set(embedded_signatures) | set(existing):
-            if k in existing and embedded_signatures:
+            if k in existing and k in embedded_signatures:
                 continue
             elif k in existing:
                 # Remove
@@ -622,7 +622,7 @@ class BaseSignature(object):
         existing = self.revocation_keys
 
         for k in set(revocation_keys) | set(existing):
-            if k in existing and revocation_keys:
+            if k in existing and k in revocation_keys:
                 continue
             elif k in existing:
                 # Remove
-- 
2.43.0


From b77a2d76d5d06583bc3e76a90c85a53ebf645366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 049/111] fix: set signature times, key flags and lists on a
 signature object

---
 pgp/signature.py | 49 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 075fb67..589b7c3 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -113,6 +113,17 @@ class BaseSignature(object):
     NotationClass = Notation
     RevocationKeyInfoClass = RevocationKeyInfo
 
+    # The other values of a subpacket that is added for one of them
+    _new_subpacket_values = {
+        C.KEY_FLAGS_SUBPACKET_TYPE: dict(
+            may_certify_others=False, may_sign_data=False,
+            may_encrypt_comms=False, may_encrypt_storage=False,
+            may_be_used_for_auth=False, may_have_been_split=False,
+            may_have_multiple_owners=False),
+        C.REVOCATION_REASON_SUBPACKET_TYPE: dict(
+            revocation_code=0, revocation_reason=''),
+        }
+
     version = None
     signature_type = None
     public_key_algorithm = None
@@ -288,8 +299,9 @@ class BaseSignature(object):
 
     def _add_subpacket_values(self, type_, attr, value, hashed=True,
                               critical=False):
-        sub = signature_subpackets.SIGNATURE_SUBPACKET_TYPES[type_](
-                **{attr: value, 'critical': critical})
+        values = dict(self._new_subpacket_values.get(type_, {}))
+        values.update({attr: value, 'critical': critical})
+        sub = signature_subpackets.SIGNATURE_SUBPACKET_TYPES[type_](**values)
         self._add_subpacket(sub)
 
     def _remove_subpacket_values(self, type_, attr, value):
@@ -310,15 +322,16 @@ class BaseSignature(object):
     def _set_creation_time(self, dt):
         # expiration time is relative to creation time, make sure it's kept in
         # sync with creation time.
-        exp_time = self.signature__expiration_time
-        value = time.mktime(dt.timetuple())
+        exp_time = self.signature_expiration_time
+        value = int(time.mktime(dt.timetuple()))
         if self.version in (2, 3):
             self._creation_time = value
         elif self.version >= 4:
             self._update_subpacket_values(
                 C.CREATION_TIME_SUBPACKET_TYPE,
                 'time', value)
-        self.signature__expiration_time = exp_time
+        if exp_time is not None:
+            self.signature_expiration_time = exp_time
 
     creation_time = property(_get_creation_time, _set_creation_time)
 
@@ -371,9 +384,9 @@ class BaseSignature(object):
         else:
             td = dt - self.creation_time
             value = td.seconds + td.days * 86400
-            self._update_subpacket_values(
-                C.EXPIRATION_SECONDS_SUBPACKET_TYPE,
-                'time', value)
+        self._update_subpacket_values(
+            C.EXPIRATION_SECONDS_SUBPACKET_TYPE,
+            'time', value)
 
     signature_expiration_time = property(
         _get_signature_expiration_time,
@@ -473,9 +486,9 @@ class BaseSignature(object):
                 continue
             elif k in existing:
                 # Remove
-                self._remove_subpacket(
-                    k.to_subpacket()
-                    )
+                for s in self._get_subpackets(C.NOTATION_SUBPACKET_TYPE):
+                    if self.NotationClass.from_subpacket(s) == k:
+                        self._remove_subpacket(s)
             else:
                 # Add
                 self._add_subpacket(
@@ -537,9 +550,10 @@ class BaseSignature(object):
                 continue
             elif k in existing:
                 # Remove
-                self._remove_subpacket(
-                    k.to_packet().to_embedded_subpacket()
-                    )
+                for s in self._get_subpackets(
+                        C.EMBEDDED_SIGNATURE_SUBPACKET_TYPE):
+                    if self.__class__.from_packet(s.signature, self) == k:
+                        self._remove_subpacket(s)
             else:
                 # Add
                 self._add_subpacket(
@@ -626,9 +640,10 @@ class BaseSignature(object):
                 continue
             elif k in existing:
                 # Remove
-                self._remove_subpacket(
-                    k.to_subpacket()
-                    )
+                for s in self._get_subpackets(
+                        C.REVOCATION_KEY_SUBPACKET_TYPE):
+                    if self.RevocationKeyInfoClass.from_subpacket(s) == k:
+                        self._remove_subpacket(s)
             else:
                 # Add
                 self._add_subpacket(
-- 
2.43.0


From 504eec875cb1136b6ee3f8632acf7b4117569b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:11 +0000
Subject: [PATCH 050/111] fix: read and write version 3 signature objects

---
 pgp/signature.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 589b7c3..7f15144 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -146,8 +146,7 @@ class BaseSignature(object):
         hash2 = packet.hash2
         signature_values = packet.signature_values
         if version in (2, 3):
-            creation_time = datetime.datetime.fromtimestamp(
-                                packet.creation_time)
+            creation_time = packet.creation_time
             issuer_key_id = packet.key_id
             hashed_subpackets = []
             unhashed_subpackets = []
@@ -197,7 +196,7 @@ class BaseSignature(object):
         result.append(self.signature_type)
         if self.version < 4:
             result.extend(utils.int_to_4byte(
-                time.mktime(self.creation_time.timetuple())
+                int(time.mktime(self.creation_time.timetuple()))
             ))
         else:
             result.append(self.public_key_algorithm)
@@ -337,7 +336,7 @@ class BaseSignature(object):
 
     def _get_issuer_key_ids(self):
         if self.version in (2, 3):
-            return [self._issuer_key_ids]
+            return [self._issuer_key_id]
         elif self.version >= 4:
             return self._get_subpacket_values(
                 C.ISSUER_KEY_ID_SUBPACKET_TYPE,
@@ -345,8 +344,11 @@ class BaseSignature(object):
 
     def _set_issuer_key_ids(self, key_ids):
         existing = self.issuer_key_ids
-        if self.version in (2, 3) and len(key_ids) != 1:
-            raise ValueError
+        if self.version in (2, 3):
+            if len(key_ids) != 1:
+                raise ValueError
+            self._issuer_key_id = key_ids[0]
+            return
 
         for k in set(key_ids) | set(existing):
             if k in existing and k in key_ids:
-- 
2.43.0


From d40aa8442ae7503961bfc0b9651ff4777b9aef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:46 +0000
Subject: [PATCH 051/111] fix: make and revoke signatures without a target
 object

---
 pgp/signature.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 7f15144..be676ba 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -229,8 +229,11 @@ class BaseSignature(object):
                  issuer_key_id=None, hashed_subpackets=None,
                  unhashed_subpackets=None, current_time_fn=None):
 
-        if target:
+        try:
             self._target_ref = weakref.ref(target)
+        except TypeError:
+            # Nothing, or a document that is not an object of ours
+            self._target_ref = lambda: None
         self.version = version
         self.signature_type = signature_type
         self.public_key_algorithm = public_key_algorithm
@@ -846,6 +849,9 @@ class BaseSignature(object):
         for sig in parent.signatures:
             if sig is self:
                 continue
+            if sig.revocation:
+                # A revocation of the same thing, not what is revoked
+                continue
             if set(self.issuer_key_ids) & set(sig.issuer_key_ids):
                 revocable.append(sig)
         if len(revocable) == 1:
-- 
2.43.0


From 0d2f0ff1383123f50a7c9e941056c4604f9e392d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 052/111] fix: count key expiration times from the creation of
 the key

---
 pgp/signature.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index be676ba..e529d48 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -568,6 +568,15 @@ class BaseSignature(object):
     embedded_signatures = property(_get_embedded_signatures,
                                    _set_embedded_signatures)
 
+    @property
+    def _key_creation_time(self):
+        # "The number of seconds after the key creation time": that of the
+        # primary key when this is a certification of a user ID.
+        key = self.parent
+        if not hasattr(key, 'public_key_algorithm'):
+            key = key.primary_public_key
+        return key.creation_time
+
     def _get_key_expiration_time(self):
         seconds = self._get_subpacket_values(
             C.KEY_EXPIRATION_TIME_SUBPACKET_TYPE,
@@ -575,12 +584,17 @@ class BaseSignature(object):
         # "If this is not present or has a value of zero, the key never
         #  expires."
         if not seconds:  # 0 or None
-            return seconds
-        return self.target.creation_time + datetime.timedelta(seconds=seconds)
+            return None
+        return self._key_creation_time + datetime.timedelta(seconds=seconds)
 
     def _set_key_expiration_time(self, value):
-        delta = value - self.target.creation_time
-        seconds = delta.days * 86400 + delta.seconds
+        if value is None:
+            seconds = 0
+        elif value < self._key_creation_time:
+            raise ValueError
+        else:
+            delta = value - self._key_creation_time
+            seconds = delta.days * 86400 + delta.seconds
         self._update_subpacket_values(
             C.KEY_EXPIRATION_TIME_SUBPACKET_TYPE,
             'time', seconds)
-- 
2.43.0


From f335a783c0c5582501269f263bf57bd8d355334d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:56 +0000
Subject: [PATCH 053/111] fix: take key attributes from the most recent
 self-signature

---
 pgp/transferrable_keys.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index cba03b5..90d0492 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -111,6 +111,7 @@ class SignedMixin(object):
                     ):
                 continue
             if last_signature_created < signature.creation_time:
+                last_signature_created = signature.creation_time
                 most_recent_selfsig = signature
 
         return most_recent_selfsig
@@ -118,11 +119,12 @@ class SignedMixin(object):
     @staticmethod
     def __selfsig_attribute(name, default=None, revocation=False):
         def getter(self):
+            result = None
             if self.version >= 4:
                 most_recent_selfsig = self.get_most_recent_selfsig(revocation)
-                result = getattr(most_recent_selfsig, name, default)
+                result = getattr(most_recent_selfsig, name, None)
 
-            return result
+            return default if result is None else result
 
         def setter(self, value):
             if self.version >= 4:
@@ -155,13 +157,13 @@ class SignedMixin(object):
     may_certify_others = __selfsig_attribute('may_certify_others')
     may_sign_data = __selfsig_attribute('may_sign_data')
     may_encrypt_comms = __selfsig_attribute('may_encrypt_comms')
-    may_encrypt_storage = __selfsig_attribute('may_encrypt_comms')
-    may_be_used_for_auth = __selfsig_attribute('may_encrypt_comms')
+    may_encrypt_storage = __selfsig_attribute('may_encrypt_storage')
+    may_be_used_for_auth = __selfsig_attribute('may_be_used_for_auth')
     may_have_been_split = __selfsig_attribute('may_have_been_split')
     may_have_multiple_owners = \
         __selfsig_attribute('may_have_multiple_owners')
     supports_modification_detection = \
-        __selfsig_attribute('may_have_multiple_owners')
+        __selfsig_attribute('supports_modification_detection')
 
     del __selfsig_attribute
 
-- 
2.43.0


From 4adc349068bacc94ab3dd6c3217d704a62147304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:59 +0000
Subject: [PATCH 054/111] fix: read, set and write when a key expires

---
 pgp/transferrable_keys.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 90d0492..2d8537a 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -200,7 +200,7 @@ class BasePublicKey(SignedMixin):
         creation_time = datetime.datetime.fromtimestamp(packet.creation_time)
         public_key_algorithm = packet.public_key_algorithm
         expiration_days = packet.expiration_days
-        if version < 4 or expiration_days in (None, 0):
+        if version >= 4 or expiration_days in (None, 0):
             expiration_time = None
         else:
             expiration_time = \
@@ -230,7 +230,7 @@ class BasePublicKey(SignedMixin):
         if self.version < 4:
             expiration_time = self.expiration_time
             if expiration_time is not None:
-                expiration_days = (expiration_time - creation_time).days
+                expiration_days = (expiration_time - self.creation_time).days
 
         return (
             header_format, self.version, creation_time,
@@ -300,7 +300,7 @@ class BasePublicKey(SignedMixin):
         if self.version in (2, 3):
             self._expiration_time = value
         elif self.version >= 4:
-            super(BasePublicKey, self).expiration_time = value
+            SignedMixin.expiration_time.fset(self, value)
 
     expiration_time = property(_get_expiration_time, _set_expiration_time)
 
-- 
2.43.0


From 4555d6f37c33802c6dac921b0e30419dc190f0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:02 +0000
Subject: [PATCH 055/111] fix: exact bit length of a key

---
 pgp/transferrable_keys.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 2d8537a..b2fddea 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -16,7 +16,6 @@
 
 import datetime
 import email.utils
-import math
 import time
 import weakref
 
@@ -327,7 +326,7 @@ class BasePublicKey(SignedMixin):
         elif self.public_key_algorithm in (16, 20):
             n = self.prime_p
 
-        return int(math.ceil(float(math.log(n, 2))))
+        return int(n).bit_length()
 
     @property
     def key_id(self):
-- 
2.43.0


From 054e31e8605dab508460a6f164692dbc4d070210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:06 +0000
Subject: [PATCH 056/111] fix: use encrypt-only RSA keys

---
 pgp/transferrable_keys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index b2fddea..055dab7 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -378,7 +378,7 @@ class BasePublicKey(SignedMixin):
                                        long(self.group_generator_g),
                                        long(self.key_value_y)
                                        ))
-        elif self.public_key_algorithm in (1, 3):
+        elif self.public_key_algorithm in (1, 2, 3):
             key_obj = key_constructor((long(self.modulus_n),
                                        long(self.exponent_e)
                                        ))
@@ -497,7 +497,7 @@ class BaseSecretKey(BasePublicKey):
                                        long(self.key_value_y),
                                        long(self.exponent_x)
                                        ))
-        elif self.public_key_algorithm in (1, 3):
+        elif self.public_key_algorithm in (1, 2, 3):
             key_obj = key_constructor((long(self.modulus_n),
                                        long(self.exponent_e),
                                        long(self.exponent_d),
-- 
2.43.0


From 56b8c8d3881e87950ca00748071260ed3d9bd388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:12 +0000
Subject: [PATCH 057/111] fix: leave no key unlocked when one of its subkeys
 cannot be

---
 pgp/transferrable_keys.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 055dab7..707a05d 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -1119,8 +1119,12 @@ class TransferableSecretKey(BaseSecretKey, TransferablePublicKey):
 
     def unlock(self, passphrase):
         super(TransferableSecretKey, self).unlock(passphrase)
-        for sk in self.subkeys:
-            sk.unlock(passphrase)
+        try:
+            for sk in self.subkeys:
+                sk.unlock(passphrase)
+        except Exception:
+            self.lock()
+            raise
 
     def lock(self):
         super(TransferableSecretKey, self).lock()
-- 
2.43.0


From 21402e720d9367973786e330a34839c2b2dfb448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:33 +0000
Subject: [PATCH 058/111] fix: hash the primary key once for signatures on
 secret subkeys

---
 pgp/transferrable_keys.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 707a05d..03be537 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -657,6 +657,10 @@ class SecretSubkey(PublicSubkey, BaseSecretKey):
         self._primary_public_key_ref = weakref.ref(primary_public_key)
         BaseSecretKey.__init__(self, *args, **kwargs)
 
+    def to_signable_data(self, signature_type, signature_version=3):
+        return self.to_public_key().to_signable_data(signature_type,
+                                                     signature_version)
+
     def to_public_key(self):
         key = self._PublicClass(
             self.primary_public_key, self.version, self.public_key_algorithm,
-- 
2.43.0


From cec8dafe8e264beb8fcaced0f450671cfe9823dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 059/111] fix: read keys with revoked subkeys or trust packets

---
 pgp/transferrable_keys.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 03be537..92aa9bf 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -899,7 +899,8 @@ def validate_transferrable_key(packets, secret=False):
             if sig_type == C.SIGNATURE_DIRECTLY_ON_A_KEY:
                 for t in type_order[:i]:
                     if t not in (key_packet_type,
-                                 C.SIGNATURE_PACKET_TYPE):
+                                 C.SIGNATURE_PACKET_TYPE,
+                                 C.TRUST_PACKET_TYPE):
                         raise exceptions.InvalidKeyPacketOrder(
                                     "Signature Directly On Key may only "
                                     "appear immediately after the Public Key "
@@ -930,9 +931,11 @@ def validate_transferrable_key(packets, secret=False):
                                     "Packet and other Signatures Directly On "
                                     "Key")
             elif sig_type == C.SUBKEY_REVOCATION_SIGNATURE:
-                if (previous != C.SIGNATURE_PACKET_TYPE
-                        or packets[j].signature_type !=
-                        C.SUBKEY_REVOCATION_SIGNATURE):
+                if (previous_non_sig != subkey_packet_type
+                        or previous != C.SIGNATURE_PACKET_TYPE
+                        or packets[j].signature_type not in
+                        (C.SUBKEY_BINDING_SIGNATURE,
+                         C.SUBKEY_REVOCATION_SIGNATURE)):
                     raise exceptions.InvalidKeyPacketOrder(
                                 "Subkey Revocation Signature may only appear "
                                 "after a Subkey Binding Signature")
@@ -971,7 +974,8 @@ def validate_transferrable_key(packets, secret=False):
             if pubkey_version < 4:
                 raise exceptions.InvalidKeyPacketType(
                             "V3 keys may not contain subkeys")
-            if (type_order[i + 1] != C.SIGNATURE_PACKET_TYPE
+            if (i + 1 == len(type_order)
+                    or type_order[i + 1] != C.SIGNATURE_PACKET_TYPE
                     or packets[i + 1].signature_type !=
                         C.SUBKEY_BINDING_SIGNATURE):
 
@@ -994,9 +998,10 @@ class TransferablePublicKey(BasePublicKey):
 
     @classmethod
     def from_packets(cls, packets):
-        # TODO: HANDLE TRUST PACKETS
         packets = list(packets)
         validate_transferrable_key(packets, cls._secret)
+        # Trust packets are of use to the keyring they are in only
+        packets = [p for p in packets if p.type != C.TRUST_PACKET_TYPE]
         i = 0
         primary_public_key = cls.from_packet(packets[i])
         primary_public_key_signatures = []
-- 
2.43.0


From 233f21dfe43161f61fd2160162636e950b7847c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 060/111] fix: write version 3 keys that never expire

---
 pgp/transferrable_keys.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 92aa9bf..81bfbc5 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -227,6 +227,8 @@ class BasePublicKey(SignedMixin):
         creation_time = int(time.mktime(self.creation_time.timetuple()))
         expiration_days = None
         if self.version < 4:
+            # "If this time period is zero, the key never expires"
+            expiration_days = 0
             expiration_time = self.expiration_time
             if expiration_time is not None:
                 expiration_days = (expiration_time - self.creation_time).days
-- 
2.43.0


From 420051df4ddb452bf6315cf101cfb59663ba85e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:39 +0000
Subject: [PATCH 061/111] fix: never hash the secret part of a key for a
 signature

---
 pgp/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index 10cfd42..acefcb5 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -508,8 +508,11 @@ def hash_packet_for_signature(packet_for_hash,
     data_to_hash = bytearray()
     public_key_packet_data = None
     if public_key_packet is not None:
-        public_key_packet_data = public_key_packet.content
-    packet_data_for_hash = packet_for_hash.content
+        public_key_packet_data = public_key_packet.public_content
+    # The secret part of a key is not covered by signatures.
+    packet_data_for_hash = getattr(packet_for_hash, 'public_content', None)
+    if packet_data_for_hash is None:
+        packet_data_for_hash = packet_for_hash.content
     if signature_type in (constants.SIGNATURE_DIRECTLY_ON_A_KEY,
                           constants.KEY_REVOCATION_SIGNATURE):
         assert public_key_packet_data is not None
-- 
2.43.0


From c642fc7763d7b749e7e68239708409b49d1b61cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:00 +0000
Subject: [PATCH 062/111] fix: verify the signatures of a key

---
 pgp/signature_verification.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pgp/signature_verification.py b/pgp/signature_verification.py
index 51764bf..4b5f8bb 100644
--- a/pgp/signature_verification.py
+++ b/pgp/signature_verification.py
@@ -24,6 +24,7 @@ OpenPGP signatures found in public key data.
 """
 
 import datetime
+import time
 
 from pgp import utils
 from pgp.compat import raise_with
@@ -163,6 +164,12 @@ def check_signature_values(key, signature, current_time=None, strict=False):
     return key_expired, key_revoked
 
 
+def get_creation_timestamp(signature):
+    """Get the creation time of a signature as it is in its packet."""
+
+    return int(time.mktime(signature.creation_time.timetuple()))
+
+
 def get_hashed_subpacket_data(signature):
     """Get the hashed subpacket data from a signature packet's data."""
 
@@ -178,7 +185,13 @@ def key_verify(expected_hash, signature, key):
     the data being signed using the key that made the signature.
     """
 
-    return key.verify(signature, expected_hash)
+    if key.public_key_algorithm != signature.public_key_algorithm:
+        raise SignatureVerificationFailed('Signature not made by this key.')
+
+    if not utils.verify_hash(signature.public_key_algorithm,
+                             key._get_key_obj(), expected_hash,
+                             signature.signature_values):
+        raise SignatureVerificationFailed()
 
 
 def check_signature(key, signature, hash_, strict=False, current_time=None):
@@ -187,7 +200,7 @@ def check_signature(key, signature, hash_, strict=False, current_time=None):
     """
 
     key_expired, key_revoked = \
-            check_signature_values(key, signature, strict,
+            check_signature_values(key, signature, strict=strict,
                                    current_time=current_time)
 
     # Perform the quick check first before busting out the public key
@@ -196,7 +209,7 @@ def check_signature(key, signature, hash_, strict=False, current_time=None):
     if bytearray(digest[:2]) != signature.hash2:
         raise SignatureDigestMismatch()
 
-    key_verify(key, hash_, signature)
+    key_verify(hash_, signature, key)
 
     return key_expired, key_revoked
 
@@ -247,7 +260,7 @@ def validate_signature(target, signature, signing_key, public_key=None,
                 signature.signature_type,
                 signature.version,
                 signature.hash_algorithm,
-                signature.creation_time,
+                get_creation_timestamp(signature),
                 signature.public_key_algorithm,
                 public_key.to_packet(),
                 hashed_subpacket_data
-- 
2.43.0


From 4dcbf01a294415420737ee794289d9f3695f130b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 063/111] fix: record that the issuer of a signature expired or
 was revoked

---
 pgp/signature_verification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/signature_verification.py b/pgp/signature_verification.py
index 4b5f8bb..6d2d79f 100644
--- a/pgp/signature_verification.py
+++ b/pgp/signature_verification.py
@@ -357,9 +357,9 @@ def validate_signatures(target, db, strict=False):
                     sig.validated = None
                 else:
                     sig.validated = True
+                    sig.issuer_key_expired = key_expired
+                    sig.issuer_key_revoked = key_revoked
                     break
-                sig.issuer_key_expired = key_expired
-                sig.issuer_key_revoked = key_revoked
 
     if isinstance(target, (TransferablePublicKey, TransferableSecretKey)):
         for uid in target.user_ids:
-- 
2.43.0


From eccbedb6283e716603edf970af78bc3fc15de402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 064/111] fix: verify revocations of certifications

---
 pgp/signature_verification.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pgp/signature_verification.py b/pgp/signature_verification.py
index 6d2d79f..aa921d2 100644
--- a/pgp/signature_verification.py
+++ b/pgp/signature_verification.py
@@ -316,9 +316,8 @@ def validate_signature(target, signature, signing_key, public_key=None,
             raise SignatureVerificationFailed('Signature cannot be revoked')
         elif signature.target.creation_time > signature.creation_time:
             raise SignatureCreatedBeforeContent()
-        # TODO: FIX THIS
-        # result = check_signature(signing_key, signature, hash_,
-        #                          strict)
+        result = check_signature(signing_key, signature, hash_,
+                                 strict, current_time)
     else:
         # 0x00, 0x01, 0x02, 0x30, 0x40 & 0x50 do not apply to public keys
         raise UnexpectedSignatureType(sig_type)
-- 
2.43.0


From 90323b1e4c3d920947178ac4478f4cb3bcf28777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:09 +0000
Subject: [PATCH 065/111] fix: verify revocations of a key by its designated
 revokers

---
 pgp/signature_verification.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pgp/signature_verification.py b/pgp/signature_verification.py
index aa921d2..70301b5 100644
--- a/pgp/signature_verification.py
+++ b/pgp/signature_verification.py
@@ -58,7 +58,10 @@ def get_revocation_keys(key):
     """
 
     for s in key.signatures:
-        if s.signature_type == constants.KEY_REVOCATION_SIGNATURE:
+        if (
+                s.signature_type == constants.SIGNATURE_DIRECTLY_ON_A_KEY
+                and key.key_id in s.issuer_key_ids
+                ):
             revkeys = s.revocation_keys
             for revkey_info in revkeys:
                 yield revkey_info.fingerprint[-16:]
@@ -154,9 +157,8 @@ def check_signature_values(key, signature, current_time=None, strict=False):
                     if strict:
                         raise SigningKeyHasBeenRevoked(key.key_id)
                     key_revoked = True
-                elif (revocation_keys and
-                      key.key_id[-8:] in revocation_keys):
-
+                elif set(revocation_keys) & set(
+                        key_id[-8:] for key_id in sig.issuer_key_ids):
                     if strict:
                         raise SigningKeyHasBeenRevoked(key.key_id)
                     key_revoked = True
@@ -235,9 +237,10 @@ def check_revocation_keys(key, signature, hash_, signing_key,
     """
 
     for rk in get_revocation_keys(key):
-        if rk[-len(key.key_id):] == key.key_id:
-            return validate_key_signature(signature, hash_, signing_key,
-                                          strict, current_time)
+        if rk == signing_key.key_id:
+            return check_signature(signing_key, signature, hash_,
+                                   strict, current_time)
+    raise SignatureVerificationFailed('Key cannot be revoked by this key')
 
 
 def validate_signature(target, signature, signing_key, public_key=None,
-- 
2.43.0


From 2836a05abfe2e56df20cb35d710163b415d007e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 066/111] fix: verify the back signatures of signing subkeys

---
 pgp/signature_verification.py | 46 +++++++++++------------------------
 1 file changed, 14 insertions(+), 32 deletions(-)

diff --git a/pgp/signature_verification.py b/pgp/signature_verification.py
index 70301b5..27b4d96 100644
--- a/pgp/signature_verification.py
+++ b/pgp/signature_verification.py
@@ -27,7 +27,6 @@ import datetime
 import time
 
 from pgp import utils
-from pgp.compat import raise_with
 from pgp.exceptions import CannotValidateSignature
 from pgp.exceptions import InvalidBackSignature
 from pgp.exceptions import InvalidSignature
@@ -73,30 +72,27 @@ def check_back_signatures(key, subkey_binding_signature, strict=False,
     exists.
     """
 
+    subkey = subkey_binding_signature.parent
+    found = False
     for sig in subkey_binding_signature.embedded_signatures:
         if sig.signature_type == constants.PRIMARY_KEY_BINDING_SIGNATURE:
-            hashed_subpacket_data = get_hashed_subpacket_data(
-                                        subkey_binding_signature
-                                        )
-            target = subkey_binding_signature.target()
-            if not target:
-                continue
             hash_ = utils.hash_packet_for_signature(
-                        key.to_packet(),
+                        subkey.to_packet(),
                         sig.signature_type,
                         sig.version,
                         sig.hash_algorithm,
-                        sig.creation_time,
+                        get_creation_timestamp(sig),
                         sig.public_key_algorithm,
-                        target.to_packet(),
-                        hashed_subpacket_data
+                        key.to_packet(),
+                        get_hashed_subpacket_data(sig)
                         )
             try:
-                check_signature(key, sig, hash_, strict, current_time)
-            except InvalidSignature as e:
-                raise_with(InvalidBackSignature(target.key_id), e)
+                check_signature(subkey, sig, hash_, strict, current_time)
+            except InvalidSignature:
+                raise InvalidBackSignature(subkey.key_id)
+            found = True
 
-    if subkey_binding_signature.may_sign_data:
+    if subkey_binding_signature.may_sign_data and not found:
         # "For subkeys that can issue signatures, the subkey binding
         #  signature MUST contain an Embedded Signature subpacket with a
         #  primary key binding signature (0x19) issued by the subkey on
@@ -143,7 +139,7 @@ def check_signature_values(key, signature, current_time=None, strict=False):
             if sig.signature_type in (constants.SUBKEY_BINDING_SIGNATURE,
                                       constants.SIGNATURE_DIRECTLY_ON_A_KEY):
                 revocation_keys.extend([
-                    rev_key.fingerprint[-8:]
+                    rev_key.fingerprint[-16:]
                     for rev_key
                     in sig.revocation_keys
                     ])
@@ -157,8 +153,7 @@ def check_signature_values(key, signature, current_time=None, strict=False):
                     if strict:
                         raise SigningKeyHasBeenRevoked(key.key_id)
                     key_revoked = True
-                elif set(revocation_keys) & set(
-                        key_id[-8:] for key_id in sig.issuer_key_ids):
+                elif set(revocation_keys) & set(sig.issuer_key_ids):
                     if strict:
                         raise SigningKeyHasBeenRevoked(key.key_id)
                     key_revoked = True
@@ -216,20 +211,6 @@ def check_signature(key, signature, hash_, strict=False, current_time=None):
     return key_expired, key_revoked
 
 
-def validate_key_signature(signature, hash_, key, strict=False,
-                           current_time=None):
-    """Validates whether the signature of a key is valid."""
-
-    key_expired, key_revoked = \
-            check_signature(key, signature, hash_, strict,
-                            current_time=current_time)
-    parent = key.public_key_parent
-    if parent:
-        check_back_signatures(key, signature, strict, current_time)
-
-    return key_expired, key_revoked
-
-
 def check_revocation_keys(key, signature, hash_, signing_key,
                           strict=False, current_time=None):
     """Validates a revocation signature on a public key, where the key
@@ -288,6 +269,7 @@ def validate_signature(target, signature, signing_key, public_key=None,
             raise InvalidSubkeyBindingSignature()
         result = check_signature(public_key, signature, hash_,
                                  strict, current_time)
+        check_back_signatures(public_key, signature, strict, current_time)
     elif sig_type == constants.SIGNATURE_DIRECTLY_ON_A_KEY:
         # direct key signature
         result = check_signature(public_key, signature, hash_,
-- 
2.43.0


From 58c33a6c97d4eb5da5fd18e0c8fa5532fc4e3cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:09 +0000
Subject: [PATCH 067/111] fix: convert line endings only for text signatures,
 and keep the rest

---
 pgp/message.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 16b4226..c79005f 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -30,7 +30,7 @@ from pgp.signature import BaseSignature
 from pgp import utils
 
 
-INCOMPLETE_CRLF = re.compile(b'(\r[^\n]|[^\r]\n)', re.M)
+LINE_ENDING = re.compile(b'\r\n|\r|\n')
 
 
 class MessageSignature(BaseSignature):
@@ -163,8 +163,14 @@ class LiteralMessage(BaseMessage):
     def to_packets(self, header_format=None):
         return [self.to_packet(header_format)]
 
+    def _get_data_octets(self):
+        return bytes(self.data)
+
     def to_signable_data(self, signature_type, signature_version=3):
-        return self.data
+        data = self._get_data_octets()
+        if signature_type == C.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT:
+            return LINE_ENDING.sub(b'\r\n', data)
+        return data
 
 
 class TextMessage(LiteralMessage):
@@ -181,11 +187,8 @@ class TextMessage(LiteralMessage):
         self.filename = filename
         self.timestamp = timestamp
 
-    def to_signable_data(self, signature_type, signature_version=3):
-        data = self.data.encode('utf8')
-        if signature_type == C.SIGNATURE_OF_A_CANONICAL_TEXT_DOCUMENT:
-            return INCOMPLETE_CRLF.sub(b'\r\n', data)
-        return data
+    def _get_data_octets(self):
+        return self.data.encode('utf8')
 
 
 class BinaryMessage(LiteralMessage):
-- 
2.43.0


From 034741e8056ca63c5eca986b6338aac472d4561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:12 +0000
Subject: [PATCH 068/111] fix: keep the format of literal messages

---
 pgp/message.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index c79005f..4a88d00 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -148,7 +148,9 @@ class LiteralMessage(BaseMessage):
         filename = packet.filename
         timestamp = datetime.datetime.fromtimestamp(packet.time)
         data = packet.data
-        return class_(data, filename, timestamp)
+        result = class_(data, filename, timestamp)
+        result.data_format = data_format
+        return result
 
     @abc.abstractmethod
     def __init__(self, data, filename, timestamp):
@@ -175,11 +177,14 @@ class LiteralMessage(BaseMessage):
 
 class TextMessage(LiteralMessage):
 
+    data_format = b'u'
+
     def to_packet(self, header_format=None):
         if header_format is None:
             header_format = self.packet_header_type
         return packets.LiteralDataPacket(
-                    header_format, b'u', self.filename, self.timestamp,
+                    header_format, self.data_format, self.filename,
+                    self.timestamp,
                     self.data)
 
     def __init__(self, data, filename, timestamp):
@@ -188,16 +193,21 @@ class TextMessage(LiteralMessage):
         self.timestamp = timestamp
 
     def _get_data_octets(self):
+        if self.data_format == b't':
+            return self.data.encode('latin-1', 'replace')
         return self.data.encode('utf8')
 
 
 class BinaryMessage(LiteralMessage):
 
+    data_format = b'b'
+
     def to_packet(self, header_format=None):
         if header_format is None:
             header_format = self.packet_header_type
         return packets.LiteralDataPacket(
-                    header_format, b'b', self.filename, self.timestamp,
+                    header_format, self.data_format, self.filename,
+                    self.timestamp,
                     self.data)
 
     def __init__(self, data, filename, timestamp):
-- 
2.43.0


From 743b1668e5ee663c400f6050928bfe26ee5ae2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:15 +0000
Subject: [PATCH 069/111] fix: hide the key IDs of hidden recipients

---
 pgp/message.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pgp/message.py b/pgp/message.py
index 4a88d00..b20584e 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -67,6 +67,8 @@ class BaseMessage(object):
                 '`public_keys`.')
         elif public_key is not None:
             public_keys = [public_key]
+        elif public_keys is None:
+            public_keys = []
         if hidden_public_keys is None:
             hidden_public_keys = []
         if session_key is None:
@@ -361,6 +363,10 @@ class PublicKeySessionKey(object):
         if public_key:
             self.public_key_algorithm = public_key.public_key_algorithm
             self.key_id = public_key.key_id
+        if hide_key_id:
+            # "An implementation MAY accept or use a Key ID of zero as a
+            #  'wild card' or 'speculative' Key ID."
+            self.key_id = None
         if encrypted_key:
             self.encrypted_key = encrypted_key
         if session_key:
-- 
2.43.0


From e516cab13281d18949137093d7c5d1d70a917183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:10 +0000
Subject: [PATCH 070/111] fix: encrypt and decrypt messages without integrity
 protection

---
 pgp/message.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index b20584e..5e63934 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -428,8 +428,11 @@ class SymmetricallyEncryptedMessageData(object):
         version = None
         if integrity_protected:
             version = packet.version
+            encrypted_data = packet.encrypted_data
+        else:
+            encrypted_data = packet.data
         return cls(
-            encrypted_data=packet.encrypted_data,
+            encrypted_data=encrypted_data,
             integrity_protected=integrity_protected,
             version=version
             )
@@ -454,16 +457,20 @@ class SymmetricallyEncryptedMessageData(object):
             )
         padding = 0
         if not self.integrity_protected:
-            padding = block_len - len(message) % block_len
-            message = message + b'\x00' * padding
-            data.extend(cipher.encrypt(iv + iv[-2:]))
+            # "After encrypting the first block-size-plus-two octets, the CFB
+            #  state is resynchronized."
+            padding = block_len - 2
+            data.extend(
+                cipher.encrypt(iv + iv[-2:] + b'\x00' * padding)[:-padding])
             cipher = utils.get_symmetric_cipher(
                 symmetric_algo,
                 key,
                 utils.CFB,
-                iv
+                data[2:]
                 )
-            data.extend(cipher.encrypt(message))
+            padding = block_len - len(message) % block_len
+            data.extend(
+                cipher.encrypt(message + b'\x00' * padding)[:-padding])
         else:
             padding = block_len - (len(message) + 2 + 22) % block_len
             data.extend(cipher.encrypt(iv))
@@ -502,16 +509,17 @@ class SymmetricallyEncryptedMessageData(object):
                 raise ValueError()
 
             decrypted_data.extend(first_block[2:])
-
-            # Pad the remaining data manually
-            padding = block_len - (len(encrypted_data) - offset) % block_len
-            encrypted_data += b'\x00' * padding
         else:
+            offset += block_len + 2
             cipher = utils.get_symmetric_cipher(
                 symmetric_algo,
                 key,
-                utils.OPENPGP,
-                encrypted_iv)
+                utils.CFB,
+                encrypted_iv[2:])
+
+        # Pad the remaining data manually
+        padding = block_len - (len(encrypted_data) - offset) % block_len
+        encrypted_data += b'\x00' * padding
 
         decrypted_data.extend(cipher.decrypt(encrypted_data[offset:]))
         decrypted_data = decrypted_data[:-padding]
@@ -519,7 +527,8 @@ class SymmetricallyEncryptedMessageData(object):
         # Let's make pretend.
         mdc_data = bytearray()
         main_data = decrypted_data
-        if decrypted_data[-22:-20] == b'\xd3\x14':
+        if (self.integrity_protected
+                and decrypted_data[-22:-20] == b'\xd3\x14'):
             # It's there. Hold it back.
             mdc_data = decrypted_data[-22:]
             main_data = decrypted_data[:-22]
-- 
2.43.0


From 87126680fd4d306ad9e25fb1ab9534527f95a2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:14 +0000
Subject: [PATCH 071/111] fix: find the session key for a key or a passphrase
 among several

---
 pgp/message.py | 55 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index 5e63934..edc2971 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -374,6 +374,12 @@ class PublicKeySessionKey(object):
                                                symmetric_algorithm,
                                                session_key)
 
+    def is_for(self, key):
+        """Whether the session key may be decrypted with this key."""
+
+        return (self.key_id in (None, key.key_id)
+                and self.public_key_algorithm == key.public_key_algorithm)
+
     def get_algorithm_and_session_key(self, secret_key):
         if secret_key.is_locked():
             raise RuntimeError('Key must be unlocked.')
@@ -402,6 +408,8 @@ class DefaultSessionKey(object):
     key_hash_algorithm = 1  # MD5
 
     def get_algorithm_and_session_key(self, passphrase):
+        if isinstance(passphrase, str):
+            passphrase = passphrase.encode('utf8')
         hash_ = utils.get_hash_instance(self.key_hash_algorithm)
         hash_.update(passphrase)
         key = hash_.digest()
@@ -484,6 +492,23 @@ class SymmetricallyEncryptedMessageData(object):
 
         self.data = data
 
+    def check_session_key(self, symmetric_algo, key):
+        """Whether this may be the session key: the end of the random data
+        that comes before the message is repeated.
+        """
+
+        block_len = utils.symmetric_cipher_block_lengths.get(symmetric_algo)
+        if (block_len is None or
+                len(key) != utils.symmetric_cipher_key_lengths[
+                    symmetric_algo]):
+            return False
+        cipher = utils.get_symmetric_cipher(
+            symmetric_algo, key, utils.CFB, b'\x00' * block_len)
+        prefix = cipher.decrypt(
+            bytes(self.data[:block_len + 2]) + b'\x00' * (block_len - 2))
+        return (prefix[block_len - 2:block_len]
+                == prefix[block_len:block_len + 2])
+
     def decrypt(self, symmetric_algo, key):
         encrypted_data = bytes(self.data)
         decrypted_data = bytearray()
@@ -625,26 +650,28 @@ class EncryptedMessageWrapper(BaseMessage):
         #  Symmetrically Encrypted Integrity Protected Data packet as well as
         #  decompressing a Compressed Data packet must yield a valid OpenPGP
         #  Message."
-        sym_algo = None
-        sess_key = None
+        is_passphrase = isinstance(secret_key_or_passphrase, (str, bytes))
         for sess_key_obj in self.session_keys:
             if isinstance(sess_key_obj, PublicKeySessionKey):
-                try:
-                    sym_algo, sess_key = \
-                        sess_key_obj.get_algorithm_and_session_key(
-                            secret_key_or_passphrase)
-                except ValueError:
+                if is_passphrase or not sess_key_obj.is_for(
+                        secret_key_or_passphrase):
                     continue
-            elif isinstance(sess_key_obj, SymmetricSessionKey):
-                sym_algo, sess_key = \
-                    sess_key_obj.get_algorithm_and_session_key(
-                        secret_key_or_passphrase)
-            elif isinstance(sess_key_obj, DefaultSessionKey):
+            elif isinstance(sess_key_obj, (SymmetricSessionKey,
+                                           DefaultSessionKey)):
+                if not is_passphrase:
+                    continue
+            else:
+                # TODO: consider raising an error
+                continue
+            try:
                 sym_algo, sess_key = \
                     sess_key_obj.get_algorithm_and_session_key(
                         secret_key_or_passphrase)
-            else:
-                # TODO: consider raising an error
+            except ValueError:
+                continue
+            if (len(self.session_keys) > 1
+                    and not self.message_data_obj.check_session_key(
+                        sym_algo, sess_key)):
                 continue
             return self.message_data_obj.decrypt(sym_algo, sess_key)
 
-- 
2.43.0


From 14909ea581a636bfa2f6335ba518dc64b3486e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:35 +0000
Subject: [PATCH 072/111] fix: read and write messages that come after their
 signature

---
 pgp/message.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index edc2971..c1f6d47 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -702,22 +702,25 @@ class SignedMessageWrapper(BaseMessage):
     @classmethod
     def from_packets(cls, packets):
         one_pass = False
-        signatures = []
+        signature_packets = []
         message = None
         for packet in packets:
             if packet.type == C.ONE_PASS_SIGNATURE_PACKET_TYPE:
                 one_pass = True
             elif packet.type == C.SIGNATURE_PACKET_TYPE:
-                if message:
-                    signature = parse_signature_from_packet(packet, message,
-                                                            one_pass=one_pass)
-                    signatures.append(signature)
-                else:
+                if one_pass == (message is None):
                     raise TypeError()
+                signature_packets.append(packet)
             elif message is None:
                 message = open_pgp_message_from_packets([packet])
             else:
                 raise TypeError()
+        if message is None:
+            raise TypeError()
+        signatures = [
+            parse_signature_from_packet(packet, message, one_pass=one_pass)
+            for packet in signature_packets
+            ]
         return cls(signatures, message, one_pass)
 
     def __init__(self, signatures, message, one_pass=True):
@@ -752,9 +755,12 @@ class SignedMessageWrapper(BaseMessage):
                         nested=int(i == len(self.signatures))
 
                     ))
-        pkts.extend(self.message.to_packets(header_format))
+            pkts.extend(self.message.to_packets(header_format))
         for sig in self.signatures:
             pkts.append(sig.to_packet(header_format))
+        if not self.one_pass:
+            # "Signed Message :- Signature Packet, OpenPGP Message |"
+            pkts.extend(self.message.to_packets(header_format))
         return pkts
 
 
-- 
2.43.0


From 6bce374604803023c7093cc151ddcf295ff92f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 073/111] fix: armor secret keys as private key blocks

---
 pgp/shortcuts.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pgp/shortcuts.py b/pgp/shortcuts.py
index 5f968f2..52d026b 100644
--- a/pgp/shortcuts.py
+++ b/pgp/shortcuts.py
@@ -74,10 +74,11 @@ def serialize_key(key, armored=False, header_format=None):
         header_format = constants.OLD_PACKET_HEADER_TYPE
     data = b''.join(map(bytes, key.to_packets(header_format)))
     if armored:
-        if isinstance(key, TransferablePublicKey):
-            data_type = armor.PGP_PUBLIC_KEY_BLOCK
-        elif isinstance(key, TransferableSecretKey):
+        # A secret key is a public key, too.
+        if isinstance(key, TransferableSecretKey):
             data_type = armor.PGP_PRIVATE_KEY_BLOCK
+        elif isinstance(key, TransferablePublicKey):
+            data_type = armor.PGP_PUBLIC_KEY_BLOCK
 
         data = str(armor.ASCIIArmor(
                 data_type, data,
-- 
2.43.0


From f8b8a39b4ab285c4dacdab6720dadc76f4bf8626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 074/111] fix: open ciphers in modes without segments

---
 pgp/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pgp/utils.py b/pgp/utils.py
index acefcb5..cd51531 100644
--- a/pgp/utils.py
+++ b/pgp/utils.py
@@ -273,8 +273,10 @@ def get_symmetric_cipher(type_, key, mode, iv=None, segment_size=None,
         13: camellia,
         }.get(type_, None)
 
-    if segment_size is None and mode == blockalgo.MODE_CFB:
-        segment_size = cipher.block_size * 8
+    if segment_size is None:
+        segment_size = 0
+        if mode == blockalgo.MODE_CFB:
+            segment_size = cipher.block_size * 8
 
     if syncable and cipher not in (aidea, twofish, camellia):
         # We need to wrap the PyCrypto implementation so we can re-sync
-- 
2.43.0


From 24e7b51888d0020d6acba4574519582a804ed986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:14 +0000
Subject: [PATCH 075/111] fix: encrypt session keys for ElGamal keys with a
 random exponent

---
 pgp/packets/packets.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 1fc6609..371552c 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -21,6 +21,7 @@ import warnings
 from Crypto import Random
 from Crypto.Cipher.PKCS1_v1_5 import PKCS115_Cipher
 from Crypto.Hash import SHA
+from Crypto.Random import random
 
 from pgp.packets import constants
 from pgp.packets.signature_subpackets import signature_subpacket_from_data
@@ -61,7 +62,9 @@ class PKCS115_ElGamal_Cipher(PKCS115_Cipher):
         # Step 2b
         em = b'\x00\x02' + ps + b'\x00' + message
         # Step 3a (OS2IP), step 3b (RSAEP), part of step 3c (I2OSP)
-        m = self._key.encrypt(em, 0)
+        # The exponent must be secret: with a known one, the message is, too.
+        m = self._key.encrypt(
+            em, random.StrongRandom().randint(1, self._key.p - 2))
         # Skip step 3c (I2OSP)
         # ...
         return m
-- 
2.43.0


From 2fb17ebc349e63aa1104b43ea2dc7271f2d9264a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:51 +0000
Subject: [PATCH 076/111] fix: refuse packet sequences that are no message,
 ignore marker packets, nest messages in signatures

---
 pgp/message.py | 49 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/pgp/message.py b/pgp/message.py
index c1f6d47..4592185 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -418,6 +418,10 @@ class DefaultSessionKey(object):
     def set_algorithm_and_session_key(self, *args, **kwargs):
         raise TypeError()
 
+    def to_packet(self, header_format=None):
+        # It's the one there is when there is no session key packet.
+        return None
+
 
 EncryptedSessionKey.register(DefaultSessionKey)
 SymEncAndIPDPacket = \
@@ -701,22 +705,23 @@ class SignedMessageWrapper(BaseMessage):
 
     @classmethod
     def from_packets(cls, packets):
-        one_pass = False
+        one_pass_count = 0
         signature_packets = []
-        message = None
-        for packet in packets:
-            if packet.type == C.ONE_PASS_SIGNATURE_PACKET_TYPE:
-                one_pass = True
-            elif packet.type == C.SIGNATURE_PACKET_TYPE:
-                if one_pass == (message is None):
-                    raise TypeError()
-                signature_packets.append(packet)
-            elif message is None:
-                message = open_pgp_message_from_packets([packet])
-            else:
-                raise TypeError()
-        if message is None:
-            raise TypeError()
+        while packets[0].type == C.ONE_PASS_SIGNATURE_PACKET_TYPE:
+            packets.popleft()
+            one_pass_count += 1
+        one_pass = one_pass_count > 0
+        if not one_pass:
+            while packets[0].type == C.SIGNATURE_PACKET_TYPE:
+                signature_packets.append(packets.popleft())
+        message = next_message_from_packets(packets)
+        # "One-Pass Signed Message :- One-Pass Signature Packet,
+        #  OpenPGP Message, Corresponding Signature Packet."
+        for _ in range(one_pass_count):
+            packet = packets.popleft()
+            if packet.type != C.SIGNATURE_PACKET_TYPE:
+                raise TypeError(packet)
+            signature_packets.append(packet)
         signatures = [
             parse_signature_from_packet(packet, message, one_pass=one_pass)
             for packet in signature_packets
@@ -803,7 +808,17 @@ class CompressedMessageWrapper(BaseMessage):
 
 
 def open_pgp_message_from_packets(pkts):
-    pkts = collections.deque(pkts)
+    # "Such a [Marker] packet MUST be ignored when received."
+    pkts = collections.deque(
+        packet for packet in pkts if packet.type != C.MARKER_PACKET_TYPE)
+    result = next_message_from_packets(pkts)
+    if pkts:
+        # What follows is no part of the message.
+        raise ValueError('Unexpected packet after the message.')
+    return result
+
+
+def next_message_from_packets(pkts):
     packet = pkts.popleft()
     if packet.type in encrypted_message_packet_types:
         pkts.appendleft(packet)
@@ -816,6 +831,8 @@ def open_pgp_message_from_packets(pkts):
         result = CompressedMessageWrapper.from_packet(packet)
     elif packet.type == C.LITERAL_DATA_PACKET_TYPE:
         result = LiteralMessage.from_packet(packet)
+    else:
+        raise ValueError('Unexpected packet.')
 
     return result
 
-- 
2.43.0


From 0e5d1db88dce61f703b0aa6d972e9b8cd9db225f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:35 +0000
Subject: [PATCH 077/111] fix: write one-pass signature packets in the old
 format when asked to

---
 pgp/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/message.py b/pgp/message.py
index 4592185..6440f6d 100644
--- a/pgp/message.py
+++ b/pgp/message.py
@@ -745,7 +745,7 @@ class SignedMessageWrapper(BaseMessage):
             #  signature, then the Signature packets bracket the message"
             for sig in reversed(self.signatures):
                 i += 1
-                if not header_format:
+                if header_format is None:
                     op_header_format = sig.packet_header_type
                 pkts.append(
                     packets.OnePassSignaturePacket(
-- 
2.43.0


From 36c1471622f37f59da1e03732ce20515651fc9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:51 +0000
Subject: [PATCH 078/111] fix: read GnuPG's secret key stubs, which have no
 cipher and no IV

---
 pgp/packets/packets.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 371552c..9a45ea4 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -882,8 +882,9 @@ class SecretKeyPacket(PublicKeyPacket):
         else:
             symmetric_algorithm = s2k_usage
 
-        # 101 is GnuPG's dummy & smartcard mode
-        if s2k_usage not in (0, 101):
+        # There is no IV in GnuPG's dummy & smartcard modes
+        if s2k_usage != 0 and not isinstance(s2k_specification,
+                                             s2k.GnuPGS2K):
             block_length = utils.symmetric_cipher_block_lengths.get(
                                 symmetric_algorithm, None)
             if block_length is None:
@@ -895,9 +896,6 @@ class SecretKeyPacket(PublicKeyPacket):
         if s2k_usage == 254:
             hash_ = True
             checksum = False
-        elif s2k_usage == 101:
-            checksum = False
-            hash_ = False
         else:
             checksum = True
             hash_ = False
-- 
2.43.0


From f7b4597d5642717f58ff818b0f1048a85c0ef1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:54 +0000
Subject: [PATCH 079/111] fix: protect secret key packets without string-to-key
 specifier and subkey packets made from values

---
 pgp/packets/packets.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 9a45ea4..78135c1 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -20,6 +20,7 @@ import warnings
 
 from Crypto import Random
 from Crypto.Cipher.PKCS1_v1_5 import PKCS115_Cipher
+from Crypto.Hash import MD5
 from Crypto.Hash import SHA
 from Crypto.Random import random
 
@@ -950,11 +951,15 @@ class SecretKeyPacket(PublicKeyPacket):
             and self.hash == other.hash
             )
 
-    def decrypt(self, passphrase):
+    def _get_key(self, passphrase):
         if self.s2k_specification is not None:
-            key = self.s2k_specification.to_key(passphrase)
-        else:
-            key = passphrase
+            return self.s2k_specification.to_key(passphrase)
+        # "Any other value is a symmetric-key encryption algorithm
+        #  identifier.", used with the MD5 hash of the passphrase.
+        return MD5.new(bytes(passphrase)).digest()
+
+    def decrypt(self, passphrase):
+        key = self._get_key(passphrase)
         values = self.decrypt_encrypted_key_portion(
                     self.version, key, self.symmetric_algorithm, self.iv,
                     self.encrypted_portion, self.checksum, self.hash)
@@ -1089,6 +1094,7 @@ class SecretKeyPacket(PublicKeyPacket):
     @property
     def content(self):
         data = PublicKeyPacket.content.__get__(self)
+        s2k_usage = self.symmetric_algorithm
         if self.s2k_specification is not None:
             if self.checksum:
                 s2k_usage = 255
@@ -1115,13 +1121,10 @@ class SecretKeyPacket(PublicKeyPacket):
             else:
                 raise ValueError
 
-            if self.s2k_specification is not None:
-                key = self.s2k_specification.to_key(self.passphrase)
-            else:
-                key = self.passphrase
+            key = self._get_key(self.passphrase)
             encrypted_data = self.encrypt_key_values(
                         self.version, values, key, self.symmetric_algorithm,
-                        self.iv, s2k_usage in (0, 255), s2k_usage == 254)
+                        self.iv, s2k_usage != 254, s2k_usage == 254)
             data.extend(encrypted_data)
 
         return data
@@ -1158,6 +1161,12 @@ class SecretSubkeyPacket(SecretKeyPacket):
         self.encrypted_portion = encrypted_portion
         self.checksum = checksum
         self.hash = hash_
+        self.passphrase = passphrase
+        self.exponent_d = exponent_d
+        self.prime_p = prime_p
+        self.prime_q = prime_q
+        self.multiplicative_inverse_u = multiplicative_inverse_u
+        self.exponent_x = exponent_x
 
 
 class CompressedDataPacket(Packet):
-- 
2.43.0


From 1612d8495abd83fed994f4d68725714a12c869da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:17 +0000
Subject: [PATCH 080/111] fix: keep the secret prime of unlocked RSA keys out
 of their public keys

---
 pgp/transferrable_keys.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 81bfbc5..b959e4b 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -236,10 +236,17 @@ class BasePublicKey(SignedMixin):
         return (
             header_format, self.version, creation_time,
             self.public_key_algorithm, expiration_days, self.modulus_n,
-            self.exponent_e, self.prime_p, self.group_order_q,
+            self.exponent_e, self._public_prime_p, self.group_order_q,
             self.group_generator_g, self.key_value_y
             )
 
+    @property
+    def _public_prime_p(self):
+        # Unlocked RSA keys have a secret one.
+        if self.public_key_algorithm in (1, 2, 3):
+            return None
+        return self.prime_p
+
     def to_packet(self, header_format=None):
         if header_format is None:
             header_format = self.packet_header_type
@@ -469,7 +476,7 @@ class BaseSecretKey(BasePublicKey):
         key = self._PublicClass(
             self.version, self.public_key_algorithm, self.creation_time,
             self.expiration_time, self.modulus_n, self.exponent_e,
-            self.prime_p, self.group_generator_g, self.group_order_q,
+            self._public_prime_p, self.group_generator_g, self.group_order_q,
             self.key_value_y, self.signatures)
         key.packet_header_type = self.packet_header_type
         return key
@@ -667,7 +674,7 @@ class SecretSubkey(PublicSubkey, BaseSecretKey):
         key = self._PublicClass(
             self.primary_public_key, self.version, self.public_key_algorithm,
             self.creation_time, self.expiration_time, self.modulus_n,
-            self.exponent_e, self.prime_p, self.group_generator_g,
+            self.exponent_e, self._public_prime_p, self.group_generator_g,
             self.group_order_q, self.key_value_y, self.signatures)
         key.packet_header_type = self.packet_header_type
         return key
-- 
2.43.0


From db696d31f0ad46778ed438cffc81588069668fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:21 +0000
Subject: [PATCH 081/111] fix: sign() leaves the list of hashed subpackets it
 is given alone

---
 pgp/transferrable_keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index b959e4b..b25cbcc 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -546,7 +546,7 @@ class BaseSecretKey(BasePublicKey):
             SigClass = BaseSignature
         creation_time = int(time.time())
         issuer_key_id = self.key_id
-        hashed_subpackets = hashed_subpackets or []
+        hashed_subpackets = list(hashed_subpackets or [])
         unhashed_subpackets = []
         creation_time_arg = None
         issuer_key_id_arg = None
-- 
2.43.0


From 444269d8981b2e71e363731b1008aadc0231706c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:00 +0000
Subject: [PATCH 082/111] fix: write packets of types above 15 in the new
 format

---
 pgp/packets/packets.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pgp/packets/packets.py b/pgp/packets/packets.py
index 78135c1..a4b3231 100644
--- a/pgp/packets/packets.py
+++ b/pgp/packets/packets.py
@@ -127,7 +127,11 @@ class Packet(object):
         packet_type = self.type
         tag = 0x80
         result = bytearray()
-        if self.header_format == constants.NEW_PACKET_HEADER_TYPE:
+        # There is only room for types up to 15 in the old format.
+        if (
+                self.header_format == constants.NEW_PACKET_HEADER_TYPE
+                or packet_type > 15
+                ):
             remaining = data_length
             offset = 0
             tag += 0x40 + packet_type
-- 
2.43.0


From 17591cfdba996087b44a877c2b7f949313fa1d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:53 +0000
Subject: [PATCH 083/111] fix: keep the creation time and issuer a version 4
 signature is made with

---
 pgp/signature.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index e529d48..75f9592 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -243,13 +243,14 @@ class BaseSignature(object):
         if version in (2, 3):
             self._creation_time = creation_time
             self._issuer_key_id = issuer_key_id
-        elif version >= 4:
+        self.hashed_subpackets = hashed_subpackets or []
+        self.unhashed_subpackets = unhashed_subpackets or []
+        if version >= 4:
             if creation_time is not None:
-                self._creation_time = creation_time
+                self._update_subpacket_values(
+                    C.CREATION_TIME_SUBPACKET_TYPE, 'time', creation_time)
             if issuer_key_id is not None:
                 self.issuer_key_ids = [issuer_key_id]
-        self.hashed_subpackets = hashed_subpackets or []
-        self.unhashed_subpackets = unhashed_subpackets or []
         if current_time_fn is None:
             current_time_fn = datetime.datetime.now
         self.get_current_time = current_time_fn
-- 
2.43.0


From 0707d577ea1b12e748adf2454583bde8fc300e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:34 +0000
Subject: [PATCH 084/111] fix: revocations without a target made the signatures
 beside them fail

---
 pgp/signature.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 75f9592..16027f1 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -891,7 +891,10 @@ class BaseSignature(object):
             if not self.parent:
                 return None
             for s in self.parent.signatures:
-                if s.revocation and s.target == self:
+                if not s.revocation:
+                    continue
+                target = s.target
+                if target is not None and target == self:
                     return True
         return False
 
-- 
2.43.0


From e679cf890a68509cd6e986f036364a18cb8b7b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:38 +0000
Subject: [PATCH 085/111] fix: the empty lists of keys without preferences were
 shared

---
 pgp/transferrable_keys.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index b25cbcc..187a6cd 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -123,7 +123,10 @@ class SignedMixin(object):
                 most_recent_selfsig = self.get_most_recent_selfsig(revocation)
                 result = getattr(most_recent_selfsig, name, None)
 
-            return default if result is None else result
+            if result is None:
+                # Lists are the caller's to change
+                return list(default) if default is not None else None
+            return result
 
         def setter(self, value):
             if self.version >= 4:
-- 
2.43.0


From 8d7a947b8457b7190694256f0676276e5b5a8e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:58 +0000
Subject: [PATCH 086/111] fix: signatures that say which signature they are
 about failed

---
 pgp/signature.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/pgp/signature.py b/pgp/signature.py
index 16027f1..626bb76 100644
--- a/pgp/signature.py
+++ b/pgp/signature.py
@@ -845,19 +845,27 @@ class BaseSignature(object):
         # get target subpacket
         subpackets = self._get_subpackets(C.TARGET_SUBPACKET_TYPE)
         for sub in subpackets:
-            expected_digest = sub.hash
-            hash_algorithm = sub.hash_algorithm
-            pub_algorithm = sub.public_key_algorithm
+            # "All arguments are an identifier of that target signature."
             for sig in parent.signatures:
-                digest = utils.hash_packet_for_signature(
-                    sig.to_packet(), self.signature_type,
-                    self.signature_version,
-                    hash_algorithm,
-                    self.creation_time,
-                    pub_algorithm,
-                    )
-                if digest == expected_digest:
+                if (
+                        sig is self
+                        or sig.public_key_algorithm !=
+                        sub.public_key_algorithm
+                        or sig.hash_algorithm != sub.hash_algorithm
+                        ):
+                    continue
+                try:
+                    hash_ = utils.get_hash_instance(sig.hash_algorithm)
+                except exceptions.UnsupportedDigestAlgorithm:
+                    continue
+                hash_.update(parent.to_signable_data(sig.signature_type,
+                                                     sig.version))
+                hash_.update(sig.to_signable_data(sig.signature_type,
+                                                  sig.version))
+                if hash_.hexdigest().upper() == sub.hash:
                     return sig
+        if subpackets:
+            return None
 
         # Fallback
         revocable = []
-- 
2.43.0


From 2c7aacf86daf0cb6548b5ed1bd25213fd3c989b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:13 +0000
Subject: [PATCH 087/111] fix: designated revokers could not revoke
 certifications

---
 pgp/signature_verification.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pgp/signature_verification.py b/pgp/signature_verification.py
index 27b4d96..54bd7ca 100644
--- a/pgp/signature_verification.py
+++ b/pgp/signature_verification.py
@@ -289,6 +289,13 @@ def validate_signature(target, signature, signing_key, public_key=None,
             for rev_key
             in signature.parent.revocation_keys
             ]
+        target_signature = signature.target
+        if (
+                target_signature
+                and public_key.key_id in target_signature.issuer_key_ids
+                ):
+            # Those that may revoke for a key are named in its own signatures
+            revocation_keys.extend(get_revocation_keys(public_key))
         if not signature.target:
             pass
         elif (
-- 
2.43.0


From 12ccc911f7145d05bad82d586a35f3e9821b9b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:29 +0000
Subject: [PATCH 088/111] fix: names and comments in user IDs were mixed up

---
 pgp/user_id.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/pgp/user_id.py b/pgp/user_id.py
index 8dc93a6..2f4f7db 100644
--- a/pgp/user_id.py
+++ b/pgp/user_id.py
@@ -2,7 +2,8 @@
 # from its rfc822 module. We lift it here because the parsing we need isn't
 # exposed in the public API and is subject to change or removal.
 #
-# There are no changes to the AddrlistClass used here.
+# The AddrlistClass used here keeps names, addresses and comments apart, where
+# the original adds comments to names.
 #
 # Copyright (C) 2001-2014 Python Software Foundation; All Rights Reserved
 # This code is based on work by the Python Software Foundation, released
@@ -94,7 +95,7 @@ class AddrlistClass:
         if self.pos >= len(self.field):
             # Bad email address technically, no domain.
             if plist:
-                returnlist = [(SPACE.join(self.commentlist), plist[0])]
+                returnlist = [(SPACE.join(plist), '')]
 
         elif self.field[self.pos] in '.@':
             # email address is just an addrspec
@@ -102,7 +103,7 @@ class AddrlistClass:
             self.pos = oldpos
             self.commentlist = oldcl
             addrspec = self.getaddrspec()
-            returnlist = [(SPACE.join(self.commentlist), addrspec)]
+            returnlist = [('', addrspec)]
 
         elif self.field[self.pos] == ':':
             # address is a group
@@ -120,16 +121,11 @@ class AddrlistClass:
         elif self.field[self.pos] == '<':
             # Address is a phrase then a route addr
             routeaddr = self.getrouteaddr()
-
-            if self.commentlist:
-                returnlist = [(SPACE.join(plist) + ' (' +
-                               ' '.join(self.commentlist) + ')', routeaddr)]
-            else:
-                returnlist = [(SPACE.join(plist), routeaddr)]
+            returnlist = [(SPACE.join(plist), routeaddr)]
 
         else:
             if plist:
-                returnlist = [(SPACE.join(self.commentlist), plist[0])]
+                returnlist = [(SPACE.join(plist), '')]
             elif self.field[self.pos] in self.specials:
                 self.pos += 1
 
@@ -317,7 +313,7 @@ class AddrlistClass:
 
 def parse_user_id(user_id):
     a = AddrlistClass(user_id)
-    user_name, user_email = a.getaddress()[0]
-    user_comment = ' '.join(a.commentlist)
-    user_name = user_name.replace(user_comment, '').strip()
+    addresses = a.getaddress()
+    user_name, user_email = addresses[0] if addresses else ('', '')
+    user_comment = SPACE.join(a.commentlist)
     return user_name, user_email, user_comment
-- 
2.43.0


From e5e37ee763b6ddb2972b98fba7779ea3124a8a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:32 +0000
Subject: [PATCH 089/111] fix: user IDs made from parts were written as mail
 headers

---
 pgp/transferrable_keys.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pgp/transferrable_keys.py b/pgp/transferrable_keys.py
index 187a6cd..c4f1b7b 100644
--- a/pgp/transferrable_keys.py
+++ b/pgp/transferrable_keys.py
@@ -15,7 +15,7 @@
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
 import datetime
-import email.utils
+import re
 import time
 import weakref
 
@@ -736,10 +736,16 @@ class UserID(SignedMixin):
         return self._primary_public_key_ref()
 
     def _make_user_id(self, name, emailaddr, comment):
-        result = email.utils.formataddr((name, emailaddr), 'utf8')
+        parts = []
+        if name:
+            if re.search(r'[][\\()<>@,:;"]', name):
+                name = u'"{0}"'.format(re.sub(r'([\\"])', r'\\\1', name))
+            parts.append(name)
         if comment:
-            result = u"{0} ({1})".format(result, comment)
-        return result
+            parts.append(u'({0})'.format(comment))
+        if emailaddr:
+            parts.append(u'<{0}>'.format(emailaddr) if parts else emailaddr)
+        return u' '.join(parts)
 
     def _get_user_name(self):
         return parse_user_id(self.user_id)[0]
-- 
2.43.0


From 7d98a188187d68a386cd0d381c811b09af65b6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:48 +0000
Subject: [PATCH 090/111] fix: keyrings that do not exist could not be created

---
 pgp/db/gpg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 3c7bc67..17985d9 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -189,7 +189,7 @@ class BaseResource(object):
     def _maybe_create(self, force):
         if not os.path.exists(self.filename):
             if force:
-                self.create_db(self.filename)
+                self.create_db()
             else:
                 raise RuntimeError(
                     'Database {0} does not exist.'.format(self.filename))
@@ -365,7 +365,8 @@ class Keyring(BaseResource):
     def create_db(self):
         self.lock_db()
         try:
-            with open(self.filename, 'wb'):
+            # Another process may have been faster
+            with open(self.filename, 'ab'):
                 os.chmod(self.filename, 0o600)
         finally:
             self.unlock_db()
-- 
2.43.0


From 13a368180d49bc083def1ffd05b0c595c41ca6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:48 +0000
Subject: [PATCH 091/111] fix: empty keyrings and names with a type were not
 recognised

---
 pgp/db/gpg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 17985d9..d2ae185 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -39,8 +39,8 @@ from pgp.transferrable_keys import TransferableSecretKey
 
 
 GDBM_MAGIC = (
-    b'\x13\x57\x9a\xce'
-    b'\xce\x9a\x57\x13'
+    b'\x13\x57\x9a\xce',
+    b'\xce\x9a\x57\x13',
 )
 
 
@@ -472,10 +472,10 @@ def get_resource(filename, force=False, secret=False, read_only=False,
     type_ = ResourceTypes.NONE
     if filename.startswith('gnupg-keyring:'):
         type_ = ResourceTypes.KEYRING
-        filename = filename[12:]
+        filename = filename[len('gnupg-keyring:'):]
     elif filename.startswith('gnupg-kbx:'):
         type_ = ResourceTypes.KEYBOX
-        filename = filename[11:]
+        filename = filename[len('gnupg-kbx:'):]
     filename = os.path.abspath(filename)
 
     if type_ == ResourceTypes.NONE:
-- 
2.43.0


From 29fd856a26d256b34c88cb1d1313e9f436be530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:48 +0000
Subject: [PATCH 092/111] fix: secret keys went to the keyring for public keys

---
 pgp/db/gpg.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index d2ae185..062bf2c 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -527,42 +527,45 @@ class GPGDatabase(object):
         return resource
 
     def add_key(self, key):
-        if isinstance(key, TransferablePublicKey):
+        # Secret keys are public keys, too
+        if isinstance(key, TransferableSecretKey):
             for resource in self._resources.values():
-                if not resource.secret:
+                if resource.secret:
                     resource.add_transferrable_key(key)
                     break
-        elif isinstance(key, TransferableSecretKey):
+        elif isinstance(key, TransferablePublicKey):
             for resource in self._resources.values():
-                if resource.secret:
+                if not resource.secret:
                     resource.add_transferrable_key(key)
                     break
         else:
             raise TypeError
 
     def delete_key(self, key):
-        if isinstance(key, TransferablePublicKey):
+        # Secret keys are public keys, too
+        if isinstance(key, TransferableSecretKey):
             for resource in self._resources.values():
-                if not resource.secret:
+                if resource.secret:
                     resource.delete_transferrable_key(key)
                     break
-        elif isinstance(key, TransferableSecretKey):
+        elif isinstance(key, TransferablePublicKey):
             for resource in self._resources.values():
-                if resource.secret:
+                if not resource.secret:
                     resource.delete_transferrable_key(key)
                     break
         else:
             raise TypeError
 
     def update_key(self, key):
-        if isinstance(key, TransferablePublicKey):
+        # Secret keys are public keys, too
+        if isinstance(key, TransferableSecretKey):
             for resource in self._resources.values():
-                if not resource.secret:
+                if resource.secret:
                     resource.update_transferrable_key(key)
                     break
-        elif isinstance(key, TransferableSecretKey):
+        elif isinstance(key, TransferablePublicKey):
             for resource in self._resources.values():
-                if resource.secret:
+                if not resource.secret:
                     resource.update_transferrable_key(key)
                     break
         else:
-- 
2.43.0


From 1104d69e7a3ec4c6237634fcb09cd49e90fa3519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:14 +0000
Subject: [PATCH 093/111] fix: updating and deleting a key dropped all keys
 behind it

---
 pgp/db/gpg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 062bf2c..81c39c2 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -422,6 +422,7 @@ class Keyring(BaseResource):
                             constants.SECRET_KEY_PACKET_TYPE,
                             ):
                         break
+                    packets.append(packet)
                     last_offset = fh.tell()
                 fh.seek(last_offset)
                 data += fh.read()
@@ -456,6 +457,7 @@ class Keyring(BaseResource):
                             constants.SECRET_KEY_PACKET_TYPE,
                             ):
                         break
+                    packets.append(packet)
                     last_offset = fh.tell()
                 fh.seek(last_offset)
                 data += fh.read()
-- 
2.43.0


From 9ea6f5ff008ed2625fe59fdae96db555211f8c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:14 +0000
Subject: [PATCH 094/111] fix: keys in keyrings were told apart by their short
 key IDs only

---
 pgp/db/gpg.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 81c39c2..19efb83 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -175,7 +175,7 @@ class BaseResource(object):
             yield self.get_transferrable_key(k)
 
     def __iter__(self):
-        return self.keys()
+        return iter(self.keys())
 
     def __contains__(self, fingerprint):
         return fingerprint in self.keys()
@@ -299,6 +299,7 @@ class GDBM(BaseResource):
 class Keyring(BaseResource):
 
     _offset_table = None
+    _key_ids = None
 
     def __init__(self, filename, force, secret, read_only, default):
         super(Keyring, self).__init__(filename, force, secret, read_only,
@@ -310,7 +311,8 @@ class Keyring(BaseResource):
         return self._offset_table.keys()
 
     def _update_offset_table(self):
-        offset_table = {}
+        offset_table = OrderedDict()
+        key_ids = {}
         self.lock_db()
         try:
             with open(self.filename, 'rb') as fh:
@@ -323,12 +325,24 @@ class Keyring(BaseResource):
                             constants.PUBLIC_KEY_PACKET_TYPE,
                             constants.SECRET_KEY_PACKET_TYPE,
                             ):
-                        offset_table[packet.key_id[-8:]] = last_offset
+                        offset_table[packet.fingerprint] = last_offset
+                        key_ids[packet.fingerprint] = packet.key_id
                     last_offset = fh.tell()
         finally:
             self.unlock_db()
 
         self._offset_table = offset_table
+        self._key_ids = key_ids
+
+    def _get_offset(self, fingerprint):
+        if fingerprint in self._offset_table:
+            return self._offset_table[fingerprint]
+        if len(fingerprint) in (8, 16):
+            # Actually a key ID - find the fingerprint first.
+            for k, offset in self._offset_table.items():
+                if self._key_ids[k].endswith(fingerprint):
+                    return offset
+        raise KeyError(fingerprint)
 
     def _get_key(self, offset):
         self.lock_db()
@@ -372,8 +386,7 @@ class Keyring(BaseResource):
             self.unlock_db()
 
     def get_transferrable_key(self, fingerprint):
-        offset = self._offset_table[fingerprint[-8:]]
-        return self._get_key(offset)
+        return self._get_key(self._get_offset(fingerprint))
 
     def add_transferrable_key(self, key):
         if self.read_only:
@@ -402,10 +415,10 @@ class Keyring(BaseResource):
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint[-8:] not in self._offset_table:
+        if key.fingerprint not in self._offset_table:
             raise KeyError
 
-        offset = self._offset_table[key.fingerprint[-8:]]
+        offset = self._offset_table[key.fingerprint]
         self.lock_db()
         try:
             data = b''
@@ -437,10 +450,10 @@ class Keyring(BaseResource):
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint[-8:] not in self._offset_table:
+        if key.fingerprint not in self._offset_table:
             raise KeyError
 
-        offset = self._offset_table[key.fingerprint[-8:]]
+        offset = self._offset_table[key.fingerprint]
         self.lock_db()
         try:
             data = b''
-- 
2.43.0


From 85393542b581cbb3d17f17d0432546fb4e137d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:27 +0000
Subject: [PATCH 095/111] fix: keyring locks failed where they had to wait,
 ended too early and broke those of others

---
 pgp/db/gpg.py | 96 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 66 insertions(+), 30 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 19efb83..ea2772e 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -16,6 +16,7 @@
 
 import atexit
 from collections import OrderedDict
+import errno
 try:
     from dbm import gnu as gdbm
     HAVE_GDBM = True
@@ -27,7 +28,6 @@ except ImportError:
         HAVE_GDBM = False
 import os
 import platform
-import signal
 import threading
 import time
 
@@ -61,16 +61,20 @@ DEFAULT_RESOURCES = (
 _locks = []
 
 
+# Held while a lock file is taken or left by any thread
+_taking = threading.Lock()
+
+
 @atexit.register
 def _clean_up_locks():
     for l in _locks:
-        l.release()
         try:
-            os.unlink(l.name)
+            while l.locked:
+                l.release()
         except:
             pass
         try:
-            os.unlink(l.lock_template_name)
+            os.unlink(l.template_name)
         except:
             pass
 
@@ -80,19 +84,24 @@ class Lock(object):
     name = None
     template_name = None
     locked = False
+    depth = 0
 
     def __init__(self, filename):
         node_name = platform.node()
         dirpart = os.path.dirname(filename)
-        self.template_name = '{0}{1}.#lk{2:x}.'.format(
+        self.template_name = '{0}{1}.#lk{2:x}.{3}.{4}'.format(
             dirpart,
             os.path.sep,
-            id(self)
+            id(self),
+            node_name,
+            os.getpid()
             )
         with open(self.template_name, 'w') as lock_fh:
             lock_fh.write('{0:010d}'.format(os.getpid()))
             lock_fh.write(node_name)
             lock_fh.write('\n')
+            lock_fh.flush()
+            os.fsync(lock_fh.fileno())
         self.name = '{0}{1}lock'.format(
             filename,
             os.path.extsep)
@@ -102,7 +111,7 @@ class Lock(object):
     def __del__(self):
         try:
             self.release()
-            os.unlink(self.lock_template_name)
+            os.unlink(self.template_name)
         except:
             # TODO: log an error
             pass
@@ -114,23 +123,52 @@ class Lock(object):
 
         return pid, node == platform.node()
 
+    def is_stale(self):
+        """Whether the process which took the lock is gone."""
+        try:
+            pid, same_node = self.read()
+        except EnvironmentError:
+            # Just released
+            return False
+        if not same_node:
+            return False
+        if pid == os.getpid():
+            return not any(l.locked and l.name == self.name for l in _locks)
+        try:
+            # This only asks for the process.
+            os.kill(pid, 0)
+        except OSError as e:
+            return e.errno == errno.ESRCH
+        return False
+
+    def take(self):
+        """Create the lock file, if there is none."""
+        with _taking:
+            try:
+                os.link(self.template_name, self.name)
+            except OSError as e:
+                if e.errno != errno.EEXIST:
+                    raise
+                if self.is_stale():
+                    os.unlink(self.name)
+            else:
+                self.locked = True
+
     def acquire(self, timeout=None):
         start = time.time()
-        while not self.locked:
-            if timeout is not None and (time.time() - start) > timeout:
-                return False
-            self._lock.acquire()
-            os.link(self.template_name, self.name)
-            pid, same_node = self.read()
-            if pid == os.getpid() and same_node:
-                # OK
-                pass
-            elif same_node:
-                # attempt to kill the interloper
-                os.kill(pid, signal.SIG_DFL)
-                os.unlink(self.name)
-                continue
-            self.locked = True
+        self._lock.acquire()
+        try:
+            while not self.locked:
+                if timeout is not None and (time.time() - start) > timeout:
+                    self._lock.release()
+                    return False
+                self.take()
+                if not self.locked:
+                    time.sleep(0.05)
+        except:
+            self._lock.release()
+            raise
+        self.depth += 1
 
         return True
 
@@ -138,14 +176,12 @@ class Lock(object):
         if not self.locked:
             return
 
-        pid, same_node = self.read()
-        if pid == os.getpid() and same_node:
-            os.unlink(self.name)
-            self.locked = False
-            self._lock.release()
-        else:
-            # TODO: error?
-            return
+        self.depth -= 1
+        if not self.depth:
+            with _taking:
+                os.unlink(self.name)
+                self.locked = False
+        self._lock.release()
 
 
 class ResourceTypes:
-- 
2.43.0


From 98633d4146fdc86da8949c9a7431eacffa6d73e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:27 +0000
Subject: [PATCH 096/111] fix: changes others made to a keyring were overlooked
 or overwritten

---
 pgp/db/gpg.py | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index ea2772e..394b408 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -336,6 +336,7 @@ class Keyring(BaseResource):
 
     _offset_table = None
     _key_ids = None
+    _data = None
 
     def __init__(self, filename, force, secret, read_only, default):
         super(Keyring, self).__init__(filename, force, secret, read_only,
@@ -344,7 +345,8 @@ class Keyring(BaseResource):
         self._update_offset_table()
 
     def keys(self):
-        return self._offset_table.keys()
+        self._update_offset_table()
+        return list(self._offset_table)
 
     def _update_offset_table(self):
         offset_table = OrderedDict()
@@ -352,6 +354,10 @@ class Keyring(BaseResource):
         self.lock_db()
         try:
             with open(self.filename, 'rb') as fh:
+                data = fh.read()
+                if data == self._data:
+                    return
+                fh.seek(0)
                 packet_iter = parse_binary_packet_stream(fh)
                 last_offset = fh.tell()
                 for packet in packet_iter:
@@ -369,6 +375,7 @@ class Keyring(BaseResource):
 
         self._offset_table = offset_table
         self._key_ids = key_ids
+        self._data = data
 
     def _get_offset(self, fingerprint):
         if fingerprint in self._offset_table:
@@ -422,17 +429,23 @@ class Keyring(BaseResource):
             self.unlock_db()
 
     def get_transferrable_key(self, fingerprint):
-        return self._get_key(self._get_offset(fingerprint))
+        self.lock_db()
+        try:
+            self._update_offset_table()
+            return self._get_key(self._get_offset(fingerprint))
+        finally:
+            self.unlock_db()
 
     def add_transferrable_key(self, key):
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint in self._offset_table:
-            raise KeyError
-
         self.lock_db()
         try:
+            self._update_offset_table()
+            if key.fingerprint in self._offset_table:
+                raise KeyError
+
             data = b''
             with open(self.filename, 'rb') as fh:
                 data = fh.read()
@@ -451,12 +464,13 @@ class Keyring(BaseResource):
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint not in self._offset_table:
-            raise KeyError
-
-        offset = self._offset_table[key.fingerprint]
         self.lock_db()
         try:
+            self._update_offset_table()
+            if key.fingerprint not in self._offset_table:
+                raise KeyError
+
+            offset = self._offset_table[key.fingerprint]
             data = b''
             with open(self.filename, 'rb') as fh:
                 data = fh.read(offset)
@@ -486,12 +500,13 @@ class Keyring(BaseResource):
         if self.read_only:
             raise TypeError
 
-        if key.fingerprint not in self._offset_table:
-            raise KeyError
-
-        offset = self._offset_table[key.fingerprint]
         self.lock_db()
         try:
+            self._update_offset_table()
+            if key.fingerprint not in self._offset_table:
+                raise KeyError
+
+            offset = self._offset_table[key.fingerprint]
             data = b''
             with open(self.filename, 'rb') as fh:
                 data = fh.read(offset)
-- 
2.43.0


From cd7f61d916e6e0e297b515a31b8b6bd51ddb612a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:27 +0000
Subject: [PATCH 097/111] fix: interrupted changes of a keyring lost its keys

---
 pgp/db/gpg.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 394b408..546a29d 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -28,6 +28,7 @@ except ImportError:
         HAVE_GDBM = False
 import os
 import platform
+import stat
 import threading
 import time
 
@@ -428,6 +429,19 @@ class Keyring(BaseResource):
         finally:
             self.unlock_db()
 
+    def _write(self, data):
+        # Whenever this is interrupted, there is either the old file or the
+        # new one.
+        filename = os.path.realpath(self.filename)
+        new_filename = '{0}{1}new'.format(filename, os.path.extsep)
+        with open(new_filename, 'wb') as fh:
+            os.chmod(new_filename,
+                     stat.S_IMODE(os.stat(filename).st_mode))
+            fh.write(data)
+            fh.flush()
+            os.fsync(fh.fileno())
+        os.rename(new_filename, filename)
+
     def get_transferrable_key(self, fingerprint):
         self.lock_db()
         try:
@@ -452,8 +466,7 @@ class Keyring(BaseResource):
 
             data += b''.join(map(bytes, key.to_packets(
                 self._preferred_header_format)))
-            with open(self.filename, 'wb') as fh:
-                fh.write(data)
+            self._write(data)
             self._update_offset_table()
         finally:
             self.unlock_db()
@@ -490,8 +503,7 @@ class Keyring(BaseResource):
                 fh.seek(last_offset)
                 data += fh.read()
             data += b''.join(map(bytes, key.to_packets(header_format)))
-            with open(self.filename, 'wb') as fh:
-                fh.write(data)
+            self._write(data)
             self._update_offset_table()
         finally:
             self.unlock_db()
@@ -525,8 +537,7 @@ class Keyring(BaseResource):
                     last_offset = fh.tell()
                 fh.seek(last_offset)
                 data += fh.read()
-            with open(self.filename, 'wb') as fh:
-                fh.write(data)
+            self._write(data)
             self._update_offset_table()
         finally:
             self.unlock_db()
-- 
2.43.0


From 6c407e335c0076e005b8c0b19fd4c49985ad5d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:23 +0000
Subject: [PATCH 098/111] fix: keyrings were readable by others for a moment

---
 pgp/db/gpg.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 546a29d..463e66b 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -424,7 +424,8 @@ class Keyring(BaseResource):
         self.lock_db()
         try:
             # Another process may have been faster
-            with open(self.filename, 'ab'):
+            fd = os.open(self.filename, os.O_WRONLY | os.O_CREAT, 0o600)
+            with os.fdopen(fd, 'ab'):
                 os.chmod(self.filename, 0o600)
         finally:
             self.unlock_db()
@@ -434,7 +435,9 @@ class Keyring(BaseResource):
         # new one.
         filename = os.path.realpath(self.filename)
         new_filename = '{0}{1}new'.format(filename, os.path.extsep)
-        with open(new_filename, 'wb') as fh:
+        fd = os.open(new_filename, os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
+                     0o600)
+        with os.fdopen(fd, 'wb') as fh:
             os.chmod(new_filename,
                      stat.S_IMODE(os.stat(filename).st_mode))
             fh.write(data)
-- 
2.43.0


From 7bfebcd094add080406c9f605cc4b716e84b91f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:48 +0000
Subject: [PATCH 099/111] fix: listing the keys of a keyring failed while
 others deleted one

---
 pgp/db/gpg.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pgp/db/gpg.py b/pgp/db/gpg.py
index 463e66b..769774c 100644
--- a/pgp/db/gpg.py
+++ b/pgp/db/gpg.py
@@ -204,12 +204,16 @@ class BaseResource(object):
         self._maybe_create(force)
 
     def items(self):
-        for k in self.keys():
-            yield k, self.get_transferrable_key(k)
+        # Keys could be deleted by others in between
+        self.lock_db()
+        try:
+            items = [(k, self.get_transferrable_key(k)) for k in self.keys()]
+        finally:
+            self.unlock_db()
+        return iter(items)
 
     def values(self):
-        for k in self.keys():
-            yield self.get_transferrable_key(k)
+        return iter([key for _k, key in self.items()])
 
     def __iter__(self):
         return iter(self.keys())
-- 
2.43.0


From 361c11160ea2cd7951796753deb48933ed67d4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:48 +0000
Subject: [PATCH 100/111] fix: requests to https keyservers were sent
 unencrypted

---
 pgp/keyserver/hkp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index 23e3d87..2aef074 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -112,8 +112,9 @@ class HKPKeyserverClient(object):
 
     def __init__(self, base_url):
         parts = urlparse(base_url)
+        scheme = parts.scheme.lower()
         base_url = urlunparse(
-            (('https' if parts.scheme.lower() == 'hkps' else 'http'),)
+            (('https' if scheme in ('hkps', 'https') else 'http'),)
             + parts[1:6])
         self.base_url = base_url
 
-- 
2.43.0


From 6af27ebd274cfb9a47f0b51f36b471f79ef90b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:48 +0000
Subject: [PATCH 101/111] fix: hkp keyservers were not asked on their port

---
 pgp/keyserver/hkp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index 2aef074..36508c4 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -113,9 +113,13 @@ class HKPKeyserverClient(object):
     def __init__(self, base_url):
         parts = urlparse(base_url)
         scheme = parts.scheme.lower()
+        netloc = parts.netloc
+        if scheme == 'hkp' and parts.port is None:
+            # "[...] the default port for HKP is 11371"
+            netloc = '{0}:11371'.format(netloc.rstrip(':'))
         base_url = urlunparse(
-            (('https' if scheme in ('hkps', 'https') else 'http'),)
-            + parts[1:6])
+            (('https' if scheme in ('hkps', 'https') else 'http'), netloc)
+            + parts[2:6])
         self.base_url = base_url
 
     @property
-- 
2.43.0


From 0dfe4435bc4066e9cec0475dc7f601427e92ce30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:48 +0000
Subject: [PATCH 102/111] fix: search results with empty, missing or further
 fields failed

---
 pgp/keyserver/hkp.py | 61 +++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 35 deletions(-)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index 36508c4..d8cc54f 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -26,13 +26,21 @@ from pgp import armor
 from pgp.shortcuts import read_key
 
 
-def _add_colons(line, number):
+def _fields(line, number):
     # "Colons for empty fields on the end of each line may be left off, if
     #  desired."
-    count = len([c for c in line if c == ':'])
-    for i in range(number - count):
-        line += ':'
-    return line
+    fields = line.split(':')
+    fields += [''] * (number - len(fields))
+    # There may be more fields in later versions of the format
+    return fields[:number]
+
+
+def _number(field):
+    return int(field) if field else None
+
+
+def _time(field):
+    return datetime.datetime.fromtimestamp(int(field)) if field else None
 
 
 class HKPUserIdResult(object):
@@ -50,14 +58,10 @@ class HKPUserIdResult(object):
         self._parse_uid_line(uid_line)
 
     def _parse_uid_line(self, l):
-        l = _add_colons(l, 4)
-        _uid, uid, created, expires, flags = l.split(':')
+        _uid, uid, created, expires, flags = _fields(l, 5)
         self.user_id = unquote(uid)
-        self.created = datetime.datetime.fromtimestamp(int(created))
-        if expires:
-            self.expires = datetime.datetime.fromtimestamp(int(expires))
-        else:
-            self.expires = None
+        self.created = _time(created)
+        self.expires = _time(expires)
         self.revoked = 'r' in flags
         self.disabled = 'd' in flags
         self.expired = 'e' in flags
@@ -83,17 +87,13 @@ class HKPResult(object):
             self.user_ids.append(HKPUserIdResult(self, l))
 
     def _parse_pub_line(self, l):
-        l = _add_colons(l, 6)
         (_pub, key_id, public_key_algorithm, bit_length,
-            created, expires, flags) = l.split(':')
+            created, expires, flags) = _fields(l, 7)
         self.key_id = key_id
-        self.public_key_algorithm = int(public_key_algorithm)
-        self.bit_length = int(bit_length)
-        self.created = datetime.datetime.fromtimestamp(int(created))
-        if expires:
-            self.expires = datetime.datetime.fromtimestamp(int(expires))
-        else:
-            self.expires = None
+        self.public_key_algorithm = _number(public_key_algorithm)
+        self.bit_length = _number(bit_length)
+        self.created = _time(created)
+        self.expires = _time(expires)
         self.revoked = 'r' in flags
         self.disabled = 'd' in flags
         self.expired = 'e' in flags
@@ -131,26 +131,17 @@ class HKPKeyserverClient(object):
         return urljoin(self.base_url, 'pks/add')
 
     def _read_mr(self, data):
-        data = data.splitlines()
-        info_line = data[0]
-        if info_line.startswith('info:'):
-            _info, version, count = info_line.split(':')
-        else:
-            version = 1
-            count = None
-
-        del version, count  # unused
-
         results = []
         pub_key = None
         user_ids = []
-        for line in data:
-            if line.startswith('pub'):
+        for line in data.split('\n'):
+            line = line.rstrip('\r')
+            if line.startswith('pub:'):
                 if pub_key:
                     results.append(HKPResult(self, pub_key, user_ids))
                 pub_key = line
                 user_ids = []
-            elif line.startswith('uid'):
+            elif line.startswith('uid:'):
                 user_ids.append(line)
             # Skip anything else
 
@@ -177,7 +168,7 @@ class HKPKeyserverClient(object):
             'exact': 'yes' if exact else 'no'
             })
         response.raise_for_status()
-        return self._read_mr(response.text)
+        return self._read_mr(response.content.decode('utf-8', 'replace'))
 
     def submit(self, key, no_modify=False):
         key_data = b''.join(map(bytes, key.to_packets()))
-- 
2.43.0


From d3afe551f0644fc85889903e865f9c716f77d71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:48 +0000
Subject: [PATCH 103/111] fix: keys could not be read from keyservers which put
 a line before

---
 pgp/keyserver/hkp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index d8cc54f..67a6104 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -158,7 +158,7 @@ class HKPKeyserverClient(object):
             'exact': 'yes' if exact else 'no',
             })
         response.raise_for_status()
-        return read_key(response.content, True)
+        return read_key(response.content.decode('us-ascii', 'replace'), True)
 
     def search(self, terms, exact=False):
         response = requests.get(self.get_url, params={
-- 
2.43.0


From 93da7af69a903bd2f2ae93a2a3f4cb4c191240e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:59 +0000
Subject: [PATCH 104/111] fix: submitting a secret key sent its secret part to
 the keyserver

---
 pgp/keyserver/hkp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index 67a6104..ebd9eb3 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -24,6 +24,7 @@ import requests
 
 from pgp import armor
 from pgp.shortcuts import read_key
+from pgp.transferrable_keys import TransferableSecretKey
 
 
 def _fields(line, number):
@@ -171,6 +172,8 @@ class HKPKeyserverClient(object):
         return self._read_mr(response.content.decode('utf-8', 'replace'))
 
     def submit(self, key, no_modify=False):
+        if isinstance(key, TransferableSecretKey):
+            key = key.to_public_key()
         key_data = b''.join(map(bytes, key.to_packets()))
         a = armor.ASCIIArmor(armor.PGP_PUBLIC_KEY_BLOCK, key_data)
         response = requests.post(self.submit_url, data={
-- 
2.43.0


From d9d841680506ee59ec81e36f07b211ae5649d877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:59 +0000
Subject: [PATCH 105/111] fix: local and sensitive signatures were sent to
 keyservers

---
 pgp/keyserver/hkp.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index ebd9eb3..28d0d93 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -23,6 +23,7 @@ from urllib.parse import urlunparse
 import requests
 
 from pgp import armor
+from pgp.packets import constants
 from pgp.shortcuts import read_key
 from pgp.transferrable_keys import TransferableSecretKey
 
@@ -44,6 +45,19 @@ def _time(field):
     return datetime.datetime.fromtimestamp(int(field)) if field else None
 
 
+def _exportable(packet):
+    if packet.type != constants.SIGNATURE_PACKET_TYPE:
+        return True
+    for sub in getattr(packet, 'hashed_subpackets', None) or []:
+        if not getattr(sub, 'exportable', True):
+            return False
+        if getattr(sub, 'sensitive', False):
+            # "implementations SHOULD NOT export this signature to other
+            #  users"
+            return False
+    return True
+
+
 class HKPUserIdResult(object):
 
     def __repr__(self):
@@ -174,7 +188,7 @@ class HKPKeyserverClient(object):
     def submit(self, key, no_modify=False):
         if isinstance(key, TransferableSecretKey):
             key = key.to_public_key()
-        key_data = b''.join(map(bytes, key.to_packets()))
+        key_data = b''.join(map(bytes, filter(_exportable, key.to_packets())))
         a = armor.ASCIIArmor(armor.PGP_PUBLIC_KEY_BLOCK, key_data)
         response = requests.post(self.submit_url, data={
             'keytext': str(a),
-- 
2.43.0


From 72fdcc35f57aada46d3171512524b069dca4fb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:43 +0000
Subject: [PATCH 106/111] fix: keyservers were not asked for exact matches

---
 pgp/keyserver/hkp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgp/keyserver/hkp.py b/pgp/keyserver/hkp.py
index 28d0d93..7ac21ed 100644
--- a/pgp/keyserver/hkp.py
+++ b/pgp/keyserver/hkp.py
@@ -170,7 +170,7 @@ class HKPKeyserverClient(object):
             'op': 'get',
             'search': '0x{}'.format(key_id),
             'options': 'mr',
-            'exact': 'yes' if exact else 'no',
+            'exact': 'on' if exact else 'off',
             })
         response.raise_for_status()
         return read_key(response.content.decode('us-ascii', 'replace'), True)
@@ -180,7 +180,7 @@ class HKPKeyserverClient(object):
             'op': 'index',
             'options': 'mr',
             'search': terms,
-            'exact': 'yes' if exact else 'no'
+            'exact': 'on' if exact else 'off'
             })
         response.raise_for_status()
         return self._read_mr(response.content.decode('utf-8', 'replace'))
-- 
2.43.0


From 95445fc0f07029ef3777675ae289b152d346fcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:26 +0000
Subject: [PATCH 107/111] fix: a closed connection to the agent was waited on
 forever

---
 pgp/pinentry/gpg_agent.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pgp/pinentry/gpg_agent.py b/pgp/pinentry/gpg_agent.py
index 7ba9639..d111c50 100644
--- a/pgp/pinentry/gpg_agent.py
+++ b/pgp/pinentry/gpg_agent.py
@@ -42,13 +42,15 @@ class GPGAgentPinentry(object):
     def send(self, data):
         if isinstance(data, str):
             data = data.encode('latin-1')
-        self._sock.send(data + b'\n')
+        self._sock.sendall(data + b'\n')
 
     def get_response(self):
         buf = b''
         lines = []
         while 1:
             byte = self._sock.recv(1)
+            if not byte:
+                raise ValueError('The agent closed the connection')
             if byte == b'\n':
                 lines.append(buf)
                 if buf[:2] == b'OK':
-- 
2.43.0


From d24487d714afb948960cb0332a81583aa7b7562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:45 +0000
Subject: [PATCH 108/111] fix: passphrases from the agent were cut, misread or
 mixed up with status lines

---
 pgp/pinentry/gpg_agent.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pgp/pinentry/gpg_agent.py b/pgp/pinentry/gpg_agent.py
index d111c50..411269d 100644
--- a/pgp/pinentry/gpg_agent.py
+++ b/pgp/pinentry/gpg_agent.py
@@ -17,7 +17,7 @@
 import os
 import socket
 from urllib.parse import quote
-from urllib.parse import unquote
+from urllib.parse import unquote_to_bytes
 
 
 class GPGAgentPinentry(object):
@@ -94,7 +94,9 @@ class GPGAgentPinentry(object):
         self.send('GET_PASSPHRASE {0}'.format(params))
         response = self.get_response()
         self.disconnect()
-        return unquote(response[0][2:].decode('latin-1'))
+        # There may be several lines of data, or none, and status lines
+        data = b''.join([l[2:] for l in response if l[:2] == b'D '])
+        return unquote_to_bytes(data).decode('utf-8')
 
     def clear_passphrase(self, cache_id):
         self.connect()
-- 
2.43.0


From 15ac684f3ce6a63c45cf64df683c2fc7be77cf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:59 +0000
Subject: [PATCH 109/111] fix: passphrases were taken from the cache of the
 agent when not wanted

---
 pgp/pinentry/gpg_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/pinentry/gpg_agent.py b/pgp/pinentry/gpg_agent.py
index 411269d..85e4ff0 100644
--- a/pgp/pinentry/gpg_agent.py
+++ b/pgp/pinentry/gpg_agent.py
@@ -75,7 +75,7 @@ class GPGAgentPinentry(object):
             params += ' --repeat'
         elif repeat > 1:
             params += ' --repeat={0}'.format(repeat)
-        if cache_id:
+        if cache_id and use_cache:
             params += ' {0}'.format(quote(cache_id))
         else:
             params += ' X'
-- 
2.43.0


From 2432e028c4c2d95985d8a1551e3c4a084bde4ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:59 +0000
Subject: [PATCH 110/111] fix: connections to the agent stayed open after
 errors and were closed before passphrases were forgotten

---
 pgp/pinentry/gpg_agent.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/pgp/pinentry/gpg_agent.py b/pgp/pinentry/gpg_agent.py
index 85e4ff0..83130d4 100644
--- a/pgp/pinentry/gpg_agent.py
+++ b/pgp/pinentry/gpg_agent.py
@@ -32,9 +32,13 @@ class GPGAgentPinentry(object):
 
     def connect(self):
         self._sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
-        self._sock.connect(self.socket_path)
-        # Get welcome line
-        self.get_response()
+        try:
+            self._sock.connect(self.socket_path)
+            # Get welcome line
+            self.get_response()
+        except:
+            self.disconnect()
+            raise
 
     def disconnect(self):
         self._sock.close()
@@ -91,14 +95,20 @@ class GPGAgentPinentry(object):
             params += ' {0}'.format(quote(description))
         else:
             params += ' X'
-        self.send('GET_PASSPHRASE {0}'.format(params))
-        response = self.get_response()
-        self.disconnect()
+        try:
+            self.send('GET_PASSPHRASE {0}'.format(params))
+            response = self.get_response()
+        finally:
+            self.disconnect()
         # There may be several lines of data, or none, and status lines
         data = b''.join([l[2:] for l in response if l[:2] == b'D '])
         return unquote_to_bytes(data).decode('utf-8')
 
     def clear_passphrase(self, cache_id):
         self.connect()
-        self.send('CLEAR_PASSPHRASE {0}'.format(quote(cache_id)))
-        self.disconnect()
+        try:
+            self.send('CLEAR_PASSPHRASE {0}'.format(quote(cache_id)))
+            # The agent has forgotten it when it answers
+            self.get_response()
+        finally:
+            self.disconnect()
-- 
2.43.0


From 32fec171e145055b2aa6b6c3ae358c1d4fa58a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:33 +0000
Subject: [PATCH 111/111] fix: asking for a passphrase showed an error where
 there was none

---
 pgp/pinentry/getpass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgp/pinentry/getpass.py b/pgp/pinentry/getpass.py
index ab4045d..272c37f 100644
--- a/pgp/pinentry/getpass.py
+++ b/pgp/pinentry/getpass.py
@@ -33,7 +33,7 @@ class GetPassPinentry(object):
             # Default prompt
             prompt = 'PIN?'
         if error_message in (None, 'X'):
-            error_message = 'Error.'
+            error_message = ''
         if description in (None, 'X'):
             description = ''
         if cache_id == 'X':
-- 
2.43.0

