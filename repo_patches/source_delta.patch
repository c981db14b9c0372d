From 3627bd993f0263ecd0144a457451208ee9f77c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:36 +0000
Subject: [PATCH 01/31] fix: Tlv equality must cover the type and ignore the
 value's container

---
 ccnpy/core/Tlv.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ccnpy/core/Tlv.py b/ccnpy/core/Tlv.py
index 918c9ee..74abb00 100755
--- a/ccnpy/core/Tlv.py
+++ b/ccnpy/core/Tlv.py
@@ -94,12 +94,10 @@ class Tlv(Serializable):
         return output
 
     def __eq__(self, other):
-        result = False
-        if len(self) == len(other):
-            if self.value() == other.value():
-                result = True
-
-        return result
+        if not isinstance(other, Tlv):
+            return False
+        # The wire format covers the type, and does not depend on the container (bytes or array) of the value
+        return self._wire_format == other._wire_format
 
     def __hash__(self):
         return hash(self._wire_format.tobytes())
-- 
2.43.0


From 646564b5af0fa8d2685a15d2250f41d3f8dc7b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:51 +0000
Subject: [PATCH 02/31] fix: structures compare equal exactly when they are the
 same kind with the same encoding

__dict__ comparison raised AttributeError against None or an absent optional field, and
depended on iteration state or on how the object was built; integer and octet TLVs of
different types with the same value compared equal.
---
 ccnpy/core/ContentObject.py            | 4 +++-
 ccnpy/core/FixedHeader.py              | 6 +++---
 ccnpy/core/KeyLink.py                  | 4 +++-
 ccnpy/core/Link.py                     | 4 +++-
 ccnpy/core/Name.py                     | 4 +++-
 ccnpy/core/Packet.py                   | 4 +++-
 ccnpy/core/PayloadType.py              | 4 +++-
 ccnpy/core/Timestamp.py                | 4 +++-
 ccnpy/core/TlvType.py                  | 7 +++++--
 ccnpy/core/ValidationAlg.py            | 4 +++-
 ccnpy/core/ValidationPayload.py        | 4 +++-
 ccnpy/flic/tlvs/GroupData.py           | 4 +++-
 ccnpy/flic/tlvs/Locator.py             | 4 +++-
 ccnpy/flic/tlvs/Locators.py            | 6 +++---
 ccnpy/flic/tlvs/NcSchema.py            | 4 +++-
 ccnpy/flic/tlvs/Node.py                | 6 +++---
 ccnpy/flic/tlvs/NodeData.py            | 4 +++-
 ccnpy/flic/tlvs/Pointers.py            | 4 +++-
 ccnpy/flic/tlvs/SuffixComponentType.py | 4 +++-
 ccnpy/flic/tlvs/Vendor.py              | 6 +++---
 20 files changed, 62 insertions(+), 29 deletions(-)

diff --git a/ccnpy/core/ContentObject.py b/ccnpy/core/ContentObject.py
index ac03b4a..3713ea2 100755
--- a/ccnpy/core/ContentObject.py
+++ b/ccnpy/core/ContentObject.py
@@ -164,7 +164,9 @@ class ContentObject(TlvType):
         return "CO: {%r, %r, %r, %r, %r}" % (self.name(), self.expiry_time(), self.payload_type(), payload, self._final_chunk_id)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        if not isinstance(other, ContentObject):
+            return False
+        return self._tlv == other._tlv
 
     def __len__(self):
         """
diff --git a/ccnpy/core/FixedHeader.py b/ccnpy/core/FixedHeader.py
index 2e4e81e..28e7acc 100755
--- a/ccnpy/core/FixedHeader.py
+++ b/ccnpy/core/FixedHeader.py
@@ -51,9 +51,9 @@ class FixedHeader:
                 DisplayFormatter.hexlify(self._fields), self._header_length)
 
     def __eq__(self, other):
-        if self.__dict__ == other.__dict__:
-            return True
-        return False
+        if not isinstance(other, FixedHeader):
+            return False
+        return self.serialize() == other.serialize()
 
     def version(self):
         return self._ver
diff --git a/ccnpy/core/KeyLink.py b/ccnpy/core/KeyLink.py
index 38a439d..90bb7a1 100755
--- a/ccnpy/core/KeyLink.py
+++ b/ccnpy/core/KeyLink.py
@@ -31,7 +31,9 @@ class KeyLink(TlvType):
         self._tlv = Tlv(self.class_type(), link)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        if not isinstance(other, KeyLink):
+            return False
+        return self._tlv == other._tlv
 
     def __repr__(self):
         return "KeyLink: {link: %r}" % self._link
diff --git a/ccnpy/core/Link.py b/ccnpy/core/Link.py
index 7a34c96..223fd65 100755
--- a/ccnpy/core/Link.py
+++ b/ccnpy/core/Link.py
@@ -69,7 +69,9 @@ class Link:
             self._wire_format.extend(Tlv(self.__T_OBJHASHRESTR, self._digest).serialize())
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        if not isinstance(other, Link):
+            return False
+        return self._wire_format == other._wire_format
 
     def __repr__(self):
         return "Link(%r, %r, %r)" % (self._name, self._keyid, self._digest)
diff --git a/ccnpy/core/Name.py b/ccnpy/core/Name.py
index ee1fb81..e8ce670 100755
--- a/ccnpy/core/Name.py
+++ b/ccnpy/core/Name.py
@@ -95,7 +95,9 @@ class Name(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        if not isinstance(other, Name):
+            return False
+        return self._tlv == other._tlv
 
     def __str__(self):
         return "NAME: %r" % [f'{c.type()} = {c.value()}' for c in self._components]
diff --git a/ccnpy/core/Packet.py b/ccnpy/core/Packet.py
index 068c91f..f98c6fa 100755
--- a/ccnpy/core/Packet.py
+++ b/ccnpy/core/Packet.py
@@ -90,7 +90,9 @@ class Packet:
         return array.array("B", byte_list)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        if not isinstance(other, Packet):
+            return False
+        return self._wire_format == other._wire_format
 
     def __repr__(self):
         return "{Packet: {%r, %r, %r, %r}}" % (self._header, self._body, self._validation_alg, self._validation_payload)
diff --git a/ccnpy/core/PayloadType.py b/ccnpy/core/PayloadType.py
index c984e5b..6ac3d7e 100755
--- a/ccnpy/core/PayloadType.py
+++ b/ccnpy/core/PayloadType.py
@@ -50,7 +50,9 @@ class PayloadType(TlvType):
         return "PLDTYP: %r" % self.__to_string()
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        if not isinstance(other, PayloadType):
+            return False
+        return self._tlv == other._tlv
 
     @classmethod
     def parse(cls, tlv):
diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index d6c2f12..03b2f84 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -40,7 +40,9 @@ class Timestamp(TlvType, ABC):
         self._wire_format = self._tlv.serialize()
 
     def __eq__(self, other):
-        return self.timestamp() == other.timestamp()
+        if not isinstance(other, Timestamp):
+            return False
+        return self._tlv == other._tlv
 
     def __repr__(self):
         return "%r: %r" % (self.__class__.__name__, self.datetime().isoformat())
diff --git a/ccnpy/core/TlvType.py b/ccnpy/core/TlvType.py
index dd1fe93..a567706 100755
--- a/ccnpy/core/TlvType.py
+++ b/ccnpy/core/TlvType.py
@@ -132,7 +132,7 @@ class IntegerTlvType(TlvType, ABC):
     def __eq__(self, other):
         if not isinstance(other, IntegerTlvType):
             return False
-        return self._value == other._value
+        return self._tlv == other._tlv
 
     def __hash__(self):
         return hash(self._tlv)
@@ -185,7 +185,10 @@ class OctetTlvType(TlvType, ABC):
     def __eq__(self, other):
         if not isinstance(other, OctetTlvType):
             return False
-        return self._value == other._value
+        return self._tlv == other._tlv
+
+    def __hash__(self):
+        return hash(self._tlv)
 
     def __repr__(self):
         return DisplayFormatter.hexlify(self._value)
diff --git a/ccnpy/core/ValidationAlg.py b/ccnpy/core/ValidationAlg.py
index b3468ef..a7288a3 100755
--- a/ccnpy/core/ValidationAlg.py
+++ b/ccnpy/core/ValidationAlg.py
@@ -76,7 +76,9 @@ class ValidationAlg_Crc32c(ValidationAlg):
                               Tlv(self.class_type(), []))
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        if not isinstance(other, ValidationAlg_Crc32c):
+            return False
+        return self._tlv == other._tlv
 
     def __len__(self):
         return len(self._tlv)
diff --git a/ccnpy/core/ValidationPayload.py b/ccnpy/core/ValidationPayload.py
index 42e3fec..488d310 100755
--- a/ccnpy/core/ValidationPayload.py
+++ b/ccnpy/core/ValidationPayload.py
@@ -31,7 +31,9 @@ class ValidationPayload(TlvType):
         self._tlv = Tlv(self.class_type(), self._payload)
 
     def __eq__(self, other):
-        return self.payload() == other.payload()
+        if not isinstance(other, ValidationPayload):
+            return False
+        return self._tlv == other._tlv
 
     def __repr__(self):
         return "ValPld: %r" % DisplayFormatter.hexlify(self._payload)
diff --git a/ccnpy/flic/tlvs/GroupData.py b/ccnpy/flic/tlvs/GroupData.py
index 8a18be9..5a54178 100755
--- a/ccnpy/flic/tlvs/GroupData.py
+++ b/ccnpy/flic/tlvs/GroupData.py
@@ -76,7 +76,9 @@ class GroupData(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        if not isinstance(other, GroupData):
+            return False
+        return self._tlv == other._tlv
 
     def __repr__(self):
         return ("GroupData: {%r, %r, %r, %r, %r, %r}" %
diff --git a/ccnpy/flic/tlvs/Locator.py b/ccnpy/flic/tlvs/Locator.py
index d8bf315..6ef33d2 100755
--- a/ccnpy/flic/tlvs/Locator.py
+++ b/ccnpy/flic/tlvs/Locator.py
@@ -64,7 +64,9 @@ class Locator(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        if not isinstance(other, Locator):
+            return False
+        return self._tlv == other._tlv
 
     def __repr__(self):
         return "Locator: %r" % self._link
diff --git a/ccnpy/flic/tlvs/Locators.py b/ccnpy/flic/tlvs/Locators.py
index 3316d38..3d3bf41 100755
--- a/ccnpy/flic/tlvs/Locators.py
+++ b/ccnpy/flic/tlvs/Locators.py
@@ -69,9 +69,9 @@ class Locators(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        if self.__dict__ == other.__dict__:
-            return True
-        return False
+        if not isinstance(other, Locators):
+            return False
+        return self._tlv == other._tlv
 
     def __repr__(self):
         return f"Locators: {self._locators}"
diff --git a/ccnpy/flic/tlvs/NcSchema.py b/ccnpy/flic/tlvs/NcSchema.py
index 0ef9bb4..eff956f 100644
--- a/ccnpy/flic/tlvs/NcSchema.py
+++ b/ccnpy/flic/tlvs/NcSchema.py
@@ -32,7 +32,9 @@ class NcSchema(TlvType, ABC):
     Generic supertype of the name constructor schemas
     """
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        if not isinstance(other, NcSchema):
+            return False
+        return self._tlv == other._tlv
 
     @classmethod
     def parse(cls, tlv):
diff --git a/ccnpy/flic/tlvs/Node.py b/ccnpy/flic/tlvs/Node.py
index 800101d..1ef0f14 100755
--- a/ccnpy/flic/tlvs/Node.py
+++ b/ccnpy/flic/tlvs/Node.py
@@ -113,9 +113,9 @@ class Node(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        if self.__dict__ == other.__dict__:
-            return True
-        return False
+        if not isinstance(other, Node):
+            return False
+        return self._tlv == other._tlv
 
     def __repr__(self):
         hash_values_len = len(self.hash_values())
diff --git a/ccnpy/flic/tlvs/NodeData.py b/ccnpy/flic/tlvs/NodeData.py
index c28e789..374b330 100755
--- a/ccnpy/flic/tlvs/NodeData.py
+++ b/ccnpy/flic/tlvs/NodeData.py
@@ -95,7 +95,9 @@ class NodeData(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        if not isinstance(other, NodeData):
+            return False
+        return self._tlv == other._tlv
 
     def __repr__(self):
         return "NodeData: {%r, %r, %r, %r, %r}" % (self._subtree_size, self._subtree_digest, self._locators, self._nc_defs, self._vendors)
diff --git a/ccnpy/flic/tlvs/Pointers.py b/ccnpy/flic/tlvs/Pointers.py
index 5648b84..08ee3be 100755
--- a/ccnpy/flic/tlvs/Pointers.py
+++ b/ccnpy/flic/tlvs/Pointers.py
@@ -51,7 +51,9 @@ class Pointers(TlvType):
         return len(self._hash_values)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        if not isinstance(other, Pointers):
+            return False
+        return self._tlv == other._tlv
 
     def __repr__(self):
         return "Ptrs: %r" % self._hash_values
diff --git a/ccnpy/flic/tlvs/SuffixComponentType.py b/ccnpy/flic/tlvs/SuffixComponentType.py
index 0ebbec4..3b650d4 100755
--- a/ccnpy/flic/tlvs/SuffixComponentType.py
+++ b/ccnpy/flic/tlvs/SuffixComponentType.py
@@ -43,7 +43,9 @@ class SuffixComponentType(TlvType):
         return "LeafSize: %02X" % self._value
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        if not isinstance(other, SuffixComponentType):
+            return False
+        return self._tlv == other._tlv
 
     def value(self):
         return self._value
diff --git a/ccnpy/flic/tlvs/Vendor.py b/ccnpy/flic/tlvs/Vendor.py
index 49a312c..e42a11a 100644
--- a/ccnpy/flic/tlvs/Vendor.py
+++ b/ccnpy/flic/tlvs/Vendor.py
@@ -46,9 +46,9 @@ class Vendor(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        if self.__dict__ == other.__dict__:
-            return True
-        return False
+        if not isinstance(other, Vendor):
+            return False
+        return self._tlv == other._tlv
 
     def __repr__(self):
         return "Vendor: pen: %r, payload: %r" % (self._pen, DisplayFormatter.hexlify(self._payload))
-- 
2.43.0


From 9fb28f71137935dd286c2dbf07e5da68963ce815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:54 +0000
Subject: [PATCH 03/31] fix: PacketDirectoryReader lookup by name failed with
 NameError on every link

---
 ccnpy/flic/tree/TreeIO.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index 95b86dd..0249993 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -266,11 +266,10 @@ class TreeIO:
             # TODO: we should validate p, but that needs a keystore
             if p.body().is_link():
                 link = Link.deserialize(p.body().payload().value())
-                hash_path = self.to_path(link.digest())
-                packet = Packet.load(hash_path)
-                print(f"Dereferenced link {filename} to load packet {packet.content_object_hash()}")
+                packet = self.get(name=name, hash_restriction=link.digest())
+                print(f"Dereferenced link {link_path} to load packet {packet.content_object_hash()}")
                 return packet
-            raise FileNotFoundError(f'Could not find link {filename}')
+            raise FileNotFoundError(f'Could not find link {link_path}')
 
         def close(self):
             pass
-- 
2.43.0


From 3bc8962520d91f59648376a75e4a074367452277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:54 +0000
Subject: [PATCH 04/31] fix: PacketDirectoryReader must not return a packet
 that does not match the hash restriction

---
 ccnpy/flic/tree/TreeIO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index 0249993..a7db114 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -241,6 +241,8 @@ class TreeIO:
             # ccnx does not use forwarding hint
             path = self.to_path(hash_restriction)
             p = Packet.load(path)
+            if p.content_object_hash() != hash_restriction:
+                raise ValueError(f'Packet stored for hash {hash_restriction} has hash {p.content_object_hash()}')
             if p.body().name() is not None:
                 if name != p.body().name():
                     raise ValueError(f'Found packet hash {hash_restriction}, but request name {name} does not match packet {p.body().name()}')
-- 
2.43.0


From 58875df6e99a5bc907b7f7e330a698ef6872ef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:54 +0000
Subject: [PATCH 05/31] fix: integers that do not fit in 8 bytes must be
 refused, not truncated

---
 ccnpy/core/Tlv.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccnpy/core/Tlv.py b/ccnpy/core/Tlv.py
index 74abb00..c22cd0a 100755
--- a/ccnpy/core/Tlv.py
+++ b/ccnpy/core/Tlv.py
@@ -209,6 +209,8 @@ class Tlv(Serializable):
             # skip to 8 bytes
             byte_array = [(n >> 56) & 0xFF, (n >> 48) & 0xFF, (n >> 40) & 0xFF, (n >> 32) & 0xFF,
                           (n >> 24) & 0xFF, (n >> 16) & 0xFF, (n >> 8) & 0xFF, n & 0xFF]
+            if n >= 0x10000000000000000:
+                raise OverflowError("number %r does not fit in 8 bytes" % n)
 
         return array.array("B", byte_array)
 
@@ -220,6 +222,8 @@ class Tlv(Serializable):
         :param n:
         :return:
         """
+        if not 0 <= n < 0x10000000000000000:
+            raise OverflowError("number %r does not fit in 8 bytes" % n)
         byte_array = [(n >> 56) & 0xFF, (n >> 48) & 0xFF, (n >> 40) & 0xFF, (n >> 32) & 0xFF,
                       (n >> 24) & 0xFF, (n >> 16) & 0xFF, (n >> 8) & 0xFF, n & 0xFF]
         return array.array("B", byte_array)
-- 
2.43.0


From 5e52ac51dfbe90dee4737f84e2317519f8fb3466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:59 +0000
Subject: [PATCH 06/31] fix: timestamps lost a millisecond to float truncation
 on encode and on every re-encode

---
 ccnpy/core/Timestamp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index 03b2f84..caa4cef 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -77,7 +77,7 @@ class Timestamp(TlvType, ABC):
         Python timestamp in milliseconds as integer
         :return:
         """
-        msec = int(self.timestamp() * 1000)
+        msec = round(self.timestamp() * 1000)
         return msec
 
     def datetime(self):
-- 
2.43.0


From 022f1e4a6e09695ccb2a7c69097c3d6341d81199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:59 +0000
Subject: [PATCH 07/31] fix: Vendor.parse compared the whole TLV length, so a
 value shorter than the PEN was accepted

---
 ccnpy/flic/tlvs/Vendor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tlvs/Vendor.py b/ccnpy/flic/tlvs/Vendor.py
index e42a11a..a785157 100644
--- a/ccnpy/flic/tlvs/Vendor.py
+++ b/ccnpy/flic/tlvs/Vendor.py
@@ -67,7 +67,7 @@ class Vendor(TlvType):
         if tlv.type() != cls.class_type():
             raise CannotParseError("Incorrect TLV type %r" % tlv.type())
 
-        if len(tlv) < 3:
+        if tlv.length() < 3:
             raise ValueError("A Vendor TLV must have a 3-byte PEN")
 
         pen = Tlv.array_to_number(tlv.value()[0:3])
-- 
2.43.0


From 94939744a064d16e28bb34633a99d26d78eaf93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:59 +0000
Subject: [PATCH 08/31] fix: Pad.parse always raised because it passed the
 value where the length belongs

---
 ccnpy/core/Pad.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ccnpy/core/Pad.py b/ccnpy/core/Pad.py
index 8f60b27..452e46f 100755
--- a/ccnpy/core/Pad.py
+++ b/ccnpy/core/Pad.py
@@ -40,8 +40,10 @@ class Pad(OctetTlvType):
 
     @classmethod
     def parse(cls, tlv):
-        result = super().parse(tlv)
-        for b in result.value_bytes():
+        if tlv.type() != cls.class_type():
+            raise CannotParseError("Incorrect TLV type %r" % tlv.type())
+
+        for b in tlv.value():
             if b != 0:
-                raise ValueError(f'The value of a PAD must all be 0s, got: {result.value()}')
-        return result
+                raise ValueError(f'The value of a PAD must all be 0s, got: {tlv.value()}')
+        return cls(length=tlv.length())
-- 
2.43.0


From 44d69b2263441b947c3df55d2f7efe50b2dadc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:37 +0000
Subject: [PATCH 09/31] fix: RsaOaepDecryptor.decrypt_node called the security
 context instead of passing it

---
 ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py b/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
index a3e34c7..3ba9161 100755
--- a/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
+++ b/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
@@ -55,5 +55,5 @@ class RsaOaepDecryptor(ManifestDecryptor):
         return impl.decrypt_manifest(manifest)
 
     def decrypt_node(self, security_ctx, encrypted_node, auth_tag):
-        impl = self._get_impl(security_ctx=security_ctx())
+        impl = self._get_impl(security_ctx=security_ctx)
         return impl.decrypt_node(security_ctx, encrypted_node, auth_tag)
-- 
2.43.0


From 8a3d1315bf3fac7fecc8d57d76112783e4802e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:37 +0000
Subject: [PATCH 10/31] fix: wrapping a key with a KdfData that has no KdfInfo
 raised AttributeError

---
 ccnpy/flic/RsaOaepCtx/WrappedKey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/RsaOaepCtx/WrappedKey.py b/ccnpy/flic/RsaOaepCtx/WrappedKey.py
index c02b684..6f4b7fe 100644
--- a/ccnpy/flic/RsaOaepCtx/WrappedKey.py
+++ b/ccnpy/flic/RsaOaepCtx/WrappedKey.py
@@ -37,7 +37,7 @@ class WrappedKey(OctetTlvType):
     def _create_label(key_number: KeyNumber, mode: AeadMode,
                       kdf_data: Optional[KdfData], key_id: KeyId, hash_alg: HashAlg):
 
-        if kdf_data is not None:
+        if kdf_data is not None and kdf_data.kdf_info() is not None:
             kdf_bytes = kdf_data.kdf_info().serialize().tobytes()
         else:
             kdf_bytes = b''
-- 
2.43.0


From d41c2934a61f59dc5826bf6f376cda1e968fface Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:37 +0000
Subject: [PATCH 11/31] fix: DecryptorCache served a stale decryptor after a
 failed lookup or for another kind of context

---
 ccnpy/flic/tree/DecryptorCache.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/tree/DecryptorCache.py b/ccnpy/flic/tree/DecryptorCache.py
index bb120b9..f10ef75 100644
--- a/ccnpy/flic/tree/DecryptorCache.py
+++ b/ccnpy/flic/tree/DecryptorCache.py
@@ -37,11 +37,12 @@ class DecryptorCache:
 
     def get_or_create(self, security_ctx: AeadSecurityCtx):
         # TODO: This is not correct for RsaOaep, as it uses (keyid, keynum) pair as index
-        key_num = security_ctx.key_number()
+        key_num = (type(security_ctx), security_ctx.key_number())
         if key_num == self._last_key_num:
             return self._last_decryptor
-        self._last_key_num = key_num
+        # remember the key only once we have its decryptor
         self._last_decryptor = self._create(security_ctx)
+        self._last_key_num = key_num
         return self._last_decryptor
 
     def _create(self, security_ctx: AeadSecurityCtx) -> ManifestDecryptor:
-- 
2.43.0


From fb08b65e83363b417cf686d20b211592d89f6c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:37 +0000
Subject: [PATCH 12/31] fix: HpkeKdfIdentifiers.parse returned a KeyError
 object for an unknown name

---
 ccnpy/crypto/HpkeKdfIdentifiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/crypto/HpkeKdfIdentifiers.py b/ccnpy/crypto/HpkeKdfIdentifiers.py
index 319fe9c..e140502 100644
--- a/ccnpy/crypto/HpkeKdfIdentifiers.py
+++ b/ccnpy/crypto/HpkeKdfIdentifiers.py
@@ -35,4 +35,4 @@ class HpkeKdfIdentifiers(Enum):
         for x in HpkeKdfIdentifiers:
             if x.str_name == name.upper():
                 return x
-        return KeyError(f'Not found: {name}')
+        raise KeyError(f'Not found: {name}')
-- 
2.43.0


From b4d3d691b85e12b6d624bca66c523bbcfcdad91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:37 +0000
Subject: [PATCH 13/31] fix: AeadKey.decrypt accepted bytes moved between the
 ciphertext and the authentication tag

---
 ccnpy/crypto/AeadKey.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccnpy/crypto/AeadKey.py b/ccnpy/crypto/AeadKey.py
index 274ec3d..929999e 100755
--- a/ccnpy/crypto/AeadKey.py
+++ b/ccnpy/crypto/AeadKey.py
@@ -119,6 +119,10 @@ class AeadKey(ABC):
         if isinstance(associated_data, array.array):
             associated_data = associated_data.tobytes()
 
+        # ciphertext and tag are separate fields, so bytes moved from one to the other are tampering
+        if len(auth_tag) != self._tag_len:
+            raise DecryptionError(f'auth tag must be {self._tag_len} bytes, got {len(auth_tag)}')
+
         combined = ciphertext + auth_tag
 
         if self.DEBUG:
-- 
2.43.0


From 0b210868e9b3e08656497cf1fe897acc645dcf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:07 +0000
Subject: [PATCH 14/31] fix: ManifestFactory.build_packet ignored the signer it
 was given and used the tree options' one

---
 ccnpy/flic/ManifestFactory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/ManifestFactory.py b/ccnpy/flic/ManifestFactory.py
index 92e3fa0..c22a52b 100755
--- a/ccnpy/flic/ManifestFactory.py
+++ b/ccnpy/flic/ManifestFactory.py
@@ -99,8 +99,8 @@ class ManifestFactory:
                                           expiry_time=expiry_time)
 
         if signer is not None:
-            validation_alg = self._tree_options.signer.validation_alg()
-            validation_payload = self._tree_options.signer.sign(body.serialize(), validation_alg.serialize())
+            validation_alg = signer.validation_alg()
+            validation_payload = signer.sign(body.serialize(), validation_alg.serialize())
             packet = Packet.create_signed_content_object(body, validation_alg, validation_payload)
         else:
             packet = Packet.create_content_object(body)
-- 
2.43.0


From f910078546815c7bd2c5390a93188b7207b8fb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 15/31] fix: refuse a packet whose length differs from the one
 its header declares

---
 ccnpy/core/Packet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccnpy/core/Packet.py b/ccnpy/core/Packet.py
index f98c6fa..9766776 100755
--- a/ccnpy/core/Packet.py
+++ b/ccnpy/core/Packet.py
@@ -24,6 +24,7 @@ from .Name import Name
 from .Tlv import Tlv
 from .ValidationAlg import ValidationAlg
 from .ValidationPayload import ValidationPayload
+from ..exceptions.ParseError import ParseError
 from ..flic.tlvs.Locators import Locators
 
 
@@ -107,6 +108,8 @@ class Packet:
         offset = 0
         header = FixedHeader.deserialize(buffer)
         offset += header.header_length()
+        if header.packet_length() != len(buffer):
+            raise ParseError(f'packet length {header.packet_length()} does not match the buffer length {len(buffer)}')
 
         while offset < len(buffer):
             tlv = Tlv.deserialize(buffer[offset:])
-- 
2.43.0


From 6ae4dd7d315ef40e4ac4810dbd6912cb87c774e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:03 +0000
Subject: [PATCH 16/31] fix: a naming schema with protocol flags could not be
 built or parsed (TypeError)

---
 ccnpy/flic/tlvs/NcSchema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tlvs/NcSchema.py b/ccnpy/flic/tlvs/NcSchema.py
index eff956f..c6bcb33 100644
--- a/ccnpy/flic/tlvs/NcSchema.py
+++ b/ccnpy/flic/tlvs/NcSchema.py
@@ -57,7 +57,7 @@ class ProtocolFlagsSchema(NcSchema, ABC):
     def __init__(self, flags: Optional[ProtocolFlags] = None):
         self._flags = flags
         super().__init__()
-        self._tlv = Tlv(self.class_type(), self._flags)
+        self._tlv = Tlv(self.class_type(), [self._flags])
 
     def __len__(self):
         return len(self._tlv)
-- 
2.43.0


From a25e675cb9fb3f600b6c59c608a17177ff99303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:14 +0000
Subject: [PATCH 17/31] fix: a name segment that is not UTF-8, or was decoded
 from the wire, could not be displayed

---
 ccnpy/core/Name.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/core/Name.py b/ccnpy/core/Name.py
index e8ce670..7b023b4 100755
--- a/ccnpy/core/Name.py
+++ b/ccnpy/core/Name.py
@@ -58,7 +58,7 @@ class NameComponent(Tlv):
         if t == NameComponent.__T_CHUNKID:
             return f'ChunkId={Tlv.array_to_number(self.value())}'
         if t == NameComponent.__T_NAMESEGMENT:
-            return f'Name={self.value().decode('UTF-8')}'
+            return f'Name={bytes(self.value()).decode('UTF-8', errors='backslashreplace')}'
         if t == NameComponent.__T_MANIFESTID:
             return f'ManifestId={Tlv.array_to_number(self.value())}'
         if t == NameComponent.__T_IPID:
-- 
2.43.0


From a968b887bd4233a501362b64ef688abaef06a87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:14 +0000
Subject: [PATCH 18/31] fix: an AEAD mode outside the known four could not be
 displayed (ValueError)

---
 ccnpy/flic/tlvs/AeadMode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tlvs/AeadMode.py b/ccnpy/flic/tlvs/AeadMode.py
index 2f79b5b..768a763 100755
--- a/ccnpy/flic/tlvs/AeadMode.py
+++ b/ccnpy/flic/tlvs/AeadMode.py
@@ -39,7 +39,7 @@ class AeadMode(IntegerTlvType):
             return "AES-CCM-128"
         if self._value == self.__AEAD_AES_256_CCM:
             return "AES-CCM-256"
-        raise ValueError("Unsupported mode %r" % self._value)
+        return "Unsupported"
 
     @classmethod
     def class_type(cls):
-- 
2.43.0


From bd86666769b06ce2682359efba2ac1b929c07848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:14 +0000
Subject: [PATCH 19/31] fix: a timestamp beyond the platform's range could not
 be displayed (OverflowError)

---
 ccnpy/core/Timestamp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index caa4cef..b717689 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -83,7 +83,7 @@ class Timestamp(TlvType, ABC):
     def datetime(self):
         try:
             return datetime.fromtimestamp(self._timestamp, UTC)
-        except ValueError:
+        except (ValueError, OverflowError, OSError):
             return datetime.fromtimestamp(0, UTC)
 
     @classmethod
-- 
2.43.0


From 3b13c4ba1b542e80c406ef6db89bc8e30b1c47c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:14 +0000
Subject: [PATCH 20/31] fix: a node with a hash group that has no pointers
 could not be displayed (TypeError)

---
 ccnpy/flic/tlvs/Node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccnpy/flic/tlvs/Node.py b/ccnpy/flic/tlvs/Node.py
index 1ef0f14..ab2d8ef 100755
--- a/ccnpy/flic/tlvs/Node.py
+++ b/ccnpy/flic/tlvs/Node.py
@@ -166,6 +166,8 @@ class Node(TlvType):
         """
         hash_values = []
         for hg in self._hash_groups:
+            if hg.pointers() is None:
+                continue
             for hv in hg.pointers():
                 hash_values.append(hv)
         return hash_values
-- 
2.43.0


From 29bf35900d38df8f558c568c99e455aa1fd685b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:25 +0000
Subject: [PATCH 21/31] fix: a content object without a payload, or whose
 manifest or link payload is malformed, could not be displayed

---
 ccnpy/core/ContentObject.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/ccnpy/core/ContentObject.py b/ccnpy/core/ContentObject.py
index 3713ea2..3f66318 100755
--- a/ccnpy/core/ContentObject.py
+++ b/ccnpy/core/ContentObject.py
@@ -24,7 +24,6 @@ from .Payload import Payload
 from .PayloadType import PayloadType
 from .Tlv import Tlv
 from .TlvType import TlvType
-from ..exceptions.ParseError import ParseError
 
 
 class ContentObject(TlvType):
@@ -146,15 +145,21 @@ class ContentObject(TlvType):
                                             self._final_chunk_id])
 
     def __repr__(self):
-        if self.is_manifest():
+        if self._payload is None:
+            payload = None
+        elif self.is_manifest():
             from ccnpy.flic.tlvs.Manifest import Manifest
             try:
                 payload = Manifest.deserialize(self._payload.value())
-            except ParseError as e:
-                payload = self._payload.value()
-
+            except Exception:
+                # the payload is not a well-formed manifest, so show it as it is
+                payload = self._payload
         elif self.is_link():
-            payload = Link.deserialize(self._payload.value())
+            try:
+                payload = Link.deserialize(self._payload.value())
+            except Exception:
+                # the payload is not a well-formed link, so show it as it is
+                payload = self._payload
         else:
             if self.USE_BRIEF_OUTPUT:
                 payload = f'(payload {len(self._payload)} bytes)'
-- 
2.43.0


From a161d3bc0a77f721daf0d8101cb68426393653c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:23 +0000
Subject: [PATCH 22/31] Revert "fix: a timestamp beyond the platform's range
 could not be displayed (OverflowError)"

This reverts commit bd86666769b06ce2682359efba2ac1b929c07848.
---
 ccnpy/core/Timestamp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index b717689..caa4cef 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -83,7 +83,7 @@ class Timestamp(TlvType, ABC):
     def datetime(self):
         try:
             return datetime.fromtimestamp(self._timestamp, UTC)
-        except (ValueError, OverflowError, OSError):
+        except ValueError:
             return datetime.fromtimestamp(0, UTC)
 
     @classmethod
-- 
2.43.0


From 2805927b87d262774e20871c591ecdf2c1e5b312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:13 +0000
Subject: [PATCH 23/31] fix: the root manifest of a segmented tree pointed to
 manifest 0 even when the top manifest has another id

---
 ccnpy/flic/ManifestTree.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/ManifestTree.py b/ccnpy/flic/ManifestTree.py
index 6c7b3f1..c2b21ac 100755
--- a/ccnpy/flic/ManifestTree.py
+++ b/ccnpy/flic/ManifestTree.py
@@ -102,9 +102,12 @@ class ManifestTree:
         """
         ptr = Pointers([top_manifest_packet.content_object_hash()])
 
-        # if the top manifest is SegmentedSchema, we need to include the fact that the chunk_id is 0
+        # if the top manifest is SegmentedSchema, we need to include the manifest id of its name.  It is only 0 when
+        # the tree is as tall as the optimizer estimated.
         if self._name_ctx.manifest_schema_impl.uses_name_id():
-            start_segment_id=StartSegmentId(0)
+            top_name = top_manifest_packet.body().name()
+            manifest_id = top_name.component(top_name.count() - 1).value()
+            start_segment_id=StartSegmentId(int.from_bytes(manifest_id, byteorder='big'))
         else:
             start_segment_id=None
 
-- 
2.43.0


From d5824ee8dabb83bf85b9f8712fce37688523ec12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:15 +0000
Subject: [PATCH 24/31] fix: group subtree sizes left out the data below child
 manifests unless node subtree sizes were on too

---
 ccnpy/flic/tree/TreeBuildReturnValue.py |  3 ++-
 ccnpy/flic/tree/TreeBuilder.py          | 12 +++---------
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/ccnpy/flic/tree/TreeBuildReturnValue.py b/ccnpy/flic/tree/TreeBuildReturnValue.py
index 69ded05..2890ee8 100644
--- a/ccnpy/flic/tree/TreeBuildReturnValue.py
+++ b/ccnpy/flic/tree/TreeBuildReturnValue.py
@@ -29,4 +29,5 @@ class TreeBuilderReturnValue:
     node: Node
     manifest: Optional[Manifest] = None
     packet: Optional[Packet] = None
-
+    # The application octets below the node, whether or not the node's own metadata states it
+    subtree_size: Optional[int] = None
diff --git a/ccnpy/flic/tree/TreeBuilder.py b/ccnpy/flic/tree/TreeBuilder.py
index 5d9f6a3..18d70e6 100755
--- a/ccnpy/flic/tree/TreeBuilder.py
+++ b/ccnpy/flic/tree/TreeBuilder.py
@@ -327,7 +327,7 @@ class TreeBuilder:
         packet = self._factory.build_packet(source=node,
                                             name=self._get_next_manifest_name(level),
                                             expiry_time=self._tree_options.manifest_expiry_time)
-        return_value = TreeBuilderReturnValue(packet=packet, node=node)
+        return_value = TreeBuilderReturnValue(packet=packet, node=node, subtree_size=direct_size + indirect_size)
         return return_value
 
     def _build_leaf_packet(self, head: int, tail: int, level: int):
@@ -411,7 +411,7 @@ class TreeBuilder:
     def _interior_add_right_most_child(self, builders: HashGroupBuilderPair, right_most_child: TreeBuilderReturnValue):
         if right_most_child is not None:
             builders.append_indirect(hash_value=right_most_child.packet.content_object_hash(),
-                                     subtree_size=self._get_optional_subtree_size(right_most_child.node.node_data()))
+                                     subtree_size=right_most_child.subtree_size)
 
     def _interior_add_indirect(self, builders: HashGroupBuilderPair, segment, level: int):
         # Reserve space at the head of the segment for this node's direct pointers before
@@ -422,7 +422,7 @@ class TreeBuilder:
         while not builders.is_indirect_full() and not segment.empty():
             child = self._bottom_up_preorder(segment, level - 1)
             builders.prepend_indirect(hash_value=child.packet.content_object_hash(),
-                                      subtree_size=self._get_optional_subtree_size(child.node.node_data()))
+                                      subtree_size=child.subtree_size)
 
         # Pull back our reservation and put those pointers in our direct children
         segment.decrement_head(reserve_count)
@@ -441,12 +441,6 @@ class TreeBuilder:
         # we did not execute the while loop
         return None
 
-    def _get_optional_subtree_size(self, node_data: NodeData):
-        if self._tree_options.add_node_subtree_size:
-            return node_data.subtree_size().size()
-        else:
-            return None
-
     def _add_manifest_to_graph(self, return_value: TreeBuilderReturnValue):
         if self._manifest_graph is not None:
             self._manifest_graph.add_manifest(return_value.packet.content_object_hash(),
-- 
2.43.0


From cd2706d8c093c05415b2872b183a8f25dcd2b9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:50 +0000
Subject: [PATCH 25/31] fix: a received RSA signature without a signature time
 was given the current time

---
 ccnpy/core/ValidationAlg.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ccnpy/core/ValidationAlg.py b/ccnpy/core/ValidationAlg.py
index a7288a3..dc5a20a 100755
--- a/ccnpy/core/ValidationAlg.py
+++ b/ccnpy/core/ValidationAlg.py
@@ -105,6 +105,7 @@ class ValidationAlg_RsaSha256(ValidationAlg):
 
     __T_PUBLICKEYLOC = 0x000A
     __T_PUBLICKEY = 0x000B
+    __NO_SIGNATURE_TIME = object()
 
 
     @classmethod
@@ -138,12 +139,15 @@ class ValidationAlg_RsaSha256(ValidationAlg):
         if signature_time is None:
             signature_time = datetime.now(UTC)
 
-        if isinstance(signature_time, datetime):
+        if signature_time is self.__NO_SIGNATURE_TIME:
+            signature_time = None
+        elif isinstance(signature_time, datetime):
             signature_time = SignatureTime.from_datetime(signature_time)
         elif not isinstance(signature_time, SignatureTime):
             raise TypeError("signature_time must be None (for now), a datetime (UTC), or a SignatureTime")
 
-        tlvs.append(signature_time)
+        if signature_time is not None:
+            tlvs.append(signature_time)
         self._tlv = Tlv(ValidationAlg.class_type(),
                               Tlv(self.class_type(), tlvs))
         self._keyid = keyid
@@ -181,7 +185,9 @@ class ValidationAlg_RsaSha256(ValidationAlg):
             raise ValueError("Incorrect TLV type %r" % tlv.type())
 
         # Now parse the body for the inner TLVs
-        keyid = public_key = key_link = signature_time = None
+        keyid = public_key = key_link = None
+        # a received algorithm without a signature time must not be given the current one
+        signature_time = cls.__NO_SIGNATURE_TIME
         offset = 0
         while offset < tlv.length():
             inner_tlv = Tlv.deserialize(tlv.value()[offset:])
-- 
2.43.0


From 8bbd8b72aece1b030d3a20c7505e0e9652eb21c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:00 +0000
Subject: [PATCH 26/31] fix: looking up a stored link without a hash recursed
 without end

---
 ccnpy/flic/tree/TreeIO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index a7db114..5d4d953 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -268,6 +268,8 @@ class TreeIO:
             # TODO: we should validate p, but that needs a keystore
             if p.body().is_link():
                 link = Link.deserialize(p.body().payload().value())
+                if link.digest() is None:
+                    raise ValueError(f'Link {link_path} has no hash')
                 packet = self.get(name=name, hash_restriction=link.digest())
                 print(f"Dereferenced link {link_path} to load packet {packet.content_object_hash()}")
                 return packet
-- 
2.43.0


From f98d3b9a543c3697e7c6f241bb8b1e9921c2b9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:59 +0000
Subject: [PATCH 27/31] fix: the default key number was Python's hash of the
 key: often negative, and unknown to the readers

---
 ccnpy/apps/cli_utils.py       | 7 ++++++-
 ccnpy/apps/manifest_writer.py | 4 ----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/ccnpy/apps/cli_utils.py b/ccnpy/apps/cli_utils.py
index 9cafdcb..acfaa51 100644
--- a/ccnpy/apps/cli_utils.py
+++ b/ccnpy/apps/cli_utils.py
@@ -13,6 +13,7 @@
 #  limitations under the License.
 import argparse
 import getpass
+import hashlib
 import logging
 import uuid
 from typing import Optional
@@ -103,9 +104,13 @@ def kdf_data_from_cli(args) -> Optional[KdfData]:
 
 def aead_parameters_from_cli(args):
     key = aes_key_from_cli_args(args)
+    key_num = args.key_num
+    if key is not None and key_num is None:
+        # the key number defaults to a hash of the key: the left 8 bytes of its sha256
+        key_num = KeyNumber(hashlib.sha256(args.enc_key).digest()[:8])
     params = AeadParameters(
         key=key,
-        key_number=args.key_num,
+        key_number=key_num,
         aead_salt=args.salt,
         kdf_data=kdf_data_from_cli(args),
         kdf_salt=args.kdf_salt)
diff --git a/ccnpy/apps/manifest_writer.py b/ccnpy/apps/manifest_writer.py
index b1df5ec..0150b0e 100755
--- a/ccnpy/apps/manifest_writer.py
+++ b/ccnpy/apps/manifest_writer.py
@@ -149,10 +149,6 @@ def run():
 
     fixup_key_password(args)
 
-    if args.enc_key is not None and args.key_num is None:
-        # TODO: use something like the left 8 bytes of a sha256
-        args.key_num = hash(args.enc_key)
-
     if args.use_tcp:
         packet_writer = TreeIO.PacketNetworkWriter("127.0.0.1", 9896)
     else:
-- 
2.43.0


From 8d6c246c66e2661bbe29c08d190af3aa8cd586bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:08 +0000
Subject: [PATCH 28/31] fix: manifest_reader --hash failed on every hash: the
 text was never made a hash value

---
 ccnpy/apps/cli_utils.py       | 6 ++++++
 ccnpy/apps/manifest_reader.py | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ccnpy/apps/cli_utils.py b/ccnpy/apps/cli_utils.py
index acfaa51..682c18a 100644
--- a/ccnpy/apps/cli_utils.py
+++ b/ccnpy/apps/cli_utils.py
@@ -18,6 +18,7 @@ import logging
 import uuid
 from typing import Optional
 
+from ccnpy.core.HashValue import HashValue
 from ccnpy.crypto.AeadKey import AeadKey, AeadGcm, AeadCcm
 from ccnpy.crypto.HpkeKdfIdentifiers import HpkeKdfIdentifiers
 from ccnpy.crypto.InsecureKeystore import InsecureKeystore
@@ -48,6 +49,11 @@ def _str_to_array(value: str):
 
     return bytes.fromhex(value[offset:])
 
+def sha256_from_hex(value: str) -> HashValue:
+    """A content object hash given as a hex string"""
+    return HashValue.create_sha256(_str_to_array(value))
+
+
 def add_encryption_cli_args(parser):
 
     parser.add_argument('-k', dest="key_file", default=None,
diff --git a/ccnpy/apps/manifest_reader.py b/ccnpy/apps/manifest_reader.py
index 75d9d8e..ec367de 100755
--- a/ccnpy/apps/manifest_reader.py
+++ b/ccnpy/apps/manifest_reader.py
@@ -21,7 +21,7 @@ from ccnpy.core.Name import Name
 from ccnpy.crypto.InsecureKeystore import InsecureKeystore
 from ccnpy.flic.tree.Traversal import Traversal
 from ccnpy.flic.tree.TreeIO import TreeIO
-from .cli_utils import add_encryption_cli_args, fixup_key_password, create_keystore
+from .cli_utils import add_encryption_cli_args, fixup_key_password, create_keystore, sha256_from_hex
 
 
 class ManifestReader(ABC):
@@ -120,7 +120,7 @@ def run():
     parser = argparse.ArgumentParser()
 
     parser.add_argument('--name', dest="name", default=None, help='CCNx URI for root manifest', required=True)
-    parser.add_argument('--hash', dest="hash_restriction", default=None, help='CCNx URI for root manifest', required=False)
+    parser.add_argument('--hash', dest="hash_restriction", type=sha256_from_hex, default=None, help='SHA256 hash of the root manifest (hex string)', required=False)
 
     parser.add_argument('-i', dest="in_dir", default='.', help="input directory (default=%r)" % '.')
     parser.add_argument('-T', dest="use_tcp", default=False, action=argparse.BooleanOptionalAction,
-- 
2.43.0


From d15a7de15d2d53b77a9f786c21ec8a8c1aea17f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:45 +0000
Subject: [PATCH 29/31] fix: showing a manifest encrypted under an unknown key
 number raised AttributeError after reporting it

---
 ccnpy/apps/packet_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccnpy/apps/packet_utils.py b/ccnpy/apps/packet_utils.py
index 92c0909..4393f4e 100644
--- a/ccnpy/apps/packet_utils.py
+++ b/ccnpy/apps/packet_utils.py
@@ -80,6 +80,9 @@ def decrypt_manifest(keystore: InsecureKeystore, manifest: Manifest) -> Manifest
         print(f"Unsupported encryption mode: {security_ctx}")
         return None
 
+    if decryptor is None:
+        return None
+
     try:
         return decryptor.decrypt_manifest(manifest)
     except DecryptionError as e:
-- 
2.43.0


From 074b3cdf87dc335d931cfe30d984792f5daf2340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:52 +0000
Subject: [PATCH 30/31] fix: label data objects in the manifest graph with
 their name

ChunkMetadata.name is never filled in, so named data objects showed up as
nameless in a graph collected while building, unlike in one collected while
reading.
---
 ccnpy/flic/tree/TreeBuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tree/TreeBuilder.py b/ccnpy/flic/tree/TreeBuilder.py
index 18d70e6..6d3a8a5 100755
--- a/ccnpy/flic/tree/TreeBuilder.py
+++ b/ccnpy/flic/tree/TreeBuilder.py
@@ -451,5 +451,5 @@ class TreeBuilder:
         if self._manifest_graph is not None:
             self._manifest_graph.add_data(
                 data_hash=chunk_metadata.content_object_hash,
-                name=chunk_metadata.name)
+                name=self._name_ctx.data_schema_impl.get_name(chunk_metadata.chunk_number))
 
-- 
2.43.0


From 0a48c584088798a2996e034ce227265a7b504e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:34 +0000
Subject: [PATCH 31/31] fix: accept the password of a key file as text

The command-line tools pass the password (from the option or the prompt) as
str, which the cryptography library refuses, so a password-protected signing
or wrapping key could not be used.
---
 ccnpy/crypto/RsaKey.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccnpy/crypto/RsaKey.py b/ccnpy/crypto/RsaKey.py
index 73aa630..6984371 100755
--- a/ccnpy/crypto/RsaKey.py
+++ b/ccnpy/crypto/RsaKey.py
@@ -69,6 +69,8 @@ class RsaKey:
     def __initialize_private_key(self, pem_key, password):
         if password is not None and len(password) == 0:
             password = None
+        if isinstance(password, str):
+            password = password.encode('utf-8')
         self._private_key = serialization.load_pem_private_key(
                                 pem_key,
                                 password=password,
-- 
2.43.0

