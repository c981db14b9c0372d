"""C03 leaf fields, C04 names and links, C29 timestamps"""
from .api import harness


def be(items):
    n = 0
    for b in items:
        n = n * 256 + b
    return n


def octet_classes():
    from ccnpy.core.Payload import Payload
    from ccnpy.flic.tlvs.Nonce import Nonce
    from ccnpy.flic.tlvs.AuthTag import AuthTag
    from ccnpy.flic.tlvs.KdfInfo import KdfInfo
    from ccnpy.flic.tlvs.ProtocolFlags import ProtocolFlags
    from ccnpy.flic.tlvs.EncryptedNode import EncryptedNode
    from ccnpy.flic.RsaOaepCtx.WrappedKey import WrappedKey
    return {'Payload': Payload, 'Nonce': Nonce, 'AuthTag': AuthTag, 'KdfInfo': KdfInfo,
            'ProtocolFlags': ProtocolFlags, 'EncryptedNode': EncryptedNode, 'WrappedKey': WrappedKey}


def hash_classes():
    from ccnpy.core.KeyId import KeyId
    from ccnpy.flic.tlvs.SubtreeDigest import SubtreeDigest
    from ccnpy.flic.tlvs.LeafDigest import LeafDigest
    return {'KeyId': KeyId, 'SubtreeDigest': SubtreeDigest, 'LeafDigest': LeafDigest}


OCTETS = ['Payload', 'Nonce', 'AuthTag', 'KdfInfo', 'ProtocolFlags', 'EncryptedNode', 'WrappedKey']
HASHES = ['KeyId', 'SubtreeDigest', 'LeafDigest']


def wire_ok(ctx, f, t, v):
    """the encoding is exactly type, length, value"""
    import array
    w = f.serialize()
    n = len(v)
    ctx.check(len(w) == 4 + n, 'encoded length')
    ctx.check(len(f) == 4 + n, 'len()')
    ctx.check(w[0] * 256 + w[1] == t, 'type on the wire')
    ctx.check(w[2] * 256 + w[3] == n, 'length on the wire')
    ctx.check(bytes(w[4:]) == bytes(v), 'value on the wire')
    return array.array('B', w)


def same_field(ctx, p, f, w):
    ctx.check(p == f, 'parsed field differs from the original')
    ctx.check(f == p, 'original differs from the parsed field')
    ctx.check(p.serialize() == w, 're-encoding')
    ctx.check(len(p) == len(w), 'length of the parsed field')
    ctx.check(type(p) is type(f), 'kind of the parsed field')


@harness('C03', cases=[(k, c, n) for k in OCTETS for c, n in
                       (('bytes', 0), ('bytes', 1), ('list', 0), ('list', 3), ('array', 12), ('array', 33), ('bytes', 16),
                        ('hex', 2), ('str', 3), ('array', 256))],
         thorough_cases=[(k, c, n) for k in OCTETS for c in ('bytes', 'list', 'array', 'hex')
                         for n in (2, 4, 7, 8, 15, 17, 31, 32, 64, 127, 128, 255, 257, 1000)],
         bounds='every octet-string field, 0..1000 symbolic bytes, built from bytes, list, array, hex text or text')
def octets(ctx, case):
    from ccnpy.core.Tlv import Tlv
    import array
    kind, cont, n = case
    cls = octet_classes()[kind]
    if cont == 'str':
        s = ctx.str('text', n, 32, 126)
        ctx.assume(not s.startswith('0x'))
        b = s.encode()
        v = s
    else:
        b = ctx.bytes('value', n)
        v = b if cont == 'bytes' else list(b) if cont == 'list' else array.array('B', b) if cont == 'array' else '0x' + b.hex()
    f = cls(v)
    w = wire_ok(ctx, f, cls.class_type(), b)
    ctx.check(bytes(f.value()) == b, 'value()')
    ctx.check(f.value_bytes() == b, 'value_bytes()')
    t = Tlv.deserialize(w + ctx.array('tail', 2))
    p = cls.parse(t)
    same_field(ctx, p, f, w)
    ctx.check(p.value_bytes() == b, 'value of the parsed field')
    ctx.reach()


@harness('C03', cases=OCTETS, bounds='every octet-string field of every length 0..140 (and 240..260, 500..520 for payloads), symbolic octets')
def octet_lengths(ctx, kind):
    from ccnpy.core.Tlv import Tlv
    import array
    cls = octet_classes()[kind]
    every = ctx.bytes('value', 520 if kind == 'Payload' else 140)
    for n in list(range(140)) + (list(range(240, 260)) + list(range(500, 520)) if kind == 'Payload' else []):
        b = every[:n]
        f = cls(array.array('B', b))
        w = f.serialize()
        p = cls.parse(Tlv.deserialize(w))
        ctx.check(p == f and f == p, 'parsed field differs from the original')
        ctx.check(p.value_bytes() == b and bytes(p.serialize()) == bytes(w), 'value of the parsed field')
        ctx.check(len(p) == len(f) == n + 4, 'length of the field')
    ctx.reach()


@harness('C03', cases=HASHES, bounds='16-bit algorithm, digests of 0..64 symbolic bytes')
def hash_field(ctx, kind):
    from ccnpy.core.Tlv import Tlv
    from ccnpy.core.HashValue import HashValue
    cls = hash_classes()[kind]
    n = ctx.choose('n', [32, 64, 1, 0, 20])
    alg = ctx.int('alg', 0, 0xFFFF)
    d = ctx.bytes('digest', n)
    hv = HashValue(alg, d)
    f = cls(hv)
    hw = wire_ok(ctx, hv, alg, d)
    w = wire_ok(ctx, f, cls.class_type(), hw)
    p = cls.parse(Tlv.deserialize(w))
    same_field(ctx, p, f, w)
    ctx.check(p.digest() == hv, 'digest')
    ctx.check(p.digest().hash_algorithm() == alg, 'algorithm')
    ctx.check(bytes(p.digest().value()) == d, 'digest bytes')
    ctx.reach()


@harness('C03', cases=['bytes', 'list', 'array'], bounds='16-bit algorithm, digests of 0..64 symbolic bytes')
def hash_value(ctx, cont):
    from ccnpy.core.HashValue import HashValue
    import array
    n = ctx.choose('n', [32, 0, 1, 64, 255, 256])
    alg = ctx.int('alg', 0, 0xFFFF)
    d = ctx.bytes('digest', n)
    v = d if cont == 'bytes' else list(d) if cont == 'list' else array.array('B', d)
    h = HashValue(alg, v)
    w = wire_ok(ctx, h, alg, d)
    p = HashValue.deserialize(w + ctx.array('tail', 3))
    same_field(ctx, p, h, w)
    ctx.check(hash(p) == hash(h), 'hash()')
    ctx.check(p.hash_algorithm() == alg, 'algorithm')
    ctx.check(bytes(p.value()) == d, 'digest bytes')
    ctx.check(bytes(bytearray(list(iter(p)))) == bytes(w), 'iteration')
    s = HashValue.create_sha256(v)
    ctx.check(bytes(s.serialize()[4:]) == d, 'create_sha256 value')
    ctx.check(s.hash_algorithm() == 1, 'SHA-256 identifier')
    ctx.reach()


@harness('C03', bounds='payload type: every byte')
def payload_type(ctx):
    from ccnpy.core.Tlv import Tlv
    from ccnpy.core.PayloadType import PayloadType
    v = ctx.int('v', 0, 255)
    f = PayloadType(v)
    w = wire_ok(ctx, f, PayloadType.class_type(), [v])
    p = PayloadType.parse(Tlv.deserialize(w))
    same_field(ctx, p, f, w)
    names = ['is_data', 'is_key', 'is_link', 'is_manifest']
    for i, nm in enumerate(names):
        ctx.check(bool(getattr(p, nm)()) == (v == i), 'payload type predicate ' + nm)
        mk = getattr(PayloadType, ['create_data_type', 'create_key_type', 'create_link_type', 'create_manifest_type'][i])()
        ctx.check(getattr(mk, nm)(), nm)
        ctx.check((mk == p) == (v == i), 'equality of payload types')
    ctx.reach()


@harness('C03', cases=[0, 1, 2, 17, 255, 256, 1500], bounds='pads of 0..1500 bytes, non-zero content refused for every position of short pads')
def pad(ctx, n):
    from ccnpy.core.Tlv import Tlv
    from ccnpy.core.Pad import Pad
    f = Pad(n)
    w = wire_ok(ctx, f, Pad.class_type(), [0] * n)
    p = Pad.parse(Tlv.deserialize(w))
    same_field(ctx, p, f, w)
    b = ctx.bytes('b', min(n, 20), )
    try:
        q = Pad.parse(Tlv(Pad.class_type(), b))
    except ValueError:
        ctx.check(any([x != 0 for x in b]), 'an all-zero pad was refused')
        ctx.reach('refused')
        return
    ctx.check(all([x == 0 for x in b]), 'a pad with non-zero bytes was accepted')
    ctx.check(len(q) == 4 + len(b), 'pad length')
    ctx.reach()


@harness('C03', cases=[('list', 3), ('array', 0), ('array', 5), ('bytes', 4), ('bytes', 0), ('array', 253)], bounds='every 24-bit enterprise number, 0..253 symbolic payload bytes')
def vendor(ctx, case):
    from ccnpy.core.Tlv import Tlv
    from ccnpy.flic.tlvs.Vendor import Vendor
    import array
    cont, n = case
    pen = ctx.int('pen', 0, 0xFFFFFF)
    b = ctx.bytes('b', n)
    f = Vendor(pen, b if cont == 'bytes' else list(b) if cont == 'list' else array.array('B', b))
    w = wire_ok(ctx, f, Vendor.class_type(), [pen // 65536, pen // 256 % 256, pen % 256] + list(b))
    p = Vendor.parse(Tlv.deserialize(w))
    same_field(ctx, p, f, w)
    ctx.check(p.pen() == pen, 'enterprise number')
    ctx.check(bytes(p.payload()) == b, 'vendor payload')
    ctx.reach()


@harness('C03', bounds='every 16-bit suffix type, every 64-bit number')
def suffix_type(ctx):
    from ccnpy.core.Tlv import Tlv
    from ccnpy.flic.tlvs.SuffixComponentType import SuffixComponentType
    v = ctx.int('v', 0, 0xFFFF)
    f = SuffixComponentType(v)
    w = wire_ok(ctx, f, SuffixComponentType.class_type(), [v // 256, v % 256])
    p = SuffixComponentType.parse(Tlv.deserialize(w))
    same_field(ctx, p, f, w)
    ctx.check(p.value() == v, 'value()')
    k = ctx.int('k', 0, 2**64 - 1)
    c = p.create_name_component(k)
    ctx.check(c.type() == v, 'suffix component type')
    ctx.check(be(c.value()) == k, 'suffix component number')
    ctx.reach()


@harness('C03', cases=[0, 1, 4, 32, 256], bounds='validation payloads of 0..256 symbolic bytes')
def validation_payload(ctx, n):
    from ccnpy.core.Tlv import Tlv
    from ccnpy.core.ValidationPayload import ValidationPayload
    import array
    b = ctx.bytes('b', n)
    f = ValidationPayload(ctx.choose('c', [b, array.array('B', b)]))
    w = wire_ok(ctx, f, ValidationPayload.class_type(), b)
    p = ValidationPayload.parse(Tlv.deserialize(w))
    same_field(ctx, p, f, w)
    ctx.check(bytes(p.payload()) == b, 'payload()')
    ctx.reach()


@harness('C03', bounds='every key id and every signature time below 2^49 ms')
def validation_alg(ctx):
    from ccnpy.core.Tlv import Tlv
    from ccnpy.core.HashValue import HashValue
    from ccnpy.core.SignatureTime import SignatureTime
    from ccnpy.core.ValidationAlg import ValidationAlg, ValidationAlg_Crc32c, ValidationAlg_RsaSha256
    c = ValidationAlg_Crc32c()
    pc = ValidationAlg.parse(Tlv.deserialize(c.serialize()))
    same_field(ctx, pc, c, c.serialize())
    ctx.check(len(c) == len(c.serialize()), 'CRC length')
    k = HashValue.create_sha256(ctx.bytes('keyid', 32))
    ms = ctx.int('ms', 0, 2**49)
    r = ValidationAlg_RsaSha256(keyid=k, signature_time=SignatureTime(ms / 1000))
    w = r.serialize()
    ctx.check(len(r) == len(w), 'RSA length')
    p = ValidationAlg.parse(Tlv.deserialize(w))
    same_field(ctx, p, r, w)
    ctx.check(p.keyid() == k, 'key id')
    ctx.check(p.signature_time().milliseconds() == ms, 'signature time')
    ctx.check(not (p == c) and not (c == p), 'different algorithms are different')
    ctx.reach()


def all_parsers():
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.ExpiryTime import ExpiryTime
    from ccnpy.core.FinalChunkId import FinalChunkId
    from ccnpy.core.KeyLink import KeyLink
    from ccnpy.core.Name import Name
    from ccnpy.core.Pad import Pad
    from ccnpy.core.PayloadType import PayloadType
    from ccnpy.core.SignatureTime import SignatureTime
    from ccnpy.core.ValidationAlg import ValidationAlg, ValidationAlg_Crc32c, ValidationAlg_RsaSha256
    from ccnpy.core.ValidationPayload import ValidationPayload
    from ccnpy.flic.RsaOaepCtx.HashAlg import HashAlg
    from ccnpy.flic.tlvs.AeadCtx import AeadCtx
    from ccnpy.flic.tlvs.AeadMode import AeadMode
    from ccnpy.flic.tlvs.GroupData import GroupData
    from ccnpy.flic.tlvs.HashGroup import HashGroup
    from ccnpy.flic.tlvs.KdfAlg import KdfAlg
    from ccnpy.flic.tlvs.KdfData import KdfData
    from ccnpy.flic.tlvs.KeyNumber import KeyNumber
    from ccnpy.flic.tlvs.LeafSize import LeafSize
    from ccnpy.flic.tlvs.Locator import Locator
    from ccnpy.flic.tlvs.Locators import Locators
    from ccnpy.flic.tlvs.NcDef import NcDef
    from ccnpy.flic.tlvs.NcId import NcId
    from ccnpy.flic.tlvs.NcSchema import HashSchema, PrefixSchema, SegmentedSchema
    from ccnpy.flic.tlvs.Node import Node
    from ccnpy.flic.tlvs.NodeData import NodeData
    from ccnpy.flic.tlvs.Pointers import Pointers
    from ccnpy.flic.tlvs.RsaOaepCtx import RsaOaepCtx
    from ccnpy.flic.tlvs.StartSegmentId import StartSegmentId
    from ccnpy.flic.tlvs.SubtreeSize import SubtreeSize
    from ccnpy.flic.tlvs.SuffixComponentType import SuffixComponentType
    from ccnpy.flic.tlvs.Vendor import Vendor
    d = dict(octet_classes())
    d.update(hash_classes())
    for c in (ContentObject, ExpiryTime, FinalChunkId, KeyLink, Name, Pad, PayloadType, SignatureTime, ValidationAlg,
              ValidationAlg_Crc32c, ValidationAlg_RsaSha256, ValidationPayload, HashAlg, AeadCtx, AeadMode, GroupData,
              HashGroup, KdfAlg, KdfData, KeyNumber, LeafSize, Locator, Locators, NcDef, NcId, HashSchema, PrefixSchema,
              SegmentedSchema, Node, NodeData, Pointers, RsaOaepCtx, StartSegmentId, SubtreeSize, SuffixComponentType, Vendor):
        d[c.__name__] = c
    return d


PARSERS = ['AeadCtx', 'AeadMode', 'AuthTag', 'ContentObject', 'EncryptedNode', 'ExpiryTime', 'FinalChunkId', 'GroupData',
           'HashAlg', 'HashGroup', 'HashSchema', 'KdfAlg', 'KdfData', 'KdfInfo', 'KeyId', 'KeyLink', 'KeyNumber',
           'LeafDigest', 'LeafSize', 'Locator', 'Locators', 'Name', 'NcDef', 'NcId', 'Node', 'NodeData', 'Nonce', 'Pad',
           'Payload', 'PayloadType', 'Pointers', 'PrefixSchema', 'ProtocolFlags', 'RsaOaepCtx', 'SegmentedSchema',
           'SignatureTime', 'StartSegmentId', 'SubtreeDigest', 'SubtreeSize', 'SuffixComponentType', 'ValidationAlg',
           'ValidationAlg_Crc32c', 'ValidationAlg_RsaSha256', 'ValidationPayload', 'Vendor', 'WrappedKey']


@harness('C03', cases=PARSERS, bounds='every 16-bit type other than the right one, for each of the 46 decoders, with 0 and 8 value bytes')
def wrong_kind(ctx, name):
    from ccnpy.core.Tlv import Tlv
    cls = all_parsers()[name]
    t = ctx.int('t', 0, 0xFFFF)
    ctx.assume(t != cls.class_type())
    v = ctx.array('v', ctx.choose('n', [0, 8]))
    try:
        cls.parse(Tlv(t, v))
    except Exception:
        ctx.reach()
        return
    ctx.fail('a field of another kind was accepted')


# ---------------------------------------------------------------------------------------------- C04
def comp(ctx, i, n):
    from ccnpy.core.Name import NameComponent
    t = ctx.int('t%d' % i, 0, 0xFFFF)
    b = ctx.bytes('c%d' % i, n)
    return t, b, NameComponent(t, b)


@harness('C04', cases=[(), (0,), (3,), (2, 0), (1, 4, 2), (0, 0, 1, 2), (255,), (256, 1), (1,) * 5, (1,) * 8, (1,) * 17, (2,) * 33, (1,) * 65, (64,), (128, 129), (1030,)],
         thorough_cases=[(1, 1, 1, 1, 1), (40,), (7, 8, 9), (0, 0, 0, 0, 0, 0), (1000, 20), (254, 3)],
         bounds='0..6 components of any type and 0..1000 symbolic bytes')
def name_roundtrip(ctx, lens):
    from ccnpy.core.Tlv import Tlv
    from ccnpy.core.Name import Name
    cs = [comp(ctx, i, n) for i, n in enumerate(lens)]
    nm = Name([c for _, _, c in cs])
    w = nm.serialize()
    exp = []
    for t, b, _ in cs:
        exp += [t // 256, t % 256, len(b) // 256, len(b) % 256] + list(b)
    ctx.check(bytes(w) == bytes([0, 0, len(exp) // 256, len(exp) % 256] + exp), 'encoding of the name')
    ctx.check(len(nm) == len(w), 'length of the name')
    p = Name.parse(Tlv.deserialize(w))
    ctx.check(p.count() == len(cs), 'number of components')
    for i, (t, b, c) in enumerate(cs):
        ctx.check(p.component(i).type() == t, 'component type')
        ctx.check(bytes(p.component(i).value()) == b, 'component bytes')
        ctx.check(p.component(i) == c, 'component equality')
        ctx.check(p.component(i).is_name_segment() == (t == 1), 'is_name_segment')
        ctx.check(p.component(i).is_chunk_id_segment() == (t == 5), 'is_chunk_id_segment')
        ctx.check(p.component(i).is_manifest_id_segment() == (t == 0x10), 'is_manifest_id_segment')
    ctx.check(p == nm and nm == p, 'equality after a round trip')
    ctx.check(p.serialize() == w, 're-encoding')
    ctx.reach()


@harness('C04', cases=[(a, b) for a in range(3) for b in range(3)], bounds='pairs of names of 0..2 components with 0..2 symbolic bytes each')
def name_equality(ctx, case):
    from ccnpy.core.Name import Name
    na, nb = case
    A = [comp(ctx, i, ctx.choose('la', [2, 0, 1])) for i in range(na)]
    B = [comp(ctx, 10 + i, ctx.choose('lb', [2, 0, 1])) for i in range(nb)]
    x, y = Name([c for _, _, c in A]), Name([c for _, _, c in B])
    same = na == nb
    if same:
        for (t, b, _), (u, c, _) in zip(A, B):
            same = same and (t == u) and (len(b) == len(c)) and (b == c)
    ctx.check((x == y) == same, 'names are equal exactly when their components are')
    ctx.reach()


@harness('C04', cases=[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 33, 65], bounds='names of 0..65 components, every chunk and manifest number up to 2^64-1, any component')
def name_append(ctx, n):
    from ccnpy.core.Tlv import Tlv
    from ccnpy.core.Name import Name, NameComponent
    cs = [comp(ctx, i, ctx.choose('l', [2, 0]) if n < 3 else 1) for i in range(n)]
    comps = [c for _, _, c in cs]
    base = Name(comps)
    before = bytes(base.serialize())
    num = ctx.int('num', 0, 2**64 - 1)
    b = ctx.bytes('seg', ctx.choose('ls', [2, 0, 1, 300] if n < 3 else [2, 0]))
    kind = ctx.choose('kind', ['chunk', 'manifest', 'segment', 'ipid', 'any'])
    if kind == 'chunk':
        nm, t, val = base.append_chunk_id(num), 5, num
    elif kind == 'manifest':
        nm, t, val = base.append_manifest_id(num), 0x10, num
    elif kind == 'segment':
        nm, t, val = base.append(NameComponent.create_name_segment(b)), 1, None
    elif kind == 'ipid':
        nm, t, val = base.append(NameComponent.create_ipid_segment(b)), 2, None
    else:
        t = ctx.int('t', 0, 0xFFFF)
        nm, val = base.append(NameComponent(t, b)), None
    ctx.check(bytes(base.serialize()) == before, 'appending changed the original name')
    ctx.check(base.count() == n, 'appending changed the number of components of the original')
    ctx.check(len(comps) == n, 'appending changed the list of the caller')
    ctx.check(nm.count() == n + 1, 'number of components after appending')
    ctx.check(bytes(nm.serialize()[4:4 + len(before) - 4]) == before[4:], 'the original components come first')
    p = Name.parse(Tlv.deserialize(nm.serialize()))
    ctx.check(p == nm, 'round trip')
    ctx.check(not (nm == base), 'a longer name is a different name')
    for q in (nm, p):
        last = q.component(n)
        ctx.check(last.type() == t, 'type of the appended component')
        if val is not None:
            ctx.check(be(last.value()) == val, 'appended number')
            ctx.check(last.is_chunk_id_segment() == (kind == 'chunk'), 'kind of the appended component')
            ctx.check(last.is_manifest_id_segment() == (kind == 'manifest'), 'kind of the appended component')
        else:
            ctx.check(bytes(last.value()) == b, 'bytes of the appended component')
    other = base.append_chunk_id(num)
    ctx.check(nm.count() == n + 1 and other.count() == n + 1, 'two names built from one prefix')
    ctx.check(nm.serialize() == p.serialize(), 'a sibling name disturbed this one')
    ctx.reach(kind)


@harness('C04', cases=[('a', 1), ('a', 2), ('a', 3), ('A', 2), ('0', 2)], bounds='URIs of 1..3 segments of 1..8 letters or digits')
def name_uri(ctx, case):
    from ccnpy.core.Name import Name
    kind, n = case
    lo, hi = {'a': (97, 122), 'A': (65, 90), '0': (48, 57)}[kind]
    segs = [ctx.str('s%d' % i, ctx.choose('l', [1, 3, 8]), lo, hi) for i in range(n)]
    nm = Name.from_uri('ccnx:/' + '/'.join(segs))
    ctx.check(nm.count() == n, 'number of segments')
    for i, s in enumerate(segs):
        ctx.check(nm.component(i).type() == 1, 'segment type')
        ctx.check(bytes(nm.component(i).value()) == s.encode(), 'segment bytes')
        ctx.check(nm[i] == s, 'indexing')
    ctx.reach()


@harness('C04', bounds='all subsets of link parts, 0..2-component names, 16-bit hash algorithms, 0..32-byte digests')
def link_roundtrip(ctx):
    from ccnpy.core.Tlv import Tlv
    from ccnpy.core.Name import Name
    from ccnpy.core.Link import Link
    from ccnpy.core.KeyLink import KeyLink
    from ccnpy.core.HashValue import HashValue
    from ccnpy.flic.tlvs.Locator import Locator
    name = kid = dig = None
    if ctx.choose('name?', [True, False]):
        name = Name([comp(ctx, i, 2)[2] for i in range(ctx.choose('nc', [1, 0, 2]))])
    if ctx.choose('key?', [True, False]):
        kid = HashValue(ctx.int('ka', 0, 0xFFFF), ctx.bytes('k', ctx.choose('kl', [32, 0])))
    if ctx.choose('digest?', [True, False]):
        dig = HashValue(ctx.int('da', 0, 0xFFFF), ctx.bytes('d', ctx.choose('dl', [32, 3])))
    lk = Link(name=name, keyid=kid, digest=dig)
    w = lk.serialize()
    ctx.check(len(lk) == len(w), 'link length')
    p = Link.deserialize(w)
    for q in (lk, p):
        ctx.check((q.name() is None) == (name is None), 'name presence')
        ctx.check((q.keyid() is None) == (kid is None), 'key restriction presence')
        ctx.check((q.digest() is None) == (dig is None), 'digest restriction presence')
        if name is not None:
            ctx.check(q.name() == name, 'name')
        if kid is not None:
            ctx.check(q.keyid() == kid, 'key restriction')
            ctx.check(bytes(q.keyid().serialize()) == bytes(kid.serialize()), 'key restriction bytes')
        if dig is not None:
            ctx.check(q.digest() == dig, 'digest restriction')
            ctx.check(bytes(q.digest().serialize()) == bytes(dig.serialize()), 'digest restriction bytes')
    ctx.check(p == lk, 'link equality')
    ctx.check(p.serialize() == w, 're-encoding')
    ctx.check(bytes(bytearray(list(iter(lk)))) == bytes(w), 'iteration yields the encoding')
    kl = KeyLink(lk)
    pk = KeyLink.parse(Tlv.deserialize(kl.serialize()))
    ctx.check(pk == kl, 'key link')
    ctx.check(bytes(pk.serialize()[4:]) == bytes(w), 'key link content')
    if name is not None:
        lo = Locator(lk)
        pl = Locator.parse(Tlv.deserialize(lo.serialize()))
        ctx.check(pl == lo, 'locator')
        ctx.check(bytes(pl.serialize()[4:]) == bytes(w), 'locator content')
    ctx.reach()


@harness('C04', bounds='two links over all subsets of parts with symbolic contents')
def link_equality(ctx):
    from ccnpy.core.Name import Name
    from ccnpy.core.Link import Link
    from ccnpy.core.HashValue import HashValue

    def mk(p):
        c = ctx.choose('parts' + p, [(1, 1, 1), (1, 1, 0), (1, 0, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, 0)])
        t = ctx.bytes('n' + p, 1) if c[0] else None
        k = ctx.bytes('k' + p, 2) if c[1] else None
        d = ctx.bytes('d' + p, 2) if c[2] else None
        from ccnpy.core.Name import NameComponent
        return (t, k, d), Link(Name([NameComponent(1, t)]) if c[0] else None,
                               HashValue.create_sha256(k) if c[1] else None,
                               HashValue.create_sha256(d) if c[2] else None)
    a, x = mk('a')
    b, y = mk('b')
    same = True
    for u, v in zip(a, b):
        same = same and ((u is None) == (v is None))
        if same and u is not None:
            same = same and (u == v)
    ctx.check((x == y) == same, 'links are equal exactly when their parts are')
    ctx.reach()


# ---------------------------------------------------------------------------------------------- C29
def time_classes():
    from ccnpy.core.ExpiryTime import ExpiryTime
    from ccnpy.core.SignatureTime import SignatureTime
    return {'ExpiryTime': ExpiryTime, 'SignatureTime': SignatureTime}


@harness('C29', cases=['ExpiryTime', 'SignatureTime'], bounds='every millisecond count up to 2^42 (year 2109)')
def ms_exact(ctx, kind):
    from ccnpy.core.Tlv import Tlv
    cls = time_classes()[kind]
    ms = ctx.int('ms', 0, 2**42)
    f = cls(ms / 1000)
    w = f.serialize()
    ctx.check(len(w) == 12 and len(f) == 12, 'length')
    ctx.check(be(w[4:]) == ms, 'milliseconds on the wire')
    ctx.check(f.milliseconds() == ms, 'milliseconds()')
    p = cls.parse(Tlv.deserialize(w))
    ctx.check(p.milliseconds() == ms, 'milliseconds of the parsed field')
    ctx.check(p == f, 'equality')
    ctx.check(p.serialize() == w, 're-encoding')
    ctx.check(p.timestamp() == f.timestamp(), 'timestamp()')
    ctx.check(round(p.datetime().timestamp() * 1000) == ms, 'datetime()')
    ctx.reach()


@harness('C29', cases=['ExpiryTime', 'SignatureTime'], bounds='every microsecond from 1970 to 2100')
def from_datetime(ctx, kind):
    from ccnpy.core.Tlv import Tlv
    from datetime import datetime, timedelta, timezone
    cls = time_classes()[kind]
    sec, milli, b = ctx.int('sec', 0, 4102444800), ctx.int('ms', 0, 999), ctx.int('us', 0, 999)
    a = sec * 1000 + milli
    us = sec * 1000000 + milli * 1000 + b
    if ctx.symbolic:
        dt = datetime.fromtimestamp(us / 1000000, timezone.utc)
    else:
        dt = datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(microseconds=us)
    ctx.assume(b != 500)
    f = cls.from_datetime(dt)
    ms = be(f.serialize()[4:])
    ctx.check(ms == (a if b < 500 else a + 1), 'the encoded time is the nearest millisecond')
    p = cls.parse(Tlv.deserialize(f.serialize()))
    ctx.check(p.milliseconds() == ms, 'decoded time')
    ctx.check(p == f, 'equality')
    ctx.reach()


@harness('C29', cases=['ExpiryTime', 'SignatureTime'], bounds='integer seconds -2^70..2^70')
def out_of_range(ctx, kind):
    cls = time_classes()[kind]
    sec = ctx.int('sec', -2**70, 2**70)
    ctx.assume(not (sec > 0 and sec * 1000 > 2**64 - 1 and sec * 1000 < 2**64))
    try:
        f = cls(sec)
    except Exception:
        ctx.check(sec < 0 or sec * 1000 >= 2**64, 'a representable time was refused')
        ctx.reach('refused')
        return
    ctx.check(sec >= 0 and sec * 1000 < 2**64, 'an unrepresentable time was accepted')
    ctx.check(be(f.serialize()[4:]) == sec * 1000, 'time on the wire')
    ctx.reach('ok')


@harness('C29', cases=['ExpiryTime', 'SignatureTime'], bounds='two times below 2^42 ms')
def time_equality(ctx, kind):
    cls = time_classes()[kind]
    a, b = ctx.int('a', 0, 2**42), ctx.int('b', 0, 2**42)
    ctx.check((cls(a / 1000) == cls(b / 1000)) == (a == b), 'times are equal exactly when their milliseconds are')
    ctx.reach()
