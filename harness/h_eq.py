"""C08 equality and hashing, C32 using an object never changes it"""
from .api import harness
from .h_core import hash_classes, octet_classes
from .h_flic import B, nbytes, tlv, r_group, r_manifest, r_node, r_nodedata, r_pointers, r_schema, r_secctx


def core_obj(ctx, nm, kind, i):
    """the i-th shape of a kind"""
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.ExpiryTime import ExpiryTime
    from ccnpy.core.FinalChunkId import FinalChunkId
    from ccnpy.core.FixedHeader import FixedHeader
    from ccnpy.core.HashValue import HashValue
    from ccnpy.core.KeyLink import KeyLink
    from ccnpy.core.Name import NameComponent
    from ccnpy.core.Packet import Packet
    from ccnpy.core.Pad import Pad
    from ccnpy.core.Payload import Payload
    from ccnpy.core.PayloadType import PayloadType
    from ccnpy.core.SignatureTime import SignatureTime
    from ccnpy.core.Tlv import Tlv
    from ccnpy.core.ValidationAlg import ValidationAlg_Crc32c, ValidationAlg_RsaSha256
    from ccnpy.core.ValidationPayload import ValidationPayload
    from ccnpy.flic.RsaOaepCtx.HashAlg import HashAlg
    from ccnpy.flic.tlvs.AeadMode import AeadMode
    from ccnpy.flic.tlvs.KdfAlg import KdfAlg
    from ccnpy.flic.tlvs.KeyNumber import KeyNumber
    from ccnpy.flic.tlvs.LeafSize import LeafSize
    from ccnpy.flic.tlvs.Locator import Locator
    from ccnpy.flic.tlvs.NcId import NcId
    from ccnpy.flic.tlvs.StartSegmentId import StartSegmentId
    from ccnpy.flic.tlvs.SubtreeSize import SubtreeSize
    from ccnpy.flic.tlvs.SuffixComponentType import SuffixComponentType
    b = B(ctx)
    N = lambda hi=2**64 - 1: ctx.int(nm + '.n', 0, hi)
    ints = {'HashAlg': HashAlg, 'KdfAlg': KdfAlg, 'KeyNumber': KeyNumber, 'LeafSize': LeafSize, 'NcId': NcId,
            'StartSegmentId': StartSegmentId, 'SubtreeSize': SubtreeSize, 'FinalChunkId': FinalChunkId}
    octs, hashes = octet_classes(), hash_classes()
    if kind in ints:
        return ints[kind](N() if i == 0 else N(255))
    if kind in octs:
        return octs[kind](ctx.bytes(nm + '.v', (2, 0, 1)[i]))
    if kind in hashes:
        return hashes[kind](HashValue(ctx.int(nm + '.alg', 0, 0xFFFF), ctx.bytes(nm + '.d', (2, 0, 3)[i])))
    if kind == 'HashValue':
        return HashValue(ctx.int(nm + '.alg', 0, 0xFFFF), ctx.bytes(nm + '.d', (2, 0, 3)[i]))
    if kind == 'Tlv':
        return Tlv(ctx.int(nm + '.t', 0, 0xFFFF), ctx.array(nm + '.v', (2, 0, 3)[i]))
    if kind == 'NameComponent':
        return NameComponent(ctx.int(nm + '.t', 0, 0xFFFF), ctx.bytes(nm + '.v', (2, 0, 3)[i]))
    if kind == 'Name':
        return b.name(nm, ((1, 1), (0,), (2,))[i])[0]
    if kind == 'Link':
        return b.link(nm, (1, 3, 0)[i])[0]
    if kind == 'KeyLink':
        return KeyLink(b.link(nm, (1, 2, 3)[i])[0])
    if kind == 'Locator':
        return Locator(b.link(nm, (1, 3, 5)[i])[0])
    if kind == 'Pad':
        return Pad((3, 0, 4)[i])
    if kind == 'PayloadType':
        return PayloadType(ctx.int(nm + '.n', 0, 255))
    if kind == 'ValidationPayload':
        return ValidationPayload(ctx.array(nm + '.v', (2, 0, 3)[i]))
    if kind in ('ExpiryTime', 'SignatureTime'):
        return {'ExpiryTime': ExpiryTime, 'SignatureTime': SignatureTime}[kind](ctx.int(nm + '.ms', 0, 2**42) / 1000)
    if kind == 'ValidationAlg_Crc32c':
        return ValidationAlg_Crc32c()
    if kind == 'ValidationAlg_RsaSha256':
        return ValidationAlg_RsaSha256(keyid=HashValue.create_sha256(ctx.bytes(nm + '.d', (2, 32, 3)[i])),
                                       signature_time=SignatureTime(ctx.int(nm + '.ms', 0, 2**42) / 1000))
    if kind == 'AeadMode':
        return AeadMode(ctx.int(nm + '.n', 1, 4))
    if kind == 'SuffixComponentType':
        return SuffixComponentType(ctx.int(nm + '.n', 0, 0xFFFF))
    if kind == 'Vendor':
        return b.vendor(nm, (2, 0, 3)[i])[0]
    if kind == 'ContentObject' or kind == 'Packet':
        kw = {}
        if i != 1:
            kw['name'] = b.name(nm, (2,))[0]
        if i != 2:
            kw['payload'] = Payload(ctx.bytes(nm + '.p', 2))
        co = ContentObject(**kw)
        if kind == 'ContentObject':
            return co
        if i == 0:
            return Packet.create_signed_content_object(co, ValidationAlg_Crc32c(), ValidationPayload(ctx.array(nm + '.sig', 4)))
        return Packet.create_content_object(co)
    if kind == 'FixedHeader':
        return FixedHeader(packet_type=ctx.int(nm + '.t', 0, 2), packet_length=ctx.int(nm + '.l', 8, 65535))
    if kind == 'Locators':
        return b.locators(nm, ((1,), (1, 1), (3,))[i])[0]
    if kind in ('HashSchema', 'PrefixSchema', 'SegmentedSchema'):
        return b.schema(nm, kind, (1, 3, 0)[i])[0]
    if kind == 'NcDef':
        return b.ncdef(nm, ('PrefixSchema', 'SegmentedSchema', 'HashSchema')[i], 1)[0]
    if kind == 'NodeData':
        return b.nodedata(nm, (1, 0, 19)[i])[0]
    if kind == 'GroupData':
        return b.groupdata(nm, (16, 48, 5)[i])[0]
    if kind == 'Pointers':
        return b.pointers(nm, (1, 0, 2)[i])[0]
    if kind == 'HashGroup':
        return b.group(nm, (1, 1, None)[i], (16, None, 16)[i])[0]
    if kind == 'Node':
        return b.node(nm, (((1, 16),), ((1, 16), (1, 16)), ((1, None),))[i], (None, None, 1)[i])[0]
    if kind == 'KdfData':
        return b.kdf(nm, (2, None, 0)[i])[0]
    if kind == 'AeadData':
        return b.aeaddata(nm, 1, 8, i == 1)[0]
    if kind == 'AeadCtx':
        return b.aeadctx(nm, 1, nonce=8, kdf=i == 1)[0]
    if kind == 'RsaOaepCtx':
        return b.rsactx(nm, 1, i != 1)[0]
    if kind == 'RsaOaepWrapper':
        return b.rsactx(nm, 1, True, i == 1)[0].rsa_oaep_wrapper()
    if kind == 'Manifest':
        return b.manifest(nm, ('clear', 'aead', 'rsa')[i])[0]
    raise KeyError(kind)


KINDS = ['HashAlg', 'KdfAlg', 'KeyNumber', 'LeafSize', 'NcId', 'StartSegmentId', 'SubtreeSize', 'FinalChunkId', 'Payload', 'Nonce',
         'AuthTag', 'KdfInfo', 'ProtocolFlags', 'EncryptedNode', 'WrappedKey', 'KeyId', 'SubtreeDigest', 'LeafDigest', 'HashValue',
         'Tlv', 'NameComponent', 'Name', 'Link', 'KeyLink', 'Locator', 'Pad', 'PayloadType', 'ValidationPayload', 'ExpiryTime',
         'SignatureTime', 'ValidationAlg_Crc32c', 'ValidationAlg_RsaSha256', 'AeadMode', 'SuffixComponentType', 'Vendor',
         'ContentObject', 'Packet', 'FixedHeader', 'Locators', 'HashSchema', 'PrefixSchema', 'SegmentedSchema', 'NcDef', 'NodeData',
         'GroupData', 'Pointers', 'HashGroup', 'Node', 'KdfData', 'AeadData', 'AeadCtx', 'RsaOaepCtx', 'RsaOaepWrapper', 'Manifest']


SMALL = {k: 1 for k in ('HashAlg', 'KdfAlg', 'KeyNumber', 'LeafSize', 'NcId', 'StartSegmentId', 'SubtreeSize', 'FinalChunkId')}


def wire(o):
    return bytes(o.serialize())


@harness('C08', cases=KINDS, bounds='two objects of the same kind over 3 shapes each, independent symbolic contents')
def same_kind(ctx, kind):
    i, j = ctx.choose('shapes', [(0, 0), (0, 1), (1, 0), (1, 1), (2, 2), (0, 2), (1, 2)])
    a, b = core_obj(ctx, 'a', kind, i), core_obj(ctx, 'b', kind, j)
    x, y = wire(a), wire(b)
    want = len(x) == len(y) and x == y
    ctx.check((a == b) == want, 'equality must agree with the encodings')
    ctx.check((b == a) == want, 'equality must be symmetric')
    ctx.check((a != b) == (not want), 'inequality')
    ctx.check(a == a and not a != a, 'an object equals itself')
    if type(a).__hash__ is not None and want:
        ctx.check(hash(a) == hash(b), 'equal objects have different hashes')
    ctx.reach()


@harness('C08', cases=KINDS, bounds='every kind in 3 shapes against Python values that are not protocol objects')
def not_objects(ctx, kind):
    a = core_obj(ctx, 'a', kind, ctx.choose('shape', [0, 1, 2]))
    x = wire(a)
    for other in (None, 0, 'x', b'x', [], (), {}, object(), x, a.serialize()):
        if kind in ('Tlv', 'NameComponent') or not isinstance(other, bytes):
            ctx.check(not (a == other) and a != other, 'equal to something that is not a protocol object')
    ctx.reach()


@harness('C08', cases=KINDS[:-1], bounds='every unordered pair of different kinds')
def other_kind(ctx, kind):
    k = ctx.choose('other', KINDS[KINDS.index(kind) + 1:])
    a = core_obj(ctx, 'a', kind, SMALL.get(kind, 0))
    x = wire(a)
    b = core_obj(ctx, 'b', k, SMALL.get(k, 0))
    y = wire(b)
    e = a == b
    ctx.check(e == (b == a), 'equality must be symmetric')
    if e:
        ctx.check(len(x) == len(y) and x == y, 'objects with different encodings are equal')
    ctx.reach()


@harness('C08', cases=['HashValue', 'NameComponent', 'KeyId', 'KeyNumber', 'Tlv', 'Nonce'],
         bounds='dictionaries keyed by protocol objects with symbolic contents')
def as_keys(ctx, kind):
    a, b = core_obj(ctx, 'a', kind, 0), core_obj(ctx, 'b', kind, 0)
    same = wire(a) == wire(b)
    d = {a: 1}
    d[b] = 2
    ctx.check(d[a] == (2 if same else 1), 'look-up of the first key')
    ctx.check(d[b] == 2, 'look-up of the second key')
    ctx.check(len(d) == (1 if same else 2), 'number of keys')
    ctx.check((b in {a}) == same, 'membership')
    ctx.reach()


# ---------------------------------------------------------------------------------------------- C32
def parse_again(kind, o, w):
    import importlib
    from ccnpy.core.Tlv import Tlv
    cls = type(o)
    if kind in ('Tlv', 'NameComponent', 'HashValue', 'FixedHeader', 'Link', 'Manifest', 'Packet'):
        return cls.deserialize(w)
    if kind in ('AeadData', 'RsaOaepWrapper'):
        return cls.parse(w)
    if kind.startswith('ValidationAlg_'):
        from ccnpy.core.ValidationAlg import ValidationAlg
        return ValidationAlg.parse(Tlv.deserialize(w))
    return cls.parse(Tlv.deserialize(w))


READ = {'Manifest': r_manifest, 'Node': r_node, 'NodeData': r_nodedata, 'HashGroup': r_group, 'Pointers': r_pointers,
        'AeadCtx': r_secctx, 'RsaOaepCtx': r_secctx, 'HashSchema': r_schema, 'PrefixSchema': r_schema, 'SegmentedSchema': r_schema}


@harness('C32', cases=KINDS, bounds='every kind in 3 shapes with symbolic contents, a fixed list of uses in sequence')
def uses(ctx, kind):
    import array
    from ccnpy.core.Tlv import Tlv
    o = core_obj(ctx, 'a', kind, ctx.choose('shape', [0, 1, 2]))
    w = bytes(o.serialize())
    other = core_obj(ctx, 'b', kind, 0)
    wo = bytes(other.serialize())

    def still(what):
        ctx.check(bytes(o.serialize()) == w, 'changed by ' + what)

    repr(o)
    still('printing it')
    str(o)
    still('printing it')
    n = len(o) if hasattr(type(o), '__len__') else len(w)
    (o == other, other == o, o != other, o == None)
    if type(o).__hash__ is not None:
        hash(o)
    still('comparing or hashing it')
    if hasattr(type(o), '__iter__') and not hasattr(type(o), '__getitem__'):
        if kind != 'Node' or all(g.group_data() is not None and g.group_data().nc_id() is not None for g in o.hash_groups()):
            x, y = list(o), list(o)
            ctx.check(len(x) == len(y), 'iterating it twice')
        still('iterating it')
    if kind in READ:
        READ[kind](o)
        READ[kind](o)
        still('reading its fields')
    buf = array.array('B', w)
    if kind not in ('Link', 'Manifest', 'Packet', 'FixedHeader', 'AeadData', 'RsaOaepWrapper'):
        Tlv(77, [o, other, o])
        still('encoding it inside another field')
        t = Tlv.flatten([o, None, other])
        t.append(9)
        still('flattening')
    if kind in ('AeadData', 'Link'):
        Tlv(77, o)
        still('encoding it inside another field')
    if kind == 'Tlv':
        for v in (array.array('B', b'abc'), b'abc', [1, 2, 3]):
            x = Tlv(5, v)
            wx, vx = bytes(x.serialize()), bytes(v)
            y = x.extend(o)
            ctx.check(bytes(y.serialize())[4:] == vx + w, 'extended value')
            o.extend(x)
            o.extend(o)
            ctx.check(bytes(x.serialize()) == wx and bytes(v) == vx and x.length() == 3, 'changed by building a longer one from it')
            still('building a longer one from it')
    p = parse_again(kind, o, buf)
    ctx.check(bytes(buf) == w, 'parsing changed the buffer')
    q = parse_again(kind, o, buf)
    ctx.check(bytes(buf) == w, 'parsing changed the buffer')
    repr(p)
    ctx.check(bytes(p.serialize()) == w and bytes(q.serialize()) == w, 'two parses of one buffer differ')
    ctx.check(p == q, 'two parses of one buffer differ')
    parse_again(kind, other, array.array('B', wo))
    ctx.check(bytes(p.serialize()) == w and bytes(o.serialize()) == w, 'changed by parsing another object')
    ctx.check(bytes(other.serialize()) == wo, 'changed by building another object')
    ctx.check((len(o) if hasattr(type(o), '__len__') else len(w)) == n, 'length changed')
    ctx.reach()


@harness('C32', bounds='names, content objects, packets and manifests built from shared parts; symbolic contents')
def shared_parts(ctx):
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.ExpiryTime import ExpiryTime
    from ccnpy.core.Link import Link
    from ccnpy.core.Packet import Packet
    from ccnpy.core.Payload import Payload
    from ccnpy.core.ValidationAlg import ValidationAlg_Crc32c
    from ccnpy.crypto.Crc32c import Crc32cSigner
    from ccnpy.flic.tlvs.HashGroup import HashGroup
    from ccnpy.flic.tlvs.Manifest import Manifest
    from ccnpy.flic.tlvs.Node import Node
    b = B(ctx)
    name, ns, nw = b.name('n', (2,))
    kept = [(name, nw)]

    def keep(*os):
        for o in os:
            kept.append((o, bytes(o.serialize())))

    def still(what):
        for o, w in kept:
            ctx.check(bytes(o.serialize()) == w, '%s changed by %s' % (type(o).__name__, what))
        ctx.check(name.count() == 1, 'name changed by ' + what)

    n1 = name.append_chunk_id(ctx.int('c', 0, 255))
    n2 = name.append_manifest_id(ctx.int('m', 0, 255))
    n3 = n1.append_chunk_id(1)
    keep(n1, n2, n3)
    still('appending')
    pay, exp = Payload(ctx.bytes('p', 2)), ExpiryTime(1.5)
    keep(pay, exp)
    co1 = ContentObject(name=name, payload=pay, expiry_time=exp)
    co2 = ContentObject(name=n1, payload=pay)
    keep(co1, co2)
    still('building objects')
    alg = ValidationAlg_Crc32c()
    keep(alg)
    s = Crc32cSigner()
    sig = s.sign(co1.serialize(), alg.serialize())
    keep(sig)
    pk = Packet.create_signed_content_object(co1, alg, sig)
    pk2 = Packet.create_content_object(co1)
    h = pk.content_object_hash()
    keep(pk, pk2, h, pk.header())
    s.sign(co2.serialize(), alg.serialize())
    Packet.create_signed_content_object(co2, alg, sig)
    ctx.check(pk.content_object_hash() == h, 'hash')
    still('building and signing packets')
    l = Link(name=name, digest=h)
    g = b.group('g', 1, 16)[0]
    node = Node(hash_groups=[g])
    node2 = Node(hash_groups=[g, g], pad_length=200)
    m = Manifest(node=node)
    keep(l, g, node, node2, m)
    list(node)
    node.hash_values()
    c = m.content_object(name=n2, expiry_time=exp)
    keep(c)
    m.packet(name=name)
    Manifest.from_content_object(c)
    still('building manifests')
    ctx.reach()


# ---------------------------------------------------------------------------------------------- C34
def octets(b):
    import array
    return array.array('B', bytes(b))


def shown(ctx, o, what='object'):
    w = bytes(o.serialize())
    try:
        s, t = repr(o), str(o)
    except Exception as e:
        ctx.fail('%s cannot be displayed: %s' % (what, type(e).__name__))
    ctx.check(isinstance(s, str) and isinstance(t, str), '%s is displayed as something that is not text' % what)
    ctx.check(bytes(o.serialize()) == w, 'displaying changed the %s' % what)


@harness('C34', cases=KINDS, bounds='every kind in 3 shapes with symbolic contents, as built and as decoded again')
def built(ctx, kind):
    o = core_obj(ctx, 'a', kind, ctx.choose('shape', [0, 1, 2]))
    shown(ctx, o)
    shown(ctx, parse_again(kind, o, octets(o.serialize())), 'decoded object')
    ctx.reach()


@harness('C34', cases=['Name', 'AeadMode', 'HashValue', 'PayloadType', 'ExpiryTime', 'SignatureTime', 'FinalChunkId', 'SuffixComponentType',
                       'KdfAlg', 'FixedHeader'],
         bounds='field contents over their whole wire range: name segments of 0-4 arbitrary octets and any type, times up to 2^42 ms and 7 larger ones, any number')
def odd_contents(ctx, kind):
    from ccnpy.core.Name import Name, NameComponent
    from ccnpy.core.Tlv import Tlv
    if kind == 'Name':
        t = ctx.choose('type', [1, 2, 5, 0x10, -1])
        t = ctx.int('t', 0, 0xFFFF) if t == -1 else t
        n = Name([NameComponent(t, ctx.bytes('v', ctx.choose('len', [0, 1, 2, 4])))])
        shown(ctx, n)
        shown(ctx, Name.parse(Tlv.deserialize(octets(n.serialize()))), 'decoded name')
        try:
            n.as_uri()
        except Exception as e:
            ctx.fail('no URI for a name: ' + type(e).__name__)
    elif kind == 'FixedHeader':
        from ccnpy.core.FixedHeader import FixedHeader
        h = ctx.bytes('h', 6)
        ctx.assume(h[1] * 256 + h[2] >= 8)
        shown(ctx, FixedHeader.deserialize(octets(b'\x01' + h + b'\x08')))
    elif kind in ('ExpiryTime', 'SignatureTime'):
        from ccnpy.core.ExpiryTime import ExpiryTime
        from ccnpy.core.SignatureTime import SignatureTime
        cls = {'ExpiryTime': ExpiryTime, 'SignatureTime': SignatureTime}[kind]
        ms = ctx.choose('ms', [-1, 2**53, 2**53 + 1, 253402300799999, 253402300800000, 2**63 - 1, 2**63, 2**64 - 2048])
        ms = ctx.int('m', 0, 2**42) if ms == -1 else ms
        shown(ctx, cls.parse(Tlv.deserialize(octets(tlv(cls.class_type(), nbytes(ms, 8))))))
    elif kind == 'HashValue':
        from ccnpy.core.HashValue import HashValue
        n = ctx.choose('len', [0, 1, 32])
        shown(ctx, HashValue.deserialize(octets(tlv(ctx.int('t', 0, 0xFFFF), ctx.bytes('v', n)))))
    else:
        from ccnpy.core.FinalChunkId import FinalChunkId
        from ccnpy.core.PayloadType import PayloadType
        from ccnpy.flic.tlvs.AeadMode import AeadMode
        from ccnpy.flic.tlvs.KdfAlg import KdfAlg
        from ccnpy.flic.tlvs.SuffixComponentType import SuffixComponentType
        cls = {'AeadMode': AeadMode, 'PayloadType': PayloadType, 'FinalChunkId': FinalChunkId, 'KdfAlg': KdfAlg,
               'SuffixComponentType': SuffixComponentType}[kind]
        n = {'AeadMode': 1, 'PayloadType': 1, 'SuffixComponentType': 2}.get(kind) or ctx.choose('len', [1, 2, 4, 8])
        shown(ctx, cls.parse(Tlv.deserialize(octets(tlv(cls.class_type(), ctx.bytes('v', n))))))
    ctx.reach()


@harness('C34', cases=[0, 1, 4, 8, -1], bounds='content objects with any payload type and a payload of 0, 1, 4 or 8 arbitrary octets, or none; '
                                               'brief output on and off')
def any_payload(ctx, n):
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.Packet import Packet
    from ccnpy.core.Payload import Payload
    from ccnpy.core.PayloadType import PayloadType
    from ccnpy.core.Tlv import Tlv
    kw = {}
    if n >= 0:
        kw['payload'] = Payload(ctx.bytes('p', n))
    t = ctx.choose('type', [0, 1, 2, 3, 4, 5, 6, 7, 255, -1])
    if t >= 0:
        kw['payload_type'] = PayloadType(t)
    co = ContentObject(**kw)
    brief = ctx.choose('brief', [False, True])
    old = ContentObject.USE_BRIEF_OUTPUT
    ContentObject.USE_BRIEF_OUTPUT = brief
    try:
        shown(ctx, co, 'content object')
        shown(ctx, ContentObject.parse(Tlv.deserialize(octets(co.serialize()))), 'decoded content object')
        shown(ctx, Packet.create_content_object(co), 'packet')
    finally:
        ContentObject.USE_BRIEF_OUTPUT = old
    ctx.reach()


@harness('C34', cases=['no pointers', 'empty pointers', 'no group data', 'empty node data', 'empty group data'],
         bounds='nodes whose groups lack parts; one symbolic group beside it')
def bare_groups(ctx, what):
    from ccnpy.flic.tlvs.GroupData import GroupData
    from ccnpy.flic.tlvs.HashGroup import HashGroup
    from ccnpy.flic.tlvs.Manifest import Manifest
    from ccnpy.flic.tlvs.Node import Node
    from ccnpy.flic.tlvs.NodeData import NodeData
    from ccnpy.flic.tlvs.Pointers import Pointers
    b = B(ctx)
    full = b.group('g', 1, 16)[0]
    nd = None
    if what == 'no pointers':
        g = HashGroup(group_data=b.groupdata('gd', 16)[0])
    elif what == 'empty pointers':
        g = HashGroup(group_data=b.groupdata('gd', 16)[0], pointers=Pointers([]))
    elif what == 'no group data':
        g = HashGroup(pointers=b.pointers('p', 1)[0])
    elif what == 'empty group data':
        g = HashGroup(group_data=GroupData(), pointers=b.pointers('p', 1)[0])
    else:
        g, nd = full, NodeData()
    node = Node(node_data=nd, hash_groups=[[g], [full, g], [g, full, g]][ctx.choose('order', [0, 1, 2])])
    shown(ctx, g, 'hash group')
    shown(ctx, node, 'node')
    m = Manifest(node=node)
    shown(ctx, m, 'manifest')
    shown(ctx, Manifest.deserialize(octets(m.serialize())), 'decoded manifest')
    shown(ctx, m.packet(), 'packet')
    ctx.reach()
