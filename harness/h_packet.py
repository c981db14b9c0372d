"""C05 content objects, C06 packets and fixed header, C07 packet hash, C17 signatures"""
from .api import harness
from .h_core import be, comp


def mkname(ctx, nm, spec=(2,)):
    from ccnpy.core.Name import Name, NameComponent
    return Name([NameComponent(ctx.int('%s.t%d' % (nm, i), 0, 0xFFFF), ctx.bytes('%s.c%d' % (nm, i), n))
                 for i, n in enumerate(spec)])


def filler(n, seed=7):
    out, x = bytearray(), seed
    for i in range(n):
        x = (x * 73 + 41 + i) % 251
        out.append(x)
    return bytes(out)


def content(ctx, nm, n, full=600):
    """n octets: all symbolic when short; otherwise a fixed pattern with symbolic stretches at both ends and in the middle"""
    if n <= full:
        return ctx.bytes(nm, n)
    h = n // 2
    return ctx.bytes(nm + '.head', 8) + filler(h - 8) + ctx.bytes(nm + '.mid', 8) + filler(n - h - 16, 9) + ctx.bytes(nm + '.tail', 8)


def mkbody(ctx, mask, plen=3, names=(2,), nm='co', full=600):
    """content object with the fields of mask, and the values it was built from"""
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.ExpiryTime import ExpiryTime
    from ccnpy.core.FinalChunkId import FinalChunkId
    from ccnpy.core.Payload import Payload
    from ccnpy.core.PayloadType import PayloadType
    v = {}
    if mask & 1:
        v['name'] = mkname(ctx, nm, names)
    if mask & 2:
        v['ms'] = ctx.int(nm + '.ms', 0, 2**42)
        v['expiry_time'] = ExpiryTime(v['ms'] / 1000)
    if mask & 4:
        v['pt'] = ctx.int(nm + '.pt', 0, 255)
        v['payload_type'] = PayloadType(v['pt'])
    if mask & 8:
        v['bytes'] = content(ctx, nm + '.payload', plen, full)
        v['payload'] = Payload(v['bytes'])
    if mask & 16:
        v['fcid'] = ctx.int(nm + '.fcid', 0, 2**64 - 1)
        v['final_chunk_id'] = FinalChunkId(v['fcid'])
    kw = {k: x for k, x in v.items() if k in ('name', 'expiry_time', 'payload_type', 'payload', 'final_chunk_id')}
    return ContentObject(**kw), v


def same_body(ctx, p, v):
    ctx.check((p.name() is None) == ('name' not in v), 'name presence')
    ctx.check((p.expiry_time() is None) == ('ms' not in v), 'expiry presence')
    ctx.check((p.payload_type() is None) == ('pt' not in v), 'payload type presence')
    ctx.check((p.payload() is None) == ('bytes' not in v), 'payload presence')
    ctx.check((p.final_chunk_id() is None) == ('fcid' not in v), 'final chunk presence')
    if 'name' in v:
        ctx.check(p.name() == v['name'], 'name')
    if 'ms' in v:
        ctx.check(p.expiry_time().milliseconds() == v['ms'], 'expiry time')
    if 'pt' in v:
        ctx.check(be(p.payload_type().serialize()[4:]) == v['pt'], 'payload type')
        ctx.check(p.is_manifest() == (v['pt'] == 3), 'is_manifest')
        ctx.check(p.is_link() == (v['pt'] == 2), 'is_link')
    else:
        ctx.check(not p.is_manifest() and not p.is_link(), 'an object without payload type is neither manifest nor link')
    if 'bytes' in v:
        ctx.check(p.payload().value_bytes() == v['bytes'], 'payload')
    if 'fcid' in v:
        ctx.check(be(p.final_chunk_id().serialize()[4:]) == v['fcid'], 'final chunk id')


@harness('C05', cases=[(m, 3) for m in range(32)] + [(8, 0), (13, 0), (31, 255), (9, 256), (8, 1500), (31, 1024), (9, 4097), (29, 8300), (9, 16390), (9, 33000), (8, 65200)],
         thorough_cases=[(m, n) for m in (8, 9, 13, 31) for n in (1, 2, 16, 64, 254, 257, 511, 512, 4096)],
         bounds='all 32 subsets of fields; symbolic name component, 42-bit expiry, any payload type byte, payload bytes and 64-bit final chunk')
def body_roundtrip(ctx, case):
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.Tlv import Tlv
    mask, n = case
    co, v = mkbody(ctx, mask, n)
    w = co.serialize()
    ctx.check(len(co) == len(w), 'length')
    ctx.check(w[2] * 256 + w[3] == len(w) - 4, 'length on the wire')
    same_body(ctx, co, v)
    p = ContentObject.parse(Tlv.deserialize(w))
    same_body(ctx, p, v)
    ctx.check(p == co and co == p, 'equality')
    ctx.check(p.serialize() == w, 're-encoding')
    ctx.reach()


@harness('C05', cases=['none', 'payload', 'bytes', 'array'], bounds='convenience constructors with all subsets of name, expiry and final chunk')
def create_data(ctx, how):
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.ExpiryTime import ExpiryTime
    from ccnpy.core.FinalChunkId import FinalChunkId
    from ccnpy.core.Payload import Payload
    from ccnpy.core.Tlv import Tlv
    import array
    v, kw = {}, {}
    if how != 'none':
        v['bytes'] = ctx.bytes('b', 3)
        v['pt'] = 0
        kw['payload'] = {'payload': Payload(v['bytes']), 'bytes': v['bytes'], 'array': array.array('B', v['bytes'])}[how]
    if ctx.choose('name', [1, 0]):
        v['name'] = kw['name'] = mkname(ctx, 'n', (1, 2))
    if ctx.choose('expiry', [1, 0]):
        v['ms'] = ctx.int('ms', 0, 2**42)
        kw['expiry_time'] = ExpiryTime(v['ms'] / 1000)
    f = ctx.choose('fcid', [0, 1, 2])
    if f:
        v['fcid'] = ctx.int('f', 0, 2**64 - 1)
        kw['final_chunk_id'] = v['fcid'] if f == 1 else FinalChunkId(v['fcid'])
    co = ContentObject.create_data(**kw)
    same_body(ctx, co, v)
    same_body(ctx, ContentObject.parse(Tlv.deserialize(co.serialize())), v)
    ctx.reach()


@harness('C05', cases=['link', 'manifest'], bounds='link and manifest objects with all subsets of name and expiry')
def create_other(ctx, kind):
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.HashValue import HashValue
    from ccnpy.core.Link import Link
    from ccnpy.core.Tlv import Tlv
    from datetime import datetime, timedelta, timezone
    v, kw = {}, {}
    if kind == 'link' or ctx.choose('name', [1, 0]):
        v['name'] = kw['name'] = mkname(ctx, 'n', (1, 2))
    if ctx.choose('expiry', [1, 0]):
        v['ms'] = 1700000000123
        kw['expiry_time'] = datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(milliseconds=v['ms'])
    if kind == 'link':
        link = Link(name=mkname(ctx, 'l', (2,)), digest=HashValue.create_sha256(ctx.bytes('d', 32)))
        co = ContentObject.create_link(link=link, **kw)
        v['pt'], v['bytes'] = 2, bytes(link.serialize())
    else:
        m = mkmanifest(ctx)
        co = ContentObject.create_manifest(manifest=m, **kw)
        v['pt'], v['bytes'] = 3, bytes(m.serialize())
    same_body(ctx, co, v)
    same_body(ctx, ContentObject.parse(Tlv.deserialize(co.serialize())), v)
    ctx.reach()


def mkmanifest(ctx):
    from ccnpy.core.HashValue import HashValue
    from ccnpy.flic.tlvs.HashGroup import HashGroup
    from ccnpy.flic.tlvs.Manifest import Manifest
    from ccnpy.flic.tlvs.Node import Node
    from ccnpy.flic.tlvs.Pointers import Pointers
    return Manifest(node=Node(hash_groups=[HashGroup(pointers=Pointers([HashValue.create_sha256(ctx.bytes('mh', 32))]))]))


@harness('C05', cases=[0, 1, 5, 6, 7], bounds='a repeated field of each kind; every unknown 16-bit field type')
def repeated_or_unknown(ctx, t):
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.Tlv import Tlv
    import array
    co, v = mkbody(ctx, 31)
    inner = co.serialize()[4:]
    if ctx.choose('kind', [0, 1]):
        x = ctx.int('unknown', 0, 0xFFFF)
        for k in (0, 1, 5, 6, 7):
            ctx.assume(x != k)
        extra = Tlv(x, ctx.bytes('e', 2)).serialize()
    else:
        val = {0: b'', 1: b'ab', 5: b'\x01', 6: b'\x00' * 7 + b'\x05', 7: b'\x03'}[t]
        extra = Tlv(t, val).serialize()
    w = (extra + inner) if ctx.choose('where', [0, 1]) else (inner + extra)
    try:
        ContentObject.parse(Tlv(2, w))
    except Exception:
        ctx.reach()
        return
    ctx.fail('a body with a repeated or unknown field was accepted')


# ---------------------------------------------------------------------------------------------- C06
def mkpacket(ctx, mask, signed, plen=3, names=(2,), nm='p'):
    """returns (packet, body values, alg, signature payload)"""
    from ccnpy.core.HashValue import HashValue
    from ccnpy.core.Packet import Packet
    from ccnpy.core.SignatureTime import SignatureTime
    from ccnpy.core.ValidationAlg import ValidationAlg_Crc32c, ValidationAlg_RsaSha256
    from ccnpy.core.ValidationPayload import ValidationPayload
    co, v = mkbody(ctx, mask, plen, names, nm=nm)
    if signed == 'none':
        return Packet.create_content_object(co), co, v, None, None
    if signed == 'crc':
        alg = ValidationAlg_Crc32c()
        sig = ValidationPayload(ctx.array(nm + '.sig', 4))
    else:
        alg = ValidationAlg_RsaSha256(keyid=HashValue.create_sha256(ctx.bytes(nm + '.keyid', 32)),
                                      signature_time=SignatureTime(ctx.int(nm + '.sigms', 0, 2**42) / 1000))
        sig = ValidationPayload(ctx.array(nm + '.sig', 16))
    return Packet.create_signed_content_object(co, alg, sig), co, v, alg, sig


def packet_bytes(co, alg, sig):
    b = bytes(co.serialize())
    if alg is not None:
        b = b + bytes(alg.serialize()) + bytes(sig.serialize())
    return b


SIGNED = ['none', 'crc', 'rsa']


@harness('C06', cases=[(m, s, 3) for m in (0, 1, 2, 8, 13, 21, 31) for s in SIGNED] + [(9, 'none', 255), (9, 'rsa', 256), (31, 'crc', 1030), (9, 'none', 4100), (9, 'rsa', 8200), (9, 'crc', 16390), (13, 'rsa', 33000), (8, 'none', 65200)],
         thorough_cases=[(m, s, n) for m in range(32) for s in SIGNED for n in (0, 5)] + [(8, 'none', 20000)],
         bounds='bodies with any subset of fields, unsigned, CRC and RSA form, symbolic contents')
def packet_roundtrip(ctx, case):
    from ccnpy.core.Packet import Packet
    mask, signed, n = case
    pk, co, v, alg, sig = mkpacket(ctx, mask, signed, n)
    w = pk.serialize()
    body = packet_bytes(co, alg, sig)
    ctx.check(bytes(w[8:]) == body, 'bytes after the header')
    ctx.check(w[0] == 1 and w[1] == 1 and w[7] == 8, 'header fields')
    ctx.check(w[2] * 256 + w[3] == len(w), 'packet length on the wire')
    ctx.check(len(pk) == len(w) and len(w) == 8 + len(body), 'len()')
    ctx.check(pk.header().packet_length() == len(w), 'packet_length()')
    p = Packet.deserialize(w)
    ctx.check(p == pk and pk == p, 'equality')
    ctx.check(p.serialize() == w, 're-encoding')
    same_body(ctx, p.body(), v)
    ctx.check(p.body() == co, 'body')
    ctx.check((p.validation_alg() is None) == (alg is None), 'validation presence')
    ctx.check((p.validation_payload() is None) == (alg is None), 'signature presence')
    if alg is not None:
        ctx.check(p.validation_alg() == alg, 'validation algorithm')
        ctx.check(p.validation_payload() == sig, 'signature')
        ctx.check(bytes(p.validation_payload().payload()) == bytes(sig.payload()), 'signature bytes')
    ctx.check(p.header().is_content_object() and not p.header().is_interest(), 'packet type')
    ctx.check(p.header() == pk.header(), 'header equality')
    ctx.reach()


@harness('C06', cases=SIGNED, bounds='saving to and loading from a file, symbolic contents; the file absent, or holding anything shorter, as long or longer, or another packet')
def packet_file(ctx, signed):
    from ccnpy.core.Packet import Packet
    pk, co, v, alg, sig = mkpacket(ctx, 31, signed)
    d = ctx.tmpdir('pkts')
    fn = d + '/p.bin'
    n = len(pk)
    before = ctx.choose('existing', ['no file', 'empty', 'shorter', 'as long', 'longer', 'another packet', 'the same packet'])
    if before == 'another packet':
        w = bytes(pk.serialize())
        ctx.writefile(fn, w[:n - 1] + bytes([(w[n - 1] + 1) % 256]))
    elif before == 'the same packet':
        pk.save(fn)
    elif before != 'no file':
        ctx.writefile(fn, b'x' * {'empty': 0, 'shorter': 9, 'as long': n, 'longer': n + 100}[before])
    pk.save(fn)
    ctx.check(ctx.readfile(fn) == bytes(pk.serialize()), 'file content')
    p = Packet.load(fn)
    ctx.check(p == pk, 'loaded packet')
    ctx.check(p.content_object_hash() == pk.content_object_hash(), 'hash of the loaded packet')
    ctx.reach()


@harness('C06', bounds='every 8-byte header followed by 0..3 bytes')
def header_bytes(ctx):
    from ccnpy.core.FixedHeader import FixedHeader
    n = ctx.choose('n', [8, 11, 7, 0, 1])
    b = ctx.array('b', n)
    try:
        h = FixedHeader.deserialize(b)
    except Exception:
        ctx.check(n < 8 or b[0] != 1 or b[2] * 256 + b[3] < 8 or b[7] < 8, 'a legal header was refused')
        ctx.reach('refused')
        return
    ctx.check(n >= 8, 'a short header was accepted')
    ctx.check(b[0] == 1, 'a wrong version was accepted')
    ctx.check(b[2] * 256 + b[3] >= 8, 'an impossible packet length was accepted')
    ctx.check(b[7] >= 8, 'an impossible header length was accepted')
    ctx.check(h.version() == b[0], 'version')
    ctx.check(h.packet_length() == b[2] * 256 + b[3], 'packet length')
    ctx.check(h.header_length() == b[7], 'header length')
    ctx.check(h.is_interest() == (b[1] == 0), 'interest')
    ctx.check(h.is_content_object() == (b[1] == 1), 'content object')
    ctx.check(h.is_interest_return() == (b[1] == 2), 'interest return')
    ctx.check(h.serialize() == b[:8], 're-encoding')
    ctx.reach('ok')


@harness('C06', cases=SIGNED, bounds='a received packet with any packet type, any hop limit, return code and flags, symbolic contents')
def received(ctx, signed):
    import array
    from ccnpy.core.Packet import Packet
    pk, co, v, alg, sig = mkpacket(ctx, ctx.choose('mask', [9, 13]), signed)
    b = array.array('B', pk.serialize())
    b[1] = ctx.int('type', 0, 255)
    for i in (4, 5, 6):
        b[i] = ctx.int('field%d' % i, 0, 255)
    w = bytes(b)
    p = Packet.deserialize(b)
    ctx.check(bytes(p.serialize()) == w and len(p) == len(w), 're-encoding')
    ctx.check(bytes(p.header().serialize()) == w[:8], 'header')
    h = p.header()
    ctx.check(h.is_interest() == (b[1] == 0) and h.is_content_object() == (b[1] == 1) and h.is_interest_return() == (b[1] == 2), 'packet type')
    ctx.check(p.body() == co and p.content_object_hash() == pk.content_object_hash(), 'body or hash')
    q = Packet.deserialize(p.serialize())
    ctx.check(q == p and q.header() == h, 'again')
    ctx.check((p == pk) == (w == bytes(pk.serialize())), 'equality with the packet sent')
    ctx.reach()


@harness('C06', bounds='every packet length -10..70000 in a built header')
def header_build(ctx):
    from ccnpy.core.FixedHeader import FixedHeader
    n = ctx.int('n', -10, 70000)
    hop = ctx.int('hop', 0, 255)
    kind = ctx.choose('kind', ['object', 'interest'])
    try:
        h = FixedHeader.create_content_object(n) if kind == 'object' else FixedHeader.create_interest(n, hop)
        w = h.serialize()
    except Exception:
        ctx.check(n < 0 or n > 65535, 'a representable packet length was refused')
        ctx.reach('refused')
        return
    ctx.check(n >= 0 and n <= 65535, 'an unrepresentable packet length was encoded')
    ctx.check(w[2] * 256 + w[3] == n, 'packet length')
    ctx.check(w[0] == 1 and w[7] == 8 and len(w) == 8, 'header shape')
    ctx.check(w[1] == (1 if kind == 'object' else 0), 'packet type')
    if kind == 'interest':
        ctx.check(w[4] == hop, 'hop limit')
    ctx.reach('ok')


@harness('C06', cases=[('none', 9), ('none', 31), ('crc', 9), ('rsa', 8)], bounds='every proper prefix of a packet with symbolic contents')
def truncated_packet(ctx, case):
    from ccnpy.core.Packet import Packet
    signed, mask = case
    pk, co, v, alg, sig = mkpacket(ctx, mask, signed)
    w = pk.serialize()
    cut = ctx.concrete(ctx.int('cut', 0, len(w) - 1))
    try:
        Packet.deserialize(w[:cut])
    except Exception:
        ctx.reach()
        return
    ctx.fail('a truncated packet was accepted')


@harness('C06', cases=SIGNED, bounds='any version, packet length and header length other than the right ones in an otherwise valid packet')
def wrong_header(ctx, signed):
    from ccnpy.core.Packet import Packet
    pk, co, v, alg, sig = mkpacket(ctx, 9, signed)
    w = pk.serialize()
    import array
    b = array.array('B', w)
    kind = ctx.choose('kind', ['version', 'length', 'header'])
    if kind == 'version':
        b[0] = ctx.int('v', 0, 255)
        ctx.assume(b[0] != 1)
    elif kind == 'length':
        n = ctx.int('n', 0, 65535)
        ctx.assume(n != len(w))
        b[2], b[3] = n // 256, n % 256
    else:
        b[7] = ctx.int('h', 0, 7)
    try:
        Packet.deserialize(b)
    except Exception:
        ctx.reach(kind)
        return
    ctx.fail('a packet with a wrong %s was accepted' % kind)


@harness('C06', cases=[65535, 65536, 65534], bounds='packets at the 65535-byte limit')
def packet_limit(ctx, total):
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.Packet import Packet
    from ccnpy.core.Payload import Payload
    n = total - 8 - 4 - 4
    try:
        pk = Packet.create_content_object(ContentObject(payload=Payload(ctx.bytes('b', n, sym=[0, -1]))))
    except Exception:
        ctx.check(total > 65535, 'a packet that fits was refused')
        ctx.reach('refused')
        return
    ctx.check(total <= 65535, 'an oversized packet was built')
    w = pk.serialize()
    ctx.check(len(w) == total and w[2] * 256 + w[3] == total, 'length')
    ctx.reach('ok')


# ---------------------------------------------------------------------------------------------- C07
@harness('C07', cases=[(m, s, 3) for m in (0, 1, 8, 13, 31) for s in SIGNED] +
         [(9, s, n) for s in SIGNED for n in (0, 64, 300, 1030, 4100, 8200, 16390, 33000, 65000)],
         bounds='any subset of fields; any header of a received packet; payloads of 0..65000 octets (symbolic stretches)')
def packet_hash(ctx, case):
    from ccnpy.core.Packet import Packet
    from ccnpy.core.FixedHeader import FixedHeader
    import hashlib
    mask, signed, plen = case
    pk, co, v, alg, sig = mkpacket(ctx, mask, signed, plen)
    want = hashlib.sha256(packet_bytes(co, alg, sig)).digest()
    h = pk.content_object_hash()
    ctx.check(h.hash_algorithm() == 1, 'hash algorithm')
    ctx.check(bytes(h.value()) == want, 'hash of a built packet')
    p = Packet.deserialize(pk.serialize())
    ctx.check(bytes(p.content_object_hash().value()) == want, 'hash of a received packet')
    ctx.check(p.content_object_hash() == h, 'hash equality')
    other = FixedHeader(packet_type=ctx.int('ptype', 0, 255), packet_length=len(pk),
                        fields=[ctx.int('f0', 0, 255), ctx.int('f1', 0, 255), ctx.int('f2', 0, 255)])
    q = Packet(header=other, body=co, validation_alg=alg, validation_payload=sig)
    ctx.check(bytes(q.content_object_hash().value()) == want, 'the hash depends on the header')
    ctx.reach()


@harness('C07', cases=[(a, b, 2) for a in SIGNED for b in SIGNED] + [('none', 'none', n) for n in (60, 200, 600, 1030, 4100, 8200, 16390, 33000, 65000)],
         bounds='pairs of packets with one-component names and payloads of 2..65000 octets (symbolic stretches), any validation form')
def hash_distinguishes(ctx, case):
    a, b, n = case
    pa = mkpacket(ctx, 9, a, n, (1,), nm='a')
    pb = mkpacket(ctx, 9, b, n, (1,), nm='b')
    x, y = packet_bytes(pa[1], pa[3], pa[4]), packet_bytes(pb[1], pb[3], pb[4])
    same = len(x) == len(y) and x == y
    ctx.check((pa[0].content_object_hash() == pb[0].content_object_hash()) == same,
              'two packets have the same hash exactly when they agree beyond the header')
    ctx.reach()
