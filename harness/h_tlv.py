"""C01 TLV framing, C02 integer fields"""
from .api import harness


def be(items):
    """big-endian value of a byte sequence, computed independently of the code under test"""
    n = 0
    for b in items:
        n = n * 256 + b
    return n


def _container(ctx, kind, name, n, sym=None):
    b = ctx.bytes(name, n, sym=sym)
    if kind == 'bytes':
        return b, b
    if kind == 'list':
        return b, list(b)
    import array
    return b, array.array('B', b)


EDGE = [0, 1, -1]


@harness('C01', cases=[(k, n) for k in ('array', 'bytes', 'list') for n in (0, 1, 3, 8)] +
         [('array', n) for n in (255, 256, 257)] + [('bytes', 255), ('list', 256)],
         thorough_cases=[(k, n) for k in ('array', 'bytes', 'list') for n in (2, 5, 16, 64, 254, 258, 511, 512, 513, 1023, 1024)],
         bounds='type any 16-bit value, values of 0..1024 bytes (all bytes symbolic), 3 containers, 0..3 trailing bytes')
def roundtrip(ctx, case):
    from ccnpy.core.Tlv import Tlv
    kind, n = case
    t = ctx.int('type', 0, 0xFFFF)
    b, v = _container(ctx, kind, 'value', n)
    tail = ctx.array('tail', 3)
    tlv = Tlv(t, v)
    wire = tlv.serialize()
    ctx.check(len(wire) == 4 + n, 'encoded length')
    ctx.check(len(tlv) == 4 + n, 'len()')
    ctx.check(wire[0] * 256 + wire[1] == t, 'type bytes')
    ctx.check(wire[2] * 256 + wire[3] == n, 'length bytes')
    ctx.check(bytes(wire[4:]) == b, 'value bytes')
    ctx.check(tlv.type() == t, 'type()')
    ctx.check(tlv.length() == n, 'length()')
    ctx.check(bytes(wire) == bytes(tlv), 'iteration yields the encoding')
    import array
    back = Tlv.deserialize(array.array('B', wire) + tail)
    ctx.check(back.type() == t, 'decoded type')
    ctx.check(bytes(back.value()) == b, 'decoded value')
    ctx.check(back.length() == n, 'decoded length')
    ctx.check(len(back) == 4 + n, 'decoded size')
    ctx.check(back.serialize() == wire, 're-encoding')
    ctx.reach()


@harness('C01', cases=[65534, 65535, 4096, 1000], bounds='value lengths up to 65535, first/last bytes symbolic')
def roundtrip_large(ctx, n):
    from ccnpy.core.Tlv import Tlv
    t = ctx.int('type', 0, 0xFFFF)
    v = ctx.array('value', n, sym=[0, 1, 2, 3, n // 2, -2, -1])
    tlv = Tlv(t, v)
    wire = tlv.serialize()
    ctx.check(len(wire) == 4 + n, 'encoded length')
    ctx.check(wire[0] * 256 + wire[1] == t, 'type bytes')
    ctx.check(wire[2] * 256 + wire[3] == n, 'length bytes')
    ctx.check(wire[4:] == v, 'value bytes')
    back = Tlv.deserialize(wire)
    ctx.check(back.type() == t, 'decoded type')
    ctx.check(back.value() == v, 'decoded value')
    ctx.reach()


@harness('C01', cases=[(k, n) for k in ('array', 'bytes', 'list') for n in (65536, 65537, 65792, 131072)],
         bounds='values of 65536, 65537, 65792 and 131072 bytes')
def too_long(ctx, case):
    from ccnpy.core.Tlv import Tlv
    kind, n = case
    t = ctx.int('type', 0, 0xFFFF)
    b, v = _container(ctx, kind, 'value', n, sym=[0, 1, 2, 3, -1])
    try:
        tlv = Tlv(t, v)
        wire = tlv.serialize()
    except Exception:
        ctx.reach('refused')
        return
    ctx.fail('a value of %d bytes was encoded' % n)


@harness('C01', cases=[0, 2], bounds='types in -70000..200000')
def bad_type(ctx, n):
    from ccnpy.core.Tlv import Tlv
    t = ctx.int('type', -70000, 200000)
    v = ctx.array('value', n)
    try:
        wire = Tlv(t, v).serialize()
    except Exception:
        ctx.check(not (t >= 0 and t <= 0xFFFF), 'a legal type was refused')
        ctx.reach('refused')
        return
    ctx.check(t >= 0 and t <= 0xFFFF, 'an illegal type was encoded')
    ctx.check(wire[0] * 256 + wire[1] == t, 'type bytes')
    ctx.reach('ok')


@harness('C01', cases=list(range(0, 14)) + [260], thorough_cases=list(range(14, 41)) + [300, 515],
         bounds='every buffer of 0..40, 260, 300 and 515 bytes (header symbolic; 3 KiB declared lengths)')
def parse(ctx, n):
    from ccnpy.core.Tlv import Tlv
    from ccnpy.exceptions.ParseError import ParseError
    b = ctx.array('buf', n)
    try:
        t = Tlv.deserialize(b)
    except ParseError:
        ctx.check(n < 4 or b[2] * 256 + b[3] > n - 4, 'a complete TLV was refused')
        ctx.reach('short' if n < 4 else 'truncated')
        return
    ctx.check(n >= 4, 'a buffer without a header was accepted')
    ln = b[2] * 256 + b[3]
    ctx.check(ln <= n - 4, 'a truncated TLV was accepted')
    ctx.check(t.type() == b[0] * 256 + b[1], 'type')
    ctx.check(t.length() == ln, 'length')
    ctx.check(len(t) == ln + 4, 'size')
    ctx.check(t.serialize() == b[0:len(t)], 'the encoding is the parsed prefix')
    ctx.check(t.value() == b[4:len(t)], 'value')
    ctx.reach('ok')


@harness('C01', cases=[(1, 0, 2), (0, 0, 0), (3, 2, 1), (5, 4, 0)], thorough_cases=[(255, 3, 7), (100, 200, 3), (8, 8, 8)],
         bounds='lists of TLVs, absent entries and raw bytes')
def nested(ctx, case):
    from ccnpy.core.Tlv import Tlv
    import array
    n1, n2, nr = case
    t, t1, t2 = (ctx.int(x, 0, 0xFFFF) for x in ('t', 't1', 't2'))
    v1 = ctx.array('v1', n1)
    v2 = ctx.bytes('v2', n2)
    raw = ctx.bytes('raw', nr)
    a, b = Tlv(t1, v1), Tlv(t2, v2)
    wa, wb = bytes(a.serialize()), bytes(b.serialize())
    o = Tlv(t, [None, a, *raw, None, b])
    ctx.check(bytes(o.value()) == wa + raw + wb, 'the value is the concatenation of the parts in order')
    w = o.serialize()
    ctx.check(w[2] * 256 + w[3] == len(w) - 4, 'declared length')
    ctx.check(bytes(a.serialize()) == wa and bytes(b.serialize()) == wb, 'parts unchanged')
    one = Tlv(t, a)
    ctx.check(bytes(one.serialize()[4:]) == wa, 'a TLV as the value of a TLV')
    ctx.check(Tlv.deserialize(one.serialize()[4:]) == a, 'inner TLV decodes')
    ctx.check(bytes(Tlv(t, None).serialize()[2:]) == b'\x00\x00', 'an absent value is empty')
    ctx.reach()


@harness('C01', cases=[(0, 0), (2, 3), (4, 1)], thorough_cases=[(255, 0), (250, 10), (20, 20)],
         bounds='values of 0..255 bytes extended by TLVs of 0..20 bytes')
def extend(ctx, case):
    from ccnpy.core.Tlv import Tlv
    n1, n2 = case
    t1, t2 = ctx.int('t1', 0, 0xFFFF), ctx.int('t2', 0, 0xFFFF)
    kind = ctx.choose('kind', ['array', 'bytes'])
    b1, v1 = _container(ctx, kind, 'v1', n1)
    a, b = Tlv(t1, v1), Tlv(t2, ctx.array('v2', n2))
    wa, wb = bytes(a.serialize()), bytes(b.serialize())
    c = a.extend(b)
    ctx.check(c.type() == t1, 'type')
    ctx.check(bytes(c.serialize()[4:]) == b1 + wb, 'value')
    ctx.check(bytes(a.serialize()) == wa and bytes(a.value()) == b1, 'the extended TLV is unchanged')
    ctx.check(bytes(b.serialize()) == wb, 'the extension is unchanged')
    ctx.reach()


@harness('C01', cases=[(65531, 0), (65530, 1), (65532, 0), (65535, 0), (1, 65531)], bounds='extension across the 16-bit length limit')
def extend_limit(ctx, case):
    from ccnpy.core.Tlv import Tlv
    n1, n2 = case
    a, b = Tlv(1, ctx.array('v1', n1, sym=[0, -1])), Tlv(2, ctx.array('v2', n2, sym=[0, -1]))
    try:
        c = a.extend(b)
        w = c.serialize()
    except Exception:
        ctx.check(n1 + n2 + 4 > 65535, 'a legal extension was refused')
        ctx.reach('refused')
        return
    ctx.check(n1 + n2 + 4 <= 65535, 'an oversized TLV was encoded')
    ctx.check(w[2] * 256 + w[3] == n1 + n2 + 4, 'length')
    ctx.reach('ok')


# ---------------------------------------------------------------------------------------------- C02
def _int_classes():
    from ccnpy.flic.tlvs.KeyNumber import KeyNumber
    from ccnpy.flic.tlvs.NcId import NcId
    from ccnpy.flic.tlvs.StartSegmentId import StartSegmentId
    from ccnpy.flic.tlvs.SubtreeSize import SubtreeSize
    from ccnpy.flic.tlvs.LeafSize import LeafSize
    from ccnpy.flic.tlvs.KdfAlg import KdfAlg
    from ccnpy.flic.tlvs.AeadMode import AeadMode
    from ccnpy.flic.RsaOaepCtx.HashAlg import HashAlg
    return {'KeyNumber': KeyNumber, 'NcId': NcId, 'StartSegmentId': StartSegmentId, 'SubtreeSize': SubtreeSize,
            'LeafSize': LeafSize, 'KdfAlg': KdfAlg, 'AeadMode': AeadMode, 'HashAlg': HashAlg}


INT_NAMES = ['KeyNumber', 'NcId', 'StartSegmentId', 'SubtreeSize', 'LeafSize', 'KdfAlg', 'AeadMode', 'HashAlg']


@harness('C02', bounds='every integer in -2^70..2^70')
def varint(ctx):
    from ccnpy.core.Tlv import Tlv
    v = ctx.int('v', -(2**70), 2**70)
    try:
        t = Tlv.create_varint(1, v)
        w = t.serialize()
    except Exception:
        ctx.check(v < 0 or v >= 2**64, 'a representable number was refused')
        ctx.reach('refused')
        return
    ctx.check(v >= 0 and v < 2**64, 'an unrepresentable number was encoded')
    ctx.check(be(w[4:]) == v, 'big-endian value on the wire')
    b = Tlv.deserialize(w)
    ctx.check(b.value_as_number() == v, 'value read back')
    ctx.check(Tlv.array_to_number(t.value()) == v, 'array_to_number')
    ctx.reach('%d' % len(t.value()))


@harness('C02', cases=INT_NAMES, bounds='every integer in -2^70..2^70')
def integer_field(ctx, name):
    from ccnpy.core.Tlv import Tlv
    cls = _int_classes()[name]
    v = ctx.int('v', -(2**70), 2**70)
    try:
        f = cls(v)
        w = f.serialize()
    except Exception:
        ctx.check(v < 0 or v >= 2**64, 'a representable number was refused')
        ctx.reach('refused')
        return
    ctx.check(v >= 0 and v < 2**64, 'an unrepresentable number was accepted')
    ctx.check(f.value() == v, 'value()')
    ctx.check(len(f) == len(w), 'len()')
    ctx.check(be(w[4:]) == v, 'value on the wire')
    p = cls.parse(Tlv.deserialize(w))
    ctx.check(p.value() == v, 'value of the parsed field')
    ctx.check(p == f, 'equality')
    ctx.check(p.serialize() == w, 're-encoding')
    if name in ('SubtreeSize', 'LeafSize'):
        ctx.check(p.size() == v, 'size()')
    if name == 'NcId':
        ctx.check(p.id() == v, 'id()')
    ctx.reach('ok')


@harness('C02', cases=[(n, k) for n in INT_NAMES for k in (0, 1, 2, 3, 4, 5, 6, 7, 8)] + [('NcId', 9)],
         bounds='encoded integers of 0..9 bytes, leading zeros included')
def integer_from_wire(ctx, case):
    from ccnpy.core.Tlv import Tlv
    name, k = case
    cls = _int_classes()[name]
    b = ctx.bytes('b', k)
    t = Tlv(cls.class_type(), b)
    v = be(b)
    try:
        f = cls.parse(t)
    except Exception:
        ctx.check(v >= 2**64, 'a representable number was refused')
        ctx.reach('refused')
        return
    ctx.check(f.value() == v, 'value read from the wire')
    ctx.reach('ok')


@harness('C02', cases=['uint8', 'uint16', 'uint64'], bounds='every integer in -2^70..2^70')
def fixed_width(ctx, kind):
    from ccnpy.core.Tlv import Tlv
    v = ctx.int('v', -(2**70), 2**70)
    width = {'uint8': 1, 'uint16': 2, 'uint64': 8}[kind]
    make = {'uint8': Tlv.create_uint8, 'uint16': Tlv.create_uint16, 'uint64': Tlv.create_uint64}[kind]
    try:
        t = make(5, v)
        w = t.serialize()
    except Exception:
        ctx.check(v < 0 or v >= 2**(8 * width), 'a representable number was refused')
        ctx.reach('refused')
        return
    ctx.check(v >= 0 and v < 2**(8 * width), 'an unrepresentable number was encoded')
    ctx.check(len(w) == 4 + width, 'width')
    ctx.check(be(w[4:]) == v, 'value on the wire')
    ctx.check(Tlv.deserialize(w).value_as_number() == v, 'value read back')
    ctx.reach('ok')


@harness('C02', cases=['uint16', 'uint24', 'uint32', 'uint64'], bounds='every integer in -2^70..2^70')
def fixed_arrays(ctx, kind):
    from ccnpy.core.Tlv import Tlv
    v = ctx.int('v', -(2**70), 2**70)
    width = {'uint16': 2, 'uint24': 3, 'uint32': 4, 'uint64': 8}[kind]
    make = {'uint16': Tlv.uint16_to_array, 'uint24': Tlv.uint24_to_array, 'uint32': Tlv.uint32_to_array,
            'uint64': Tlv.uint64_to_array}[kind]
    try:
        a = make(v)
    except Exception:
        ctx.check(v < 0 or v >= 2**(8 * width), 'a representable number was refused')
        ctx.reach('refused')
        return
    ctx.check(v >= 0 and v < 2**(8 * width), 'an unrepresentable number was encoded')
    ctx.check(len(a) == width, 'width')
    ctx.check(be(a) == v, 'value')
    ctx.reach('ok')


@harness('C02', bounds='every integer in -2^70..2^70')
def final_chunk_id(ctx):
    from ccnpy.core.Tlv import Tlv
    from ccnpy.core.FinalChunkId import FinalChunkId
    v = ctx.int('v', -(2**70), 2**70)
    try:
        f = FinalChunkId(v)
        w = f.serialize()
    except Exception:
        ctx.check(v < 0 or v >= 2**64, 'a representable number was refused')
        ctx.reach('refused')
        return
    ctx.check(v >= 0 and v < 2**64, 'an unrepresentable number was accepted')
    ctx.check(be(w[4:]) == v, 'value on the wire')
    p = FinalChunkId.parse(Tlv.deserialize(w))
    ctx.check(p == f, 'equality')
    ctx.check(p.serialize() == w, 're-encoding')
    ctx.check(len(p) == len(w), 'len()')
    ctx.reach('ok')


@harness('C02', bounds='suffix types -10..200000, ids 0..2^64+10')
def suffix_type(ctx):
    from ccnpy.core.Tlv import Tlv
    from ccnpy.flic.tlvs.SuffixComponentType import SuffixComponentType
    v = ctx.int('v', -10, 200000)
    try:
        f = SuffixComponentType(v)
        w = f.serialize()
    except Exception:
        ctx.check(v < 0 or v > 0xFFFF, 'a representable number was refused')
        ctx.reach('refused')
        return
    ctx.check(v >= 0 and v <= 0xFFFF, 'an unrepresentable number was accepted')
    ctx.check(len(w) == 6 and be(w[4:]) == v, 'value on the wire')
    p = SuffixComponentType.parse(Tlv.deserialize(w))
    ctx.check(p.value() == v, 'parsed value')
    ctx.check(p == f, 'equality')
    i = ctx.int('id', 0, 2**64 - 1)
    c = p.create_name_component(i)
    ctx.check(c.type() == v, 'component type')
    ctx.check(be(c.value()) == i, 'component value')
    ctx.reach('ok')


@harness('C02', cases=['chunk', 'manifest'], bounds='every integer in -2^70..2^70')
def name_ids(ctx, kind):
    from ccnpy.core.Tlv import Tlv
    from ccnpy.core.Name import Name, NameComponent
    v = ctx.int('v', -(2**70), 2**70)
    try:
        if kind == 'chunk':
            c = NameComponent.create_chunk_segment(v)
        else:
            c = NameComponent.create_manifest_id(v)
        w = c.serialize()
    except Exception:
        ctx.check(v < 0 or v >= 2**64, 'a representable number was refused')
        ctx.reach('refused')
        return
    ctx.check(v >= 0 and v < 2**64, 'an unrepresentable number was accepted')
    ctx.check(c.is_chunk_id_segment() == (kind == 'chunk'), 'kind')
    ctx.check(c.is_manifest_id_segment() == (kind == 'manifest'), 'kind')
    ctx.check(w[0] * 256 + w[1] == (5 if kind == 'chunk' else 0x10), 'component type on the wire')
    ctx.check(be(w[4:]) == v, 'value on the wire')
    n = Name.parse(Tlv.deserialize(Name([c]).serialize()))
    ctx.check(n.component(0).value_as_number() == v, 'value of the parsed component')
    ctx.reach('ok')


@harness('C02', bounds='every integer in -10..2^26')
def vendor_pen(ctx):
    from ccnpy.core.Tlv import Tlv
    from ccnpy.flic.tlvs.Vendor import Vendor
    v = ctx.int('v', -10, 2**26)
    pl = ctx.array('payload', 3)
    try:
        f = Vendor(v, pl)
        w = f.serialize()
    except Exception:
        ctx.check(v < 0 or v >= 2**24, 'a representable number was refused')
        ctx.reach('refused')
        return
    ctx.check(v >= 0 and v < 2**24, 'an unrepresentable number was accepted')
    ctx.check(be(w[4:7]) == v, 'value on the wire')
    p = Vendor.parse(Tlv.deserialize(w))
    ctx.check(p.pen() == v, 'parsed number')
    ctx.check(p.payload() == pl, 'payload')
    ctx.reach('ok')


@harness('C02', bounds='payload types -5..300')
def payload_type(ctx):
    from ccnpy.core.Tlv import Tlv
    from ccnpy.core.PayloadType import PayloadType
    v = ctx.int('v', -5, 300)
    try:
        f = PayloadType(v)
        w = f.serialize()
    except Exception:
        ctx.check(v < 0 or v > 255, 'a representable number was refused')
        ctx.reach('refused')
        return
    ctx.check(v >= 0 and v <= 255, 'an unrepresentable number was accepted')
    ctx.check(be(w[4:]) == v, 'value on the wire')
    p = PayloadType.parse(Tlv.deserialize(w))
    ctx.check(p == f, 'equality')
    ctx.check(p.is_data() == (v == 0), 'data')
    ctx.check(p.is_key() == (v == 1), 'key')
    ctx.check(p.is_link() == (v == 2), 'link')
    ctx.check(p.is_manifest() == (v == 3), 'manifest')
    ctx.reach('ok')


@harness('C02', cases=[1, 2, 4, 8, 9], bounds='key numbers given as 1..9 bytes')
def key_number_bytes(ctx, n):
    from ccnpy.flic.tlvs.KeyNumber import KeyNumber
    b = ctx.bytes('b', n)
    try:
        k = KeyNumber(b)
    except Exception:
        ctx.check(be(b) >= 2**64, 'a representable number was refused')
        ctx.reach('refused')
        return
    ctx.check(k.value() == be(b), 'value')
    ctx.check(be(k.serialize()[4:]) == be(b), 'value on the wire')
    ctx.reach('ok')
