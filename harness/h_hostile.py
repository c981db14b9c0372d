"""C10: decoders on arbitrary octets.

The oracle is a reading of the octets by a table of the published layout: whatever a decoder accepts must show exactly
the fields the octets hold, fields that are absent staying absent, and must survive encoding and decoding again."""
from .api import harness
from .h_flic import B, same, tlv


class Refuse(Exception):
    pass


def number(b):
    n = 0
    for x in b:
        n = n << 8 | x
    return n


def split(b):
    """[(type, value octets)] that fill b exactly"""
    out, i = [], 0
    while i < len(b):
        if len(b) - i < 4:
            raise Refuse('a header is cut')
        t, n = b[i] << 8 | b[i + 1], b[i + 2] << 8 | b[i + 3]
        if n > len(b) - i - 4:
            raise Refuse('a value is cut')
        out.append((t, b[i + 4:i + 4 + n]))
        i = i + 4 + n
    return out


def first(b):
    """the first TLV of b, whatever follows"""
    if len(b) < 4:
        raise Refuse('a header is cut')
    t, n = b[0] << 8 | b[1], b[2] << 8 | b[3]
    if n > len(b) - 4:
        raise Refuse('a value is cut')
    return t, b[4:4 + n]


# one entry per structure: type -> (field, kind); kind[] = any number of them
LAYOUT = {
    'name': None,
    'link': {0: ('name', 'name'), 2: ('keyid', 'hash'), 3: ('digest', 'hash')},
    'groupdata': {2: ('subtree_size', 'num'), 3: ('subtree_digest', 'hash'), 0: ('leaf_size', 'num'), 1: ('leaf_digest', 'hash'),
                  5: ('nc_id', 'num'), 4: ('start_segment_id', 'num')},
    'group': {0xB: ('group_data', 'groupdata'), 7: ('pointers', 'pointers')},
    'locators': {0xD: ('links', 'link[]')},
    'HashSchema': {6: ('locators', 'locators'), 1: ('flags', 'oct')},
    'PrefixSchema': {0: ('name', 'name'), 6: ('locators', 'locators'), 1: ('flags', 'oct')},
    'SegmentedSchema': {0: ('name', 'name'), 2: ('suffix_type', 'num'), 6: ('locators', 'locators'), 1: ('flags', 'oct')},
    'ncdef': {5: ('nc_id', 'num'), 0x10: ('schema', 'HashSchema'), 0x11: ('schema', 'PrefixSchema'), 0x12: ('schema', 'SegmentedSchema')},
    'nodedata': {2: ('subtree_size', 'num'), 3: ('subtree_digest', 'hash'), 6: ('locators', 'locators'), 4: ('nc_defs', 'ncdef[]'),
                 0xFFF: ('vendors', 'vendor[]')},
    'node': {0: ('node_data', 'nodedata'), 1: ('groups', 'group[]')},
    'kdf': {6: ('alg', 'num'), 7: ('info', 'oct')},
    'aead': {0: ('key_number', 'num'), 1: ('nonce', 'oct'), 2: ('mode', 'num'), 5: ('kdf', 'kdf')},
    'wrapper': {9: ('key_id', 'hash'), 0xE: ('link', 'link'), 3: ('hash_alg', 'num'), 4: ('wrapped', 'oct')},
    'manifest': {0: ('ctx', 'secctx'), 1: ('node', 'node'), 2: ('cipher', 'oct'), 3: ('tag', 'oct last')},
    'content': {0: ('name', 'name'), 6: ('expiry', 'num'), 5: ('payload_type', 'num'), 1: ('payload', 'oct'), 7: ('final', 'num')},
    'rsasha256': {9: ('keyid', 'hash last'), 0xF: ('time', 'num last')},
    'packet': {2: ('body', 'content'), 3: ('alg', 'valalg'), 4: ('signature', 'oct')},
}


def ref(kind, v):
    """what the octets v of a structure hold"""
    if kind == 'num':
        return number(v)
    if kind == 'oct':
        return v
    if kind == 'hash':
        return first(v)
    if kind == 'name' or kind == 'pointers':
        return split(v)
    if kind == 'vendor':
        if len(v) < 3:
            raise Refuse('vendor')
        return number(v[:3]), v[3:]
    if kind == 'valalg':
        t, x = first(v)
        if t == 2:
            if len(x):
                raise Refuse('CRC32C without parameters')
            return {'alg': 'crc32c'}
        if t == 4:
            return dict(ref('rsasha256', x), alg='rsa')
        raise Refuse('signature algorithm')
    if kind == 'secctx':
        t, x = first(v)
        if t == 0:
            return dict(ref('aead', x), ctx='aead')
        if t == 1:
            d = dict(ref('aead', x), ctx='rsa')
            w = ref('wrapper', x)
            if w:
                d['wrapper'] = w
            return d
        raise Refuse('security context')
    table = LAYOUT[kind]
    d = {f: [] for f, k in table.values() if k.endswith('[]')}
    if kind == 'locators':
        pass
    for t, x in split(v):
        for k in table:
            if t == k:
                f, how = table[k]
                if how.endswith('[]'):
                    d[f].append(ref(how[:-2], x))
                elif f in d and not how.endswith(' last'):
                    raise Refuse('twice')
                else:
                    d[f] = ref(how.split()[0], x)
                    if f == 'schema':
                        d['kind'] = how
                break
    return d


# ---------------------------------------------------------------------------------------------- readings of objects
def hv(h): return (h.hash_algorithm(), bytes(h.value()))


def nm(n): return [(c.type(), bytes(c.value())) for c in (n.component(i) for i in range(n.count()))]


def take(**kw):
    """{field: reading} without the absent fields; arguments are (object or None, reader)"""
    return {k: f(x) for k, (x, f) in kw.items() if x is not None}


def val(x): return x.value()


def octs(x): return bytes(x.value_bytes())


def o_link(l): return take(name=(l.name(), nm), keyid=(l.keyid(), hv), digest=(l.digest(), hv))


def o_locators(l): return {'links': [o_link(x._link) for x in l]}


def o_groupdata(g):
    dig = lambda x: hv(x.digest())
    return take(subtree_size=(g.subtree_size(), val), subtree_digest=(g.subtree_digest(), dig), leaf_size=(g.leaf_size(), val),
                leaf_digest=(g.leaf_digest(), dig), nc_id=(g.nc_id(), lambda x: x.id()), start_segment_id=(g.start_segment_id(), val))


def o_pointers(p): return [hv(h) for h in p]


def o_group(g): return take(group_data=(g.group_data(), o_groupdata), pointers=(g.pointers(), o_pointers))


def o_schema(s):
    k = type(s).__name__
    d = take(locators=(s.locators(), o_locators), flags=(s.flags(), octs))
    if k != 'HashSchema':
        d.update(take(name=(s.name(), nm)))
    if k == 'SegmentedSchema':
        d.update(take(suffix_type=(s.suffix_type(), val)))
    return d


def o_ncdef(n):
    d = take(nc_id=(n.nc_id(), lambda x: x.id()), schema=(n.schema(), o_schema))
    if n.schema() is not None:
        d['kind'] = type(n.schema()).__name__
    return d


def o_nodedata(n):
    d = take(subtree_size=(n.subtree_size(), val), subtree_digest=(n.subtree_digest(), lambda x: hv(x.digest())), locators=(n.locators(), o_locators))
    d['nc_defs'] = [o_ncdef(x) for x in n.nc_defs() or []]
    d['vendors'] = [(x.pen(), bytes(x.payload())) for x in n.vendor_tags() or []]
    return d


def o_node(n):
    d = take(node_data=(n.node_data(), o_nodedata))
    d['groups'] = [o_group(g) for g in n.hash_groups() or []]
    return d


def o_kdf(k): return take(alg=(k.kdf_alg(), val), info=(k.kdf_info(), octs))


def o_secctx(c):
    a = c.aead_data()
    d = take(key_number=(a.key_number(), val), nonce=(a.nonce(), octs), mode=(a.mode(), val), kdf=(a.kdf_data(), o_kdf))
    d['ctx'] = 'aead' if type(c).__name__ == 'AeadCtx' else 'rsa'
    if d['ctx'] == 'rsa' and c.rsa_oaep_wrapper() is not None:
        w = c.rsa_oaep_wrapper()
        d['wrapper'] = take(key_id=(w.key_id(), lambda x: hv(x.digest())), link=(w.key_link(), lambda x: o_link(x._link)),
                            hash_alg=(w._hash_alg, val), wrapped=(w.wrapped_key(), octs))
    return d


def o_manifest(m):
    d = take(ctx=(m.security_ctx(), o_secctx), tag=(m.auth_tag(), octs))
    n = m.node()
    if n is not None:
        d.update(take(cipher=(n, octs)) if type(n).__name__ == 'EncryptedNode' else take(node=(n, o_node)))
    return d


def coded(x): return number(bytes(x.serialize())[4:])


def o_content(c):
    return take(name=(c.name(), nm), expiry=(c.expiry_time(), coded), payload_type=(c.payload_type(), coded), payload=(c.payload(), lambda x: bytes(x.value())),
                final=(c.final_chunk_id(), coded))


def o_valalg(a):
    if type(a).__name__ == 'ValidationAlg_Crc32c':
        return {'alg': 'crc32c'}
    return dict(take(keyid=(a.keyid(), hv), time=(a.signature_time(), coded)), alg='rsa')


def o_packet(p):
    return take(body=(p.body(), o_content), alg=(p.validation_alg(), o_valalg), signature=(p.validation_payload(), lambda x: bytes(x.payload())))


def o_vendor(v): return v.pen(), bytes(v.payload())


def buf(b):
    import array
    return array.array('B', b)


def by_tlv(path):
    def get():
        mod, cls = path.rsplit('.', 1)
        from importlib import import_module
        from ccnpy.core.Tlv import Tlv
        c = getattr(import_module(mod), cls)
        return lambda b: c.parse(Tlv.deserialize(buf(b)))
    return get


def by_buffer(path):
    def get():
        mod, cls = path.rsplit('.', 1)
        from importlib import import_module
        c = getattr(import_module(mod), cls)
        return lambda b: c.deserialize(buf(b))
    return get


T = 'ccnpy.flic.tlvs.'
# kind: (how to parse, type or None, reading)
KINDS = {
    'name': (by_tlv('ccnpy.core.Name.Name'), 0, nm),
    'link': (by_buffer('ccnpy.core.Link.Link'), None, o_link),
    'groupdata': (by_tlv(T + 'GroupData.GroupData'), 0xB, o_groupdata),
    'pointers': (by_tlv(T + 'Pointers.Pointers'), 7, o_pointers),
    'group': (by_tlv(T + 'HashGroup.HashGroup'), 1, o_group),
    'locators': (by_tlv(T + 'Locators.Locators'), 6, o_locators),
    'HashSchema': (by_tlv(T + 'NcSchema.HashSchema'), 0x10, o_schema),
    'PrefixSchema': (by_tlv(T + 'NcSchema.PrefixSchema'), 0x11, o_schema),
    'SegmentedSchema': (by_tlv(T + 'NcSchema.SegmentedSchema'), 0x12, o_schema),
    'ncdef': (by_tlv(T + 'NcDef.NcDef'), 4, o_ncdef),
    'nodedata': (by_tlv(T + 'NodeData.NodeData'), 0, o_nodedata),
    'node': (by_tlv(T + 'Node.Node'), 1, o_node),
    'kdf': (by_tlv(T + 'KdfData.KdfData'), 5, o_kdf),
    'secctx': (by_tlv(T + 'SecurityCtx.SecurityCtx'), 0, o_secctx),
    'content': (by_tlv('ccnpy.core.ContentObject.ContentObject'), 2, o_content),
    'valalg': (by_tlv('ccnpy.core.ValidationAlg.ValidationAlg'), 3, o_valalg),
    'packet': (by_buffer('ccnpy.core.Packet.Packet'), 'header', o_packet),
    'vendor': (by_tlv(T + 'Vendor.Vendor'), 0xFFF, o_vendor),
    'manifest': (by_buffer(T + 'Manifest.Manifest'), None, o_manifest),
}


def width(n):
    return 1 if n < 256 else 2 if n < 65536 else 3 if n < 2**24 else 4 if n < 2**32 else 8


def canonical(d):
    """octets of the encoding of a packet that holds just the fields of d"""
    n = 0
    if 'body' in d:
        b = d['body']
        n += 4
        if 'name' in b:
            n += 4 + sum(4 + len(x) for t, x in b['name'])
        n += 12 if 'expiry' in b else 0
        n += 4 + width(b['payload_type']) if 'payload_type' in b else 0
        n += 4 + width(b['final']) if 'final' in b else 0
        n += 4 + len(b['payload']) if 'payload' in b else 0
    if 'alg' in d:
        n += 8
        if 'keyid' in d['alg']:
            n += 8 + len(d['alg']['keyid'][1])
        n += 12 if 'time' in d['alg'] else 0
    if 'signature' in d:
        n += 4 + len(d['signature'])
    return n


def judge(ctx, kind, v, b):
    """v: the octets of the structure, b: what the decoder is given"""
    how, t, read = KINDS[kind]
    parse = how()
    try:
        o = parse(b)
    except Exception:
        return ctx.reach('refused')
    try:
        want = ref(kind, v)
    except Refuse:
        return ctx.fail('octets that are not a %s were accepted' % kind)
    for x in (want, want.get('body'), want.get('alg')) if isinstance(want, dict) else ():
        for f in ('expiry', 'time') if isinstance(x, dict) else ():
            if f in x:
                ctx.assume(x[f] < 2**53)
    same(ctx, read(o), want, kind)
    if kind == 'packet':
        odd = canonical(want) != len(v)
        ctx.known('C10-packet-length', odd)
    w = o.serialize()
    p = parse(bytes(w))
    ctx.check(p == o, 'decoded again it is another %s' % kind)
    same(ctx, read(p), want, kind + ' decoded again')
    ctx.reach('accepted')


SMALL = {'node': 9, 'manifest': 9, 'secctx': 12, 'nodedata': 9}


@harness('C10', cases=[(k, n) for k in KINDS for n in (0, 1, 2, 3, 4, 5, 6, 8, 9)] + [('packet', 10)],
         thorough_cases=[(k, n) for k in KINDS for n in (7, 10, 11, 12, 13)],
         bounds='every value of 0..9 octets (thorough: 13) for each of 19 decoders; times below 2^53 ms')
def anything(ctx, case):
    kind, n = case
    v = ctx.bytes('v', n)
    t = KINDS[kind][1]
    judge(ctx, kind, v, wrap(t, v))


def wrap(t, v):
    if t == 'header':
        n = len(v) + 8
        return bytes([1, 1, n >> 8, n & 255, 0, 0, 0, 8]) + v
    return v if t is None else tlv(t, v)


# ---------------------------------------------------------------------------------------------- damaged encodings
class Fixed:
    """a source of fixed values for the builders"""
    k = 0

    def int(self, nm, lo, hi):
        self.k += 1
        return min(hi, max(lo, self.k * 7 % 101))

    def bytes(self, nm, n):
        self.k += 1
        return bytes((self.k * 11 + i * 3) % 251 for i in range(n))

    def array(self, nm, n):
        return buf(self.bytes(nm, n))


def sample(kind, i):
    """a valid value of a structure"""
    b = B(Fixed())

    def small(nm, n=32, alg=1):
        return type(b).hash(b, nm, 4, alg)
    b.hash = small
    w = {'name': lambda: tlv(0, *[tlv(1, b'ab'), tlv(5, b'\x01'), tlv(0x1002, b'')][:i + 1]),
         'link': lambda: b.link('l', 7)[2],
         'groupdata': lambda: b.groupdata('g', [63, 48][i])[2],
         'pointers': lambda: b.pointers('p', 3)[2],
         'group': lambda: b.group('g', 2, 48)[2],
         'locators': lambda: b.locators('l', (1, 3))[2],
         'HashSchema': lambda: b.schema('s', 'HashSchema', 3)[2],
         'PrefixSchema': lambda: b.schema('s', 'PrefixSchema', 3)[2],
         'SegmentedSchema': lambda: b.schema('s', 'SegmentedSchema', 3)[2],
         'ncdef': lambda: b.ncdef('d', ['SegmentedSchema', 'HashSchema'][i], 3 - i)[2],
         'nodedata': lambda: b.nodedata('n', 31)[2],
         'node': lambda: b.node('n', ((1, 48), (1, None)), 9)[2],
         'kdf': lambda: b.kdf('k', 3)[2],
         'secctx': lambda: [lambda: b.aeadctx('c', 1, nonce=2, kdf=True, info=1), lambda: b.rsactx('c', 2, True, True, nonce=2)][i]()[2],
         'vendor': lambda: b.vendor('v', 2)[2],
         'manifest': lambda: [lambda: b.manifest('m', 'clear', groups=((1, 48),)), lambda: b.manifest('m', 'aead', nonce=2)][i]()[2],
         'content': lambda: content(),
         'valalg': lambda: [tlv(3, tlv(4, tlv(9, tlv(1, b'keyid')), tlv(15, TIMES[1]))), tlv(3, tlv(2))][i],
         'packet': lambda: content() + tlv(3, tlv(4, tlv(9, tlv(1, b'keyid')), tlv(15, TIMES[1]))) + tlv(4, b'signature')}[kind]()
    t = KINDS[kind][1]
    return w if t in (None, 'header') else w[4:]


TIMES = (b'\0\0\0\x01\x02\x03\x04\x05', b'\0\0\0\0\x01\x02\x03\x04')


def content():
    return tlv(2, tlv(0, tlv(1, b'ab'), tlv(5, b'\x07')), tlv(6, TIMES[0]), tlv(5, b'\x01'), tlv(1, b'payload'), tlv(7, b'\x07'))


SAMPLES = [(k, i) for k in KINDS for i in range({'name': 3, 'groupdata': 2, 'ncdef': 2, 'secctx': 2, 'manifest': 2, 'valalg': 2}.get(k, 1))]


PARTS = {'packet': 8, 'content': 4, 'manifest': 2, 'node': 2, 'nodedata': 4}


@harness('C10', cases=[(k, i, 4, p) for k, i in SAMPLES for p in range(PARTS.get(k, 1))],
         thorough_cases=[(k, i, n, p) for k, i in SAMPLES for n in (5, 6, 8) for p in range(2 * PARTS.get(k, 1))],
         bounds='valid encodings of every structure with any 4 adjacent octets (thorough: 5, 6, 8) replaced by any others, at every position (outside the octets of times)')
def damaged(ctx, case):
    kind, i, k, part = case
    v = sample(kind, i)
    parts = PARTS.get(kind, 1) * (1 if k == 4 else 2)
    spots = [a for a in range(len(v) - k + 1) if a % parts == part and
             not any(a < t + 8 and t < a + k for t in (v.find(x) for x in TIMES) if t >= 0)]
    if not spots:
        return ctx.reach()
    at = ctx.choose('at', spots)
    v = v[:at] + ctx.bytes('x', k) + v[at + k:]
    judge(ctx, kind, v, wrap(KINDS[kind][1], v))


@harness('C10', cases=[(k, i) for k, i in SAMPLES], bounds='valid encodings of every structure cut at every length, or followed by up to 5 other octets')
def cut(ctx, case):
    kind, i = case
    v = sample(kind, i)
    n = ctx.choose('to', range(len(v) + 6))
    v = v[:n] + ctx.bytes('x', max(0, n - len(v)))
    judge(ctx, kind, v, wrap(KINDS[kind][1], v))


@harness('C10', cases=[(k, i) for k, i in SAMPLES],
         bounds='valid encodings of every structure in an outer field that declares any other length, with 2 octets following')
def outer(ctx, case):
    kind, i = case
    t = KINDS[kind][1]
    v = sample(kind, i) + b'\\0\\0'
    if t is None:
        return ctx.reach()
    n = ctx.int('n', 0, 0xFFFF)
    if t == 'header':
        b = bytes([1, 1, n >> 8, n & 255, 0, 0, 0, 8]) + v
        ok = n == len(b)
        if not ok:
            try:
                KINDS[kind][0]()(b)
            except Exception:
                return ctx.reach()
            return ctx.fail('a packet of another length than declared was accepted')
        return ctx.reach()
    b = bytes([t >> 8, t & 255, n >> 8, n & 255]) + v
    if n > len(v):
        try:
            KINDS[kind][0]()(b)
        except Exception:
            return ctx.reach()
        return ctx.fail('a cut field was accepted')
    judge(ctx, kind, v[:n], b)
