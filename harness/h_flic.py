"""C09 manifest structures, C11 node iteration, C33 wire layout.

Every builder returns (object, spec, wire): the spec is what the object was built from as plain values, the wire the
bytes the published layout prescribes."""
from .api import harness


def num(n):
    """variable-length number of the published layout"""
    for w in (1, 2, 3, 4):
        if n < 256 ** w:
            return nbytes(n, w)
    return nbytes(n, 8)


def nbytes(n, w):
    return bytes([(n >> (8 * (w - 1 - i))) & 255 for i in range(w)])


def tlv(t, *parts):
    v = b''
    for p in parts:
        if p is not None:
            v = v + p
    return bytes([t >> 8, t & 255, len(v) >> 8, len(v) & 255]) + v


class B:
    """builders; `wide` lists the number fields that range over all 64-bit values, the others stay below 256"""

    def __init__(self, ctx, wide=()):
        self.c = ctx
        self.wide = wide

    def n(self, nm):
        base = nm.split('.')[-1]
        if base in self.wide:
            return self.c.int(nm, 0, 2**64 - 1)
        return self.c.int(nm, 0, 255)

    def hash(self, nm, n=32, alg=1):
        from ccnpy.core.HashValue import HashValue
        d = self.c.bytes(nm, n)
        return HashValue(alg, d), (alg, d), tlv(alg, d)

    def name(self, nm, lens=(2,)):
        from ccnpy.core.Name import Name, NameComponent
        s = [(self.c.int('%s.t%d' % (nm, i), 0, 0xFFFF), self.c.bytes('%s.c%d' % (nm, i), n)) for i, n in enumerate(lens)]
        return Name([NameComponent(t, v) for t, v in s]), s, tlv(0, *[tlv(t, v) for t, v in s])

    def link(self, nm, mask=1):
        from ccnpy.core.Link import Link
        kw, s, w = {}, {}, b''
        if mask & 1:
            kw['name'], s['name'], x = self.name(nm + '.name')
            w = w + x
        if mask & 2:
            kw['keyid'], s['keyid'], x = self.hash(nm + '.keyid')
            w = w + tlv(2, x)
        if mask & 4:
            kw['digest'], s['digest'], x = self.hash(nm + '.digest')
            w = w + tlv(3, x)
        return Link(**kw), s, w

    def locators(self, nm, masks=(1,)):
        from ccnpy.flic.tlvs.Locator import Locator
        from ccnpy.flic.tlvs.Locators import Locators
        ls = [self.link('%s.%d' % (nm, i), m) for i, m in enumerate(masks)]
        return (Locators([Locator(x) for x, s, w in ls]), [s for x, s, w in ls],
                tlv(6, *[tlv(0xD, w) for x, s, w in ls]))

    def flags(self, nm, n=1):
        from ccnpy.flic.tlvs.ProtocolFlags import ProtocolFlags
        b = self.c.bytes(nm, n)
        return ProtocolFlags(b), b, tlv(1, b)

    def schema(self, nm, kind, mask):
        """mask: 1 locators, 2 flags"""
        from ccnpy.flic.tlvs import NcSchema as M
        from ccnpy.flic.tlvs.SuffixComponentType import SuffixComponentType
        s = {'kind': kind}
        kw, w1, w2, w3, w4 = {}, None, None, None, None
        if kind != 'HashSchema':
            kw['name'], s['name'], w1 = self.name(nm + '.name', (1, 2))
        if mask & 1:
            kw['locators'], s['locators'], w3 = self.locators(nm + '.loc', (1,))
        elif kind == 'HashSchema':
            kw['locators'] = None
        if mask & 2:
            kw['flags'], s['flags'], w4 = self.flags(nm + '.flags')
        if kind == 'SegmentedSchema':
            t = self.c.int(nm + '.suffix', 0, 0xFFFF)
            kw['suffix_type'], s['suffix_type'], w2 = SuffixComponentType(t), t, tlv(2, nbytes(t, 2))
        t = {'HashSchema': 0x10, 'PrefixSchema': 0x11, 'SegmentedSchema': 0x12}[kind]
        return getattr(M, kind)(**kw), s, tlv(t, w1, w2, w3, w4)

    def ncdef(self, nm, kind, mask):
        from ccnpy.flic.tlvs.NcDef import NcDef
        from ccnpy.flic.tlvs.NcId import NcId
        i = self.n(nm + '.ncid')
        o, s, w = self.schema(nm, kind, mask)
        return NcDef(nc_id=NcId(i), schema=o), (i, s), tlv(4, tlv(5, num(i)), w)

    def vendor(self, nm, n=2):
        from ccnpy.flic.tlvs.Vendor import Vendor
        p, b = self.c.int(nm + '.pen', 0, 2**24 - 1), self.c.array(nm + '.data', n)
        return Vendor(p, b), (p, bytes(b)), tlv(0xFFF, nbytes(p, 3), bytes(b))

    def nodedata(self, nm, mask, defs=1, vends=1):
        """1 size, 2 digest, 4 locators, 8 definitions, 16 vendor fields"""
        from ccnpy.flic.tlvs.NodeData import NodeData
        from ccnpy.flic.tlvs.SubtreeDigest import SubtreeDigest
        from ccnpy.flic.tlvs.SubtreeSize import SubtreeSize
        kw, s, w = {}, {'nc_defs': [], 'vendors': []}, []
        if mask & 1:
            x = s['subtree_size'] = self.n(nm + '.stsize')
            kw['subtree_size'] = SubtreeSize(x)
            w.append(tlv(2, num(x)))
        if mask & 2:
            h, s['subtree_digest'], x = self.hash(nm + '.stdigest')
            kw['subtree_digest'] = SubtreeDigest(h)
            w.append(tlv(3, x))
        if mask & 4:
            kw['locators'], s['locators'], x = self.locators(nm + '.loc')
            w.append(x)
        if mask & 8:
            kinds = ['SegmentedSchema', 'PrefixSchema', 'HashSchema']
            ds = [self.ncdef('%s.def%d' % (nm, i), kinds[i % 3], [0, 2, 1][i % 3]) for i in range(defs)]
            kw['nc_defs'], s['nc_defs'] = [o for o, _, _ in ds], [x for _, x, _ in ds]
            w += [x for _, _, x in ds]
        if mask & 16:
            vs = [self.vendor('%s.v%d' % (nm, i), i + 1) for i in range(vends)]
            kw['vendors'], s['vendors'] = [o for o, _, _ in vs], [x for _, x, _ in vs]
            w += [x for _, _, x in vs]
        return NodeData(**kw), s, tlv(0, *w)

    def groupdata(self, nm, mask):
        """1 size, 2 digest, 4 leaf size, 8 leaf digest, 16 constructor id, 32 start segment"""
        from ccnpy.flic.tlvs.GroupData import GroupData
        from ccnpy.flic.tlvs.LeafDigest import LeafDigest
        from ccnpy.flic.tlvs.LeafSize import LeafSize
        from ccnpy.flic.tlvs.NcId import NcId
        from ccnpy.flic.tlvs.StartSegmentId import StartSegmentId
        from ccnpy.flic.tlvs.SubtreeDigest import SubtreeDigest
        from ccnpy.flic.tlvs.SubtreeSize import SubtreeSize
        kw, s, w = {}, {}, []
        for i, (k, cls, t) in enumerate([('subtree_size', SubtreeSize, 2), ('subtree_digest', SubtreeDigest, 3),
                                         ('leaf_size', LeafSize, 0), ('leaf_digest', LeafDigest, 1),
                                         ('nc_id', NcId, 5), ('start_segment_id', StartSegmentId, 4)]):
            if mask >> i & 1:
                if k.endswith('digest'):
                    h, s[k], x = self.hash('%s.%s' % (nm, k))
                    kw[k] = cls(h)
                    w.append(tlv(t, x))
                else:
                    x = s[k] = self.n('%s.%s' % (nm, k))
                    kw[k] = cls(x)
                    w.append(tlv(t, num(x)))
        return GroupData(**kw), s, tlv(0xB, *w)

    def pointers(self, nm, n):
        from ccnpy.flic.tlvs.Pointers import Pointers
        hs = [self.hash('%s.h%d' % (nm, i)) for i in range(n)]
        return Pointers([h for h, _, _ in hs]), [s for _, s, _ in hs], tlv(7, *[w for _, _, w in hs])

    def group(self, nm, n, mask=None):
        from ccnpy.flic.tlvs.HashGroup import HashGroup
        kw, s, w1, w2 = {}, {}, None, None
        if mask is not None:
            kw['group_data'], s['group_data'], w1 = self.groupdata(nm + '.gd', mask)
        if n is not None:
            kw['pointers'], s['pointers'], w2 = self.pointers(nm + '.p', n)
        return HashGroup(**kw), s, tlv(1, w1, w2)

    def node(self, nm, groups=((1, 16),), ndmask=None, pad=None):
        from ccnpy.flic.tlvs.Node import Node
        kw, s, w = {}, {}, []
        if ndmask is not None:
            kw['node_data'], s['node_data'], x = self.nodedata(nm + '.nd', ndmask)
            w.append(x)
        gs = [self.group('%s.g%d' % (nm, i), n, m) for i, (n, m) in enumerate(groups)]
        s['groups'] = [x for _, x, _ in gs]
        w += [x for _, _, x in gs]
        if pad is not None:
            kw['pad_length'] = pad
            room = pad - 4 - sum(len(x) for x in w)
            if room >= 4:
                w.append(tlv(0xFFE, bytes(room - 4)))
        return Node(hash_groups=[o for o, _, _ in gs], **kw), s, tlv(1, *w)

    def kdf(self, nm, info):
        from ccnpy.flic.tlvs.KdfAlg import KdfAlg
        from ccnpy.flic.tlvs.KdfData import KdfData
        from ccnpy.flic.tlvs.KdfInfo import KdfInfo
        a = self.n(nm + '.alg')
        s, kw, w = {'alg': a}, {}, None
        if info is not None:
            b = s['info'] = self.c.bytes(nm + '.info', info)
            kw['kdf_info'] = KdfInfo(b)
            w = tlv(7, b)
        return KdfData(kdf_alg=KdfAlg(a), **kw), s, tlv(5, tlv(6, num(a)), w)

    def aeaddata(self, nm, mode, nonce=8, kdf=False, info=None):
        from ccnpy.flic.aeadctx.AeadData import AeadData
        from ccnpy.flic.tlvs.AeadMode import AeadMode
        k, b = self.n(nm + '.keynum'), self.c.bytes(nm + '.nonce', nonce)
        s = {'key_number': k, 'nonce': b, 'mode': mode}
        kw, w = {}, None
        if kdf:
            kw['kdf_data'], s['kdf'], w = self.kdf(nm + '.kdf', info)
        wire = tlv(0, num(k)) + tlv(1, b) + tlv(2, num(mode))
        if w is not None:
            wire = wire + w
        import array
        return AeadData(key_number=k, nonce=array.array('B', b), mode=AeadMode(mode), **kw), s, wire

    def aeadctx(self, nm, mode=1, **k):
        from ccnpy.flic.tlvs.AeadCtx import AeadCtx
        d, s, w = self.aeaddata(nm, mode, **k)
        return AeadCtx(d), dict(s, ctx='aead'), tlv(0, tlv(0, w))

    def rsactx(self, nm, mode=1, wrapper=True, link=False, **k):
        from ccnpy.core.KeyId import KeyId
        from ccnpy.core.KeyLink import KeyLink
        from ccnpy.flic.RsaOaepCtx.HashAlg import HashAlg
        from ccnpy.flic.RsaOaepCtx.RsaOaepWrapper import RsaOaepWrapper
        from ccnpy.flic.RsaOaepCtx.WrappedKey import WrappedKey
        from ccnpy.flic.tlvs.RsaOaepCtx import RsaOaepCtx
        d, s, w = self.aeaddata(nm, mode, **k)
        s = dict(s, ctx='rsa')
        wr = None
        if wrapper:
            h, hs, hw = self.hash(nm + '.keyid')
            a, b = self.n(nm + '.hashalg'), self.c.bytes(nm + '.wrapped', 5)
            s['wrapper'] = {'key_id': hs, 'hash_alg': a, 'wrapped': b}
            kw, lw = {}, b''
            if link:
                l, s['wrapper']['link'], lw = self.link(nm + '.kl', 3)
                kw['key_link'] = KeyLink(l)
                lw = tlv(0xE, lw)
            wr = RsaOaepWrapper(key_id=KeyId(h), hash_alg=HashAlg(a), wrapped_key=WrappedKey(b), **kw)
            w = w + tlv(9, hw) + lw + tlv(3, num(a)) + tlv(4, b)
        return RsaOaepCtx(d, wr), s, tlv(0, tlv(1, w))

    def manifest(self, nm, kind, **k):
        from ccnpy.flic.tlvs.AuthTag import AuthTag
        from ccnpy.flic.tlvs.EncryptedNode import EncryptedNode
        from ccnpy.flic.tlvs.Manifest import Manifest
        if kind == 'clear':
            n, s, w = self.node(nm, **k)
            return Manifest(node=n), {'node': s}, w
        ctx, s, w = (self.aeadctx if kind == 'aead' else self.rsactx)(nm, **k)
        e, t = self.c.array(nm + '.cipher', 6), self.c.array(nm + '.tag', 16)
        return (Manifest(security_ctx=ctx, node=EncryptedNode(e), auth_tag=AuthTag(t)),
                {'ctx': s, 'cipher': bytes(e), 'tag': bytes(t)}, w + tlv(2, bytes(e)) + tlv(3, bytes(t)))


# ---------------------------------------------------------------------------------------------- accessors
def r_hash(h): return (h.hash_algorithm(), bytes(h.value()))


def r_name(n): return [(c.type(), bytes(c.value())) for c in (n.component(i) for i in range(n.count()))]


def opt(d, k, x, f):
    if x is not None:
        d[k] = f(x)


def r_link(l):
    d = {}
    opt(d, 'name', l.name(), r_name)
    opt(d, 'keyid', l.keyid(), r_hash)
    opt(d, 'digest', l.digest(), r_hash)
    return d


def r_locators(l):
    out = [r_link(x._link) for x in l]
    assert len(out) == l.count()
    for i in range(l.count()):
        assert l[i] is l.locators()[i]
        assert l[i].name() == l[i]._link.name()
    return out


def r_schema(x):
    d = {'kind': type(x).__name__}
    if d['kind'] != 'HashSchema':
        opt(d, 'name', x.name(), r_name)
    opt(d, 'locators', x.locators(), r_locators)
    opt(d, 'flags', x.flags(), lambda f: f.value_bytes())
    if d['kind'] == 'SegmentedSchema':
        d['suffix_type'] = x.suffix_type().value()
    return d


def r_nodedata(n):
    d = {}
    opt(d, 'subtree_size', n.subtree_size(), lambda x: x.value())
    opt(d, 'subtree_digest', n.subtree_digest(), lambda x: r_hash(x.digest()))
    opt(d, 'locators', n.locators(), r_locators)
    d['nc_defs'] = [(x.nc_id().id(), r_schema(x.schema())) for x in n.nc_defs()]
    d['vendors'] = [(x.pen(), bytes(x.payload())) for x in (n.vendor_tags() or [])]
    return d


def r_groupdata(g):
    d = {}
    opt(d, 'subtree_size', g.subtree_size(), lambda x: x.value())
    opt(d, 'subtree_digest', g.subtree_digest(), lambda x: r_hash(x.digest()))
    opt(d, 'leaf_size', g.leaf_size(), lambda x: x.value())
    opt(d, 'leaf_digest', g.leaf_digest(), lambda x: r_hash(x.digest()))
    opt(d, 'nc_id', g.nc_id(), lambda x: x.id())
    opt(d, 'start_segment_id', g.start_segment_id(), lambda x: x.value())
    return d


def r_pointers(p):
    out = [r_hash(h) for h in p]
    assert len(out) == len(p)
    return out


def r_group(g):
    d = {}
    opt(d, 'group_data', g.group_data(), r_groupdata)
    opt(d, 'pointers', g.pointers(), r_pointers)
    return d


def r_node(n):
    d = {}
    opt(d, 'node_data', n.node_data(), r_nodedata)
    assert n.has_node_data() == ('node_data' in d)
    d['groups'] = [r_group(g) for g in n.hash_groups()]
    return d


def r_kdf(k):
    d = {'alg': k.kdf_alg().value()}
    opt(d, 'info', k.kdf_info(), lambda x: x.value_bytes())
    return d


def r_secctx(c):
    a = c.aead_data()
    d = {'ctx': 'aead' if type(c).__name__ == 'AeadCtx' else 'rsa', 'key_number': c.key_number().value(),
         'nonce': c.nonce().value_bytes(), 'mode': a.mode().value()}
    opt(d, 'kdf', a.kdf_data(), r_kdf)
    if d['ctx'] == 'rsa':
        w = c.rsa_oaep_wrapper()
        if w is not None:
            d['wrapper'] = {'key_id': r_hash(w.key_id().digest()), 'hash_alg': w._hash_alg.value(),
                            'wrapped': w.wrapped_key().value_bytes()}
            opt(d['wrapper'], 'link', w.key_link(), lambda x: r_link(x._link))
    return d


def r_manifest(m):
    d = {}
    if m.is_encrypted():
        opt(d, 'ctx', m.security_ctx(), r_secctx)
        d['cipher'] = m.node().value_bytes()
    else:
        d['node'] = r_node(m.node())
    opt(d, 'tag', m.auth_tag(), lambda x: x.value_bytes())
    return d


def same(ctx, got, want, what):
    """compare two plain values, descending where the shapes are concrete"""
    if isinstance(want, dict):
        ctx.check(isinstance(got, dict) and sorted(got) == sorted(want), what + ': fields present')
        for k in want:
            same(ctx, got[k], want[k], '%s.%s' % (what, k))
    elif isinstance(want, list):
        ctx.check(len(got) == len(want), what + ': count')
        for i, (g, w) in enumerate(zip(got, want)):
            same(ctx, g, w, '%s[%d]' % (what, i))
    elif isinstance(want, tuple):
        for i, (g, w) in enumerate(zip(got, want)):
            same(ctx, g, w, '%s.%d' % (what, i))
    else:
        ctx.check(got == want, what)


def roundtrip(ctx, built, parse, read, what, length=True):
    o, s, w = built
    same(ctx, read(o), s, 'built ' + what)
    x = o.serialize()
    if length:
        ctx.check(len(o) == len(x), 'length')
    p = parse(x)
    same(ctx, read(p), s, 'parsed ' + what)
    ctx.check(p == o and o == p, 'equality')
    ctx.check(p.serialize() == x, 're-encoding')
    ctx.check(type(p) is type(o), 'kind')
    return p


def by_tlv(cls):
    from ccnpy.core.Tlv import Tlv
    return lambda x: cls.parse(Tlv.deserialize(x))


def layout(ctx, built):
    o, s, w = built
    ctx.check(bytes(o.serialize()) == w, 'the encoding differs from the published layout')
    ctx.reach()


# one description per structure: name -> (builder(ctx, case), class getter, reader, has byte length)
GD = [(m, ()) for m in range(64)] + [(1, ('subtree_size',)), (4, ('leaf_size',)), (16, ('nc_id',)), (32, ('start_segment_id',)),
                                     (53, ('leaf_size', 'nc_id'))]
ND = [(m, 1, 1, ()) for m in range(32)] + [(8, 3, 1, ()), (16, 1, 3, ()), (24, 2, 2, ()), (9, 1, 1, ('stsize', 'ncid')), (4, 1, 1, ())]
HG = [(None, 16), (0, 16), (1, None), (3, None), (2, 63), (None, None), (8, 16), (1, 0), (0, None)]
NODES = [(((1, 16),), None, None), (((0, None),), 0, None), (((1, 16), (2, 48)), 1, None), (((2, 16), (0, 16), (1, None)), 9, None),
         (((1, 16),), 31, None), (((1, 16),), None, 100), (((1, 16),), 1, 60), (((1, 16),), None, 56), (((1, 16),), None, 10),
         (((None, 16),), None, None), (((1, 16),), None, 57), (((1, 16),), None, 400)]
SCH = [(k, m) for k in ('HashSchema', 'PrefixSchema', 'SegmentedSchema') for m in range(4)]
SEC = [('aead', m, 8, False, None, ()) for m in (1, 2, 3, 4)] + [('aead', 1, 12, True, None, ()), ('aead', 1, 8, True, 3, ('alg',)),
       ('aead', 2, 0, True, 0, ('keynum',)), ('rsa', 1, 8, False, None, ()), ('rsa', 2, 12, True, 2, ()), ('rsa', 1, 8, True, None, ('keynum', 'hashalg')),
       ('rsanone', 1, 8, False, None, ()), ('rsanone', 3, 8, True, 1, ()), ('rsalink', 1, 8, False, None, ())]
LOC = [(1,), (1, 1), (3, 5), (7, 1, 3)]


def b_sec(ctx, case):
    kind, mode, nonce, kdf, info, wide = case
    b = B(ctx, wide)
    if kind == 'aead':
        return b.aeadctx('c', mode, nonce=nonce, kdf=kdf, info=info)
    return b.rsactx('c', mode, wrapper=kind != 'rsanone', link=kind == 'rsalink', nonce=nonce, kdf=kdf, info=info)


def b_manifest(ctx, case):
    if case[0] == 'clear':
        return B(ctx).manifest('m', 'clear', groups=case[1], ndmask=case[2])
    return B(ctx).manifest('m', case[0], **case[1])


MAN = [('clear', ((1, 16),), None), ('clear', ((2, 48), (1, 16)), 1), ('aead', {}), ('aead', {'kdf': True, 'info': 2}),
       ('rsa', {}), ('rsa', {'wrapper': False})]


@harness('C09', cases=GD, bounds='all 64 subsets of group metadata, 64-bit numbers, symbolic digests')
def groupdata(ctx, case):
    from ccnpy.flic.tlvs.GroupData import GroupData
    roundtrip(ctx, B(ctx, case[1]).groupdata('g', case[0]), by_tlv(GroupData), r_groupdata, 'group data')
    ctx.reach()


@harness('C09', cases=ND, bounds='all 32 subsets of node metadata, up to 3 definitions and vendor fields')
def nodedata(ctx, case):
    from ccnpy.flic.tlvs.NodeData import NodeData
    roundtrip(ctx, B(ctx, case[3]).nodedata('n', case[0], case[1], case[2]), by_tlv(NodeData), r_nodedata, 'node data')
    ctx.reach()


@harness('C09', cases=HG, thorough_cases=[(n, m) for n in (1, 2, 7, 9, 40) for m in (None, 0, 5, 63)],
         bounds='groups of 0..40 symbolic hashes with and without metadata')
def hashgroup(ctx, case):
    from ccnpy.flic.tlvs.HashGroup import HashGroup
    roundtrip(ctx, B(ctx).group('g', case[0], case[1]), by_tlv(HashGroup), r_group, 'hash group')
    ctx.reach()


@harness('C09', cases=[0, 1, 2, 8], bounds='lists of 0..8 hashes, digest lengths 0..64, every algorithm number')
def pointers(ctx, n):
    from ccnpy.flic.tlvs.Pointers import Pointers
    from ccnpy.core.HashValue import HashValue
    p = roundtrip(ctx, B(ctx).pointers('p', n), by_tlv(Pointers), r_pointers, 'pointers', length=False)
    for i in range(n):
        ctx.check(p[i] == list(p)[i], 'indexing')
    alg = ctx.int('alg', 0, 0xFFFF)
    hs = [(alg, ctx.bytes('x0', 0)), (1, ctx.bytes('x1', 64)), (alg, ctx.bytes('x2', 20))]
    q = Pointers([HashValue(a, d) for a, d in hs])
    same(ctx, r_pointers(by_tlv(Pointers)(q.serialize())), hs, 'hashes')
    ctx.reach()


@harness('C09', cases=NODES, bounds='nodes of 1..3 groups, with and without metadata and padding')
def node(ctx, case):
    from ccnpy.flic.tlvs.Node import Node
    groups, nd, pad = case
    built = B(ctx).node('n', groups, nd, pad)
    o, s, w = built
    same(ctx, r_node(o), s, 'built node')
    x = o.serialize()
    ctx.check(len(o) == len(x), 'length')
    p = by_tlv(Node)(x)
    same(ctx, r_node(p), s, 'parsed node')
    if pad is None:
        ctx.check(p == o and p.serialize() == x, 'equality')
    else:
        short = pad - len(B.node(B(ctx), 'm', groups, nd)[2])
        ctx.check(len(x) == (pad if short >= 4 else pad - short), 'padded length')
    q = Node.parse(Node.create_tlv(o.serialized_value()))
    same(ctx, r_node(q), s, 'node of a decrypted value')
    if all(n is not None for n, m in groups):
        same(ctx, [r_hash(h) for h in o.hash_values()], [h for g in s['groups'] for h in g['pointers']], 'hash_values')
    ctx.reach()


@harness('C09', cases=SCH, bounds='all schemas with every subset of locators and flags, 64-bit ids, 16-bit suffix types')
def schema(ctx, case):
    from ccnpy.flic.tlvs import NcSchema as M
    from ccnpy.flic.tlvs.NcDef import NcDef
    kind, mask = case
    roundtrip(ctx, B(ctx).schema('s', kind, mask), by_tlv(getattr(M, kind)), r_schema, 'schema')
    roundtrip(ctx, B(ctx).schema('s', kind, mask), by_tlv(M.NcSchema), r_schema, 'schema')
    roundtrip(ctx, B(ctx, ('ncid',)).ncdef('d', kind, mask), by_tlv(NcDef),
              lambda d: (d.nc_id().id(), r_schema(d.schema())), 'definition')
    ctx.reach()


@harness('C09', bounds='the two convenience constructors')
def schema_create(ctx):
    from ccnpy.core.Name import NameComponent
    from ccnpy.flic.tlvs.NcSchema import SegmentedSchema
    b = B(ctx)
    n, ns, _ = b.name('n')
    l, ls, _ = b.locators('l')
    d, m = SegmentedSchema.create_for_data(name=n, locators=l), SegmentedSchema.create_for_manifest(name=n)
    ctx.check(d.suffix_type().value() == NameComponent.chunk_id_type(), 'data suffix')
    ctx.check(m.suffix_type().value() == NameComponent.manifest_id_type(), 'manifest suffix')
    i = ctx.int('i', 0, 2**64 - 1)
    c = d.suffix_type().create_name_component(i)
    ctx.check(c == NameComponent.create_chunk_segment(i) if hasattr(NameComponent, 'create_chunk_segment') else True, 'component')
    ctx.check(bytes(c.value()) == num(i) and c.type() == 5, 'suffix component')
    same(ctx, r_schema(d), {'kind': 'SegmentedSchema', 'name': ns, 'locators': ls, 'suffix_type': 5}, 'data schema')
    same(ctx, r_schema(m), {'kind': 'SegmentedSchema', 'name': ns, 'suffix_type': 0x10}, 'manifest schema')
    ctx.reach()


@harness('C09', cases=LOC, bounds='lists of 1..3 locators with any subset of key and digest restrictions')
def locators(ctx, masks):
    from ccnpy.flic.tlvs.Locators import Locators
    from ccnpy.flic.tlvs.Locator import Locator
    built = B(ctx).locators('l', masks)
    roundtrip(ctx, built, by_tlv(Locators), r_locators, 'locators')
    x = built[0][0]
    p = by_tlv(Locator)(x.serialize())
    ctx.check(p == x and p.name() == x.name() and len(p) == len(x.serialize()), 'locator')
    same(ctx, r_link(p._link), built[1][0], 'locator link')
    for bad in (0, 6):
        try:
            Locator(B(ctx).link('b', bad)[0])
            ok = True
        except Exception:
            ok = False
        ctx.check(not ok, 'a locator without name was accepted')
    ctx.reach()


@harness('C09', cases=SEC, bounds='security contexts: 4 modes, nonces of 0..12 bytes, key derivation and key wrap parts, 64-bit numbers')
def security(ctx, case):
    from ccnpy.flic.tlvs.SecurityCtx import SecurityCtx
    o, s, w = b_sec(ctx, case)
    p = roundtrip(ctx, (o, s, w), by_tlv(SecurityCtx), r_secctx, 'security context')
    m = o.aead_data().mode()
    flags = [m.is_aes_gcm_128(), m.is_aes_gcm_256(), m.is_aes_ccm_128(), m.is_aes_ccm_256()]
    ctx.check(flags == [case[1] == i for i in (1, 2, 3, 4)], 'mode tests')
    ctx.check(m.key_bits() == [128, 256, 128, 256][case[1] - 1], 'key bits')
    if case[0] != 'aead':
        ctx.check((p.key_id() is None) == (case[0] == 'rsanone'), 'key id')
    ctx.reach()


@harness('C09', cases=[-1, 0, 3], bounds='key derivation fields')
def kdfdata(ctx, info):
    info = None if info < 0 else info
    from ccnpy.flic.tlvs.KdfData import KdfData
    built = B(ctx, ('alg',)).kdf('k', info)
    roundtrip(ctx, built, by_tlv(KdfData), r_kdf, 'kdf data')
    n, ns, nw = B(ctx).name('n')
    c = KdfData.copy_with_name(built[0], n)
    ctx.check(c.kdf_alg() == built[0].kdf_alg() and c.kdf_info().value_bytes() == nw, 'copy_with_name')
    ctx.reach()


@harness('C09', cases=MAN, bounds='clear, AEAD and RSA manifests, alone and inside a content object')
def manifest(ctx, case):
    from ccnpy.core.ExpiryTime import ExpiryTime
    from ccnpy.core.Packet import Packet
    from ccnpy.flic.tlvs.Manifest import Manifest
    o, s, w = b_manifest(ctx, case)
    roundtrip(ctx, (o, s, w), Manifest.deserialize, r_manifest, 'manifest')
    ctx.check(o.is_encrypted() == (case[0] != 'clear'), 'is_encrypted')
    name = B(ctx).name('n')[0] if ctx.choose('named', [1, 0]) else None
    exp = ExpiryTime(1234.5) if ctx.choose('expiry', [1, 0]) else None
    co = o.content_object(name=name, expiry_time=exp)
    ctx.check(co.is_manifest(), 'payload type')
    ctx.check(co.name() == name and (name is None) == (co.name() is None), 'name')
    ctx.check((co.expiry_time() is None) == (exp is None) and (exp is None or co.expiry_time() == exp), 'expiry')
    pk = o.packet(name=name, expiry_time=exp)
    for c in (co, pk.body(), Packet.deserialize(pk.serialize()).body()):
        m = Manifest.from_content_object(c)
        ctx.check(m == o, 'manifest of a content object')
        same(ctx, r_manifest(m), s, 'embedded manifest')
    ctx.reach()


@harness('C09', bounds='content objects of every other payload type')
def not_a_manifest(ctx):
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.Payload import Payload
    from ccnpy.core.PayloadType import PayloadType
    from ccnpy.flic.tlvs.Manifest import Manifest
    o, s, w = b_manifest(ctx, MAN[0])
    t = ctx.int('t', 0, 255)
    co = ContentObject(payload_type=PayloadType(t), payload=Payload(o.serialize()))
    try:
        m = Manifest.from_content_object(co)
    except Exception:
        ctx.check(t != 3, 'a manifest was refused')
        ctx.reach('refused')
        return
    ctx.check(t == 3, 'another payload type was read as a manifest')
    ctx.check(m == o, 'manifest')
    ctx.reach('ok')


# ---------------------------------------------------------------------------------------------- C11
@harness('C11', cases=[(1,), (3,), (0,), (0, 2), (2, 1), (1, 0, 2), (1, 0, 0, 2), (0, 0), (3, 3, 3), (0, 1, 0)],
         thorough_cases=[(i, j, k) for i in range(3) for j in range(3) for k in range(3)],
         bounds='1..4 groups of 0..3 hashes; symbolic 64-bit ids and start segments, presence of the start segment chosen per group')
def node_walk(ctx, case):
    from ccnpy.core.HashValue import HashValue
    from ccnpy.flic.tlvs.GroupData import GroupData
    from ccnpy.flic.tlvs.HashGroup import HashGroup
    from ccnpy.flic.tlvs.Manifest import Manifest
    from ccnpy.flic.tlvs.NcId import NcId
    from ccnpy.flic.tlvs.Node import Node
    from ccnpy.flic.tlvs.Pointers import Pointers
    from ccnpy.flic.tlvs.StartSegmentId import StartSegmentId
    sizes = case
    groups, want = [], []
    for i, n in enumerate(sizes):
        w = ctx.choose('wide', [0, 1]) if i == 0 else 0
        nc = ctx.int('nc', 0, 2**64 - 1 if w else 255)
        st = ctx.int('start', 0, 2**64 - 1 if w else 255) if ctx.choose('start?', [0, 1]) else None
        hs = [ctx.bytes('h', 32) for _ in range(n)]
        groups.append(HashGroup(GroupData(nc_id=NcId(nc), start_segment_id=None if st is None else StartSegmentId(st)),
                                Pointers([HashValue.create_sha256(h) for h in hs])))
        want += [(nc, h, None if st is None else st + k) for k, h in enumerate(hs)]
    node = Node(hash_groups=groups)
    for how in ('built', 'parsed', 'manifest', 'again'):
        if how == 'parsed':
            node = by_tlv(Node)(node.serialize())
        got = list(Manifest(node=node).hash_values()) if how == 'manifest' else list(node)
        ctx.check(len(got) == len(want), 'number of hashes')
        for g, (nc, h, seg) in zip(got, want):
            ctx.check(g.nc_id == nc, 'name constructor id')
            ctx.check(bytes(g.hash_value.value()) == h, 'hash order')
            ctx.check((g.segment_id is None) == (seg is None), 'segment presence')
            if seg is not None:
                ctx.check(g.segment_id == seg, 'segment number')
    # two walks in progress do not disturb each other
    a, b = iter(node), iter(node)
    for k in range(len(want)):
        ctx.check(bytes(next(a).hash_value.value()) == want[k][1], 'first of two walks')
        if k % 2:
            next(b)
    ctx.check(len(list(b)) == len(want) - len(want) // 2, 'second of two walks')
    ctx.reach()


@harness('C11', bounds='a group without metadata or without constructor id at any position')
def walk_needs_id(ctx):
    from ccnpy.flic.tlvs.Node import Node
    b = B(ctx)
    bad = ctx.choose('bad', [None, 0, 32, 4])
    at = ctx.choose('at', [0, 1, 2])
    groups = [(1, 16)] * 3
    groups[at] = (1, bad)
    n = b.node('n', tuple(groups))[0]
    it = iter(n)
    for i in range(at):
        next(it)
    try:
        next(it)
    except StopIteration:
        ctx.fail('the walk ended early')
    except Exception:
        ctx.reach()
        return
    ctx.fail('a hash without name constructor was yielded')


# ---------------------------------------------------------------------------------------------- C33
@harness('C33', cases=GD, bounds='all 64 subsets of group metadata')
def w_groupdata(ctx, case):
    layout(ctx, B(ctx, case[1]).groupdata('g', case[0]))


@harness('C33', cases=ND, bounds='all 32 subsets of node metadata')
def w_nodedata(ctx, case):
    layout(ctx, B(ctx, case[3]).nodedata('n', case[0], case[1], case[2]))


@harness('C33', cases=HG, bounds='hash groups')
def w_group(ctx, case):
    layout(ctx, B(ctx).group('g', case[0], case[1]))


@harness('C33', cases=NODES, bounds='nodes with padding')
def w_node(ctx, case):
    layout(ctx, B(ctx).node('n', *case))


@harness('C33', cases=SCH, bounds='schemas and definitions')
def w_schema(ctx, case):
    layout(ctx, B(ctx).schema('s', *case))
    layout(ctx, B(ctx, ('ncid',)).ncdef('d', *case))


@harness('C33', cases=LOC, bounds='locators')
def w_locators(ctx, case):
    layout(ctx, B(ctx).locators('l', case))


@harness('C33', cases=SEC, bounds='security contexts')
def w_security(ctx, case):
    layout(ctx, b_sec(ctx, case))


@harness('C33', cases=MAN, bounds='manifests')
def w_manifest(ctx, case):
    layout(ctx, b_manifest(ctx, case))


@harness('C33', cases=[(m, s) for m in (0, 1, 2, 4, 8, 16, 31) for s in ('none', 'crc', 'rsa')], bounds='packets, signed and unsigned')
def w_packet(ctx, case):
    from ccnpy.core.HashValue import HashValue
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.ExpiryTime import ExpiryTime
    from ccnpy.core.FinalChunkId import FinalChunkId
    from ccnpy.core.Packet import Packet
    from ccnpy.core.Payload import Payload
    from ccnpy.core.PayloadType import PayloadType
    from ccnpy.core.SignatureTime import SignatureTime
    from ccnpy.core.ValidationAlg import ValidationAlg_Crc32c, ValidationAlg_RsaSha256
    from ccnpy.core.ValidationPayload import ValidationPayload
    mask, signed = case
    b = B(ctx)
    kw, w = {}, []
    if mask & 1:
        kw['name'], _, x = b.name('n', (1, 2))
        w.append(x)
    if mask & 2:
        ms = ctx.int('ms', 0, 2**42)
        kw['expiry_time'] = ExpiryTime(ms / 1000)
        w.append(tlv(6, nbytes(ms, 8)))
    if mask & 4:
        t = ctx.int('pt', 0, 255)
        kw['payload_type'] = PayloadType(t)
        w.append(tlv(5, nbytes(t, 1)))
    if mask & 8:
        d = ctx.bytes('payload', 3)
        kw['payload'] = Payload(d)
        w.append(tlv(1, d))
    if mask & 16:
        f = ctx.int('fcid', 0, 2**64 - 1)
        kw['final_chunk_id'] = FinalChunkId(f)
        w.append(tlv(7, num(f)))
    co = ContentObject(**kw)
    body = tlv(2, *w)
    if signed == 'none':
        pk = Packet.create_content_object(co)
    else:
        if signed == 'crc':
            alg, aw = ValidationAlg_Crc32c(), tlv(3, tlv(2))
        else:
            ms = ctx.int('sigms', 0, 2**42)
            h, _, hw = b.hash('kid')
            alg = ValidationAlg_RsaSha256(keyid=h, signature_time=SignatureTime(ms / 1000))
            aw = tlv(3, tlv(4, tlv(9, hw), tlv(0xF, nbytes(ms, 8))))
        sig = ctx.array('sig', 4)
        pk = Packet.create_signed_content_object(co, alg, ValidationPayload(sig))
        body = body + aw + tlv(4, bytes(sig))
    n = 8 + len(body)
    ctx.check(bytes(pk.serialize()) == bytes([1, 1, n >> 8, n & 255, 0, 0, 0, 8]) + body,
              'the encoding differs from the published layout')
    ctx.reach()


@harness('C33', bounds='name components of every kind, links with every subset of parts')
def w_name(ctx):
    from ccnpy.core.Name import Name
    b = B(ctx)
    n, s, w = b.name('n', (0, 1, 3))
    ctx.check(bytes(n.serialize()) == w, 'name')
    i, j = ctx.int('i', 0, 2**64 - 1), ctx.int('j', 0, 255)
    ctx.check(bytes(n.append_chunk_id(i).serialize()) == tlv(0, w[4:], tlv(5, num(i))), 'chunk component')
    ctx.check(bytes(n.append_manifest_id(j).serialize()) == tlv(0, w[4:], tlv(0x10, num(j))), 'manifest component')
    ctx.check(bytes(Name.from_uri('ccnx:/ab/c').serialize()) == tlv(0, tlv(1, b'ab'), tlv(1, b'c')), 'uri')
    o, s, w = b.link('l', ctx.choose('mask', list(range(8))))
    ctx.check(bytes(o.serialize()) == w, 'link')
    ctx.reach()
