"""C25 packet directory, C26 keystore, C30 in-memory packet store"""
from .api import harness
from .h_crypto import cls_of, mkkey


def word(ctx, nm, n=2):
    """text of letters, digits and the usual punctuation of file names"""
    s = ctx.bytes(nm, n)
    for c in s:
        ctx.assume((c >= 0x2d) & (c <= 0x39) & (c != 0x2f) | (c >= 0x41) & (c <= 0x5a) | (c >= 0x61) & (c <= 0x7a))
    return s


def mkname(ctx, nm, form):
    """form: one letter per component"""
    from ccnpy.core.Name import Name, NameComponent
    cs = []
    for i, f in enumerate(form):
        k = '%s.%d' % (nm, i)
        if f == 's':
            cs.append(NameComponent.create_name_segment(word(ctx, k)))
        elif f == 'l':
            cs.append(NameComponent.create_name_segment(word(ctx, k, 1)))
        elif f == 'c':
            cs.append(NameComponent.create_chunk_segment(ctx.int(k, 0, 9)))
        elif f == 'm':
            cs.append(NameComponent.create_manifest_id(ctx.int(k, 0, 9)))
        elif f == 'f':
            cs.append(NameComponent.create_name_segment(b'fix'))
    return Name(cs)


def packet(ctx, i, name, kind='data'):
    """packets of one store differ in the first octet of the payload"""
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.ExpiryTime import ExpiryTime
    from ccnpy.core.FinalChunkId import FinalChunkId
    from ccnpy.core.Packet import Packet
    from ccnpy.core.Payload import Payload
    from ccnpy.core.PayloadType import PayloadType
    from ccnpy.core.Interest import Interest
    body = bytes([i]) + ctx.bytes('p%d' % i, 2)
    if kind == 'data':
        co = ContentObject(name=name, payload_type=PayloadType.create_data_type(), payload=Payload(body))
    elif kind == 'plain':
        co = ContentObject(name=name, payload=Payload(body), final_chunk_id=FinalChunkId(ctx.int('fc%d' % i, 0, 255)))
    elif kind == 'manifest':
        co = ContentObject(name=name, payload_type=PayloadType.create_manifest_type(), payload=Payload(body))
    elif kind == 'signed':
        from ccnpy.crypto.Crc32c import Crc32cSigner
        s = Crc32cSigner()
        co = ContentObject(name=name, payload_type=PayloadType.create_data_type(), payload=Payload(body))
        return Packet.create_signed_content_object(co, s.validation_alg(), s.sign(co.serialize(), s.validation_alg().serialize()))
    return Packet.create_content_object(co)


def hash_of(wire):
    """the object hash as the specification has it: over body and validation"""
    import hashlib
    return hashlib.sha256(bytes(wire)[8:]).digest()


class Still:
    """a source of fixed values"""
    k = 0

    def int(self, nm, lo, hi):
        self.k += 1
        return lo + self.k % (hi - lo + 1)

    def bytes(self, nm, n):
        self.k += 1
        return bytes(97 + (self.k * 3 + i) % 26 for i in range(n))

    def assume(self, c):
        pass


def gets(ctx, f):
    """result of a look-up, or None when it is refused"""
    try:
        p = f()
    except (ValueError, RuntimeError, LookupError, OSError, AssertionError, OverflowError, TypeError, AttributeError):
        return None
    ctx.check(p is not None, 'a look-up gives nothing instead of failing')
    return p


def is_packet(ctx, p, q, what):
    ctx.check(p is not None, what + ' is not found')
    ctx.check(bytes(p.serialize()) == bytes(q.serialize()), what + ' is another packet')
    ctx.check(p == q, what + ' differs from the packet stored')
    ctx.check(p.content_object_hash() == q.content_object_hash(), what + ' has another hash')


# a store: one entry per packet (name form or None or '=k' for the name of packet k, kind)
STORES = [
    (('s', 'data'), ('s', 'data')),
    (('ss', 'data'), ('sc', 'plain')),
    (('sc', 'data'), ('sm', 'manifest')),
    ((None, 'data'), ('s', 'plain')),
    ((None, 'data'), (None, 'manifest')),
    (('s', 'manifest'), ('=0', 'data'), (None, 'data')),
    (('fc', 'data'), ('fm', 'data'), ('fs', 'plain')),
    (('l', 'signed'), ('ll', 'data')),
    (('l', 'data'), ('l', 'signed'), ('ll', 'data')),
    (('s', 'data'), (None, 'plain'), ('=0', 'signed')),
]
STORES_T = [(('ss', 'data'), ('ss', 'data'), ('ss', 'data')), (('sc', 'data'), ('sc', 'plain'), ('sm', 'data')),
            (('l', 'data'), ('=0', 'plain'), ('l', 'data'), (None, 'data')), (('lll', 'data'), ('lcl', 'data'), ('lml', 'signed'))]


def mkstore(ctx, spec):
    names, ps = [], []
    for i, (form, kind) in enumerate(spec):
        n = None if form is None else names[int(form[1:])] if form[0] == '=' else mkname(ctx, 'n%d' % i, form)
        names.append(n)
        ps.append(packet(ctx, i, n, kind))
    return names, ps


def again(name):
    """the same name, as another object read from its encoding"""
    import array
    from ccnpy.core.Name import Name
    from ccnpy.core.Tlv import Tlv
    return Name.parse(Tlv.deserialize(array.array('B', name.serialize())))


def last_of(ctx, names, i):
    """index of the last packet put under the name of packet i"""
    r = i
    for j in range(i + 1, len(names)):
        if names[j] is not None and names[j] == names[i]:
            r = j
    return r


@harness('C25', cases=[(i, links) for i in range(len(STORES)) for links in (True, False)],
         thorough_cases=[(10 + i, links) for i in range(len(STORES_T)) for links in (True, False)],
         bounds='stores of 2..3 packets (named, nameless, data, manifest, signed; equal and different names of 1..3 components with symbolic letters, digits and numbers; payload octets symbolic), with and without links; look-ups by name and hash, hash, name, of every packet, by a second reader and after storing a packet again')
def directory(ctx, case):
    from ccnpy.core.HashValue import HashValue
    from ccnpy.flic.tree.TreeIO import TreeIO
    k, links = case
    names, ps = mkstore(ctx, (STORES + STORES_T)[k])
    d = ctx.tmpdir()
    w = TreeIO.PacketDirectoryWriter(d, link_named_objects=links)
    r0 = TreeIO.PacketDirectoryReader(d)
    order = ctx.choose('again', [(), (0,)])
    for p in ps:
        w.put(p)
    for i in order:
        w.put(ps[i])
    w.close()
    r = TreeIO.PacketDirectoryReader(d) if ctx.choose('reader', ['new', 'old']) == 'new' else r0
    # puts in order, one name each
    puts = list(range(len(ps))) + list(order)
    for i, p in enumerate(ps):
        h = HashValue.create_sha256(hash_of(p.serialize()))
        ctx.check(h == p.content_object_hash(), 'hash of a packet')
        if names[i] is None:
            is_packet(ctx, gets(ctx, lambda: r.get(None, h)), p, 'nameless packet by its hash')
            is_packet(ctx, gets(ctx, lambda: r.get(mkname(ctx, 'other', 'f'), h)), p, 'nameless packet by its hash under a routing name')
            continue
        q = again(names[i])
        is_packet(ctx, gets(ctx, lambda: r.get(q, h)), p, 'packet by name and hash')
        is_packet(ctx, gets(ctx, lambda: r.get(names[i], p.content_object_hash())), p, 'packet by name and hash')
        x = gets(ctx, lambda: r.get(q, None))
        if links:
            last = [j for j in puts if names[j] is not None and (j == i or bool(names[j] == names[i]))][-1]
            is_packet(ctx, x, ps[last], 'packet by name')
        else:
            ctx.check(x is None, 'a packet is found by name without a link')
        for j, p2 in enumerate(ps):
            if j != i and names[j] is not None and not bool(names[i] == names[j]):
                x = gets(ctx, lambda: r.get(names[i], p2.content_object_hash()))
                ctx.check(x is None, 'a packet of another name is returned')
    ctx.reach()


def absent(ctx, r, ps, names):
    """look-ups of what was never stored"""
    from ccnpy.core.HashValue import HashValue
    h = ctx.bytes('hash', 32)
    for p in ps:
        ctx.assume(bytes(p.content_object_hash().value()) != h)
    n = mkname(ctx, 'unknown', 's')
    for nm in [n, None] + [x for x in names if x is not None]:
        ctx.check(gets(ctx, lambda: r.get(nm, HashValue.create_sha256(h))) is None, 'a packet is found under an unknown hash')
    for x in names:
        if x is not None:
            ctx.assume(x != n)
    ctx.check(gets(ctx, lambda: r.get(n, None)) is None, 'a packet is found under an unknown name')


@harness('C25', cases=['same', 'other'], bounds='one reader over a store that changes between its look-ups: two packets put under one name, symbolic octets; a stored file taken away or replaced')
def kept_open(ctx, case):
    from ccnpy.core.Name import Name
    from ccnpy.flic.tree.TreeIO import TreeIO
    d = ctx.tmpdir()
    w, r = TreeIO.PacketDirectoryWriter(d, link_named_objects=True), TreeIO.PacketDirectoryReader(d)
    n = Name.from_uri('ccnx:/a/b')
    ps = [packet(ctx, i, n if i < 2 or case == 'same' else Name.from_uri('ccnx:/c')) for i in range(3)]
    for i, p in enumerate(ps):
        w.put(p)
        for q in ps[:i + 1]:
            is_packet(ctx, gets(ctx, lambda: r.get(q.body().name(), q.content_object_hash())), q, 'a stored packet')
        is_packet(ctx, gets(ctx, lambda: r.get(p.body().name(), None)), p, 'the packet put last under a name')
    if case == 'other':
        is_packet(ctx, gets(ctx, lambda: r.get(n, None)), ps[1], 'the packet put last under a name')
    h = ps[0].content_object_hash()
    f = d + '/' + bytes(h.value()).hex()
    if ctx.bool('gone'):
        ctx.remove(f)
    else:
        ctx.writefile(f, bytes(ps[1].serialize()))
    ctx.check(gets(ctx, lambda: r.get(n, h)) is None, 'a packet that is gone was returned')
    ctx.reach()


@harness('C25', cases=[0, 3, 4, 7], bounds='stores of 2 packets: look-ups of any other hash and any other name')
def unknown(ctx, k):
    from ccnpy.flic.tree.TreeIO import TreeIO
    names, ps = mkstore(ctx, STORES[k])
    d = ctx.tmpdir()
    w = TreeIO.PacketDirectoryWriter(d, link_named_objects=True)
    r = TreeIO.PacketDirectoryReader(d)
    absent(ctx, r, [], [])
    for p in ps:
        w.put(p)
    absent(ctx, r, ps, names)
    ctx.reach()


def judge(ctx, r, d, names, ps, links, what):
    """every look-up gives the packet asked for or fails"""
    for i, p in enumerate(ps):
        h = p.content_object_hash()
        for n in ([names[i]] if names[i] is not None else [None, mkname(ctx, 'route', 'f')]):
            x = gets(ctx, lambda: r.get(n, h))
            if x is not None:
                ctx.check(bytes(x.serialize())[8:] == bytes(p.serialize())[8:], 'look-up by hash after %s gives another packet' % what)
        if names[i] is not None:
            x = gets(ctx, lambda: r.get(names[i], None))
            if x is not None:
                ctx.check(x.body().name() is None or bool(x.body().name() == names[i]), 'look-up by name after %s gives a packet of another name' % what)
                f = x.content_object_hash().value()
                ctx.check(bytes(f) == hash_of(x.serialize()), 'hash')
                ctx.check(ctx.exists(d + '/' + bytes(f).hex()), 'packet is not in the store')


@harness('C25', cases=[(k, v, n) for k in (0, 3, 7) for v in ('octet', 'cut', 'swap', 'gone') for n in (0, 1)] + [(0, 'other', n) for n in (0, 1, 7, 8, 12, 15, 17)],
         bounds='stores of 2 packets with links: one stored file or link with any one octet changed, cut at any length, replaced by another file of the store, replaced by any 0..17 octets, or removed')
def damaged(ctx, case):
    from ccnpy.flic.tree.TreeIO import TreeIO
    k, v, n = case
    names, ps = mkstore(Still() if v == 'octet' else ctx, STORES[k])
    if all(x is not None for x in names) and len(names) == 2:
        ctx.assume(names[0] != names[1])
    d = ctx.tmpdir()
    w = TreeIO.PacketDirectoryWriter(d, link_named_objects=True)
    link = []
    for p in ps:
        before = ctx.listdir(d)
        w.put(p)
        link += [x for x in ctx.added(d, before) if len(x) < 64]
    r = TreeIO.PacketDirectoryReader(d)
    files = [bytes(p.content_object_hash().value()).hex() for p in ps]
    if v == 'other':
        f = files[0]
        ctx.writefile(d + '/' + f, ctx.bytes('file', n))
        judge(ctx, r, d, names, ps, True, 'replacing a file')
        ctx.reach()
        return
    f = files[n] if ctx.choose('file', ['packet', 'link']) == 'packet' or not link else link[n % len(link)]
    b = ctx.readfile(d + '/' + f)
    if v == 'octet':
        i = ctx.choose('at', range(len(b)))
        x = ctx.bytes('octet', 1)
        ctx.assume(x[0] != b[i])
        ctx.writefile(d + '/' + f, b[:i] + x + b[i + 1:])
    elif v == 'cut':
        ctx.writefile(d + '/' + f, b[:ctx.choose('len', range(len(b)))])
    elif v == 'swap':
        g = ctx.choose('by', [x for x in files + link if x is not f])
        ctx.writefile(d + '/' + f, ctx.readfile(d + '/' + g))
    else:
        ctx.remove(d + '/' + f)
    judge(ctx, r, d, names, ps, True, v)
    if v == 'octet' and len(f) == 64:
        # a packet whose file is damaged is refused
        j = files.index(f)
        x = gets(ctx, lambda: r.get(names[j], ps[j].content_object_hash()))
        if i >= 8:
            ctx.check(x is None, 'a damaged packet is returned')
    if v in ('cut', 'gone') and len(f) == 64:
        j = files.index(f)
        ctx.check(gets(ctx, lambda: r.get(names[j], ps[j].content_object_hash())) is None, 'a missing packet is returned')
    w.put(ps[0])
    is_packet(ctx, gets(ctx, lambda: r.get(names[0], ps[0].content_object_hash())), ps[0], 'packet stored again')
    ctx.reach()


@harness('C25', cases=[(i, n) for i in (0, 1, 3, 5) for n in (False, True)], bounds='stores of 2..3 packets: counters of the directory writer; the nested layout keeps each packet in its own file')
def counters(ctx, case):
    from ccnpy.flic.tree.TreeIO import TreeIO
    i, nested = case
    names, ps = mkstore(ctx, STORES[i])
    d = ctx.tmpdir()
    w = TreeIO.PacketDirectoryWriter(d, nested=nested)
    for p in ps:
        w.put(p)
    w.put(ps[0])
    size = lambda xs: sum(len(x.serialize()) for x in xs)
    man = [p for p, (f, kd) in zip(ps, STORES[i]) if kd == 'manifest']
    dat = [p for p, (f, kd) in zip(ps, STORES[i]) if kd != 'manifest']
    ctx.check(w.total_bytes_by_packet == size(ps + [ps[0]]), 'octets written')
    ctx.check(w.total_bytes_by_hash == size(ps), 'octets of different packets')
    ctx.check(w.cnt_manifest == len(man) and w.cnt_data == len(dat), 'number of packets')
    ctx.check(w.bytes_manifest == size(man) and w.bytes_data == size(dat), 'octets of packets')
    for p in ps:
        f = bytes(p.content_object_hash().value()).hex()
        q = d + '/' + (f[:2] + '/' + f[2:4] + '/' if nested else '') + f
        ctx.check(ctx.exists(q), 'file of a packet')
        ctx.check(ctx.readfile(q) == bytes(p.serialize()), 'octets of a packet file')
    ctx.reach()


def octet_name(ctx, nm, form):
    from ccnpy.core.Name import Name, NameComponent
    return Name([NameComponent.create_name_segment(ctx.bytes('%s.%d' % (nm, i), n)) for i, n in enumerate(form)])


@harness('C25', cases=[((1,), (1,)), ((2,), (2,)), ((1, 1), (1,)), ((1, 1), (8,)), ((1,), (4,)), ((1,), (2,)), ((0, 1), (1, 0)), ((3,), (1, 1)), ('type', 1)],
         bounds='two packets under different names of any octets (1..2 segments of 0..8 octets) or with a name segment, chunk or manifest id: both are found by name')
def links(ctx, case):
    import array
    from ccnpy.core.Name import Name, NameComponent
    from ccnpy.flic.tree.TreeIO import TreeIO
    if case[0] == 'type':
        t, b = ctx.int('type', 0, 65535), ctx.bytes('c', case[1])
        how = ctx.choose('container', ['array', 'bytes'])
        if how == 'array':
            b = array.array('B', b)
            ctx.known('C25-link-type', (t != 1) & (t != 5) & (t != 16))
        else:
            ctx.assume((t == 1) | (t == 5) | (t == 16))
        names = [Name([NameComponent(t, b)]), octet_name(ctx, 'm', (1,))]
    else:
        names = [octet_name(ctx, 'n', case[0]), octet_name(ctx, 'm', case[1])]
    for n in names:
        for i in range(n.count()):
            c = n.component(i)
            if c.type() == 1:
                for x in c.value():
                    # a link file is named by the name's URI up to ? # or ;, with / written as ~
                    ctx.known('C25-link-octets', (x == 0) | (x == 9) | (x == 10) | (x == 13) | (x == 0x2f) | (x == 0x7e) | (x == 0x3f) | (x == 0x23) | (x == 0x3b) | (x == 0x5c) | (x >= 0x80))
    ctx.assume(names[0] != names[1])
    ps = [packet(ctx, i, n) for i, n in enumerate(names)]
    d = ctx.tmpdir()
    w = TreeIO.PacketDirectoryWriter(d, link_named_objects=True)
    for p in ps:
        w.put(p)
    r = TreeIO.PacketDirectoryReader(d)
    for n, p in zip(names, ps):
        is_packet(ctx, gets(ctx, lambda: r.get(again(n), None)), p, 'packet by name')
    ctx.reach()


# -------------------------------------------------------------------------------------------------- C30
MEM = [(('s', 'data'), ('s', 'data')), ((None, 'data'), ('s', 'plain'), ('s', 'manifest')), (('sc', 'data'), ('=0', 'data'), ('sm', 'signed')),
       ((None, 'data'), (None, 'data'), (None, 'manifest')), (('s', 'data'), (None, 'data'), ('=0', 'plain'), ('l', 'data')), (('b', 'data'), ('B', 'data'), ('w', 'plain'))]


def anyname(ctx, nm, form):
    from ccnpy.core.Name import Name, NameComponent
    n = {'b': 1, 'B': 2, 'w': 3}[form]
    return Name([NameComponent(ctx.int(nm + '.t', 0, 65535), ctx.bytes(nm, n))])


@harness('C30', cases=[(k, src) for k in range(len(MEM)) for src in ('writer', 'shared', 'list')],
         bounds='2..4 packets (named, nameless, equal and different names; payload octets, name components and component types symbolic) put in every order, with and without repetition; look-ups between and after the puts')
def memory(ctx, case):
    import itertools
    from ccnpy.flic.tree.TreeIO import TreeIO
    k, src = case
    names, ps = [], []
    for i, (form, kind) in enumerate(MEM[k]):
        n = None if form is None else names[int(form[1:])] if form[0] == '=' else anyname(ctx, 'n%d' % i, form) if form in 'bBw' else mkname(ctx, 'n%d' % i, form)
        names.append(n)
        ps.append(packet(ctx, i, n, kind))
    order = ctx.choose('order', list(itertools.permutations(range(len(ps)))))
    rep = ctx.choose('repeat', [None, 0, len(ps) - 1])
    w = TreeIO.PacketMemoryWriter()
    early = TreeIO.PacketMemoryReader(w)
    seq = list(order) + ([] if rep is None else [order[rep]])
    for at, i in enumerate(seq):
        w.put(ps[i])
        if src == 'writer':
            is_packet(ctx, gets(ctx, lambda: w.get(names[i], ps[i].content_object_hash())), ps[i], 'packet just put')
    r = w if src == 'writer' else early if src == 'shared' else TreeIO.PacketMemoryReader([ps[i] for i in seq])
    if src != 'list':
        ctx.check(len(w) == len(ps), 'number of packets')
        ctx.check(w.total_bytes_by_packet == sum(len(ps[i].serialize()) for i in seq), 'octets put')
        ctx.check(w.total_bytes_by_hash == sum(len(p.serialize()) for p in ps), 'octets of different packets')
    got = list(r)
    ctx.check(len(got) == len(seq), 'number of packets listed')
    for at, i in enumerate(seq):
        is_packet(ctx, got[at], ps[i], 'packet at its place')
        is_packet(ctx, r[at], ps[i], 'packet at its place')
    for i, p in enumerate(ps):
        h = p.content_object_hash()
        q = None if names[i] is None else again(names[i])
        is_packet(ctx, gets(ctx, lambda: r.get(q, h)), p, 'packet by name and hash')
        for j in range(len(ps)):
            x = gets(ctx, lambda: r.get(names[j], h))
            if names[i] is None:
                is_packet(ctx, x, p, 'nameless packet')
            elif names[j] is None or not bool(names[j] == names[i]):
                ctx.check(x is None, 'a packet of another name is returned')
            else:
                is_packet(ctx, x, p, 'packet by name and hash')
    from ccnpy.core.HashValue import HashValue
    h = ctx.bytes('hash', 32)
    for p in ps:
        ctx.assume(bytes(p.content_object_hash().value()) != h)
    for n in names[:2] + [None]:
        ctx.check(gets(ctx, lambda: r.get(n, HashValue.create_sha256(h))) is None, 'a packet is found under an unknown hash')
    ctx.reach()


LOOKALIKE = [((1, 1), (1, 4)), ((5, 1), (5, 2)), ((16, 1), (16, 3)), ((1, 3), (1, 1, 1)), ((1, 9), (5, 1)), ((1, 0), ()), ((1, 2), (1, 0, 1, 2)), ((4, 1), (7, 1)), ((1, 1), (1, 0, 1, 0))]


@harness('C30', cases=list(range(len(LOOKALIKE))), budget=60,
         bounds='a packet asked for under a name of another shape whose symbolic octets may print alike (other component lengths, numbers of components and component types)')
def lookalike(ctx, k):
    from ccnpy.core.Name import Name, NameComponent
    from ccnpy.flic.tree.TreeIO import TreeIO

    def build(nm, shape):
        return Name([NameComponent(t, ctx.bytes('%s%d' % (nm, i), n)) for i, (t, n) in enumerate(shape)])
    shapes = [[(s[0], n) for n in s[1:]] if s else [] for s in LOOKALIKE[k]]
    x, y = build('x', shapes[0]), build('y', shapes[1])
    if ctx.choose('swap', [False, True]):
        x, y = y, x
    w = TreeIO.PacketMemoryWriter()
    p = packet(ctx, 0, x)
    w.put(p)
    r = ctx.choose('reader', [w, TreeIO.PacketMemoryReader(w), TreeIO.PacketMemoryReader([p])])
    is_packet(ctx, gets(ctx, lambda: r.get(again(x), p.content_object_hash())), p, 'packet by name and hash')
    ctx.check(gets(ctx, lambda: r.get(y, p.content_object_hash())) is None, 'a packet of another name is returned')
    ctx.reach()


@harness('C30', cases=[0, 1, 3], bounds='stores of 2..3 packets: equality of stores, and independence of two stores')
def stores(ctx, k):
    from ccnpy.flic.tree.TreeIO import TreeIO
    names, ps = mkstore(ctx, MEM[k])
    a, b, c = TreeIO.PacketMemoryWriter(), TreeIO.PacketMemoryWriter(), TreeIO.PacketMemoryWriter()
    for p in ps:
        a.put(p)
        b.put(p)
    c.put(ps[0])
    ctx.check(a == b and b == a, 'equal stores differ')
    ctx.check(not a == c and not c == a, 'different stores are equal')
    ctx.check(len(c) == 1 and len(list(c)) == 1, 'a packet put into one store is in another')
    x = gets(ctx, lambda: c.get(names[1], ps[1].content_object_hash()))
    ctx.check(x is None, 'a packet put into one store is found in another')
    ctx.reach()


# -------------------------------------------------------------------------------------------------- C26
def param(ctx, i, num, salt):
    from ccnpy.flic.aeadctx.AeadParameters import AeadParameters
    algo, bits = [('gcm', 128), ('ccm', 128), ('gcm', 256), ('ccm', 256)][i % 4]
    key = mkkey(ctx, algo, bits, 'key%d' % i)
    return AeadParameters(key=key, key_number=num, aead_salt=salt), key, algo


def lookup(f):
    from ccnpy.crypto.InsecureKeystore import KeyIdNotFoundError, KeyNumberNotFoundError
    try:
        return f()
    except (KeyIdNotFoundError, KeyNumberNotFoundError):
        return None


@harness('C26', cases=[(1, True, 'all'), (2, False, 'all'), (2, True, 'low'), (2, True, 'high'), (3, True, 'low'), (3, True, 'high')], thorough_cases=[(3, False, 'all'), (4, True, 'low'), (4, False, 'high')],
         bounds='1..3 AEAD keys (thorough 4) with 64-bit symbolic key numbers (equal or not), any salts (or none), any key octets; look-ups of any number between and after insertions')
def aes(ctx, case):
    from ccnpy.crypto.InsecureKeystore import InsecureKeystore
    from ccnpy.flic.tlvs.KeyNumber import KeyNumber
    n, mid, width = case
    lo, hi = {'all': (0, 2**64 - 1), 'low': (0, 255), 'high': (2**32, 2**64 - 1)}[width]
    odd = ctx.choose('salted', [0, 1])
    ks = InsecureKeystore()
    nums, salts, keys = [], [], []
    for i in range(n):
        num = ctx.int('num%d' % i, lo, hi)
        salt = ctx.int('salt%d' % i, 0, 2**32 - 1) if i % 2 == odd else None
        p, key, algo = param(ctx, i, num, salt)
        if mid:
            q = ctx.int('ask%d' % i, lo, hi)
            expect(ctx, lookup(lambda: ks.get_aes_key(KeyNumber(q))), q, nums, salts, keys)
        ctx.check(ks.add_aes_key(p) is ks, 'insertions cannot be chained')
        nums.append(num)
        salts.append(salt)
        keys.append((bytes(key.key()), algo))
    q = ctx.int('ask', lo, hi)
    expect(ctx, lookup(lambda: ks.get_aes_key(KeyNumber(q))), q, nums, salts, keys)
    for a in nums:
        expect(ctx, lookup(lambda: ks.get_aes_key(KeyNumber(a))), a, nums, salts, keys)
    ctx.reach()


def expect(ctx, p, q, nums, salts, keys):
    last = None
    for i, a in enumerate(nums):
        if a == q:
            last = i
    if last is None:
        ctx.check(p is None, 'a key is found under an unknown number')
        return
    ctx.check(p is not None, 'a stored key is not found')
    ctx.check(p.key_number.value() == q, 'key number')
    ctx.check(bytes(p.key.key()) == keys[last][0], 'key octets')
    ctx.check(isinstance(p.key, cls_of(keys[last][1])), 'kind of key')
    ctx.check((p.aead_salt is None) == (salts[last] is None), 'salt presence')
    if salts[last] is not None:
        ctx.check(p.aead_salt == salts[last], 'salt')


class K:
    """an RSA key as the keystore sees it"""
    def __init__(self, digest, pub=True):
        from ccnpy.core.HashValue import HashValue
        self._h, self._pub = HashValue.create_sha256(digest), pub

    def keyid(self):
        return self._h

    def has_public_key(self):
        return self._pub

    def __len__(self):
        return 2048


@harness('C26', cases=[(1,), (2,), (3,)], thorough_cases=[(4,)],
         bounds='1..3 asymmetric keys with symbolic key ids (equal or not) and symbolic names; look-ups by any id (as hash value or key id) and any name')
def rsa_ids(ctx, case):
    from ccnpy.core.HashValue import HashValue
    from ccnpy.core.KeyId import KeyId
    from ccnpy.crypto.InsecureKeystore import InsecureKeystore
    n, = case
    ks = InsecureKeystore()
    ids, names, keys = [], [], []
    for i in range(n):
        d, nm = ctx.bytes('id%d' % i, 1) + bytes(31), ctx.str('name%d' % i, 2, 97, 122)
        k = K(d, i != 1)
        ctx.check(ks.add_rsa_key(nm, k) is ks, 'insertions cannot be chained')
        ids.append(d)
        names.append(nm)
        keys.append(k)
    for d in ids + [ctx.bytes('ask', 1) + bytes(31)]:
        want = None
        for a, k in zip(ids, keys):
            if a == d:
                want = k
        h = HashValue.create_sha256(d)
        ctx.check(lookup(lambda: ks.get_rsa(h)) is want, 'look-up by hash value')
        ctx.check(lookup(lambda: ks.get_rsa(KeyId(h))) is want, 'look-up by key id')
        x = lookup(lambda: ks.get_rsa_pub_key(h))
        ctx.check(x is (want if want is not None and want.has_public_key() else None), 'look-up of a public key')
    for nm in names + [ctx.str('askname', 2, 97, 122)]:
        want = None
        for a, k in zip(names, keys):
            if a == nm:
                want = k
        ctx.check(lookup(lambda: ks.get_rsa(nm)) is want, 'look-up by name')
    ctx.reach()


@harness('C26', bounds='two real RSA keys and AEAD keys in one store, in every order: neither kind disturbs the other')
def mixed(ctx):
    import itertools
    from .h_crypto import params, rsa
    from ccnpy.core.KeyId import KeyId
    from ccnpy.crypto.InsecureKeystore import InsecureKeystore
    from ccnpy.flic.tlvs.KeyNumber import KeyNumber
    a, b = rsa('A_PUB'), rsa('B_PRIV')
    p, n1, s1 = params(ctx, nm='k')
    q, n2, s2 = params(ctx, 'ccm', 256, nm='l')
    ctx.assume(n1 != n2)
    steps = [lambda ks: ks.add_rsa_key('alice', a), lambda ks: ks.add_rsa_key('bob', b), lambda ks: ks.add_aes_key(p), lambda ks: ks.add_aes_key(q)]
    ks = InsecureKeystore()
    for i in ctx.choose('order', list(itertools.permutations(range(4)))):
        ctx.check(steps[i](ks) is ks, 'insertions cannot be chained')
    ctx.check(ks.get_rsa('alice') is a and ks.get_rsa('bob') is b, 'look-up by name')
    ctx.check(ks.get_rsa(a.keyid()) is a and ks.get_rsa(KeyId(b.keyid())) is b, 'look-up by id')
    ctx.check(ks.get_rsa_pub_key(a.keyid()) is a and ks.get_rsa_pub_key(b.keyid()) is b, 'look-up of a public key')
    ctx.check(ks.get_aes_key(KeyNumber(n1)) is p and ks.get_aes_key(KeyNumber(n2)) is q, 'look-up by number')
    other = InsecureKeystore()
    ctx.check(lookup(lambda: other.get_rsa('alice')) is None and lookup(lambda: other.get_aes_key(KeyNumber(n1))) is None, 'two stores share keys')
    ctx.reach()
