"""C37 root hash, C38 what encrypted trees show, C39 faults while reading a tree, C40 network writer"""
from .api import harness
from .h_tree import SCHEMAS, Src, Sink, annotations, build, options, payload_size, protection, read, some_file, uri, wire


# ------------------------------------------------------------------------------------------------ C37
def another(ctx, how, n, p):
    """(file, other file, are they different for sure)"""
    from .h_tree import some_file
    f = some_file(ctx, n, p, 23)
    if how == 'octets':
        at = [4] + ([len(f) - 19] if n > 1 else []) + ([(n // 2) * p + 4] if n > 2 else [])
        k = ctx.choose('at', at)
        x = ctx.bytes('other', 1)
        ctx.assume(x[0] != f[k])
        return f, f[:k] + x + f[k + 1:]
    if how == 'shorter':
        return f, f[:len(f) - 1]
    if how == 'object less':
        return f, f[:len(f) - 23]
    if how == 'object more':
        return f, f + bytes(p - 23) + b'x' + ctx.bytes('more', 1)
    if how == 'zero more':
        return f, f + bytes(1)
    if how == 'exchanged':
        return f, f[p:2 * p] + f[:p] + f[2 * p:]
    if how == 'repeated':
        return f, f[:p] + f[:p] + f[2 * p:]


HOWS = [('octets', 1), ('octets', 2), ('octets', 5), ('shorter', 1), ('shorter', 4), ('object less', 2), ('object less', 5), ('object more', 1), ('object more', 3), ('zero more', 2),
        ('exchanged', 3), ('exchanged', 6), ('repeated', 3), ('repeated', 6)]


@harness('C37', cases=[(s, h, n) for s in SCHEMAS for h, n in HOWS],
         thorough_cases=[(s, h, n) for s in SCHEMAS for h, n in (('octets', 13), ('octets', 27), ('object more', 9), ('exchanged', 14), ('repeated', 22), ('shorter', 30))],
         bounds='pairs of files of 1..6 data objects (thorough 30): any octet changed, octets or objects removed, added, exchanged or repeated; degree 2, 3 and as large as fits; with and without sizes in the manifests')
def commits(ctx, case):
    """the root of another file has another hash"""
    schema, how, n = case
    o = options(schema, ctx.choose('degree', [2, 3, None]), **annotations(ctx, ('none', 'all')))
    f, g = another(ctx, how, n, payload_size(o, schema))
    a, sa = build(o, Src(f))
    b, sb = build(o, Src(g))
    ctx.check(bytes(a.content_object_hash().value()) != bytes(b.content_object_hash().value()), 'two different files have the same root hash')
    ctx.check(bytes(a.serialize()) != bytes(b.serialize()), 'two different files have the same root packet')
    ctx.reach()


@harness('C37', cases=[(s, z) for s in ('hashed', 'segmented') for z in (1500, 5000, 20000, 65000)],
         bounds='packets of 1500..65000 octets: files of 1 and 2 data objects that differ in any octet at the ends and in the middle of an object')
def commits_big(ctx, case):
    """octets far into a packet count"""
    from .h_packet import content, filler
    schema, z = case
    o = options(schema, 3, z)
    p = payload_size(o, schema)
    n = ctx.choose('n', [1, 2])
    at = ctx.choose('at', [1, p // 2, p - 2])
    x, y = ctx.bytes('x', 1), ctx.bytes('y', 1)
    ctx.assume(x != y)
    head = filler(p, 3) if n == 2 else b''
    f, g = (head + filler(at, 7) + v + filler(p - at - 1, 5) for v in (x, y))
    a, b = build(o, Src(f))[0], build(o, Src(g))[0]
    ctx.check(bytes(a.content_object_hash().value()) != bytes(b.content_object_hash().value()), 'two different files have the same root hash')
    ctx.reach()


@harness('C37', cases=[(s, n) for s in SCHEMAS for n in (1, 2, 5, 9)],
         bounds='files of 1..9 data objects with symbolic octets, cut twice with equal options built anew; degree 2, 3 and as large as fits; with and without sizes and expiry times')
def repeatable(ctx, case):
    """the same file and options give the same packets"""
    from ccnpy.core.ExpiryTime import ExpiryTime
    schema, n = case
    d, kw = ctx.choose('degree', [2, 3, None]), annotations(ctx, ('none', 'all'))
    if n == 5:
        t = ctx.int('t', 2**40, 2**41)
        kw.update(root_expiry_time=ExpiryTime(t), manifest_expiry_time=ExpiryTime(t + 1), data_expiry_time=ExpiryTime(t + 2))
    o = options(schema, d, **kw)
    f = some_file(ctx, n, payload_size(o, schema), 23)
    a, sa = build(o, Src(f))
    b, sb = build(options(schema, d, **kw), Src(f))
    ctx.check(bytes(a.content_object_hash().value()) == bytes(b.content_object_hash().value()), 'the same file has two root hashes')
    pa, pb = list(sa), list(sb)
    ctx.check(len(pa) == len(pb), 'the same file gives another number of packets')
    for x, y in zip(pa, pb):
        ctx.check(bytes(x.serialize()) == bytes(y.serialize()), 'the same file gives other packets')
    ctx.reach()


@harness('C37', cases=SCHEMAS, bounds='files of 1, 2 and 7 data objects under any two different root names of one component')
def other_name(ctx, schema):
    """roots published under different names have different hashes, and say the name"""
    from ccnpy.core.Name import Name, NameComponent
    a, b = ctx.bytes('a', 2), ctx.bytes('b', 2)
    ctx.assume(a != b)
    roots = []
    n = ctx.choose('n', [1, 2, 7])
    for x in (a, b):
        o = options(schema, 2, name=Name([NameComponent(1, x)]))
        roots.append(build(o, Src(some_file(ctx, n, payload_size(o, schema), 23, 0)))[0])
    ctx.check(bytes(roots[0].content_object_hash().value()) != bytes(roots[1].content_object_hash().value()), 'roots under two names have the same hash')
    ctx.reach()


# ------------------------------------------------------------------------------------------------ C38
def blank(ctx, m, hide):
    """the octets of manifest m with the values of the fields of `hide` set to zero, read with a reader of our own; the hidden values"""
    w = bytes(m)
    hidden = []
    spans = []

    def walk(lo, hi, path):
        at = lo
        while at < hi:
            t, n = ctx.concrete(w[at] * 256 + w[at + 1]), ctx.concrete(w[at + 2] * 256 + w[at + 3])
            p = path + (t,)
            if p in hide:
                spans.append((at + 4, at + 4 + n))
            elif any(q[:len(p)] == p for q in hide):
                walk(at + 4, at + 4 + n, p)
            at += 4 + n
        ctx.check(at == hi, 'layout')
    walk(0, len(w), ())
    out, last = b'', 0
    for a, b in spans:
        out += w[last:a] + bytes(b - a)
        hidden.append(w[a:b])
        last = b
    return out + w[last:], hidden


def layout():
    """type numbers of the parts that may differ: nonce, wrapped key, ciphertext, tag"""
    from ccnpy.flic.tlvs.AeadCtx import AeadCtx
    from ccnpy.flic.tlvs.AuthTag import AuthTag
    from ccnpy.flic.tlvs.EncryptedNode import EncryptedNode
    from ccnpy.flic.tlvs.Nonce import Nonce
    from ccnpy.flic.tlvs.RsaOaepCtx import RsaOaepCtx
    from ccnpy.flic.tlvs.SecurityCtx import SecurityCtx
    from ccnpy.flic.RsaOaepCtx.WrappedKey import WrappedKey
    s = SecurityCtx.class_type()
    return {(s, AeadCtx.class_type(), Nonce.class_type()), (s, RsaOaepCtx.class_type(), Nonce.class_type()),
            (s, RsaOaepCtx.class_type(), WrappedKey.class_type()),
            (EncryptedNode.class_type(),), (AuthTag.class_type(),)}


def secret_node(ctx, nm, k):
    """a node of k pointers and every kind of field, of a size that depends on k only"""
    from ccnpy.core.HashValue import HashValue
    from ccnpy.core.Name import Name, NameComponent
    from ccnpy.flic.tlvs.GroupData import GroupData
    from ccnpy.flic.tlvs.HashGroup import HashGroup
    from ccnpy.flic.tlvs.LeafSize import LeafSize
    from ccnpy.flic.tlvs.Locators import Locators
    from ccnpy.flic.tlvs.NcDef import NcDef
    from ccnpy.flic.tlvs.NcId import NcId
    from ccnpy.flic.tlvs.NcSchema import HashSchema
    from ccnpy.flic.tlvs.Node import Node
    from ccnpy.flic.tlvs.NodeData import NodeData
    from ccnpy.flic.tlvs.Pointers import Pointers
    from ccnpy.flic.tlvs.StartSegmentId import StartSegmentId
    from ccnpy.flic.tlvs.SubtreeSize import SubtreeSize
    hs = [HashValue.create_sha256(ctx.bytes('%s.h%d' % (nm, i), 32)) for i in range(k)]
    g = GroupData(nc_id=NcId(ctx.int(nm + '.nc', 0, 255)), start_segment_id=StartSegmentId(ctx.int(nm + '.seg', 256, 65535)),
                  subtree_size=SubtreeSize(ctx.int(nm + '.size', 2**16, 2**24 - 1)), leaf_size=LeafSize(ctx.int(nm + '.leaf', 256, 65535)))
    loc = Name([NameComponent(1, ctx.bytes(nm + '.loc', 3))])
    nd = NodeData(subtree_size=SubtreeSize(ctx.int(nm + '.total', 2**16, 2**24 - 1)), nc_defs=[NcDef(NcId(ctx.int(nm + '.def', 0, 255)), HashSchema(locators=Locators.from_name(loc)))])
    return Node(node_data=nd, hash_groups=[HashGroup(group_data=g, pointers=Pointers(hs))])


@harness('C38', cases=[(a, b, s, w) for a in ('gcm', 'ccm') for b in (128, 256) for s in (True, False) for w in ('key', 'rsa', 'rsa later') if s or w == 'key'],
         bounds='nodes of 0..3 pointers, a naming definition, sizes and segment numbers, all symbolic; two nodes and two keys; AES-GCM/CCM 128/256, with and without salt, preset keys and key transport, with and without the wrapped key, with and without key derivation fields')
def manifest_shows(ctx, case):
    """two nodes of one size under two keys: the octets outside nonce, wrapped key, ciphertext and tag are the same, and the ciphertext is the cipher's"""
    from ccnpy.flic.aeadctx.AeadEncryptor import AeadEncryptor
    from .h_crypto import as_manifest, encryptor, iv_of, params, raw, rsa
    from .h_flic import B
    algo, bits, salt, how = case
    k = ctx.choose('pointers', [0, 1, 3])
    num = ctx.int('num', 0, 255)
    kdf = B(ctx).kdf('kdf', 4)[0] if ctx.choose('kdf', [0, 1]) else None
    seen = []
    for nm in 'ab':
        p, n, s = params(ctx, algo, bits, salt, nm=nm, num=num, kdf_data=kdf)
        node = secret_node(ctx, nm, k)
        if how == 'key':
            e = AeadEncryptor(p)
            m = as_manifest(e.encrypt(node))
        else:
            e = encryptor(p)
            m = as_manifest(e.encrypt(node, include_wrapper=how == 'rsa'))
        out, hidden = blank(ctx, m.serialize(), layout())
        ctx.check(len(hidden) == (4 if how == 'rsa' else 3), 'hidden parts')
        nonce, c, t = hidden[0], hidden[-2], hidden[-1]
        ctx.check(len(nonce) == (8 if salt else 12) and len(t) == 16, 'length of nonce or tag')
        ctx.check(any(nonce == x for x in ctx.draws()), 'the nonce is not what was drawn')
        ctx.check(raw(algo, p.key.key()).decrypt(iv_of(s, nonce), c + t, bytes(m.security_ctx().serialize())) == bytes(node.serialized_value()), 'the ciphertext is not that of the node')
        seen.append(out)
    ctx.check(len(seen[0]) == len(seen[1]), 'the length depends on more than the size of the node')
    ctx.check(seen[0] == seen[1], 'the clear part of an encrypted manifest depends on its content, key or salt')
    ctx.reach()


@harness('C38', cases=[(s, h, n) for s in SCHEMAS for h in ('psk', 'psk nosalt', 'rsa') for n in (4,)] + [('hashed', 'rsa', 12), ('segmented', 'psk', 12), ('prefix2', 'psk', 1)],
         thorough_cases=[(s, h, n) for s in SCHEMAS for h in ('psk', 'rsa') for n in (2, 9, 21)],
         bounds='trees of 1..12 data objects (thorough 21), degree 2 and as large as fits, with and without sizes, six naming schemas; two files of one length and two keys')
def tree_shows(ctx, case):
    """every manifest of a tree is encrypted, and its clear part does not depend on file, key or salt"""
    from ccnpy.core.Packet import Packet
    from ccnpy.flic.tlvs.EncryptedNode import EncryptedNode
    from ccnpy.flic.tlvs.Manifest import Manifest
    from ccnpy.flic.aeadctx.AeadEncryptor import AeadEncryptor
    from .h_crypto import cls_of, encryptor, params
    schema, how, n = case
    num, d, kw = ctx.int('num', 0, 255), ctx.choose('degree', [2, None]), annotations(ctx, ('none', 'all'))
    seen = []
    for i, nm in enumerate('ab'):
        algo = 'ccm' if how == 'psk nosalt' else 'gcm'
        p = params(ctx, algo, 128, how != 'psk nosalt', nm=nm, num=num, key=cls_of(algo)(bytes([i]) + ctx.bytes(nm + '.key', 15)))[0]
        o = options(schema, d, 700, manifest_encryptor=encryptor(p) if how == 'rsa' else AeadEncryptor(p), **kw)
        z = payload_size(o, schema)
        f = b''.join(bytes([i, j]) + ctx.bytes('%s%d' % (nm, j), 1) + bytes(z - 3) for j in range(n - 1)) + bytes([i, n]) + ctx.bytes(nm + 'last', 1) + bytes(20)
        root, store = build(o, Src(f))
        mine = []
        for pk in store:
            q = Packet.deserialize(pk.serialize())
            b = q.body()
            if b.is_manifest():
                m = Manifest.from_content_object(b)
                ctx.check(m.is_encrypted() and isinstance(m.node(), EncryptedNode), 'a manifest of an encrypted tree is not encrypted')
                mine.append((len(q.serialize()), b.name(), b.expiry_time(), b.final_chunk_id(), blank(ctx, b.payload().value(), layout())[0]))
        seen.append(mine)
    ctx.check(len(seen[0]) == len(seen[1]) and len(seen[0]) >= 2, 'number of manifests')
    for x, y in zip(*seen):
        ctx.check(x[:4] == y[:4], 'length, name, expiry time or last chunk of a manifest depends on the content')
        ctx.check(x[4] == y[4], 'the clear part of an encrypted manifest depends on the file, key or salt')
    ctx.reach()


# ------------------------------------------------------------------------------------------------ C39
FAULTS = ['missing', 'checksum', 'signature', 'signed body', 'unknown signer', 'other signer', 'type', 'no type',
          'key number', 'cipher', 'tag', 'other key', 'not a manifest', 'undefined schema', 'empty']
PARTS = {'root': 0, 'a': 1, 'd0': 2, 'd1': 3, 'b': 4, 'd2': 5, 'd3': 6}      # in the order of reading
TREE = {'root': ['a', 'd1x', 'b'], 'a': ['d0', 'd1'], 'b': ['d2', 'd3']}


def faulty_tree(ctx, enc, fault, at, sign, p=None, tag=b'a'):
    """a root over two manifests of two data objects each, packet `at` broken: (packets by hash, root, octets of the data objects in order)"""
    import array
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.HashValue import HashValue
    from ccnpy.core.Packet import Packet
    from ccnpy.core.Payload import Payload
    from ccnpy.core.PayloadType import PayloadType
    from ccnpy.core.SignatureTime import SignatureTime
    from ccnpy.core.ValidationPayload import ValidationPayload
    from ccnpy.crypto.Crc32c import Crc32cSigner
    from ccnpy.crypto.RsaSha256 import RsaSha256Signer
    from ccnpy.core.ValidationAlg import ValidationAlg_RsaSha256
    from ccnpy.flic.aeadctx.AeadEncryptor import AeadEncryptor
    from ccnpy.flic.tlvs.AuthTag import AuthTag
    from ccnpy.flic.tlvs.EncryptedNode import EncryptedNode
    from ccnpy.flic.tlvs.GroupData import GroupData
    from ccnpy.flic.tlvs.HashGroup import HashGroup
    from ccnpy.flic.tlvs.Locators import Locators
    from ccnpy.flic.tlvs.Manifest import Manifest
    from ccnpy.flic.tlvs.NcDef import NcDef
    from ccnpy.flic.tlvs.NcId import NcId
    from ccnpy.flic.tlvs.NcSchema import HashSchema
    from ccnpy.flic.tlvs.Node import Node
    from ccnpy.flic.tlvs.NodeData import NodeData
    from ccnpy.flic.tlvs.Pointers import Pointers
    from .h_crypto import cls_of, params, replace, rsa
    p = p or params(ctx, 'gcm', 128, True, nm='k', num=7, key=cls_of('gcm')(b'k' + ctx.bytes('key', 15)))[0]
    data, store = [], {}

    def broken(x):
        b = bytes(x)
        off = ctx.choose('off', [0, len(b) - 2])
        r = ctx.bytes('repl', 2)
        ctx.assume(r != b[off:off + 2])
        return array.array('B', b[:off] + r + b[off + 2:])

    def put(me, co):
        bad = fault if at == me else None
        how = sign if me != 'root' or sign != 'none' else 'crc'
        if bad in ('checksum',):
            how = 'crc'
        elif bad in ('signature', 'signed body', 'unknown signer', 'other signer'):
            how = 'rsa'
        if how == 'none':
            pk = Packet.create_content_object(co)
        elif how == 'crc':
            s = Crc32cSigner()
            alg = s.validation_alg()
            sig = s.sign(co.serialize(), alg.serialize())
            if bad == 'checksum':
                sig = ValidationPayload(broken(sig.payload()))
            pk = Packet.create_signed_content_object(co, alg, sig)
        else:
            s = RsaSha256Signer(rsa('C_PRIV' if bad == 'unknown signer' else 'B_PRIV' if bad == 'other signer' else 'A_PRIV'))
            alg = s.validation_alg(signature_time=SignatureTime(1000.5))
            if bad == 'other signer':
                alg = ValidationAlg_RsaSha256(keyid=rsa('A_PUB').keyid(), signature_time=SignatureTime(1000.5))
            signed = co
            if bad == 'signed body':
                signed = ContentObject(name=co.name(), payload_type=co.payload_type(), payload=Payload(broken(co.payload().value())))
            sig = s.sign(signed.serialize(), alg.serialize())
            if bad == 'signature':
                sig = ValidationPayload(broken(sig.payload()))
            pk = Packet.create_signed_content_object(co, alg, sig)
        h = pk.content_object_hash()
        if bad != 'missing':
            store[bytes(h.value())] = pk
        return pk

    def kind(me, t):
        if at != me:
            return t
        if fault == 'type':
            return PayloadType(ctx.choose('pt', [1, 255]) if enc else ctx.choose('pt', [1, 2, 0]) or ctx.int('pt', 4, 255))
        return None if fault == 'no type' else t

    def make(me):
        if me[0] == 'd':
            x = tag + me.encode() + ctx.bytes(me, 2)
            data.append(x)
            return put(me, ContentObject(payload_type=kind(me, PayloadType.create_data_type()), payload=Payload(x)))
        hs = [make(c).content_object_hash() for c in TREE[me]]
        nc = ctx.int('nc', 2, 255) if at == me and fault == 'undefined schema' else 1
        hg = HashGroup(group_data=GroupData(nc_id=NcId(nc)), pointers=Pointers(hs))
        nd = NodeData(nc_defs=[NcDef(NcId(1), HashSchema(locators=Locators.from_name(uri('ccnx:/r'))))]) if me == 'root' else None
        node = Node(node_data=nd, hash_groups=[hg])
        crypt = enc or (at == me and fault in ('key number', 'cipher', 'tag', 'other key'))
        m = Manifest(node=node)
        if crypt:
            q = p
            if at == me and fault == 'key number':
                n = ctx.int('num', 0, 255)
                ctx.assume(n != 7)
                q = params(ctx, 'gcm', 128, True, nm='q', num=n, key=p.key)[0]
            elif at == me and fault == 'other key':
                q = params(ctx, 'gcm', 128, True, nm='q', num=7, key=cls_of('gcm')(b'q' + ctx.bytes('qkey', 15)))[0]
            c, e, t = AeadEncryptor(q).encrypt(node)
            if at == me and fault == 'cipher':
                e = EncryptedNode(broken(e.value()))
            if at == me and fault == 'tag':
                t = AuthTag(broken(t.value()))
            m = Manifest(security_ctx=c, node=e, auth_tag=t)
        w = m.serialize()
        if at == me and fault == 'not a manifest':
            w = array.array('B', ctx.bytes('junk', 3))
        if at == me and fault == 'empty':
            w = array.array('B', [])
        return put(me, ContentObject(name=uri('ccnx:/r') if me == 'root' else None, payload_type=kind(me, PayloadType.create_manifest_type()), payload=Payload(w)))
    root = make('root')
    return store, root, data, p


def parts(fault):
    ms = ['root', 'a', 'b']
    if fault in ('key number', 'cipher', 'tag', 'other key', 'not a manifest', 'undefined schema', 'empty'):
        return ms
    return ms + ['d0', 'd1x', 'd3']


ORDER = ['d0', 'd1', 'd1x', 'd2', 'd3']
BEFORE = {'root': 0, 'a': 0, 'd0': 0, 'd1x': 2, 'b': 3, 'd3': 4}


@harness('C39', cases=[(f, e) for f in FAULTS for e in (False, True)],
         bounds='a root over two manifests and five data objects, clear and encrypted; one packet, any of six, missing or broken in one of 15 ways with symbolic values; other packets unsigned, with a checksum or RSA-signed; symbolic contents')
def broken_tree(ctx, case):
    """the reading fails, and what came out before is what stands before the broken packet"""
    from ccnpy.core.Packet import Packet
    from ccnpy.flic.tree.Traversal import Traversal
    from ccnpy.flic.tree.TreeIO import TreeIO
    from .h_crypto import keystore
    fault, enc = case
    at = ctx.choose('at', parts(fault))
    sign = ctx.choose('sign', ['none', 'rsa'] if enc else ['none', 'crc', 'rsa'])
    store, root, data, p = faulty_tree(ctx, enc, fault, at, sign)
    asked = []

    class Reader:
        def get(self, name, hash_restriction=None):
            asked.append(name)
            return Packet.deserialize(store[bytes(hash_restriction.value())].serialize())
    b = TreeIO.DataBuffer()
    t = Traversal(packet_input=Reader(), data_writer=b, keystore=keystore('A_PUB', 'B_PUB', aes=[p]))
    try:
        t.traverse(uri('ccnx:/r'), root.content_object_hash())
        good = True
    except Exception:
        good = False
    ctx.check(not good, 'a tree with a missing or broken packet is read without an error: ' + fault)
    ctx.check(bytes(b.buffer) == b''.join(data[:BEFORE[at]]), 'octets from or beyond a broken packet come out: ' + fault)
    ctx.reach()


@harness('C39', cases=[False, True], bounds='the same tree without a fault')
def sound_tree(ctx, enc):
    from ccnpy.core.Packet import Packet
    from ccnpy.flic.tree.Traversal import Traversal
    from ccnpy.flic.tree.TreeIO import TreeIO
    from .h_crypto import keystore
    store, root, data, p = faulty_tree(ctx, enc, None, None, ctx.choose('sign', ['none', 'crc', 'rsa']))

    class Reader:
        def get(self, name, hash_restriction=None):
            return Packet.deserialize(store[bytes(hash_restriction.value())].serialize())
    b = TreeIO.DataBuffer()
    t = Traversal(packet_input=Reader(), data_writer=b, keystore=keystore('A_PUB', 'B_PUB', aes=[p]))
    for k in (1, 2):
        t.traverse(uri('ccnx:/r'), root.content_object_hash())
        ctx.check(bytes(b.buffer) == b''.join(data) * k, 'the data objects do not come out in order')
    ctx.check(t.count() == 16, 'number of objects read')
    ctx.reach()


@harness('C39', cases=['missing', 'checksum', 'other signer', 'cipher'], bounds='the tree is read again with the same reader after the fault is gone, and before')
def repaired_tree(ctx, fault):
    """a fault leaves nothing behind: the sound tree reads before and after it"""
    from ccnpy.core.Packet import Packet
    from ccnpy.flic.tree.Traversal import Traversal
    from ccnpy.flic.tree.TreeIO import TreeIO
    from .h_crypto import keystore
    at = ctx.choose('at', ['a', 'b'] + (['d1x'] if fault != 'cipher' else []))
    store, root, data, p = faulty_tree(ctx, True, fault, at, 'none')
    ok_store, ok_root, ok_data, _ = faulty_tree(ctx, True, None, None, 'none', p, b'b')
    both = {**store, **ok_store}

    class Reader:
        def get(self, name, hash_restriction=None):
            return Packet.deserialize(both[bytes(hash_restriction.value())].serialize())
    got = []

    class Out:
        def write(self, x):
            got.append(bytes(x))
    t = Traversal(packet_input=Reader(), data_writer=Out(), keystore=keystore('A_PUB', 'B_PUB', aes=[p]))
    for r, want in ((ok_root, None), (root, BEFORE[at]), (ok_root, None), (root, BEFORE[at])):
        got.clear()
        try:
            t.traverse(uri('ccnx:/r'), r.content_object_hash())
            good = True
        except Exception:
            good = False
        ctx.check(good == (want is None), 'a sound tree is refused or a broken one read')
        ctx.check(b''.join(got) == b''.join(ok_data if want is None else data[:want]), 'other octets come out')
    ctx.reach()


# ------------------------------------------------------------------------------------------------ C40
class Wire:
    """a connection that records what is sent; `send` takes any part of what it is given, as a real one may"""
    def __init__(self, ctx, fail_at=None):
        self.ctx, self.fail_at = ctx, fail_at
        self.to, self.out, self.calls, self.open, self.closed = [], b'', 0, 0, 0

    def stub(self):
        w = self

        class Socket:
            def __init__(self, *a, **k):
                w.open += 1
                self.live = True

            def connect(self, to):
                w.to.append(tuple(to))

            def _take(self, b, k):
                if not self.live:
                    raise OSError('closed')
                w.calls += 1
                if w.fail_at is not None and w.calls >= w.fail_at:
                    raise OSError('broken connection')
                w.out = w.out + bytes(b)[:k]

            def sendall(self, b, flags=0):
                self._take(b, len(b))

            def send(self, b, flags=0):
                n = len(b)
                if n == 0:
                    return 0
                k = w.ctx.choose('sent%d' % w.calls, [1, n // 2 + 1, n] if w.calls < 3 else [n])
                k = min(k, n)
                self._take(b, k)
                return k

            def sendmsg(self, bufs):
                b = b''.join(bytes(x) for x in bufs)
                return self.send(b)

            def makefile(self, *a, **k):
                s = self

                class F:
                    def write(self, b):
                        s._take(b, len(b))
                        return len(b)

                    def flush(self):
                        pass

                    def close(self):
                        pass
                return F()

            def shutdown(self, how=0):
                pass

            def setsockopt(self, *a):
                pass

            def settimeout(self, *a):
                pass

            def close(self):
                if self.live:
                    w.closed += 1
                self.live = False

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()
        return Socket

    def patched(self, f):
        import socket
        from ccnpy.flic.tree import TreeIO as m
        S = self.stub()
        old = socket.socket
        had = hasattr(socket, 'create_connection')
        oldc = socket.create_connection if had else None

        def create(to, *a, **k):
            s = S()
            s.connect(to)
            return s
        names = [k for k, v in vars(m).items() if v is old and k != 'socket'] + [k for k, v in vars(m).items() if k == 'socket' and isinstance(v, type)]
        socket.socket, socket.create_connection = S, create
        for k in names:
            setattr(m, k, S)
        try:
            return f(m.TreeIO)
        finally:
            socket.socket = old
            if had:
                socket.create_connection = oldc
            else:
                del socket.create_connection
            for k in names:
                setattr(m, k, old)


def some_packets(ctx, n, big):
    from ccnpy.core.Name import Name
    from .h_io import packet
    from .h_packet import content
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.Packet import Packet
    from ccnpy.core.Payload import Payload
    out = []
    for i in range(n):
        if i == big:
            out.append(Packet.create_content_object(ContentObject.create_data(name=uri('ccnx:/big'), payload=Payload(content(ctx, 'big', ctx.choose('len', [1400, 9000, 65000]))))))
        else:
            out.append(packet(ctx, i, [None, uri('ccnx:/a'), uri('ccnx:/b/c')][i % 3], ('data', 'manifest', 'signed', 'plain')[i % 4]))
    return out


@harness('C40', cases=[(1, None), (2, None), (4, None), (3, 1)], bounds='1..4 packets of every kind with symbolic contents, of up to 65000 octets, each once or one of them twice; every way the connection may take a part of the octets it is given; two writers at a time')
def network(ctx, case):
    n, big = case
    ps = some_packets(ctx, n, big)
    rep = ctx.choose('again', [None, 0, n - 1])
    if rep is not None:
        ps = ps[:rep + 1] + ps[rep:] if ctx.choose('when', ['next', 'last']) == 'next' else ps + [ps[rep]]
    wires = [bytes(p.serialize()) for p in ps]
    w = Wire(ctx)
    where = ctx.choose('where', [(), ('10.0.0.7', 1234)])

    def go(T):
        net = T.PacketNetworkWriter(*where)
        for p in ps:
            net.put(p)
        net.close()
        net.close()
    w.patched(go)
    ctx.check(w.to == [where or ('127.0.0.1', 9896)], 'connected to another address')
    ctx.check(w.out == b''.join(wires), 'the octets sent are not those of the packets')
    ctx.check(w.open == 1 and w.closed == 1, 'the connection is not closed')
    ctx.check([bytes(p.serialize()) for p in ps] == wires, 'sending changes a packet')
    ctx.reach()


@harness('C40', cases=[1, 2, 3], bounds='three packets, the connection breaks at any of them')
def network_breaks(ctx, at):
    ps = some_packets(ctx, 3, None)
    w = Wire(ctx, at)

    def go(T):
        net = T.PacketNetworkWriter()
        done = 0
        try:
            for p in ps:
                net.put(p)
                done += 1
        except Exception:
            return done, True
        return done, False
    done, failed = w.patched(go)
    ctx.check(failed, 'a broken connection is not reported')
    ctx.check(w.out == b''.join(bytes(p.serialize()) for p in ps)[:len(w.out)] and len(w.out) >= sum(len(p.serialize()) for p in ps[:done]), 'the octets sent before are not those of the packets')
    ctx.reach()


@harness('C40', cases=[(s, e) for s in ('Hashed', 'Prefix', 'Segmented') for e in (None, 'gcm', 'rsa')], bounds='the writer tool with -T: files of 1, 3 and 6 data objects with symbolic octets, three schemas, clear and encrypted')
def network_tool(ctx, case):
    """cutting what was sent into packets and putting them into a store gives a tree that reads as the file"""
    from ccnpy.apps.cli_utils import create_keystore
    from ccnpy.core.Packet import Packet
    from ccnpy.flic.tree.TreeIO import TreeIO
    from . import h_cli
    schema, enc = case
    d = h_cli.setup(ctx)
    n = ctx.choose('n', [1, 3, 6])
    data = some_file(ctx, n, 600, 41)
    ctx.writefile(d + '/file', data)
    a, r, _ = h_cli.protect(ctx, d, enc)
    argv = ['--schema', schema, '--name', 'ccnx:/a/file', '-s', '700', '-k', d + '/key.pem', '-p', '', '-d', '2', '-T'] + a
    if schema == 'Segmented':
        argv += ['--manifest-prefix', 'ccnx:/a/man', '--data-prefix', 'ccnx:/a/dat']
    w = Wire(ctx)
    got = w.patched(lambda T: h_cli.writer(ctx, argv + [d + '/file']))
    ctx.check(w.to == [('127.0.0.1', 9896)], 'address')
    ctx.check(len(ctx.listdir(d + '/out')) == 0, 'packets are written to files as well')
    store = TreeIO.PacketMemoryWriter()
    rest = w.out
    import array
    while len(rest) > 0:
        k = ctx.concrete(rest[2] * 256 + rest[3])
        ctx.check(0 < k <= len(rest), 'what was sent is not a sequence of packets')
        store.put(Packet.deserialize(array.array('B', rest[:k])))
        rest = rest[k:]
    ks = create_keystore(h_cli.parse((r if '-k' in r else r + ['-k', d + '/key.pub'])))
    ctx.check(read(store, got['root'], uri('ccnx:/a/file'), ks) == data, 'the tree sent does not read as the file')
    ctx.check(w.closed == 1, 'the connection is not closed')
    ctx.reach()
