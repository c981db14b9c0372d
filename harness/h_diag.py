"""C41: diagnostics and the manifest graph"""
from .api import harness
from .h_tree import SCHEMAS, Src, annotations, build, decrypter, options, payload_size, protection, read, some_file, uri, wire


class Switches:
    """every class whose DEBUG switch the code looks at"""
    def __init__(self):
        from ccnpy.crypto.AeadKey import AeadKey
        from ccnpy.flic.RsaOaepCtx.RsaOaepWrapper import RsaOaepWrapper
        from ccnpy.flic.aeadctx.AeadData import AeadData
        from ccnpy.flic.tlvs.KdfData import KdfData
        from ccnpy.flic.tlvs.Node import Node
        from ccnpy.flic.tlvs.RsaOaepCtx import RsaOaepCtx
        from ccnpy.flic.tree.HashGroupBuilderPair import HashGroupBuilderPair
        self.all = [c for c in (AeadKey, RsaOaepWrapper, AeadData, KdfData, Node, RsaOaepCtx, HashGroupBuilderPair) if 'DEBUG' in vars(c)]

    def on(self, f):
        was = [c.DEBUG for c in self.all]
        for c in self.all:
            c.DEBUG = True
        try:
            return f()
        finally:
            for c, w in zip(self.all, was):
                c.DEBUG = w


def talking(ctx, f):
    """f() with all diagnostics on"""
    lines, (said, r) = ctx.printed(lambda: ctx.logged(lambda: Switches().on(f)))
    for x in said:
        if isinstance(x, Exception):
            ctx.fail('a message of the log cannot be composed')
    return len(lines) + len(said), r


def outcome(f):
    """(result, None) or (None, exception class)"""
    try:
        return f(), None
    except Exception as e:
        return None, type(e)


@harness('C41', cases=[(s, n) for s in SCHEMAS for n in (1, 4, 9)],
         thorough_cases=[(s, n) for s in SCHEMAS for n in (2, 3, 14, 27)],
         bounds='files of 1..9 data objects (thorough 27) with symbolic octets, degree 2 and as large as fits, with and without sizes; all diagnostics on or off')
def build_and_read(ctx, case):
    """the packets and the file do not depend on the diagnostics"""
    schema, n = case
    d, kw = ctx.choose('degree', [2, None]), annotations(ctx, ('none', 'all'))
    o, o2 = options(schema, d, **kw), options(schema, d, debug=True, **kw)
    f = some_file(ctx, n, payload_size(o, schema), 23)
    root, store = build(o, Src(f))
    said, (root2, store2) = talking(ctx, lambda: build(o2, Src(f)))
    a, b = [x.serialize() for x in store], [x.serialize() for x in store2]
    ctx.check(len(a) == len(b), 'debugging changes the number of packets')
    for x, y in zip(a, b):
        ctx.check(bytes(x) == bytes(y), 'debugging changes a packet')
    ctx.check(root == root2, 'debugging changes the root packet')
    w = wire(store)
    ctx.check(talking(ctx, lambda: read(w, root, o.name))[1] == f, 'another file')
    ctx.check(read(w, root, o.name) == f, 'another file')
    for x in w:
        talking(ctx, lambda: (repr(x), str(x)))
    for x, y in zip(w, a):
        ctx.check(bytes(x.serialize()) == bytes(y), 'showing a packet changes it')
    ctx.reach()


@harness('C41', cases=[(s, h) for s in ('hashed', 'prefix2', 'segmented') for h in ('psk', 'psk nosalt', 'rsa')],
         bounds='encrypted trees of 5 data objects with symbolic keys, salts, nonces and octets; RSA signed roots; all diagnostics on for building, for reading or for both')
def encrypted(ctx, case):
    from ccnpy.crypto.RsaSha256 import RsaSha256Signer
    from .h_crypto import rsa
    schema, how = case
    enc, ks = protection(ctx, how)
    kw = annotations(ctx, ('none', 'all'))
    ks.add_rsa_key('root', rsa('C_PUB'))
    who = ctx.choose('diagnostics', ['build', 'read', 'both'])
    o = options(schema, 3, 700, manifest_encryptor=enc, signer=RsaSha256Signer(rsa('C_PRIV')), debug=who != 'read', **kw)
    f = some_file(ctx, 5, payload_size(o, schema), 23)
    root, store = talking(ctx, lambda: build(o, Src(f)))[1] if who != 'read' else build(o, Src(f))
    if who == 'build':
        got = read(wire(store), root, o.name, ks)
    else:
        got = talking(ctx, lambda: read(wire(store), root, o.name, ks))[1]
    ctx.check(got == f, 'another file')
    ctx.reach()


@harness('C41', cases=['aead', 'rsa'], bounds='manifests encrypted with symbolic keys and damaged in any one octet of ciphertext, tag or wrapped key')
def refused_alike(ctx, how):
    """a damaged manifest is refused the same way with diagnostics"""
    from array import array
    from ccnpy.core.Tlv import Tlv
    from ccnpy.flic.tlvs.Manifest import Manifest
    from .h_crypto import as_manifest
    enc, ks = protection(ctx, 'psk' if how == 'aead' else 'rsa')
    from .h_more import secret_node
    m = as_manifest(enc.encrypt(secret_node(ctx, 'n', 2)))
    raw = bytes(m.serialize())
    at = ctx.choose('at', [len(raw) - 1, len(raw) - 20, len(raw) - 40] + ([60] if how == 'rsa' else []))
    x = ctx.bytes('x', 1)
    ctx.assume(x[0] != raw[at])
    bad = raw[:at] + x + raw[at + 1:]

    def go():
        q = Manifest.parse(Tlv.deserialize(array('B', bad)))
        return decrypter('psk' if how == 'aead' else 'rsa', ks)(q)
    a = outcome(go)
    b = talking(ctx, lambda: outcome(go))[1]
    ctx.check(a[1] is b[1], 'with diagnostics a damaged manifest is refused in another way')
    ctx.check(a[1] is not None, 'a damaged manifest was accepted')
    ctx.reach()


# ------------------------------------------------------------------------------------------------ the graph
class Seen:
    """what a manifest graph is given, passed on to a real one"""
    def __init__(self):
        from ccnpy.flic.tree.ManifestGraph import ManifestGraph
        self.manifests, self.data, self.on, me = [], [], True, self

        class G(ManifestGraph):
            def pause(self):
                me.on = False
                return super().pause()

            def resume(self):
                me.on = True
                return super().resume()

            def add_manifest(self, *a, **k):
                me.manifest(*a, **k)
                return super().add_manifest(*a, **k)

            def add_data(self, *a, **k):
                me.chunk(*a, **k)
                return super().add_data(*a, **k)
        self.graph = G()

    def manifest(self, hash_value, node, name):
        if self.on:
            self.manifests.append((hash_value, [h for h in node.hash_values()], name))

    def chunk(self, data_hash, name):
        if self.on:
            self.data.append((data_hash, name))


def graph_checks(ctx, seen, packets, decrypt, twice):
    """every packet is in the graph with its pointers and name, and nothing else is"""
    from ccnpy.core.Packet import Packet
    from ccnpy.flic.tlvs.Manifest import Manifest
    hashes = []
    for x in list(packets)[::-1]:        # the root, which has the wrapped key, is the last one
        p = Packet.deserialize(x.serialize())
        b, h = p.body(), p.content_object_hash()
        hashes.append(h)
        if b.is_manifest():
            m = Manifest.from_content_object(b)
            if decrypt is not None:
                m = decrypt(m)
            got = [y for y in seen.manifests if y[0] == h]
            ctx.check(1 <= len(got) <= twice, 'a manifest is not in the graph, or too often')
            want = [v.hash_value if hasattr(v, 'hash_value') else v for v in m.node().hash_values()]
            for y in got:
                ctx.check([v.hash_value if hasattr(v, 'hash_value') else v for v in y[1]] == want, 'the graph has other pointers than the manifest')
                ctx.check(y[2] == b.name(), 'the graph has another name than the manifest')
            ctx.check(all(y[0] != h for y in seen.data), 'a manifest is in the graph as data')
        else:
            got = [y for y in seen.data if y[0] == h]
            ctx.check(len(got) == 1, 'a data object is not in the graph, or too often')
            ctx.check(got[0][1] == b.name(), 'the graph has another name than the data object')
            ctx.check(all(y[0] != h for y in seen.manifests), 'a data object is in the graph as a manifest')
    for y in seen.manifests + seen.data:
        ctx.check(y[0] in hashes, 'the graph has an entry that is no packet of the tree')


@harness('C41', cases=[(s, h, n) for s in SCHEMAS for h in ('plain', 'psk') for n in (1, 2, 7)] + [('segmented', 'rsa', 7), ('hashed', 'rsa', 4)],
         thorough_cases=[(s, 'plain', n) for s in SCHEMAS for n in (3, 5, 13, 22)],
         bounds='trees of 1..7 data objects (thorough 22), degree 2, 3 and as large as fits; the graph given to the builder and the graph collected by the reader')
def graph(ctx, case):
    from ccnpy.crypto.InsecureKeystore import InsecureKeystore
    from ccnpy.flic.ManifestTree import ManifestTree
    from ccnpy.flic.name_constructor.SchemaImplFactory import SchemaImplFactory
    from ccnpy.flic.tree import Traversal as T
    from ccnpy.flic.tree.TreeIO import TreeIO
    schema, how, n = case
    enc, ks = protection(ctx, how)
    o = options(schema, ctx.choose('degree', [2, 3, None]), 700 if how != 'plain' else 400, manifest_encryptor=enc)
    f = some_file(ctx, n, payload_size(o, schema), 23)
    SchemaImplFactory.reset_nc_id()
    w, seen = TreeIO.PacketMemoryWriter(), Seen()
    root = ManifestTree(data_input=Src(f), packet_output=w, tree_options=o, manifest_graph=seen.graph).build()
    if how == 'plain':
        other, w2 = build(o, Src(f))
        ctx.check([bytes(x.serialize()) for x in w] == [bytes(x.serialize()) for x in w2], 'collecting the graph changes the packets')
    d = decrypter(how, ks)
    graph_checks(ctx, seen, w, d, 2)
    ctx.check(seen.on, 'the graph is left paused')
    store = wire(w)
    b, again = TreeIO.DataBuffer(), Seen()
    old = T.ManifestGraph
    T.ManifestGraph = lambda: again.graph
    try:
        t = T.Traversal(packet_input=store, data_writer=b, keystore=ks, build_graph=True)
        t.traverse(root_name=o.name, hash_restriction=root.content_object_hash())
    finally:
        T.ManifestGraph = old
    ctx.check(bytes(b.buffer) == f, 'another file')
    graph_checks(ctx, again, store, d, 1)
    ctx.reach()
