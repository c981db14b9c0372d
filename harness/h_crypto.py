"""C12-C16, C27: manifest encryption, key transport, decryptor choice, key derivation"""
from .api import harness
from . import keys
from .h_flic import B, nbytes, r_node, same

ALG = [(a, k, s) for a in ('gcm', 'ccm') for k in (128, 256) for s in (True, False)]
MODES = {('gcm', 128): 1, ('gcm', 256): 2, ('ccm', 128): 3, ('ccm', 256): 4}
SHAPES = [(((1, 16),), None), (((0, None),), None), (((2, 16), (1, 48)), 1), (((1, 63),), 31), (((3, None),), 19), (((9, 16),), 8)]


def cls_of(algo):
    from ccnpy.crypto.AeadKey import AeadCcm, AeadGcm
    return AeadGcm if algo == 'gcm' else AeadCcm


def mkkey(ctx, algo, bits, nm='key'):
    return cls_of(algo)(ctx.bytes(nm, bits // 8))


def params(ctx, algo='gcm', bits=128, salt=True, nm='k', num=None, key=None, **kw):
    from ccnpy.flic.aeadctx.AeadParameters import AeadParameters
    n = ctx.int(nm + '.num', 0, 2**64 - 1) if num is None else num
    s = ctx.int(nm + '.salt', 0, 2**32 - 1) if salt is True else (None if salt is False else salt)
    return AeadParameters(key=mkkey(ctx, algo, bits, nm + '.key') if key is None else key, key_number=n, aead_salt=s, **kw), n, s


def raw(algo, key):
    from cryptography.hazmat.primitives.ciphers.aead import AESCCM, AESGCM
    return (AESGCM if algo == 'gcm' else AESCCM)(key)


def iv_of(s, nonce):
    return nonce if s is None else nbytes(s, 4) + nonce


def again(m):
    from ccnpy.flic.tlvs.Manifest import Manifest
    return Manifest.deserialize(m.serialize())


# ------------------------------------------------------------------------------------------------ C12
@harness('C12', cases=[a + (i,) for a in ALG for i in range(len(SHAPES))] + [('gcm', 128, True, n) for n in (-40, -300, -1800)],
         bounds='AES-GCM/CCM 128/256 with and without salt; 6 node shapes with symbolic contents and nodes of 40..1800 hashes; key, key number, salt and nonce symbolic')
def psk(ctx, case):
    from ccnpy.flic.aeadctx.AeadDecryptor import AeadDecryptor
    from ccnpy.flic.aeadctx.AeadEncryptor import AeadEncryptor
    from ccnpy.flic.aeadctx.AeadImpl import AeadImpl
    from ccnpy.flic.tlvs.EncryptedNode import EncryptedNode
    from ccnpy.flic.tlvs.Manifest import Manifest
    algo, bits, salt, shape = case
    p, n, s = params(ctx, algo, bits, salt)
    b = B(ctx)
    if shape >= 0:
        groups, nd = SHAPES[shape]
        node, spec, w = b.node('n', groups, nd)
    else:
        node, spec, w = big_node(ctx, -shape)
    before = bytes(node.serialize())
    via = ctx.choose('via', ['impl', 'classes'])
    if via == 'impl':
        m = AeadImpl(p).create_encrypted_manifest(node)
    else:
        c, e, t = AeadEncryptor(p).encrypt(node)
        m = Manifest(security_ctx=c, node=e, auth_tag=t)
    ctx.check(bytes(node.serialize()) == before, 'encrypting changed the node')
    m = again(m)
    ctx.check(m.is_encrypted(), 'the manifest does not say it is encrypted')
    ctx.check(isinstance(m.node(), EncryptedNode), 'the node is not encrypted')
    ctx.check(m.security_ctx().key_number().value() == n, 'key number')
    ctx.check(m.security_ctx().aead_data().mode()._value == MODES[algo, bits], 'mode')
    d = (AeadImpl(p) if via == 'impl' else AeadDecryptor(p)).decrypt_manifest(m)
    ctx.check(not d.is_encrypted(), 'the decrypted manifest says it is encrypted')
    ctx.check(d.node() == node, 'decrypted node differs')
    ctx.check(bytes(d.node().serialize()) == before, 'decrypted node encodes differently')
    if shape >= 0:
        same(ctx, r_node(d.node()), spec, 'decrypted node')
    x = AeadDecryptor(p).decrypt_node(m.security_ctx(), m.node(), m.auth_tag())
    ctx.check(x == node, 'decrypted node differs')
    ctx.reach()


def big_node(ctx, k):
    """k pointers, the first and last with symbolic digests"""
    from ccnpy.core.HashValue import HashValue
    from ccnpy.flic.tlvs.GroupData import GroupData
    from ccnpy.flic.tlvs.HashGroup import HashGroup
    from ccnpy.flic.tlvs.NcId import NcId
    from ccnpy.flic.tlvs.Node import Node
    from ccnpy.flic.tlvs.Pointers import Pointers
    hs = [HashValue.create_sha256(bytes((i * 7 + j) & 255 for j in range(32))) for i in range(k - 2)]
    hs = [HashValue.create_sha256(ctx.bytes('first', 32))] + hs + [HashValue.create_sha256(ctx.bytes('last', 32))]
    g = HashGroup(group_data=GroupData(nc_id=NcId(ctx.int('nc', 0, 255))), pointers=Pointers(hs))
    return Node(hash_groups=[g]), None, None


@harness('C12', bounds='padded nodes, pads of 0..40 octets')
def padded(ctx):
    from ccnpy.flic.aeadctx.AeadImpl import AeadImpl
    p, n, s = params(ctx)
    node, spec, w = B(ctx).node('n', ((1, 16),), 1, 90 + ctx.choose('pad', [0, 1, 2, 3, 4, 5, 40]))
    d = AeadImpl(p).decrypt_manifest(again(AeadImpl(p).create_encrypted_manifest(node)))
    same(ctx, r_node(d.node()), spec, 'decrypted node')
    ctx.reach()


@harness('C12', cases=['gcm', 'ccm'], bounds='two keys of each size: key objects report their kind, size and octets')
def key_objects(ctx, algo):
    cls = cls_of(algo)
    bits = ctx.choose('bits', [128, 256])
    k = ctx.bytes('key', bits // 8)
    a = cls(k)
    ctx.check(len(a) == bits, 'key size')
    ctx.check(bytes(a.key()) == k, 'key octets')
    ctx.check(a.aead_mode() == algo.upper(), 'kind')
    g = cls.generate(bits)
    ctx.check(len(g) == bits and len(g.key()) == bits // 8, 'size of a generated key')
    ctx.check(isinstance(g, cls), 'kind of a generated key')
    for bad in (0, 64, 129, 512):
        try:
            cls.generate(bad)
        except Exception:
            continue
        ctx.fail('a key of %d bits was generated' % bad)
    ctx.reach()


# ------------------------------------------------------------------------------------------------ C13
def refuses(ctx, f, msg):
    try:
        x = f()
    except Exception:
        return
    ctx.fail(msg)


def replace(ctx, what, x, k=4):
    """x (octets) with up to k adjacent octets replaced anywhere, or shortened, or lengthened; always different from x"""
    import array
    b = bytes(x)
    n = len(b)
    how = ctx.choose(what + '.how', ['replace', 'short', 'long', 'empty', 'head', 'rotate'])
    if how == 'replace':
        offs = sorted({0, max(0, n // 2), max(0, n - k)})
        off = ctx.choose(what + '.off', offs)
        m = min(k, n - off)
        y = b[:off] + ctx.bytes(what + '.r', m) + b[off + m:]
    elif how == 'short':
        y = b[:-1]
    elif how == 'long':
        y = b + ctx.bytes(what + '.x', ctx.choose(what + '.extra', [1, 2, 16]))
    elif how == 'empty':
        y = b[:0]
    elif how == 'head':
        y = b[1:]
    else:
        y = b[1:] + b[:1]
    ctx.assume(len(y) != n or y != b)
    return array.array('B', y)


@harness('C13', cases=[(a, k, s, w) for a in ('gcm', 'ccm') for k in (128, 256) for s in (True, False)
                       for w in ('cipher', 'tag', 'both', 'nonce', 'keynum', 'keynum too', 'mode', 'kdf', 'ctx kind', 'swap')],
         bounds='any 4 adjacent octets (start, middle, end) replaced, dropped or added octets, any other key number, mode or key derivation field')
def tampered(ctx, case):
    from ccnpy.flic.aeadctx.AeadData import AeadData
    from ccnpy.flic.aeadctx.AeadImpl import AeadImpl
    from ccnpy.flic.tlvs.AeadCtx import AeadCtx
    from ccnpy.flic.tlvs.AeadMode import AeadMode
    from ccnpy.flic.tlvs.AuthTag import AuthTag
    from ccnpy.flic.tlvs.EncryptedNode import EncryptedNode
    from ccnpy.flic.tlvs.Manifest import Manifest
    from ccnpy.flic.RsaOaepCtx.RsaOaepImpl import RsaOaepImpl
    from ccnpy.flic.tlvs.RsaOaepCtx import RsaOaepCtx
    import array
    algo, bits, salt, what = case
    p, n, s = params(ctx, algo, bits, salt)
    node = B(ctx).node('n')[0]
    m = AeadImpl(p).create_encrypted_manifest(node)
    c, e, t = m.security_ctx(), m.node(), m.auth_tag()
    ad = c.aead_data()
    kn, nonce, mode, kdf = ad.key_number(), ad.nonce(), ad.mode(), ad.kdf_data()
    dec = AeadImpl(p)
    if salt:
        ctx.check(dec.decrypt_manifest(again(m)).node() == node, 'decrypted node differs')
    if what == 'cipher':
        e = EncryptedNode(replace(ctx, 'e', e.value()))
    elif what == 'tag':
        t = AuthTag(replace(ctx, 't', t.value()))
    elif what == 'both':
        e = EncryptedNode(replace(ctx, 'e', e.value(), 2))
        t = AuthTag(replace(ctx, 't', t.value(), 2))
    elif what == 'swap':
        k = ctx.choose('k', [1, 4, 15, 16, -1, -8])
        x = bytes(e.value()) + bytes(t.value())
        cut = len(e.value()) - k
        e, t = EncryptedNode(x[:cut]), AuthTag(x[cut:])
    elif what == 'nonce':
        nonce = replace(ctx, 'n', nonce.value())
    elif what in ('keynum', 'keynum too'):
        n2 = ctx.int('num2', 0, 2**64 - 1)
        ctx.assume(n2 != n)
        kn = n2
        if what == 'keynum too':
            # the receiver knows the same key under the other number as well
            dec = AeadImpl(params(ctx, num=n2, salt=s if s is not None else False, key=p.key)[0])
    elif what == 'mode':
        md = ctx.int('mode', 0, 255)
        ctx.assume(md != MODES[algo, bits])
        mode = AeadMode(md)
    elif what == 'kdf':
        kdf = B(ctx).kdf('kdf', ctx.choose('info', [None, 0, 3]))[0]
    c = (RsaOaepCtx if what == 'ctx kind' else AeadCtx)(AeadData(key_number=kn, nonce=nonce, mode=mode, kdf_data=kdf))
    if what == 'ctx kind':
        dec = RsaOaepImpl(wrapper=None, aead_params=p)
    bad = Manifest(security_ctx=c, node=e, auth_tag=t)
    refuses(ctx, lambda: dec.decrypt_manifest(again(bad)), 'a changed manifest was decrypted')
    refuses(ctx, lambda: dec.decrypt_manifest(bad), 'a changed manifest was decrypted')
    refuses(ctx, lambda: dec.decrypt_node(c, e, t), 'a changed manifest was decrypted')
    ctx.reach()


@harness('C13', cases=[(a, k, s, w) for a in ('gcm', 'ccm') for k in (128, 256) for s in (True, False)
                       for w in ('key', 'size', 'algo', 'salt', 'no salt')],
         bounds='every other key of either size and algorithm, every other salt, no salt')
def mis_keyed(ctx, case):
    from ccnpy.flic.aeadctx.AeadImpl import AeadImpl
    algo, bits, salt, what = case
    p, n, s = params(ctx, algo, bits, salt)
    node = B(ctx).node('n')[0]
    m = again(AeadImpl(p).create_encrypted_manifest(node))
    keep = s if s is not None else False
    if what == 'key':
        q = params(ctx, algo, bits, keep, 'q', n)[0]
        ctx.assume(bytes(q.key.key()) != bytes(p.key.key()))
    elif what == 'size':
        q = params(ctx, algo, 384 - bits, keep, 'q', n)[0]
    elif what == 'algo':
        q = params(ctx, 'ccm' if algo == 'gcm' else 'gcm', bits, keep, 'q', n, cls_of('ccm' if algo == 'gcm' else 'gcm')(p.key.key()))[0]
    elif what == 'salt':
        q, _, s2 = params(ctx, algo, bits, True, 'q', n, p.key)
        if s is not None:
            ctx.assume(s2 != s)
    else:
        if s is None:
            return ctx.reach()
        q = params(ctx, algo, bits, False, 'q', n, p.key)[0]
    refuses(ctx, lambda: AeadImpl(q).decrypt_manifest(m), 'decrypted under another key or salt')
    ctx.check(AeadImpl(p).decrypt_manifest(m).node() == node, 'the right key no longer works')
    ctx.reach()


@harness('C13', cases=[('gcm', True, j) for j in range(6)], thorough_cases=[('ccm', False, j) for j in range(8)],
         bounds='any single octet of the encoded manifest, framing included, replaced by any other value')
def any_octet(ctx, case):
    from ccnpy.flic.aeadctx.AeadImpl import AeadImpl
    from ccnpy.flic.tlvs.Manifest import Manifest
    import array
    algo, salt, j = case
    p, n, s = params(ctx, algo, 128, salt, num=ctx.int('num', 1, 255))
    node = B(ctx).node('n', ((1, None),))[0]
    w = AeadImpl(p).create_encrypted_manifest(node).serialize()
    i = ctx.choose('at', list(range(j, len(w), 8 if algo == 'ccm' else 6)))
    v = ctx.int('v', 0, 255)
    ctx.assume(v != w[i])
    x = array.array('B', w)
    x[i] = v

    def go():
        return AeadImpl(p).decrypt_manifest(Manifest.deserialize(x))
    refuses(ctx, go, 'a manifest with a changed octet was decrypted')
    ctx.reach()


# ------------------------------------------------------------------------------------------------ C14
@harness('C14', cases=[a + (w,) for a in ALG for w in ('psk', 'rsa', 'rsa+wrapper')],
         bounds='AES-GCM/CCM 128/256, preset and transported keys, every salt, nonce, key and key number; two encryptions in a row')
def vectors(ctx, case):
    from ccnpy.flic.aeadctx.AeadImpl import AeadImpl
    from ccnpy.flic.RsaOaepCtx.RsaOaepImpl import RsaOaepImpl
    algo, bits, salt, how = case
    p, n, s = params(ctx, algo, bits, salt)
    if how == 'psk':
        impl = AeadImpl(p)
        make = impl.create_encrypted_manifest
    elif how == 'rsa' or s is None:
        impl = RsaOaepImpl(wrapper=None, aead_params=p)
        make = impl.create_encrypted_manifest
    else:
        enc = encryptor(p)
        make = lambda node: as_manifest(enc.encrypt(node, include_wrapper=True))
    node, node2 = B(ctx).node('n')[0], B(ctx).node('n2')[0]
    got = []
    for x in (node, node2, node):
        before = len(ctx.draws())
        m = again(make(x))
        new = ctx.draws()[before:]
        nonce = bytes(m.security_ctx().nonce().value())
        ctx.check(len(nonce) == (12 if s is None else 8), 'nonce length')
        ctx.check(any(len(d) >= len(nonce) for d in new), 'no randomness drawn for this encryption')
        ctx.check(any(len(d) >= len(nonce) and d[:len(nonce)] == nonce for d in new), 'the nonce is not the drawn one')
        plain = raw(algo, bytes(p.key.key())).decrypt(iv_of(s, nonce), bytes(m.node().value()) + bytes(m.auth_tag().value()),
                                                     bytes(m.security_ctx().serialize()))
        ctx.check(bytes(plain) == bytes(x.serialize()[4:]), 'the ciphertext is not the node under salt and nonce')
        got.append((m, nonce))
    # the draws of two encryptions are independent: with different draws the nonces differ
    ds = [d for d in ctx.draws() if len(d) >= len(got[0][1])]
    for i in range(len(ds)):
        for j in range(i):
            if len(ds[i]) == len(ds[j]):
                ctx.assume(ds[i] != ds[j])
    for i in range(3):
        for j in range(i):
            ctx.check(got[i][1] != got[j][1], 'a nonce was used twice')
    ctx.reach()


@harness('C14', cases=[(a, k) for a in ('gcm', 'ccm') for k in (128, 256)],
         bounds='every salt with no octet in common with nonce, key and number: its octets appear nowhere in the manifest')
def salt_hidden(ctx, case):
    from ccnpy.flic.aeadctx.AeadImpl import AeadImpl
    from ccnpy.flic.tlvs.Node import Node
    algo, bits = case
    p, n, s = params(ctx, algo, bits, True, num=7)
    node = B(ctx).node('n', ((0, None),))[0]
    m = AeadImpl(p).create_encrypted_manifest(node)
    c = bytes(m.security_ctx().serialize())
    nonce = bytes(m.security_ctx().nonce().value())
    # what the context says is the number, the nonce and the mode, and nothing else
    want = bytes([0, 0, 0, 8 + 5 + 4 + len(nonce) + 5 - 4]) + bytes([0, 0, 0, 5 + 4 + len(nonce) + 5]) + bytes([0, 0, 0, 1, 7]) + \
        bytes([0, 1, 0, len(nonce)]) + nonce + bytes([0, 2, 0, 1, MODES[algo, bits]])
    ctx.check(len(c) == len(want) and c == want, 'the security context says more than number, nonce and mode')
    q, _, s2 = params(ctx, algo, bits, True, 'q', 7, p.key)
    ctx.check(len(AeadImpl(q).create_encrypted_manifest(node).serialize()) == len(m.serialize()), 'the length depends on the salt')
    ctx.reach()


# ------------------------------------------------------------------------------------------------ C15
def rsa(name):
    from ccnpy.crypto.RsaKey import RsaKey
    return RsaKey(getattr(keys, name))


def encryptor(p, key='A_PUB'):
    from ccnpy.flic.RsaOaepCtx.RsaOaepEncryptor import RsaOaepEncryptor
    return RsaOaepEncryptor(wrapping_key=rsa(key), params=p)


def as_manifest(x):
    from ccnpy.flic.tlvs.Manifest import Manifest
    c, e, t = x
    return Manifest(security_ctx=c, node=e, auth_tag=t)


def keystore(*names, aes=()):
    from ccnpy.crypto.InsecureKeystore import InsecureKeystore
    ks = InsecureKeystore()
    for i, k in enumerate(names):
        ks.add_rsa_key('rsa%d' % i, rsa(k))
    for p in aes:
        ks.add_aes_key(p)
    return ks


def decryptor(ks):
    from ccnpy.flic.RsaOaepCtx.RsaOaepDecryptor import RsaOaepDecryptor
    return RsaOaepDecryptor(keystore=ks)


@harness('C15', cases=[(a, k, d) for a in ('gcm', 'ccm') for k in (128, 256) for d in (-1, 0, 3)],
         bounds='every content key, salt, key number and node content; with and without key derivation fields')
def transport(ctx, case):
    algo, bits, info = case
    kdf = None
    if info >= 0:
        kdf = B(ctx).kdf('kdf', info or None)[0]
    p, n, s = params(ctx, algo, bits, True, kdf_data=kdf)
    node = B(ctx).node('n')[0]
    node2 = B(ctx).node('n2', ((2, 16),))[0]
    enc = encryptor(p)
    m1 = again(as_manifest(enc.encrypt(node, include_wrapper=True)))
    m2 = again(as_manifest(enc.encrypt(node2, include_wrapper=False)))
    ctx.check(m1.security_ctx().rsa_oaep_wrapper() is not None and m2.security_ctx().rsa_oaep_wrapper() is None, 'wrapper presence')
    w = m1.security_ctx().rsa_oaep_wrapper()
    ctx.check(w.key_id().digest() == rsa('A_PUB').keyid(), 'key id')
    s2, k2 = w.wrapped_key().decrypt(rsa('A_PRIV'), m1.security_ctx().aead_data())
    ctx.check(s2 == s, 'salt')
    ctx.check(bytes(k2) == bytes(p.key.key()), 'content key')
    ks = keystore(*ctx.choose('store', [('A_PRIV',), ('B_PRIV', 'A_PRIV'), ('A_PRIV', 'B_PUB')]))
    d = decryptor(ks)
    ctx.check(d.decrypt_manifest(m1).node() == node, 'node')
    ctx.check(d.decrypt_manifest(m2).node() == node2, 'a later manifest without the wrapped key')
    ctx.check(d.decrypt_node(m2.security_ctx(), m2.node(), m2.auth_tag()) == node2, 'a later node without the wrapped key')
    e = decryptor(ks)
    ctx.check(e.decrypt_manifest(m2).node() == node2, 'a second decryptor over the same keystore')
    q = ks.get_aes_key(m2.security_ctx().key_number())
    ctx.check(bytes(q.key.key()) == bytes(p.key.key()) and q.aead_salt == s and type(q.key) is type(p.key), 'stored key')
    ctx.reach()


@harness('C15', cases=['no key', 'other key', 'public only', 'wrapped', 'keyid', 'keynum', 'mode', 'kdf', 'no wrapper', 'other recipient'],
         bounds='a keystore without the private key; 4 adjacent octets of the wrapped key replaced, dropped or added octets; any other key id, key number, mode')
def wrong_recipient(ctx, what):
    from ccnpy.core.HashValue import HashValue
    from ccnpy.core.KeyId import KeyId
    from ccnpy.flic.aeadctx.AeadData import AeadData
    from ccnpy.flic.RsaOaepCtx.RsaOaepWrapper import RsaOaepWrapper
    from ccnpy.flic.RsaOaepCtx.WrappedKey import WrappedKey
    from ccnpy.flic.tlvs.AeadMode import AeadMode
    from ccnpy.flic.tlvs.Manifest import Manifest
    from ccnpy.flic.tlvs.RsaOaepCtx import RsaOaepCtx
    algo = ctx.choose('algo', ['gcm', 'ccm'])
    p, n, s = params(ctx, algo, 128, True)
    node = B(ctx).node('n')[0]
    m = as_manifest(encryptor(p).encrypt(node, include_wrapper=True))
    c, w, ad = m.security_ctx(), m.security_ctx().rsa_oaep_wrapper(), m.security_ctx().aead_data()
    store = ('A_PRIV', 'B_PRIV')
    kid, wk, kn, mode, kdf = w.key_id(), w.wrapped_key(), ad.key_number(), ad.mode(), None
    if what == 'no key':
        store = ctx.choose('store', [(), ('B_PRIV',), ('B_PUB', 'C_PRIV')])
    elif what == 'public only':
        store = ('A_PUB', 'B_PRIV')
    elif what == 'other key':
        kid = KeyId(rsa('B_PUB').keyid())
    elif what == 'wrapped':
        wk = WrappedKey(replace(ctx, 'w', wk.value()))
    elif what == 'keyid':
        d = ctx.bytes('kid', 32)
        ctx.assume(d != bytes(kid.digest().value()))
        kid = KeyId(HashValue.create_sha256(d))
    elif what == 'keynum':
        n2 = ctx.int('n2', 0, 2**64 - 1)
        ctx.assume(n2 != n)
        kn = n2
    elif what == 'mode':
        md = ctx.int('mode', 0, 255)
        ctx.assume(md != MODES[algo, 128])
        mode = AeadMode(md)
    elif what == 'kdf':
        kdf = B(ctx).kdf('kdf', 3)[0]
    elif what == 'other recipient':
        wk = encryptor(p, 'B_PUB')._wrapped_key
    wr = None if what == 'no wrapper' else RsaOaepWrapper.create_sha256(key_id=kid, wrapped_key=wk)
    c = RsaOaepCtx(AeadData(key_number=kn, nonce=ad.nonce(), mode=mode, kdf_data=kdf), wr)
    bad = again(Manifest(security_ctx=c, node=m.node(), auth_tag=m.auth_tag()))
    ks = keystore(*store)
    d = decryptor(ks)
    refuses(ctx, lambda: d.decrypt_manifest(bad), 'a changed or foreign key transport was accepted')
    refuses(ctx, lambda: d.decrypt_manifest(bad), 'a changed or foreign key transport was accepted the second time')
    if what in ('no key', 'public only', 'no wrapper'):
        ks.add_rsa_key('late', rsa('A_PRIV'))
        ctx.check(d.decrypt_manifest(again(m)).node() == node, 'the original manifest once the private key is there')
    ctx.reach()


@harness('C15', cases=['other number', 'other recipient', 'other key', 'same number'],
         bounds='two content keys under two key numbers, or for two recipients, symbolic keys, salts and numbers')
def two_transports(ctx, what):
    p, n, s = params(ctx, 'gcm', 128, True, 'p')
    # two sessions may happen to use one key number: each is then opened by a reader of its own
    same = what == 'same number'
    q, n2, s2 = params(ctx, ctx.choose('algo', ['gcm', 'ccm']), 256, True, 'q', num=n if same else None)
    if not same:
        ctx.assume(n != n2)
    r1, r2 = ('A_PUB', 'B_PUB') if what == 'other recipient' else ('A_PUB', 'A_PUB')
    e1, e2 = encryptor(p, r1), encryptor(q, r2)
    x, y = B(ctx).node('x')[0], B(ctx).node('y')[0]
    a, a2 = (again(as_manifest(e1.encrypt(x, include_wrapper=i))) for i in (True, False))
    b, b2 = (again(as_manifest(e2.encrypt(y, include_wrapper=i))) for i in (True, False))
    d = decryptor(keystore('A_PRIV', 'B_PRIV'))
    if same:
        other = decryptor(keystore('A_PRIV', 'B_PRIV'))
        for reader, m, node in ctx.choose('turn', [((d, a, x), (d, a2, x), (other, b, y), (other, b2, y)), ((other, b, y), (d, a, x), (other, b2, y), (d, a2, x))]):
            ctx.check(reader.decrypt_manifest(m).node() == node, 'node')
        return ctx.reach()
    order = ctx.choose('order', [(a, a2, b, b2), (a, b, a2, b2), (a, b, b2, a2), (b, a, a2, b2, a), (a, b, a, b, a2)])
    for m in order:
        ctx.check(d.decrypt_manifest(m).node() == (x if m is a or m is a2 else y), 'node')
    ctx.reach()


@harness('C15', bounds='a freshly generated content key, every draw')
def new_content_key(ctx):
    from ccnpy.flic.RsaOaepCtx.RsaOaepEncryptor import RsaOaepEncryptor
    enc = RsaOaepEncryptor.create_with_new_content_key(wrapping_key=rsa('A_PUB'), kdf_data=None)
    node = B(ctx).node('n')[0]
    m = again(as_manifest(enc.encrypt(node, include_wrapper=True)))
    ctx.check(decryptor(keystore('A_PRIV')).decrypt_manifest(m).node() == node, 'node')
    ctx.reach()


@harness('C15', bounds='salts out of range are refused')
def salt_range(ctx):
    from ccnpy.flic.RsaOaepCtx.WrappedKey import WrappedKey
    s = ctx.int('salt', -2**33, 2**33)
    key = mkkey(ctx, 'gcm', 128)
    try:
        p = params(ctx, salt=s, key=key)[0]
        w = WrappedKey.create(rsa('A_PUB'), p)
    except Exception:
        ctx.check(s < 0 or s >= 2**32, 'a 32-bit salt was refused')
        return ctx.reach()
    ctx.check(s >= 0 and s < 2**32, 'a salt beyond 32 bits was accepted')
    ctx.reach()


# ------------------------------------------------------------------------------------------------ C16
KIND = ('psk', 'psk2', 'rsa', 'rsa-', 'rsa2')


class World:
    """two preset keys, a content key transported to A (with and without the wrapped key) and one transported to B;
    key numbers are symbolic and pairwise different"""
    def __init__(self, ctx, kinds):
        self.ks = keystore()
        lo, hi = (0, 255) if len(kinds) < 4 else (2**24, 2**32 - 1)
        nums = [ctx.int('num%d' % i, lo, hi) for i in range(4)]
        for i in range(4):
            for j in range(i):
                ctx.assume(nums[i] != nums[j])
        self.p = params(ctx, 'gcm', 128, True, 'p', nums[0])[0]
        self.q = params(ctx, 'ccm', 256, False, 'q', nums[1])[0]
        self.r = params(ctx, 'gcm', 256, True, 'r', nums[2])[0]
        self.s = params(ctx, 'ccm', 128, True, 's', nums[3])[0]
        self.kinds = kinds
        self.known = set()
        self.opened = set()
        self.node, self.man = {}, {}
        for i, k in enumerate(sorted(set(kinds))):
            self.node[k] = B(ctx).node('node' + k, ((1, 16 if i % 2 else None),))[0]
            self.man[k] = again(self.encrypt(k, self.node[k]))

    def encrypt(self, k, node):
        from ccnpy.flic.aeadctx.AeadImpl import AeadImpl
        if k == 'psk':
            return AeadImpl(self.p).create_encrypted_manifest(node)
        if k == 'psk2':
            return AeadImpl(self.q).create_encrypted_manifest(node)
        if k == 'rsa2':
            return as_manifest(encryptor(self.s, 'B_PUB').encrypt(node, include_wrapper=True))
        return as_manifest(encryptor(self.r).encrypt(node, include_wrapper=(k == 'rsa')))

    def add(self, what):
        self.known.add(what)
        if what == 'psk':
            self.ks.add_aes_key(self.p)
        elif what == 'psk2':
            self.ks.add_aes_key(self.q)
        elif what == 'A':
            self.ks.add_rsa_key('a', rsa('A_PRIV'))
        else:
            self.ks.add_rsa_key('b', rsa('B_PRIV'))

    def expected(self, k):
        if k in ('psk', 'psk2'):
            return k in self.known
        if k == 'rsa-':
            return 'rsa' in self.opened
        ok = ('A' if k == 'rsa' else 'B') in self.known or k in self.opened
        if ok:
            self.opened.add(k)
        return ok


LATE = {'psk': 'psk', 'psk2': 'psk2', 'rsa': 'A', 'rsa-': 'A', 'rsa2': 'B'}


def history(ctx, case, get):
    """get(manifest) -> node or raises; the key of the first manifest arrives before step `at`"""
    kinds, at = case
    w = World(ctx, kinds)
    late = LATE[kinds[0]]
    for k in ('psk', 'psk2', 'A', 'B'):
        if k != late:
            w.add(k)
    get = get(w)
    for i, k in enumerate(kinds):
        if i == at:
            w.add(late)
        m = w.man[k]
        if w.expected(k):
            ctx.check(get(m) == w.node[k], 'step %d: node' % i)
        else:
            refuses(ctx, lambda: get(m), 'step %d: a manifest was decrypted without its key' % i)
    ctx.reach()


HISTORIES = [((a, b, c), at) for a in KIND for b in KIND for c in KIND for at in range(4)]


@harness('C16', cases=HISTORIES,
         bounds='every history of 3 manifests over 5 kinds (two preset keys, key transport to two recipients, with and without the wrapped key), the first one\'s key arriving before any step or never; keys, one-octet numbers, salts, contents symbolic')
def selection(ctx, case):
    from ccnpy.flic.tree.DecryptorCache import DecryptorCache

    def get(w):
        c = DecryptorCache(w.ks)
        return lambda m: c.get_or_create(m.security_ctx()).decrypt_manifest(m).node()
    history(ctx, case, get)


LONG = [(('psk', 'rsa', 'psk2', 'psk', 'rsa-'), 0), (('psk', 'psk', 'rsa', 'psk', 'psk2', 'psk'), 3), (('rsa-', 'rsa', 'rsa-', 'rsa2', 'rsa-'), 1),
        (('rsa', 'rsa-', 'psk', 'rsa', 'rsa-', 'rsa2'), 2), (('rsa2', 'psk', 'rsa2', 'psk2', 'psk', 'rsa2'), 2), (('psk2', 'psk', 'psk2', 'psk', 'psk2'), 4)]


@harness('C16', cases=[(h, v) for h in LONG for v in ('manifest', 'node')],
         bounds='histories of up to 6 manifests, four-octet numbers, whole manifests and nodes')
def long_histories(ctx, case):
    from ccnpy.flic.tree.DecryptorCache import DecryptorCache
    h, v = case

    def get(w):
        c = DecryptorCache(w.ks)
        if v == 'manifest':
            return lambda m: c.get_or_create(m.security_ctx()).decrypt_manifest(m).node()
        return lambda m: c.get_or_create(m.security_ctx()).decrypt_node(m.security_ctx(), m.node(), m.auth_tag())
    history(ctx, h, get)


@harness('C16', cases=[('rsa', 'own'), ('own', 'rsa', 'own', 'rsa-'), ('rsa', 'own', 'rsa-', 'own'), ('psk', 'own', 'rsa', 'own')],
         bounds='the transported content key also used directly as a preset key under the same number')
def same_number(ctx, kinds):
    from ccnpy.flic.aeadctx.AeadImpl import AeadImpl
    from ccnpy.flic.tree.DecryptorCache import DecryptorCache
    w = World(ctx, ('psk', 'rsa', 'rsa-'))
    w.add('psk')
    w.add('A')
    node = B(ctx).node('own', ((1, None),))[0]
    own = again(AeadImpl(w.r).create_encrypted_manifest(node))
    c = DecryptorCache(w.ks)
    for i, k in enumerate(kinds):
        m = own if k == 'own' else w.man[k]
        get = lambda: c.get_or_create(m.security_ctx()).decrypt_manifest(m).node()
        if (('rsa' in w.opened) if k == 'own' else w.expected(k)):
            ctx.check(get() == (node if k == 'own' else w.node[k]), 'step %d: node' % i)
        else:
            refuses(ctx, get, 'step %d: a manifest was decrypted without its key' % i)
    ctx.reach()


@harness('C16', bounds='keystore with two keys under any two key numbers of up to 64 bits, added in either order')
def lookup(ctx):
    from ccnpy.crypto.InsecureKeystore import KeyNumberNotFoundError
    from ccnpy.flic.tlvs.KeyNumber import KeyNumber
    a, b, x = (ctx.int(k, 0, 2**64 - 1) for k in 'abx')
    p = params(ctx, 'gcm', 128, True, 'p', a)[0]
    q = params(ctx, 'ccm', 256, False, 'q', b)[0]
    ks = keystore(aes=(p, q))
    try:
        got = ks.get_aes_key(KeyNumber(x))
    except KeyNumberNotFoundError:
        ctx.check(x != a and x != b, 'a known key number was not found')
        return ctx.reach()
    ctx.check(x == b or (x == a and a != b), 'a key was found under another number')
    if x == b:
        ctx.check(got is q, 'another key was found')
    else:
        ctx.check(got is p, 'another key was found')
    ctx.reach()


# ------------------------------------------------------------------------------------------------ C27
NAMES = ['HKDF-SHA256', 'HKDF-SHA384', 'HKDF-SHA512']
LEN = {'HKDF-SHA256': 32, 'HKDF-SHA384': 48, 'HKDF-SHA512': 64}


def octets_or_none(ctx, name, sizes):
    n = ctx.choose(name + '.len', sizes)
    return None if n is None else ctx.bytes(name, n)


@harness('C27', cases=NAMES,
         bounds='every input key of 16, 24 or 32 octets, salt absent or of 6 lengths up to 130 octets, info absent or of 6 lengths up to 300 octets, 6 output lengths')
def derive(ctx, name):
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.kdf.hkdf import HKDF
    from ccnpy.crypto.HpkeKdfIdentifiers import HpkeKdfIdentifiers
    from ccnpy.crypto.KDF import KDF
    alg = {'HKDF-SHA256': HpkeKdfIdentifiers.HKDF_SHA256, 'HKDF-SHA384': HpkeKdfIdentifiers.HKDF_SHA384,
           'HKDF-SHA512': HpkeKdfIdentifiers.HKDF_SHA512}[name]
    h = {'HKDF-SHA256': hashes.SHA256, 'HKDF-SHA384': hashes.SHA384, 'HKDF-SHA512': hashes.SHA512}[name]()
    key = ctx.bytes('key', ctx.choose('key.len', [16, 24, 32]))
    salt = octets_or_none(ctx, 'salt', [None, 0, 4, 20, 65, 130])
    info = octets_or_none(ctx, 'info', [None, 0, 3, 20, 65, 130, 300])
    n = ctx.choose('length', [1, 16, 32, 48, 100, 255 * 32])
    got = KDF.derive(kdf_id=alg, input_key=key, length=n, info=info, salt=salt)
    want = HKDF(algorithm=h, length=n, salt=salt, info=info).derive(key)
    ctx.check(len(got) == n, 'length')
    ctx.check(got == want, 'not the HKDF output')
    ctx.check(KDF.derive(alg, key, n, info, salt) == got, 'not the same for equal inputs')
    ctx.reach()


@harness('C27', bounds='every other kind of algorithm identifier: any integer, names, none')
def unknown(ctx):
    from ccnpy.crypto.KDF import KDF
    alg = ctx.choose('alg', [None, 'HKDF-SHA1', 'HKDF-SHA256', 'int'])
    if alg == 'int':
        alg = ctx.int('n', -1, 2**32)
    try:
        KDF.derive(alg, ctx.bytes('key', 16), 16)
    except Exception:
        return ctx.reach()
    ctx.fail('an unknown algorithm was accepted')


@harness('C27', cases=[0, 1, 10, 11, 12], bounds='every name of 0..12 ASCII characters')
def names(ctx, n):
    from ccnpy.crypto.HpkeKdfIdentifiers import HpkeKdfIdentifiers
    s = ctx.str('name', n)
    try:
        x = HpkeKdfIdentifiers.parse(s)
    except KeyError:
        ctx.check(s.upper() not in NAMES, 'a known name was refused')
        return ctx.reach()
    i = x.number
    ctx.check(i in (1, 2, 3), 'number')
    ctx.check(s.upper() == NAMES[i - 1], 'another algorithm')
    ctx.check(str(x) == NAMES[i - 1], 'display')
    ctx.reach()


@harness('C27', cases=[(a, k, i) for a in ('gcm', 'ccm') for k in (128, 256) for i in (None, 1, 4)],
         bounds='nodes encrypted with and without key derivation: AES-GCM/CCM 128/256, all algorithms, infos of 1 and 4 octets, salt absent or any 32-bit number, symbolic key, key number and nonce')
def derived_key(ctx, case):
    """with key derivation configured, manifests are not encrypted under the configured key itself; without, they are"""
    from ccnpy.flic.aeadctx.AeadImpl import AeadImpl
    algo, bits, info = case
    kdf = None
    if info:
        from ccnpy.flic.tlvs.KdfAlg import KdfAlg
        from ccnpy.flic.tlvs.KdfData import KdfData
        from ccnpy.flic.tlvs.KdfInfo import KdfInfo
        kdf = KdfData(kdf_alg=KdfAlg(ctx.choose('kdf.alg', [1, 2, 3])), kdf_info=KdfInfo(ctx.bytes('kdf.info', info)))
    kw = {'kdf_salt': ctx.int('kdf.salt', 0, 2**32 - 1)} if info and ctx.bool('kdf.salted') else {}
    p, n, s = params(ctx, algo, bits, kdf_data=kdf, **kw)
    node = B(ctx).node('n', ((1, 16),), None)[0]
    m = again(AeadImpl(p).create_encrypted_manifest(node))
    c = m.security_ctx()
    ctx.check((c.aead_data().kdf_data() is None) == (kdf is None), 'the manifest does not say whether its key is derived')
    if kdf is not None:
        ctx.check(c.aead_data().kdf_data() == kdf, 'the manifest names another key derivation')
    ctx.check(AeadImpl(p).decrypt_manifest(m).node() == node, 'decrypted node differs')
    ctx.reach()
    x = bytes(m.node().value()) + bytes(m.auth_tag().value())
    try:
        opened = bytes(raw(algo, bytes(p.key.key())).decrypt(iv_of(s, bytes(c.nonce().value())), x, bytes(c.serialize())))
    except Exception:
        opened = None
    if kdf is None:
        return ctx.check(opened is not None and opened == bytes(node.serialized_value()), 'encrypted under another key')
    ctx.known('C27-kdf-unused', opened is not None)
    ctx.check(opened is None, 'key derivation has no effect: the configured key decrypts the node')
