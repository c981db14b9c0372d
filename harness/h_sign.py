"""C17 signatures and checksums"""
from .api import harness
from . import keys
from .h_core import be
from .h_packet import content, mkbody, mkname


def signer_of(kind):
    from ccnpy.crypto.Crc32c import Crc32cSigner, Crc32cVerifier
    from ccnpy.crypto.RsaKey import RsaKey
    from ccnpy.crypto.RsaSha256 import RsaSha256Signer, RsaSha256Verifier
    if kind == 'crc':
        return Crc32cSigner(), Crc32cVerifier()
    return RsaSha256Signer(RsaKey(keys.A_PRIV)), RsaSha256Verifier(RsaKey(keys.A_PUB))


def signed_packet(ctx, kind, mask=9, plen=4, names=(2,), nm='s'):
    from ccnpy.core.Packet import Packet
    from ccnpy.core.SignatureTime import SignatureTime
    co, v = mkbody(ctx, mask, plen, names, nm=nm, full=40 if kind == 'crc' else 600)
    s, ver = signer_of(kind)
    if kind == 'crc':
        alg = s.validation_alg()
    else:
        alg = s.validation_alg(signature_time=SignatureTime(ctx.int(nm + '.sigms', 0, 2**40) / 1000))
    sig = s.sign(co.serialize(), alg.serialize())
    return Packet.create_signed_content_object(co, alg, sig), co, alg, sig, ver


def store(*pems):
    from ccnpy.crypto.InsecureKeystore import InsecureKeystore
    from ccnpy.crypto.RsaKey import RsaKey
    ks = InsecureKeystore()
    for i, p in enumerate(pems):
        ks.add_rsa_key('key%d' % i, RsaKey(p))
    return ks


@harness('C17', cases=[(k, m, 4) for k in ('crc', 'rsa') for m in (0, 1, 8, 13, 31)] +
         [('rsa', 9, n) for n in (300, 1030, 4100, 8200, 16390, 33000, 65000)] + [('crc', 9, n) for n in (64, 300, 1030)],
         bounds='bodies with any subset of fields, symbolic contents, payloads of up to 65000 octets (symbolic stretches), both algorithms, received packets')
def sign_verify(ctx, case):
    from ccnpy.core.Packet import Packet
    from ccnpy.core.PacketValidator import PacketValidator
    kind, mask, plen = case
    pk, co, alg, sig, ver = signed_packet(ctx, kind, mask, plen)
    ctx.check(ver.verify(co.serialize(), alg.serialize(), validation_payload=sig), 'a signature does not verify')
    p = Packet.deserialize(pk.serialize())
    ctx.check(ver.verify(p.body().serialize(), p.validation_alg().serialize(), validation_payload=p.validation_payload()),
              'the signature of a received packet does not verify')
    ctx.check(p.validation_alg() == alg, 'algorithm fields')
    if kind == 'rsa':
        ctx.check(p.validation_alg().keyid() == ver._key.keyid(), 'key id')
        ctx.check(p.validation_alg().signature_time().milliseconds() == alg.signature_time().milliseconds(), 'time')
    order = [[keys.A_PUB], [keys.A_PRIV], [keys.B_PRIV, keys.A_PUB], [keys.A_PUB, keys.B_PUB]][ctx.choose('order', [0, 1, 2, 3])]
    PacketValidator(store(*order)).validate_packet(p)
    ctx.reach()


@harness('C17', cases=['crc', 'rsa'], bounds='signing a message in 1..3 pieces, symbolic contents')
def pieces(ctx, kind):
    s, ver = signer_of(kind)
    n = ctx.choose('n', [1, 2, 3])
    bufs = [ctx.array('b%d' % i, 2) for i in range(n)]
    whole = ctx.array('x', 0)
    for b in bufs:
        whole.extend(b)
    sig = s.sign(*bufs)
    ctx.check(s.sign(whole) == sig, 'the signature depends on how the message is cut')
    ctx.check(ver.verify(whole, validation_payload=sig), 'verification of the whole message')
    ctx.check(ver.verify(*bufs, validation_payload=sig), 'verification of the pieces')
    if n > 1 and kind == 'rsa':
        ctx.check(not ver.verify(*bufs[:-1], validation_payload=sig), 'a message without its last piece verifies')
        ctx.check(not ver.verify(*bufs[1:], validation_payload=sig), 'a message without its first piece verifies')
    if kind == 'crc':
        import crc32c
        ctx.check(be(sig.payload()) == crc32c.crc32c(whole), 'checksum value')
        ctx.check(len(sig.payload()) == 4, 'checksum length')
    ctx.reach()


@harness('C17', cases=[('crc', 'body', 8), ('rsa', 'body', 8), ('rsa', 'alg', 8), ('crc', 'sig', 8), ('rsa', 'sig', 8)] +
         [('rsa', 'body', n) for n in (300, 1030, 4100, 8200, 16390, 33000, 65000)] + [('crc', 'body', n) for n in (64, 300, 1030)],
         bounds='payloads of 8..65000 octets; 4 adjacent bytes of the body content, of the key id, of the signature time or of the signature replaced by anything')
def tampered_content(ctx, case):
    """the parts keep their shape: verifier and validator must reject every change"""
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.HashValue import HashValue
    from ccnpy.core.Name import Name, NameComponent
    from ccnpy.core.Packet import Packet
    from ccnpy.core.PacketValidator import PacketValidator
    from ccnpy.core.Payload import Payload
    from ccnpy.core.SignatureTime import SignatureTime
    from ccnpy.core.ValidationAlg import ValidationAlg_RsaSha256
    from ccnpy.core.ValidationPayload import ValidationPayload
    import array
    kind, part, plen = case
    name = Name([NameComponent(1, b'nm')])
    pay = content(ctx, 'payload', plen, 24)
    co = ContentObject(name=name, payload=Payload(pay))
    s, ver = signer_of(kind)
    kid = None
    if kind == 'rsa':
        alg = s.validation_alg(signature_time=SignatureTime(1234.5))
        kid = alg.keyid()
    else:
        alg = s.validation_alg()
    sig = s.sign(co.serialize(), alg.serialize())
    co2, alg2, sig2 = co, alg, sig
    if part == 'body':
        if plen > 8 or ctx.choose('field', ['payload', 'name']) == 'payload':
            off = ctx.choose('off', [0, 1, 2, 3, 4] if plen == 8 else [0, plen // 3, plen // 2, plen - 5, plen - 4])
            repl = ctx.bytes('repl', 4)
            p2 = pay[:off] + repl + pay[off + 4:]
            ctx.assume(p2 != pay)
            co2 = ContentObject(name=name, payload=Payload(p2))
        else:
            t = ctx.int('t', 0, 0xFFFF)
            c = ctx.bytes('c', 2)
            n2 = Name([NameComponent(t, c)])
            ctx.assume(n2 != name)
            if kind == 'crc':
                # a burst of at most 32 bits: the length bytes in between do not change
                ctx.assume(t == 1 or c == b'nm')
            co2 = ContentObject(name=n2, payload=Payload(pay))
    elif part == 'alg':
        if ctx.choose('field', ['time', 'keyid']) == 'time':
            ms = ctx.int('ms', 0, 2**42)
            ctx.assume(ms != 1234500)
            alg2 = ValidationAlg_RsaSha256(keyid=kid, signature_time=SignatureTime(ms / 1000))
        else:
            d = ctx.bytes('kid', 32)
            ctx.assume(d != bytes(kid.value()))
            alg2 = ValidationAlg_RsaSha256(keyid=HashValue.create_sha256(d), signature_time=SignatureTime(1234.5))
    else:
        n = len(sig.payload())
        how = ctx.choose('how', ['replace', 'short', 'long', 'empty'])
        x = array.array('B', sig.payload())
        if how == 'replace':
            off = ctx.choose('off', [0, n - 4])
            for i in range(4):
                x[off + i] = ctx.int('r%d' % i, 0, 255)
        elif how == 'short':
            x = x[:-1]
        elif how == 'long':
            x.append(ctx.int('extra', 0, 255))
        else:
            x = x[:0]
        ctx.assume(bytes(x) != bytes(sig.payload()))
        sig2 = ValidationPayload(x)
    ctx.check(not ver.verify(co2.serialize(), alg2.serialize(), validation_payload=sig2), 'a changed packet verifies')
    pk = Packet.create_signed_content_object(co2, alg2, sig2)
    p = Packet.deserialize(pk.serialize())
    try:
        PacketValidator(store(keys.A_PUB, keys.B_PUB)).validate_packet(p)
    except Exception:
        ctx.reach()
        return
    ctx.fail('the validator accepted a changed packet')


@harness('C17', cases=[(k, m, n) for k in ('crc', 'rsa') for m, n in [(m, 2) for m in range(32)] + [(8, 0), (9, 0), (13, 0), (31, 0), (9, 1)]],
         bounds='bodies with every subset of fields, payloads of 0..2 octets; any other signature of the same length (RSA: any two octets at either end replaced)')
def forged(ctx, case):
    """whatever the body holds, a signature that is not the right one is refused"""
    from ccnpy.core.Packet import Packet
    from ccnpy.core.PacketValidator import PacketValidator
    from ccnpy.core.ValidationPayload import ValidationPayload
    kind, mask, plen = case
    pk, co, alg, sig, ver = signed_packet(ctx, kind, mask, plen, (1,))
    w = bytes(sig.payload())
    at = 0 if kind == 'crc' else ctx.choose('at', [0, len(w) - 2])
    x = ctx.bytes('forged', 4 if kind == 'crc' else 2)
    ctx.assume(x != w[at:at + len(x)])
    bad = ValidationPayload(w[:at] + x + w[at + len(x):])
    ctx.check(not ver.verify(co.serialize(), alg.serialize(), validation_payload=bad), 'a forged signature verifies')
    p = Packet.create_signed_content_object(co, alg, bad)
    for q in (p, Packet.deserialize(p.serialize())):
        try:
            PacketValidator(store(keys.B_PUB, keys.A_PUB)).validate_packet(q)
        except Exception:
            continue
        ctx.fail('the validator accepted a forged signature')
    ctx.reach()


@harness('C17', cases=[(k, 8) for k in ('crc', 'rsa')], thorough_cases=[('crc', 9), ('rsa', 9)],
         bounds='any single byte of a signed packet, framing included, replaced by any other value (signature times of 40 bits)')
def tampered_byte(ctx, case):
    """whatever is accepted carries exactly the original content and signature parts"""
    from ccnpy.core.Packet import Packet
    from ccnpy.core.PacketValidator import PacketValidator
    import array
    kind, mask = case
    pk, co, alg, sig, ver = signed_packet(ctx, kind, mask, 2, (1,))
    w = array.array('B', pk.serialize())
    n = len(w) if kind == 'crc' else len(w) - len(sig) + 6
    at = ctx.concrete(ctx.int('at', 8, n - 1))
    b = ctx.int('b', 0, 255)
    top = 8 + len(co) + len(alg) - 8
    ctx.assume(kind != 'rsa' or not top <= at < top + 3)   # times beyond 40 bits are outside the bound
    ctx.assume(b != w[at])
    w[at] = b
    try:
        p = Packet.deserialize(w)
        PacketValidator(store(keys.A_PUB, keys.B_PUB)).validate_packet(p)
    except Exception:
        ctx.reach()
        return
    if kind == 'crc' and p.serialize() != w:
        return      # read as other fields and encoded differently: more than a burst of 32 bits for the checksum
    ctx.check(p.body() == co, 'a changed body was accepted')
    ctx.check(p.validation_alg() is not None and p.validation_alg() == alg, 'changed algorithm fields were accepted')
    ctx.check(p.validation_payload() == sig, 'a changed signature was accepted')
    ctx.reach('same')


@harness('C17', bounds='a keystore holding any subset of two keys; unsigned and signed packets')
def validator_keys(ctx):
    from ccnpy.core.HashValue import HashValue
    from ccnpy.core.KeyId import KeyId
    from ccnpy.core.Packet import Packet
    from ccnpy.core.PacketValidator import PacketValidator
    from ccnpy.core.ValidationAlg import ValidationAlg_RsaSha256
    from ccnpy.core.SignatureTime import SignatureTime
    from ccnpy.crypto.InsecureKeystore import KeyIdNotFoundError
    from ccnpy.crypto.RsaKey import RsaKey
    pk, co, alg, sig, ver = signed_packet(ctx, 'rsa')
    held = ctx.choose('held', [(), ('A',), ('B',), ('A', 'B'), ('B', 'A')])
    ks = store(*[{'A': keys.A_PUB, 'B': keys.B_PUB}[k] for k in held])
    val = PacketValidator(ks)
    how = ctx.choose('how', ['genuine', 'other key claimed', 'unsigned'])
    if how == 'unsigned':
        val.validate_packet(Packet.create_content_object(co))
        ctx.reach(how)
        return
    if how == 'other key claimed':
        s = signer_of('rsa')[0]
        alg = ValidationAlg_RsaSha256(keyid=RsaKey(keys.B_PUB).keyid(), signature_time=SignatureTime(1.5))
        pk = Packet.create_signed_content_object(co, alg, s.sign(co.serialize(), alg.serialize()))
    want = 'A' if how == 'genuine' else 'B'
    try:
        val.validate_packet(pk)
        ok = True
    except KeyIdNotFoundError:
        ctx.check(want not in held, 'a stored key was reported as unknown')
        ctx.reach('unknown')
        return
    except Exception:
        ctx.check(want in held, 'an unknown key was not reported as such')
        ok = False
    ctx.check(want in held, 'a packet was accepted without its key')
    ctx.check(ok == (how == 'genuine'), 'wrong verdict')
    ctx.reach(how)


@harness('C17', bounds='a private and a public key of the same pair, and another pair')
def key_ids(ctx):
    from ccnpy.crypto.RsaKey import RsaKey
    from ccnpy.crypto.RsaSha256 import RsaSha256Signer, RsaSha256Verifier
    import hashlib
    a, p, b = RsaKey(keys.A_PRIV), RsaKey(keys.A_PUB), RsaKey(keys.B_PUB)
    ctx.check(a.keyid() == p.keyid(), 'the two halves of a key have different ids')
    ctx.check(a.keyid() != b.keyid(), 'different keys have the same id')
    ctx.check(bytes(a.keyid().value()) == hashlib.sha256(p.public_key_der()).digest(), 'key id value')
    ctx.check(RsaKey(a.public_key_pem()).keyid() == a.keyid(), 'exported public key')
    try:
        RsaSha256Signer(p)
        ok = True
    except Exception:
        ok = False
    ctx.check(not ok, 'a public key was accepted for signing')
    m = ctx.array('m', 3)
    for pss in (False, True):
        sig = a.sign(m, use_pss_padding=pss)
        ctx.check(p.verify(m, signature=sig, use_pss_padding=pss), 'verification')
        ctx.check(not p.verify(m, signature=sig, use_pss_padding=not pss), 'verification with the other padding')
        ctx.check(not b.verify(m, signature=sig, use_pss_padding=pss), 'verification under another key')
    ctx.reach()


@harness('C17', cases=[(2, a) for a in (0, 1, 2)] + [(3, a) for a in (0, 1, 2, 3)], thorough_cases=[(4, 1), (4, 2)], bounds='one validator over every sequence of 2..3 packets (genuine of either key, checksummed, unsigned, forged in key, body, algorithm or signature, replayed as it was or under another signature), '
         'the second key arriving at any step; symbolic contents')
def validator_history(ctx, case):
    from ccnpy.core.Packet import Packet
    from ccnpy.core.PacketValidator import PacketValidator
    from ccnpy.core.SignatureTime import SignatureTime
    from ccnpy.core.ValidationAlg import ValidationAlg_RsaSha256
    from ccnpy.crypto.Crc32c import Crc32cSigner
    from ccnpy.crypto.RsaKey import RsaKey
    from ccnpy.crypto.RsaSha256 import RsaSha256Signer
    steps, arrives = case
    ks = store(keys.A_PUB)
    val = PacketValidator(ks)
    last = None
    kinds = ['A', 'B', 'crc', 'bad crc', 'A by B', 'B by A', 'body', 'time', 'again', 'resigned', 'unsigned']
    for i in range(steps):
        if i == arrives:
            ks.add_rsa_key('b', RsaKey(keys.B_PUB))
        how = ctx.choose('p%d' % i, kinds if i == steps - 1 or steps == 2 else ['A', 'B', 'crc', 'A by B', 'body'])
        nm = 'p%d' % i
        # distinct lengths keep the signed messages apart
        co, v = mkbody(ctx, 9, 3 + 2 * i, (1,), nm=nm)
        t = SignatureTime(1000.5 + i)
        if how == 'again':
            if last is None:
                continue
            pk, ok = last[:2]
        elif how == 'resigned':
            # the packet before, under another signature
            from ccnpy.core.ValidationPayload import ValidationPayload
            if last is None or last[0].validation_alg() is None:
                continue
            x = bytes(last[0].validation_payload().payload())
            y = ctx.bytes(nm + '.sig', 4) + x[4:]
            ctx.assume(x != y)
            pk, ok = Packet.create_signed_content_object(last[0].body(), last[0].validation_alg(), ValidationPayload(y)), False
            if not last[1]:
                continue
        elif how == 'unsigned':
            pk, ok = Packet.create_content_object(co), True
        elif how in ('crc', 'bad crc'):
            s = Crc32cSigner()
            alg = s.validation_alg()
            sig = s.sign(co.serialize(), alg.serialize())
            if how == 'bad crc':
                from ccnpy.core.ValidationPayload import ValidationPayload
                x = bytes(sig.payload())
                y = ctx.bytes(nm + '.crc', 4)
                ctx.assume(x != y)
                sig = ValidationPayload(y)
            pk, ok = Packet.create_signed_content_object(co, alg, sig), how == 'crc'
        else:
            names = how if how in ('A', 'B') else how[0] if ' by ' in how else 'A'
            by = how[-1] if ' by ' in how else names
            kid = RsaKey({'A': keys.A_PUB, 'B': keys.B_PUB}[names]).keyid()
            alg = ValidationAlg_RsaSha256(keyid=kid, signature_time=t)
            sig = RsaSha256Signer(RsaKey({'A': keys.A_PRIV, 'B': keys.B_PRIV}[by])).sign(co.serialize(), alg.serialize())
            if how == 'body':
                co = mkbody(ctx, 9, 4 + 2 * i, (1,), nm=nm + 'x')[0]
            elif how == 'time':
                ms = ctx.int(nm + '.ms', 0, 2**40)
                ctx.assume(ms != 1000500 + 1000 * i)
                alg = ValidationAlg_RsaSha256(keyid=kid, signature_time=SignatureTime(ms / 1000))
            pk = Packet.create_signed_content_object(co, alg, sig)
            ok = how in ('A', 'B') and (how == 'A' or i >= arrives)
        if how == 'again' and not ok and last[2] == 'B':
            ok = i >= arrives
        try:
            val.validate_packet(Packet.deserialize(pk.serialize()))
            got = True
        except Exception:
            got = False
        ctx.check(got == ok, 'the verdict on a packet is wrong' if ok else 'a bad packet was accepted')
        if how not in ('again', 'resigned'):
            last = (pk, ok, how)
        ctx.reach('%s %s' % (how, ok))
