"""C28 command-line options, C35 the writer and reader tools end to end, C36 the packet viewer"""
from .api import harness

HEX = '0123456789abcdef'


def parser():
    import argparse
    from ccnpy.apps.cli_utils import add_encryption_cli_args
    p = argparse.ArgumentParser()
    add_encryption_cli_args(p)
    return p


def parse(argv):
    import contextlib
    import io
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        return parser().parse_args(argv)


REFUSED = (ValueError, TypeError, KeyError, OverflowError, RuntimeError, AttributeError, AssertionError, SystemExit)


def digits(ctx, nm, form):
    """(text of a number, its value or None when it is no number); form is '0x' or '' and a count of digits"""
    base = 16 if form[0] == 'x' else 10
    n = int(form[1:])
    if base == 16:
        v = ctx.int(nm, 0, 16**n - 1)
        return '0x' + to_hex(v, n), v
    s = ctx.str(nm, n, 48, 57)
    v = 0
    for c in s:
        v = v * 10 + (ord(c) - 48)
    if n > 1:
        ctx.assume(s[0] != '0')
    return s, v


def to_hex(v, n):
    return (v.to_bytes((n + 1) // 2, 'big').hex())[-n:]


@harness('C28', cases=[(b, m, kn, s) for b in (16, 32) for m in ('gcm', 'CCM', None) for kn, s in (('d1', None), ('d3', 'x8'), ('x16', 'd2'), ('x2', 'x4'))],
         bounds='AES keys of 16 and 32 symbolic octets in hexadecimal with and without 0x, both modes, key numbers and salts of symbolic decimal or hexadecimal digits')
def aes_options(ctx, case):
    from ccnpy.apps.cli_utils import aead_decryptor_from_cli_args, aead_encryptor_from_cli_args, aead_parameters_from_cli, encryptor_from_cli_args
    from ccnpy.crypto.AeadKey import AeadCcm, AeadGcm
    bits, mode, kn, s = case
    key = ctx.bytes('key', bits)
    text = ctx.choose('0x', ['', '0x']) + key.hex()
    num, n = digits(ctx, 'num', kn)
    argv = ['--enc-key', text, '--key-num', num]
    if mode is not None:
        argv += ['--aes-mode', mode]
    if s is not None:
        st, salt = digits(ctx, 'salt', s)
        argv += ['--salt', st]
    args = parse(argv)
    p = aead_parameters_from_cli(args)
    ctx.check(bytes(p.key.key()) == key, 'key')
    ctx.check(type(p.key) is (AeadCcm if mode == 'CCM' else AeadGcm), 'AES mode')
    ctx.check(p.key_number.value() == n, 'key number')
    ctx.check((p.aead_salt is None) == (s is None), 'salt presence')
    if s is not None:
        ctx.check(p.aead_salt == salt, 'salt')
        ctx.check(bytes(p.aead_salt_bytes) == salt.to_bytes(4, 'big'), 'salt octets')
    ctx.check(p.kdf_data is None and p.kdf_salt is None, 'key derivation without the option')
    ctx.reach()


@harness('C28', cases=['odd', 'letter', 'length', 'mode', 'num', 'num2', 'salt', 'salt neg', 'kdf', 'kdf salt', 'salt text', 'number overflow'],
         bounds='malformed keys (any non-hexadecimal character at any place, any other key length up to 40 octets), numbers of symbolic characters, salts above 32 bits, unknown modes and derivation functions')
def refused(ctx, what):
    from ccnpy.apps.cli_utils import aead_encryptor_from_cli_args
    opts = {'--enc-key': '00' * 16, '--key-num': '7'}
    k = ctx.bytes('key', 16)
    if what == 'odd':
        opts['--enc-key'] = k.hex()[:ctx.choose('len', [31, 1, 15])]
    elif what == 'letter':
        at = ctx.choose('at', range(32))
        c = ctx.str('char', 1, 33, 126)
        ctx.assume(not (('0' <= c) and (c <= '9') or ('a' <= c) and (c <= 'f') or ('A' <= c) and (c <= 'F')) and not c == '_' and not c == '-')
        if at == 1:
            ctx.assume(c != 'x')
        h = '0123456789abcdef' * 2
        opts['--enc-key'] = h[:at] + c + h[at + 1:]
    elif what == 'length':
        n = ctx.choose('len', [x for x in range(0, 40) if x not in (16, 24, 32)])
        opts['--enc-key'] = '0x' + ctx.bytes('k', n).hex()
    elif what == 'mode':
        s = ctx.str('mode', ctx.choose('n', [1, 3]), 65, 90)
        ctx.assume((s != 'GCM') & (s != 'CCM'))
        opts['--aes-mode'] = s
    elif what in ('num', 'num2'):
        s = ctx.str('num', 1 if what == 'num' else 2, 33, 126)
        for i in range(len(s)):
            ctx.assume((s[i] < '0') | (s[i] > '9'))
            ctx.assume((s[i] != '_') & (s[i] != '-') & (s[i] != '+'))
        opts['--key-num'] = s
    elif what == 'number overflow':
        opts['--key-num'] = '0x1' + ctx.bytes('n', 8).hex()
    elif what == 'salt':
        v = ctx.int('salt', 2**32, 2**40 - 1)
        opts['--salt'] = '0x' + v.to_bytes(5, 'big').hex()
    elif what == 'salt neg':
        s, v = digits(ctx, 'salt', 'd2')
        ctx.assume(v > 0)
        opts['--salt=-' + s] = None
    elif what == 'salt text':
        s = ctx.str('salt', 2, 97, 119)
        opts['--salt'] = s
    elif what == 'kdf':
        s = ctx.str('kdf', 6, 65, 90)
        opts['--kdf'] = 'HKDF-' + s
    else:
        v = ctx.int('salt', 2**32, 2**40 - 1)
        opts['--kdf-salt'] = '0x' + v.to_bytes(5, 'big').hex()
    argv = []
    for o, v in opts.items():
        argv += [o] if v is None else [o, v]
    try:
        aead_encryptor_from_cli_args(parse(argv))
        bad = False
    except REFUSED:
        bad = True
    ctx.check(bad, 'a malformed option is accepted: ' + what)
    ctx.reach()


KDFS = [('hkdf-sha256', 1), ('HKDF-SHA384', 2), ('Hkdf-Sha512', 3)]


@harness('C28', cases=[(i, info, salt) for i in range(3) for info in (None, 'text', 'hex') for salt in (False, True)],
         bounds='key derivation options: all algorithms in any case, info of symbolic text or octets, 32-bit salts')
def kdf_options(ctx, case):
    from ccnpy.apps.cli_utils import aead_parameters_from_cli
    i, info, salt = case
    argv = ['--enc-key', '11' * 16, '--key-num', '9', '--kdf', KDFS[i][0]]
    want = None
    if info == 'text':
        s = ctx.str('info', 3, 97, 122)
        argv += ['--kdf-info', s]
        want = s.encode()
    elif info == 'hex':
        want = ctx.bytes('info', 4)
        argv += ['--kdf-info', '0x' + want.hex()]
    if salt:
        t, v = digits(ctx, 'salt', 'x8')
        argv += ['--kdf-salt', t]
    p = aead_parameters_from_cli(parse(argv))
    ctx.check(p.kdf_data is not None and p.kdf_data.kdf_alg().value() == KDFS[i][1], 'derivation algorithm')
    ctx.check((p.kdf_data.kdf_info() is None) == (want is None), 'info presence')
    if want is not None:
        ctx.check(bytes(p.kdf_data.kdf_info().value()) == want, 'info')
    ctx.check((p.kdf_salt is None) == (not salt), 'derivation salt presence')
    if salt:
        ctx.check(p.kdf_salt == v and bytes(p.kdf_salt_bytes) == v.to_bytes(4, 'big'), 'derivation salt')
    ctx.check(p.aead_salt is None, 'the derivation salt is used as the AEAD salt')
    ctx.reach()


@harness('C28', bounds='keys of any octets without a key number: the writer and the reader tools use the same number for the same key')
def default_number(ctx):
    import hashlib
    from ccnpy.apps.cli_utils import aead_parameters_from_cli, create_keystore
    from ccnpy.flic.tlvs.KeyNumber import KeyNumber
    key = ctx.bytes('key', ctx.choose('n', [16, 32]))
    p = aead_parameters_from_cli(parse(['--enc-key', key.hex()]))
    n = p.key_number.value()
    ctx.check((n >= 0) & (n < 2**64), 'a default key number that is no key number')
    ks = create_keystore(parse(['--enc-key', key.hex(), '--salt', '5']))
    q = ks.get_aes_key(p.key_number)
    ctx.check(bytes(q.key.key()) == key and q.aead_salt == 5, 'key of the reader')
    ctx.reach()


@harness('C28', cases=[('CCM', True, 'psk'), ('GCM', False, 'psk'), ('GCM', True, 'rsa')],
         bounds='what the encryptor made from the options encrypts is decrypted with the key, salt and number of the options, and by the keystore of the same options')
def encryptor(ctx, case):
    from ccnpy.apps.cli_utils import create_keystore, encryptor_from_cli_args
    from ccnpy.crypto.AeadKey import AeadCcm, AeadGcm
    from ccnpy.flic.aeadctx.AeadDecryptor import AeadDecryptor
    from ccnpy.flic.aeadctx.AeadParameters import AeadParameters
    from ccnpy.flic.tlvs.Manifest import Manifest
    from . import keys
    from .h_crypto import decryptor
    from .h_flic import B
    mode, salted, kind = case
    key, (num, n) = ctx.bytes('key', 16), digits(ctx, 'num', 'x4')
    argv, s = ['--enc-key', key.hex(), '--key-num', num, '--aes-mode', mode], None
    if salted:
        st, s = digits(ctx, 'salt', 'x6')
        argv += ['--salt', st]
    rargv = list(argv)
    if kind == 'rsa':
        d = ctx.tmpdir()
        ctx.writefile(d + '/w.pub', keys.A_PUB)
        ctx.writefile(d + '/w.pem', keys.A_PRIV)
        argv += ['--wrap-key', d + '/w.pub']
        rargv = ['--wrap-key', d + '/w.pem']
    enc = encryptor_from_cli_args(parse(argv))
    node = B(ctx).node('n', ((1, 16),))[0]
    c, e, t = enc.encrypt(node, include_wrapper=True) if kind == 'rsa' else enc.encrypt(node)
    m = Manifest.deserialize(Manifest(security_ctx=c, node=e, auth_tag=t).serialize())
    ks = create_keystore(parse(rargv))
    if kind == 'rsa':
        x = decryptor(ks).decrypt_manifest(m)
        ctx.check(x.node() == node, 'decrypted by the keystore of the options')
        q = ks.get_aes_key(m.security_ctx().key_number())
        ctx.check(bytes(q.key.key()) == key and q.aead_salt == s, 'content key and salt')
    else:
        p = AeadParameters(key=(AeadCcm if mode == 'CCM' else AeadGcm)(key), key_number=n, aead_salt=s)
        ctx.check(AeadDecryptor(p).decrypt_manifest(m).node() == node, 'decrypted with the values of the options')
        q = ks.get_aes_key(m.security_ctx().key_number())
        ctx.check(AeadDecryptor(q).decrypt_manifest(m).node() == node, 'decrypted by the keystore of the options')
    ctx.check(m.security_ctx().key_number().value() == n, 'key number')
    ctx.reach()


# ---------------------------------------------------------------------------------------------- running the tools
def tool(ctx, name, argv, ask=''):
    """runs a tool with the given arguments; what it returns or raises"""
    import contextlib
    import getpass
    import importlib
    import io
    import sys
    m = importlib.import_module('ccnpy.apps.' + name)
    old, was = sys.argv, getpass.getpass
    sys.argv = [name] + argv
    getpass.getpass = lambda *a, **k: ask
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            return m.run()
    finally:
        sys.argv, getpass.getpass = old, was


def writer(ctx, argv):
    """runs the writer; the tree options it used, the root packet or the error"""
    from ccnpy.apps import manifest_writer as m
    from ccnpy.flic.name_constructor.SchemaImplFactory import SchemaImplFactory
    from ccnpy.flic.tree.TreeIO import TreeIO
    SchemaImplFactory.reset_nc_id()
    got = {'files': []}
    build, put = m.ManifestWriter.build, TreeIO.PacketDirectoryWriter.put

    def stored(self, p):
        got['files'].append(bytes(p.content_object_hash().value()).hex())
        return put(self, p)
    TreeIO.PacketDirectoryWriter.put = stored

    def watch(self):
        got['options'] = self._tree_options
        got['root'] = build(self)
        return got['root']
    m.ManifestWriter.build = watch
    try:
        tool(ctx, 'manifest_writer', argv)
    finally:
        m.ManifestWriter.build = build
        TreeIO.PacketDirectoryWriter.put = put
    return got


def path(ctx, nm):
    """(URI, components) of a symbolic name"""
    a, b = ctx.str(nm + '.a', 1, 97, 122), ctx.str(nm + '.b', 1, 97, 122)
    return 'ccnx:/' + nm + a + '/' + b, [(nm + a).encode(), b.encode()]


def is_name(ctx, n, cs, what):
    ctx.check(n is not None, what + ' is missing')
    ctx.check(n.count() == len(cs), 'length of ' + what)
    for i, c in enumerate(cs):
        ctx.check(n.component(i).type() == 1 and bytes(n.component(i).value()) == c, what)


def setup(ctx):
    from . import keys
    d = ctx.tmpdir()
    ctx.mkdir(d + '/out')
    ctx.writefile(d + '/key.pem', keys.A_PRIV)
    ctx.writefile(d + '/key.pub', keys.A_PUB)
    ctx.writefile(d + '/wrap.pem', keys.B_PRIV)
    ctx.writefile(d + '/wrap.pub', keys.B_PUB)
    return d


@harness('C28', cases=[('Hashed', l, x) for l in (0, 1, 2, 3) for x in (0, 7)] + [('Prefix', 0, 5), ('Segmented', 0, 2), ('Segmented', 3, 0), ('Segmented', 0, 7)],
         bounds='the writer tool with symbolic names, prefixes and locators, symbolic digits in sizes and degrees, any subset of expiry times, all schemas')
def tree_options(ctx, case):
    import datetime
    from ccnpy.flic.name_constructor.SchemaType import SchemaType
    schema, locs, exp = case
    d = setup(ctx)
    ctx.writefile(d + '/file', b'abc')
    name, cs = path(ctx, 'n')
    deg, degree = digits(ctx, 'degree', 'd1')
    ctx.assume(degree >= 2)
    size, octets = digits(ctx, 'size', 'd4')
    ctx.assume((octets >= 1000) & (octets < 1500))
    ctx.assume((octets == 1000) | (octets == 1234) | (octets == 1499))
    argv = ['--schema', schema, '--name', name, '-d', deg, '-s', size, '-k', d + '/key.pem', '-p', '', '-o', d + '/out']
    want = {}
    for bit, opt in ((1, 'manifest'), (2, 'data')):
        if locs & bit:
            u, want[opt + '_locators'] = path(ctx, 'l' + opt)
            argv += ['--%s-locator' % opt, u]
        if schema == 'Segmented':
            u, want[opt + '_prefix'] = path(ctx, 'p' + opt)
            argv += ['--%s-prefix' % opt, u]
    times = {}
    for bit, opt, iso, ms in ((1, 'root', '2031-02-03T04:05:06+00:00', 1927857906000), (2, 'node', '2032-02-03T04:05:06.250+00:00', 1959393906250),
                              (4, 'data', '2033-02-03T04:05:06+01:00', 1991012706000)):
        f = {'root': 'root_expiry_time', 'node': 'manifest_expiry_time', 'data': 'data_expiry_time'}[opt]
        times[f] = None
        if exp & bit:
            argv += ['--%s-expiry' % opt, iso]
            times[f] = ms
    o = writer(ctx, argv + [d + '/file'])['options']
    is_name(ctx, o.name, cs, 'name')
    ctx.check(o.schema_type == {'Hashed': SchemaType.HASHED, 'Prefix': SchemaType.PREFIX, 'Segmented': SchemaType.SEGMENTED}[schema], 'schema')
    ctx.check(o.max_tree_degree == degree, 'degree')
    ctx.check(o.max_packet_size == octets, 'packet size')
    ctx.check(o.manifest_encryptor is None, 'encryption without a key')
    ctx.check(o.signer is not None, 'no signer')
    for f in ('manifest_prefix', 'data_prefix'):
        x = getattr(o, f)
        ctx.check((x is None) == (f not in want), f + ' presence')
        if f in want:
            is_name(ctx, x, want[f], f)
    for f in ('manifest_locators', 'data_locators'):
        x = getattr(o, f)
        ctx.check((x is None) == (f not in want), f + ' presence')
        if f in want:
            ctx.check(x.count() == 1, 'number of locators')
            is_name(ctx, x[0].name(), want[f], f)
    for f, ms in times.items():
        x = getattr(o, f)
        ctx.check((x is None) == (ms is None), f + ' presence')
        if ms is not None:
            ctx.check(x.milliseconds() == ms, f)
    ctx.reach()


@harness('C28', cases=['no manifest prefix', 'no data prefix', 'prefix with hashed', 'prefix with prefix', 'schema', 'time', 'size', 'degree', 'no name', 'uri', 'directory'],
         bounds='option sets the writer must refuse, leaving no packet behind')
def writer_refuses(ctx, what):
    d = setup(ctx)
    ctx.writefile(d + '/file', b'abc')
    o = {'--schema': 'Hashed', '--name': 'ccnx:/a/b', '-k': d + '/key.pem', '-p': '', '-o': d + '/out', '-s': '1000'}
    s = ctx.str('text', 2, 97, 122)
    if what.startswith('no '):
        if what == 'no name':
            del o['--name']
        else:
            o['--schema'] = 'Segmented'
            o['--manifest-prefix' if what == 'no data prefix' else '--data-prefix'] = 'ccnx:/' + s
    elif what.startswith('prefix'):
        o['--schema'] = 'Hashed' if what == 'prefix with hashed' else 'Prefix'
        o[ctx.choose('which', ['--manifest-prefix', '--data-prefix'])] = 'ccnx:/' + s
    elif what == 'schema':
        o['--schema'] = s + 'shed'
    elif what == 'time':
        o[ctx.choose('which', ['--root-expiry', '--node-expiry', '--data-expiry'])] = ctx.choose('time', ['soon', '2030-13-01T00:00:00', '-1', ''])
    elif what == 'size':
        o['-s'] = s
    elif what == 'degree':
        o['-d'] = s
    elif what == 'uri':
        o['--name'] = s + ':/a'
    else:
        o['-o'] = d + '/' + s
    argv = []
    for k, v in o.items():
        argv += [k, v]
    try:
        writer(ctx, argv + [d + '/file'])
        bad = False
    except REFUSED:
        bad = True
    except OSError:
        bad = what == 'directory'
    ctx.check(bad, 'the option set is accepted: ' + what)
    ctx.check(len(ctx.listdir(d + '/out')) == 0, 'packets are written under refused options')
    ctx.reach()


# ------------------------------------------------------------------------------------------------ C35
def protect(ctx, d, enc):
    """(options of the writer, of the reader, of a reader with something wrong or missing)"""
    key, salt = ctx.bytes('enckey', 32 if enc == 'ccm' else 16), '0x' + ctx.bytes('encsalt', 4).hex()
    if enc is None:
        return [], [], {'signature key': ['-k', d + '/wrap.pub']}
    if enc in ('gcm', 'ccm'):
        a = ['--enc-key', key.hex(), '--key-num', '77', '--aes-mode', enc]
        if enc == 'gcm':
            a += ['--salt', salt]
        other = ctx.bytes('otherkey', len(key))
        ctx.assume(other != key)
        w = {'key': ['--enc-key', other.hex(), '--key-num', '77', '--aes-mode', enc] + (['--salt', salt] if enc == 'gcm' else []),
             'number': ['--enc-key', key.hex(), '--key-num', '78', '--aes-mode', enc] + (['--salt', salt] if enc == 'gcm' else []),
             'none': [], 'mode': ['--enc-key', key.hex(), '--key-num', '77', '--aes-mode', {'gcm': 'ccm', 'ccm': 'gcm'}[enc]] + (['--salt', salt] if enc == 'gcm' else []),
             'salt': ['--enc-key', key.hex(), '--key-num', '77', '--aes-mode', enc] + (['--salt', '1'] if enc == 'ccm' else [])}
        return a, a, w
    a = ['--wrap-key', d + '/wrap.pub']
    if enc == 'rsa with key':
        a += ['--enc-key', key.hex(), '--key-num', '0x4d', '--salt', salt]
    r = ['--wrap-key', d + '/wrap.pem']
    return a, r, {'key': ['--wrap-key', d + '/key.pem'], 'none': [], 'public': ['--wrap-key', d + '/wrap.pub']}


def chunks_file(ctx, n, p, tail):
    from .h_tree import some_file
    return some_file(ctx, n, p, tail)


def written(ctx, schema, enc, n, degree, link, size=700, extra=(), data=None):
    """writes a file of about n data objects with the tool"""
    from .h_tree import options, payload_size, uri
    d = setup(ctx)
    p = size - 100
    data = chunks_file(ctx, n, p, 41) if data is None else data
    ctx.writefile(d + '/file', data)
    w, r, wrong = protect(ctx, d, enc)
    argv = ['--schema', schema, '--name', 'ccnx:/a/file', '-s', str(size), '-k', d + '/key.pem', '-p', '', '-o', d + '/out'] + w + list(extra)
    if schema == 'Segmented':
        argv += ['--manifest-prefix', 'ccnx:/a/man', '--data-prefix', 'ccnx:/a/dat']
    if degree:
        argv += ['-d', str(degree)]
    if link:
        argv += ['--link']
    return d, data, dict(writer(ctx, argv + [d + '/file']), options=w), r, wrong


def restored(ctx, d, argv, name='ccnx:/a/file'):
    """(octets the reader tool gave, whether it succeeded)"""
    try:
        tool(ctx, 'manifest_reader', ['--name', name, '-i', d + '/out', '--output', d + '/got'] + ([] if '-k' in argv else ['-k', d + '/key.pub']) + argv)
        good = True
    except REFUSED + (OSError, NotImplementedError):
        good = False
    return ctx.readfile(d + '/got') if ctx.exists(d + '/got') else b'', good


E2E = [(s, e, n, g, l) for s in ('Hashed', 'Prefix', 'Segmented') for e, n, g, l in
       ((None, 1, None, 'link'), ('gcm', 3, None, 'hash'), ('ccm', 5, 3, 'link'), ('rsa', 4, 2, 'hash'), ('rsa with key', 2, None, 'link'), (None, 7, 3, 'hash'))]


@harness('C35', cases=E2E, thorough_cases=[(s, e, n, g, l) for s in ('Hashed', 'Prefix', 'Segmented') for e in (None, 'gcm', 'ccm', 'rsa') for n, g, l in ((13, 3, 'link'), (9, 2, 'hash'), (20, None, 'link'))],
         bounds='files of 1..7 data objects (thorough 20) with symbolic octets, all schemas, plain, pre-shared key and RSA-OAEP encryption with symbolic keys and salts, looked up by name through a link or by root hash')
def round_trip(ctx, case):
    schema, enc, n, degree, nav = case
    d, data, got, r, wrong = written(ctx, schema, enc, n, degree, nav == 'link')
    if nav == 'hash':
        r = r + ['--hash', bytes(got['root'].content_object_hash().value()).hex()]
    out, good = restored(ctx, d, r)
    ctx.check(good, 'the reader tool fails')
    ctx.check(out == data, 'the file restored by the tools differs')
    ctx.reach()


@harness('C35', cases=[('Prefix', None), ('Hashed', 'gcm'), ('Segmented', None)],
         bounds='files of 1 and 3 data objects; an output file that exists already, shorter, as long as and longer than the file, symbolic octets')
def over_existing(ctx, case):
    schema, enc = case
    n = ctx.choose('n', [1, 3])
    d, data, got, r, wrong = written(ctx, schema, enc, n, None, True)
    m = ctx.choose('old', [0, 1, 41, len(data) - 1, len(data), len(data) + 1, len(data) + 700])
    ctx.writefile(d + '/got', ctx.bytes('old', min(m, 6)) + bytes(max(0, m - 6)))
    out, good = restored(ctx, d, r)
    ctx.check(good, 'the reader tool fails over an existing file')
    ctx.check(out == data, 'the output differs from the file when it existed already')
    good2 = restored(ctx, d, r)
    ctx.check(good2[1] and good2[0] == data, 'a second run of the reader gives something else')
    ctx.reach()


@harness('C35', cases=[('Hashed', 'Hashed', None), ('Prefix', 'Segmented', None), ('Segmented', 'Prefix', 'gcm')],
         bounds='two files of 2 and 3 data objects with symbolic octets written by two runs of the tool to one directory, read in either order by name and by hash')
def two_runs(ctx, case):
    s1, s2, enc = case
    from ccnpy.core.Packet import Packet
    d, one, got, r, wrong = written(ctx, s1, enc, 2, None, True)
    two = chunks_file(ctx, 3, 600, 17) + ctx.bytes('second', 2)
    ctx.writefile(d + '/file2', two)
    argv = ['--schema', s2, '--name', 'ccnx:/a/file2', '-s', '700', '-k', d + '/key.pem', '-p', '', '-o', d + '/out', '-d', '2', '--link'] + list(got['options'])
    if s2 == 'Segmented':
        argv += ['--manifest-prefix', 'ccnx:/a/man2', '--data-prefix', 'ccnx:/a/dat2']
    got2 = writer(ctx, argv + [d + '/file2'])
    for k in ctx.choose('order', [(1, 2), (2, 1), (2, 2)]):
        name, g, want = (('ccnx:/a/file', got, one), ('ccnx:/a/file2', got2, two))[k - 1]
        h = ctx.choose('nav%d' % k, ['name', 'hash']) == 'hash'
        a = ['--hash', bytes(g['root'].content_object_hash().value()).hex()] if h else []
        out, good = restored(ctx, d, r + a, name)
        ctx.check(good, 'the reader tool fails on a directory with two files')
        ctx.check(out == want, 'the reader tool gives another file')
    ctx.reach()


@harness('C35', cases=[('Hashed', None), ('Prefix', 'gcm'), ('Segmented', None), ('Hashed', 'rsa')],
         bounds='files of 4 and 6 data objects in which objects repeat in every pattern, symbolic octets')
def repeated(ctx, case):
    schema, enc = case
    a, b = bytes(600)[:599] + b'a', b'b' + ctx.bytes('b', 1) + bytes(598)
    data = b''.join([(a, b)[k] for k in ctx.choose('pattern', [(0, 0, 0, 0), (0, 1, 0, 1), (0, 0, 1, 1), (1, 0, 0, 1), (0, 0, 0, 1, 0, 0)])])
    d, data, got, r, wrong = written(ctx, schema, enc, 4, 2, True, data=data)
    out, good = restored(ctx, d, r)
    ctx.check(good, 'the reader tool fails on repeated objects')
    ctx.check(out == data, 'a file with repeated objects differs')
    ctx.reach()


@harness('C35', cases=[('Prefix', None), ('Hashed', 'gcm'), ('Prefix', 'ccm'), ('Segmented', 'rsa'), ('Hashed', 'rsa'), ('Hashed', 'rsa with key')],
         bounds='files of 3 data objects: a reader without the key, with any other key, key number or mode, or with another signature key')
def wrong_key(ctx, case):
    schema, enc = case
    d, data, got, r, wrong = written(ctx, schema, enc, 3, None, True)
    how = ctx.choose('wrong', sorted(wrong))
    out, good = restored(ctx, d, wrong[how])
    ctx.check(not good or len(out) == 0, 'the reader tool gives a file without the right key: ' + how)
    ctx.check(len(out) == 0, 'octets of the file come out without the right key: ' + how)
    ctx.reach()


@harness('C35', cases=[(s, e, v) for s, e in (('Hashed', None), ('Segmented', 'gcm'), ('Prefix', None)) for v in ('gone', 'octet', 'swap')],
         bounds='files of 3 data objects and their manifests: any one stored packet removed, changed in any one octet, or replaced by another packet of the store')
def damaged(ctx, case):
    schema, enc, v = case
    d, data, got, r, wrong = written(ctx, schema, enc, 3, 2, False)
    from ccnpy.core.Packet import Packet
    from ccnpy.flic.tree.TreeIO import TreeIO
    r = r + ['--hash', bytes(got['root'].content_object_hash().value()).hex()]
    names = got['files']
    f = ctx.choose('file', names)
    b = ctx.readfile(d + '/out/' + f)
    if v == 'gone':
        ctx.remove(d + '/out/' + f)
    elif v == 'octet':
        i = ctx.choose('at', [8, 9, 12, 13, 30, 60, 100, len(b) - 1])
        x = ctx.bytes('octet', 1)
        ctx.assume(x[0] != b[i])
        ctx.writefile(d + '/out/' + f, b[:i] + x + b[i + 1:])
    else:
        g = ctx.choose('by', [x for x in names if x is not f])
        ctx.writefile(d + '/out/' + f, ctx.readfile(d + '/out/' + g))
    out, good = restored(ctx, d, r)
    ctx.check(not good, 'the reader tool accepts a damaged store')
    ctx.check(out == data[:len(out)], 'the reader tool gives octets that are not in the file')
    ctx.reach()


# ------------------------------------------------------------------------------------------------ C36
def verdict(ctx, f):
    """(what a viewer's check did: 'accepted', 'refused' or 'silent', lines printed)"""
    def go():
        try:
            f()
        except REFUSED as x:
            return x
    out, err = ctx.printed(go)
    yes = [x for x in out if 'success' in x]
    if err is not None:
        ctx.check(not yes, 'a packet is said to be valid and refused')
        return 'refused', out
    return 'accepted' if yes else 'silent', out


@harness('C36', cases=[(k, m, 4) for k in ('crc', 'rsa') for m in (1, 9, 31)] + [('rsa', 9, 300), ('crc', 9, 300)],
         bounds='signed packets with any subset of fields and symbolic contents; keystores with the key (public or private), with another key, with none; unsigned packets')
def viewer_verdict(ctx, case):
    from ccnpy.apps.packet_utils import validate_packet
    from ccnpy.core.Packet import Packet
    from . import keys
    from .h_sign import signed_packet, store
    kind, mask, plen = case
    pk, co, alg, sig, ver = signed_packet(ctx, kind, mask, plen)
    p = Packet.deserialize(pk.serialize())
    held = ctx.choose('held', ['A_PUB', 'A_PRIV', 'B_PUB', ''])
    ks = store(*[getattr(keys, k) for k in [held] if k])
    how, out = verdict(ctx, lambda: validate_packet(keystore=ks, packet=p))
    if kind == 'crc' or held.startswith('A'):
        ctx.check(how == 'accepted', 'a genuine packet is not reported as valid')
    else:
        ctx.check(how != 'accepted', 'a packet is reported as valid without its key')
        ctx.check(how == 'refused' or len(out) > 0, 'the missing key is not reported')
    how, out = verdict(ctx, lambda: validate_packet(keystore=ks, packet=Packet.create_content_object(co)))
    ctx.check(how == 'silent', 'an unsigned packet is reported as valid or refused')
    ctx.reach()


@harness('C36', cases=[('crc', 'body'), ('rsa', 'body'), ('rsa', 'time'), ('rsa', 'sig'), ('crc', 'sig'), ('rsa', 'other key'), ('rsa', 'no sig'), ('crc', 'no sig'), ('rsa', 'as crc'), ('crc', 'as rsa')],
         bounds='4 adjacent octets of the payload, name, time or signature replaced by any others, a signature missing, of another key or of the other algorithm')
def viewer_rejects(ctx, case):
    from ccnpy.apps.packet_utils import validate_packet
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.Name import Name, NameComponent
    from ccnpy.core.Packet import Packet
    from ccnpy.core.Payload import Payload
    from ccnpy.core.SignatureTime import SignatureTime
    from ccnpy.core.ValidationAlg import ValidationAlg_RsaSha256
    from ccnpy.core.ValidationPayload import ValidationPayload
    from ccnpy.crypto.RsaKey import RsaKey
    from ccnpy.crypto.RsaSha256 import RsaSha256Signer
    from . import keys
    from .h_crypto import replace
    from .h_sign import signer_of, store
    kind, what = case
    pay = ctx.bytes('payload', 8)
    name = Name([NameComponent(1, ctx.bytes('name', 3))])
    co = ContentObject(name=name, payload=Payload(pay))
    s, ver = signer_of(kind)
    alg = s.validation_alg() if kind == 'crc' else s.validation_alg(signature_time=SignatureTime(77.25))
    sig = s.sign(co.serialize(), alg.serialize())
    if what == 'body':
        p2, n2 = pay, b''
        if ctx.choose('field', ['payload', 'name']) == 'payload':
            off = ctx.choose('off', [0, 2, 4])
            p2 = pay[:off] + ctx.bytes('repl', 4) + pay[off + 4:]
            ctx.assume(p2 != pay)
            co = ContentObject(name=name, payload=Payload(p2))
        else:
            n2 = Name([NameComponent(1, ctx.bytes('repl', 3))])
            ctx.assume(n2 != name)
            co = ContentObject(name=n2, payload=Payload(pay))
    elif what == 'time':
        ms = ctx.int('ms', 2**32, 2**39)
        alg = ValidationAlg_RsaSha256(keyid=alg.keyid(), signature_time=SignatureTime(ms / 1000))
    elif what == 'sig':
        sig = ValidationPayload(replace(ctx, 'sig', sig.payload()))
    elif what == 'other key':
        sig = RsaSha256Signer(RsaKey(keys.B_PRIV)).sign(co.serialize(), alg.serialize())
    elif what == 'no sig':
        sig = None
    elif what == 'as crc':
        from ccnpy.core.ValidationAlg import ValidationAlg_Crc32c
        alg = ValidationAlg_Crc32c()
    else:
        alg = ValidationAlg_RsaSha256(keyid=RsaKey(keys.A_PUB).keyid(), signature_time=SignatureTime(77.25))
    try:
        p = Packet.deserialize(Packet.create_signed_content_object(co, alg, sig).serialize())
    except REFUSED + (RuntimeError,):
        ctx.check(what == 'no sig', 'a packet cannot be read')
        return ctx.reach()
    how, out = verdict(ctx, lambda: validate_packet(keystore=store(keys.A_PUB, keys.B_PUB), packet=p))
    ctx.check(how == 'refused', 'a packet that does not verify is not refused: ' + what)
    ctx.reach()


SHOWN = ['plain', 'psk', 'psk other number', 'psk other key', 'psk tampered', 'psk none', 'rsa', 'rsa none', 'rsa other', 'rsa tampered', 'rsa public']


@harness('C36', cases=[(w, a) for w in SHOWN for a in ('gcm', 'ccm')],
         bounds='manifests with symbolic nodes, keys, salts and key numbers: not encrypted, encrypted under a key the viewer has, has not or has differently, and changed in any 4 adjacent octets')
def viewer_decrypts(ctx, case):
    from ccnpy.apps.packet_utils import decrypt_manifest
    from ccnpy.flic.aeadctx.AeadImpl import AeadImpl
    from ccnpy.flic.tlvs.EncryptedNode import EncryptedNode
    from ccnpy.flic.tlvs.Manifest import Manifest
    from .h_crypto import again, as_manifest, encryptor, keystore, params, replace
    from .h_flic import B
    what, algo = case
    p, n, s = params(ctx, algo, 128, True, num=ctx.int('num', 2**24, 2**32 - 1))
    node = B(ctx).node('n', ((1, 16),))[0]
    names, aes = [], []
    if what == 'plain':
        m = again(Manifest(node=node))
        aes = [p]
    elif what.startswith('psk'):
        m = again(AeadImpl(p).create_encrypted_manifest(node))
        q = params(ctx, algo, 128, True, 'q', ctx.int('qnum', 2**24, 2**32 - 1))[0]
        if what == 'psk other key':
            q = params(ctx, algo, 128, True, 'r', n)[0]
            ctx.assume(bytes(q.key.key()) != bytes(p.key.key()))
            aes = [q]
        elif what == 'psk none':
            names = ['A_PRIV']
        else:
            ctx.assume(q.key_number != p.key_number)
            aes = [q] if what == 'psk other number' else [q, p]
    else:
        m = again(as_manifest(encryptor(p).encrypt(node, include_wrapper=True)))
        names = {'rsa none': [], 'rsa other': ['B_PRIV'], 'rsa public': ['A_PUB']}.get(what, ['B_PRIV', 'A_PRIV'])
    if what.endswith('tampered'):
        m = again(Manifest(security_ctx=m.security_ctx(), node=EncryptedNode(replace(ctx, 'e', m.node().value())), auth_tag=m.auth_tag()))
    ks = keystore(*names, aes=aes)

    def go():
        try:
            return decrypt_manifest(keystore=ks, manifest=m), None
        except REFUSED as x:
            return None, x
    out, (r, err) = ctx.printed(go)
    if what in ('plain', 'psk', 'rsa'):
        ctx.check(r is not None, 'the manifest is not shown')
        ctx.check(not r.is_encrypted() and r.node() == node, 'the manifest shown differs')
    else:
        ctx.check(r is None, 'something is shown for a manifest that cannot be decrypted: ' + what)
        ctx.check(err is not None or len(out) > 0, 'the viewer does not report that it cannot decrypt')
    ctx.check(m.is_encrypted() == (what != 'plain'), 'the manifest given changed')
    ctx.reach()


@harness('C36', cases=[(e, k) for e in (None, 'gcm', 'ccm', 'rsa with key') for k in ('right', 'wrong', 'unsigned key', 'damaged')],
         bounds='the viewer tool on a manifest packet written by the writer tool: with the right keys, with others, with an unknown signature key, and with any octet of the signature or body changed')
def viewer_tool(ctx, case):
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.Packet import Packet
    from ccnpy.flic.tlvs.Manifest import Manifest
    enc, k = case
    d, data, got, r, wrong = written(ctx, 'Hashed', enc, 2, None, False)
    root = got['root']
    f = bytes(root.content_object_hash().value()).hex()
    argv = list(r)
    if k == 'wrong' and enc is not None:
        argv = list(wrong[ctx.choose('how', sorted(wrong))])
    signed = True
    if '-k' not in argv:
        argv += ['-k', d + ('/key.pub' if k != 'unsigned key' else '/wrap.pub')]
        signed = k != 'unsigned key'
    if k == 'wrong' and enc is None:
        signed = False
        argv = ['-k', d + '/wrap.pub']
    if k == 'damaged':
        b = ctx.readfile(d + '/out/' + f)
        i = ctx.choose('at', [len(b) - 1, len(b) - 200, 60])
        x = ctx.bytes('octet', 1)
        ctx.assume(x[0] != b[i])
        ctx.writefile(d + '/out/' + f, b[:i] + x + b[i + 1:])

    def go():
        try:
            tool(ctx, 'packet_reader', ['-i', d + '/out'] + argv + [f])
        except REFUSED as x:
            return x
    ContentObject.USE_BRIEF_OUTPUT = True
    clear = None
    if enc is not None:
        from ccnpy.apps.cli_utils import create_keystore
        from .h_crypto import decryptor
        from ccnpy.flic.aeadctx.AeadDecryptor import AeadDecryptor
        m = Manifest.from_content_object(root.body())
        ks = create_keystore(parse(r))
        de = decryptor(ks) if enc.startswith('rsa') else AeadDecryptor(ks.get_aes_key(m.security_ctx().key_number()))
        clear = str(de.decrypt_manifest(m))
    out, err = ctx.printed(go)
    yes = any('success' in x for x in out)
    if k == 'damaged':
        ctx.check(err is not None and not yes, 'the tool accepts a damaged packet')
        return ctx.reach()
    ctx.check(yes == signed, 'the verdict on the signature')
    if enc is not None:
        ctx.check(any(x == clear for x in out) == (k != 'wrong'), 'the decrypted manifest shown')
        if k == 'wrong':
            ctx.check(err is not None or len(out) > 1 + yes, 'the viewer does not report that it cannot decrypt')
    ctx.check(str(Packet.load(d + '/out/' + f)) in out, 'the packet shown')
    ctx.reach()
