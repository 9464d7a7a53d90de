"""P22: internationalised names and IP addresses, as text and as octets."""
import json, os, socket
from rec import attempt, bl
from asn1crypto import x509, core, _inet

KIND = {'uri': x509.URI, 'dns': x509.DNSName, 'mail': x509.EmailAddress, 'ip': x509.IPAddress}
ALT = {'uri': 'uniform_resource_identifier', 'dns': 'dns_name', 'mail': 'rfc822_name', 'ip': 'ip_address'}
cp = lambda s: [ord(c) for c in s]
tx = lambda a: ''.join(map(chr, a))


def res(fn, conv):
    k, v = attempt(fn)
    if k == 'err':
        return {'k': 'err', 'e': v}
    try:
        return {'k': 'ok', 'v': conv(v)}
    except TypeError:
        return {'k': 'err', 'e': 'type ' + type(v).__name__}


def show(kind):
    return (lambda s: s) if kind == 'ip' else cp


def tlv(kind, o, rng):
    t = 4 if kind == 'ip' else 22
    n = len(o)
    l = bytes([n]) if n < 128 else bytes([0x81, n]) if n < 256 else bytes([0x82, n >> 8, n & 255])
    return bytes([t]) + l + bytes(o)


def load(kind, o, rng):
    """the octets as contents, in some of the places they occur"""
    b = tlv(kind, o, rng)
    w = rng.randrange(5)
    if w == 0:
        return x509.GeneralName.load(bytes([{'uri': 0x86, 'dns': 0x82, 'mail': 0x81, 'ip': 0x87}[kind]]) + b[1:]).chosen
    if w == 1:
        return x509.GeneralNames.load(core.SequenceOf([x509.GeneralName(ALT[kind], KIND[kind].load(b))], spec=x509.GeneralName).dump())[0].chosen
    if w == 2 and len(o) > 1:
        # in parts
        p = rng.randrange(len(o) + 1)
        return KIND[kind].load(bytes([b[0] | 0x20, 0x80]) + tlv(kind, o[:p], rng) + tlv(kind, o[p:], rng) + b'\x00\x00')
    if w == 3:
        return KIND[kind].load(b).copy()
    return KIND[kind].load(b)


def contents(o):
    """of an object, from its dump"""
    b = o.untag().dump(force=True)
    return list(core.OctetString.load(b'\x04' + b[1:]).native)


def make(kind, text, rng):
    T = KIND[kind]
    w = rng.randrange(5)
    if w == 0:
        o = T()
        o.set(text)
        return o
    if w == 1:
        o = load(kind, {'ip': [1, 2, 3, 4], 'mail': b'x@old.example', 'dns': b'old.example', 'uri': b'http://old.example/'}[kind], rng)
        if rng.random() < .5:
            o.native
        o = o.copy() if rng.random() < .3 else o
        o.set(text)
        return o
    if w == 2:
        return x509.GeneralName(ALT[kind], text).chosen
    if w == 3:
        return x509.GeneralNames([x509.GeneralName(name=ALT[kind], value=text)])[0].chosen.untag()
    return T(text)


def given(r, kind, text, label=None):
    rng = r.rng
    k, o = attempt(lambda: make(kind, text, rng))
    if k == 'err':
        r.ev('given', label or 'texts: ' + kind, kind=kind, t=cp(text), out={'k': 'err', 'e': o}, now={'k': 'none'}, back={'k': 'none'}, der=[])
        return None
    late = rng.random() < .5
    show_ = lambda: res(lambda: o.native if rng.random() < .7 or kind == 'ip' else str(o), show(kind))
    now = show_() if not late else None
    out = res(lambda: o.contents, list)
    k, der = attempt(lambda: contents(o if rng.random() < .7 else o.copy()))
    if late:
        now = show_()
    back = res(lambda: load(kind, bytes(out['v']), rng).native, show(kind)) if out['k'] == 'ok' else {'k': 'none'}
    r.ev('given', label or 'texts: ' + kind, kind=kind, t=cp(text), out=out, now=now, back=back, der=der if k == 'ok' else [-1])
    return o


def read(r, kind, octs, label=None):
    rng = r.rng
    octs = list(octs)
    o = load(kind, bytes(octs), rng)
    now = res(lambda: o.native, show(kind))
    if rng.random() < .2:
        now = res(lambda: o.native, show(kind))
    # what can not be read is not written again
    k, der = attempt(lambda: contents(o)) if now['k'] == 'ok' else ('ok', octs)
    out = {'k': 'none'}
    if now['k'] == 'ok' and kind != 'ip':
        out = res(lambda: KIND[kind](tx(now['v'])).contents, list)
    r.ev('read', label or 'contents: ' + kind, kind=kind, o=octs, now=now, out=out, der=der if k == 'ok' else [-1])


def equal(r, kind, a, b):
    """a, b: text or octets"""
    rng = r.rng
    def one(x):
        if isinstance(x, str):
            return make(kind, x, rng)
        return load(kind, x, rng)
    k, p = attempt(lambda: (one(a), one(b)))
    if k == 'err':
        return
    # both have to have a text
    if attempt(lambda: (p[0].native, p[1].native))[0] == 'err':
        return
    if rng.random() < .3:
        p = (x509.GeneralName(ALT[kind], p[0]), x509.GeneralName(ALT[kind], p[1]))
    f = lambda fn: (lambda r_: {True: 'T', False: 'F'}.get(r_[1], 'odd') if r_[0] == 'ok' and isinstance(r_[1], bool) else str(r_[1]))(attempt(fn))
    d = lambda x: {'g': 'text', 'v': cp(x)} if isinstance(x, str) else {'g': 'octets', 'v': list(x)}
    r.ev('equal', 'pairs: ' + kind, kind=kind, a=d(a), b=d(b), eq=f(lambda: p[0] == p[1]), rev=f(lambda: p[1] == p[0]), ne=f(lambda: p[0] != p[1]))


# ---------------------------------------------------------------- texts
UNI = ['\xfc', '\xe9', '\xdf', '\xc9', '\u03b1', '\u4e2d', '\u0131'][:6]
LABELS = ['a', 'b', 'www', 'example', 'EXAMPLE', 'xn--bcher-kva', 'XN--BCHER-KVA', 'b\xfccher', 'B\xdcCHER', 'stra\xdfe', 'strasse', '\xe9', 'a-b', '_srv', '*', '1', 'xn--4ca', 'xn--fa-hia', 'xn--zzzzzzz', 'x' * 63, 'x' * 64, '', '\u4e2d\u6587', '\u03b1\u03b2', 'xn--\xe9', '\xc9t\xe9']


def host(rng, wild=True):
    ls = [rng.choice(LABELS if rng.random() < .55 else LABELS[:12]) for _ in range(rng.choice([1, 2, 2, 3]))]
    sep = '.'
    if rng.random() < .06 and any(ord(c) > 127 for l in ls for c in l):
        sep = rng.choice(['\u3002', '\uff0e'])
    h = sep.join(ls)
    if rng.random() < .08:
        h += '.'
    return h


def cased(s, rng):
    return ''.join(c.upper() if ord(c) < 128 and rng.random() < .5 else c.lower() if ord(c) < 128 and rng.random() < .5 else c for c in s)


PCS = ['a', 'b', 'Z', '0', '-', '.', '_', '~', '!', '$', '&', "'", '(', ')', '*', '+', ',', ';', '=', ':', '@', ' ', '"', '<', '>', '\\', '^', '`', '{', '|', '}', '\xe9', '\xfc', '\u03b1', '\u4e2d', '\U0001d11e',
       '%41', '%7f', '%0A', '%1b', '%7a', '%2f', '%2F', '%3f', '%3A', '%40', '%25', '%2541', '%25%34%31', '%00', '%20', '%c3%a9', '%C3%A9', '%e9', '%ff%FE', '%', '%4', '%zz', '%26', '%3d', '%2b', '%23', '%5b', '%5D', '%0a', '%7F', '%e4%b8', '%e4%b8%ad', '%1a', '%1c', '%1D']


def component(rng, extra='', n=None):
    pool = PCS + list(extra) * 3
    return ''.join(rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 3, 6]) if n is None else n))


def uri(rng):
    s = rng.choice(['http', 'http', 'https', 'HTTP', 'ldap', 'ldaps', 'ftp', 'urn', 'mailto', 'file', 'x', 'svn+ssh', 'z39.50r', 'a-b'])
    q = ('?' + component(rng, '/?&=')) if rng.random() < .5 else ''
    f = ('#' + component(rng, '/?')) if rng.random() < .3 else ''
    if s in ('urn', 'mailto') or rng.random() < .1:
        p = component(rng, '/')
        if p.startswith('//'):
            p = 'a' + p
        return s + ':' + p + q + f
    ui = ''
    if rng.random() < .3:
        ui = component(rng) + (':' + component(rng) if rng.random() < .5 else '') + '@'
    h = rng.choice([host(rng), host(rng), 'example.com', '127.0.0.1', '[::1]', '[2001:DB8::5]', '[::ffff:1.2.3.4]', '', '[1:2]', '[zz]']) if rng.random() < .9 else ''
    p = rng.choice(['', '', '', ':80', ':443', ':8080', ':', ':0', ':080', ':65535', ':65536', ':99999', ':x', ':-1', ':1_0', ':+1', ': 1'])
    path = rng.choice(['', '/', '/' + component(rng, '/'), '/' + component(rng, '/'), '//' + component(rng), '/a/../b', '/./a'])
    if not h:
        ui = p = ''
    return s + '://' + ui + h + p + path + q + f


def variant(u, rng):
    """another text, often of the same meaning"""
    k = rng.randrange(10)
    if k == 0:
        return u.replace('%', '%25', 1)
    if k == 1 and '%' in u:
        i = u.index('%')
        return u[:i] + u[i:i + 3].swapcase() + u[i + 3:]
    if k == 2:
        i = rng.randrange(len(u))
        c = u[i]
        return u[:i] + ''.join('%%%02x' % x for x in c.encode('utf-8')) + u[i + 1:]
    if k == 3:
        return u.replace('http:', 'https:', 1)
    if k == 4:
        p = u.split('://')
        return u if len(p) != 2 else p[0].swapcase() + '://' + p[1]
    if k == 5:
        p = u.split('/')
        if len(p) > 2 and p[2]:
            p[2] = p[2].swapcase() if '@' not in p[2] and p[2].isascii() else p[2]
        return '/'.join(p)
    if k == 6 and u.count('/') == 2:
        return u + rng.choice(['/', ':80', ':443', ':80/', ':443/'])
    if k == 7:
        return u.rstrip('/')
    if k == 8:
        i = rng.randrange(len(u))
        return u[:i] + u[i + 1:]
    return u.swapcase() if k == 9 and rng.random() < .5 else u


MAILBOX = ['a', 'john.doe', 'A', 'x+y', '"a b"', 'a@b', '', '\xe9', 'JOHN.doe', "o'neil", '%41']


def mail(rng):
    if rng.random() < .2:
        return rng.choice(['example.com', '.example.com', 'EXAMPLE.com', 'no host', 'b\xfccher.example', ''])
    return rng.choice(MAILBOX if rng.random() < .6 else MAILBOX[:4]) + '@' + rng.choice([host(rng), host(rng), 'example.com', ''])


def dns(rng):
    return ('.' if rng.random() < .15 else '') + host(rng)


# ---------------------------------------------------------------- addresses
def ip6(rng):
    g = [rng.choice(['0', '0', '1', 'ab', 'FFFF', '0db8', '0000', '10', '12345', '', 'g', '-1', '+1', '1_0', ' 1', '0x1', '\u0661']) if rng.random() < .25 else rng.choice(['0', '0', '1', 'fe80', 'Ab1']) for _ in range(rng.choice([8, 8, 8, 7, 6, 9, 3, 1]))]
    if rng.random() < .6:
        i = rng.randrange(len(g) + 1)
        j = min(len(g), i + rng.choice([0, 0, 1, 2, 3, 8]))
        t = ':'.join(g[:i]) + '::' + ':'.join(g[j:])
    else:
        t = ':'.join(g)
    if rng.random() < .15:
        t = t.rsplit(':', 1)[0] + ':' + ip4(rng)
    return t


def ip4(rng):
    g = [rng.choice(['0', '1', '9', '10', '127', '199', '255']) if rng.random() < .93 else rng.choice(['256', '01', '00', '', '-1', '+1', ' 1', '1 ', '1_0', 'a', '0x1', '1e1', '\u0661', '300', '1000']) for _ in range(4 if rng.random() < .93 else rng.choice([1, 3, 5]))]
    return '.'.join(g)


def ip(rng):
    t = ip4(rng) if rng.random() < .5 else ip6(rng)
    if rng.random() < .35:
        t += '/' + str(rng.randrange(34) if '.' in t and ':' not in t else rng.randrange(131))
    elif rng.random() < .12:
        t += rng.choice(['/', '/x', '/-1', '/+1', '/ 1', '/1_0', '/08', '/1/2', '/255.0.0.0', '/\u0661', '\x00', '%1', '\n', '/8\n'])
    return t


def octets(rng):
    n = rng.choice([4, 4, 16, 16, 16, 8, 32, 8, 32, 0, 1, 3, 5, 15, 17, 31, 33])
    if n in (8, 32):
        h = n // 2
        bits = rng.choice([0, 1, 7, 8, 9, h * 8 - 1, h * 8, rng.randrange(h * 8 + 1)])
        m = (((1 << bits) - 1) << (h * 8 - bits)).to_bytes(h, 'big')
        if rng.random() < .15:
            # a run of ones that does not begin at the first bit
            m = (int.from_bytes(m, 'big') >> rng.choice([1, 4, 8, 16])).to_bytes(h, 'big')
        elif rng.random() < .2:
            m = bytes(rng.choice([0, 255, 254, 128, 1]) for _ in range(h))
        return octs(rng, h) + m
    return octs(rng, n)


def octs(rng, n):
    if n == 16 and rng.random() < .8:
        z = rng.choice([0, rng.randrange(256)])
        o = b''
        for i in range(8):
            o += b'\0\0' if rng.random() < .55 else rng.choice([b'\0\1', b'\1\0', b'\xff\xff', bytes([rng.randrange(256), rng.randrange(256)])])
        return o
    return bytes(rng.choice([0, 0, 1, 127, 255, rng.randrange(256)]) for _ in range(n))


def addresses(r):
    rng = r.rng
    # every prefix length, every pattern of zero groups
    for n in range(r.part, 129, r.parts):
        given(r, 'ip', '2001:db8::1/%d' % n, 'prefix lengths')
        if n <= 32:
            given(r, 'ip', '192.0.2.1/%d' % n, 'prefix lengths')
        h = 16
        read(r, 'ip', bytes(16) + (((1 << n) - 1) << (128 - n)).to_bytes(16, 'big'), 'prefix lengths')
    for z in range(r.part, 256, r.parts):
        o = b''.join(b'\0\0' if z >> i & 1 else rng.choice([b'\0\1', b'\xff\xff', b'\x0a\xbc']) for i in range(8))
        read(r, 'ip', o, 'patterns of zero groups')
        r.ev('ntop', 'patterns of zero groups', six=True, o=bl(o), out=res(lambda: _inet.inet_ntop(socket.AF_INET6, o), lambda s: s))
        t = socket.inet_ntop(socket.AF_INET6, o)
        r.ev('pton', 'patterns of zero groups', six=True, t=cp(t), out=res(lambda: _inet.inet_pton(socket.AF_INET6, t), list))
        given(r, 'ip', t, 'patterns of zero groups')
    for _ in range(r.scale(100, 2000)):
        given(r, 'ip', ip(rng))
        read(r, 'ip', octets(rng))
        six = rng.random() < .6
        t = ip6(rng) if six else ip4(rng)
        r.ev('pton', 'conversions', six=six, t=cp(t), out=res(lambda: _inet.inet_pton(socket.AF_INET6 if six else socket.AF_INET, t), list))
        o = octs(rng, rng.choice([16] * 8 + [15, 4]) if six else rng.choice([4] * 8 + [3, 16]))
        r.ev('ntop', 'conversions', six=six, o=bl(o), out=res(lambda: _inet.inet_ntop(socket.AF_INET6 if six else socket.AF_INET, o), lambda s: s))
        a, b = octets(rng), octets(rng)
        equal(r, 'ip', a, rng.choice([a, b, a[:4] + b[4:], b[:len(a) // 2] + a[len(a) // 2:]]))


def record(r):
    rng = r.rng
    texts = json.load(open(os.path.join(os.environ['VERIF_WORK'], 'uris.json')))
    for i, t in enumerate(texts):
        if i % r.parts != r.part or (not r.thorough and rng.random() > .12) or rng.random() > .5:
            continue
        given(r, 'uri', tx(t), 'texts typed: uri')
        if all(c < 128 for c in t):
            read(r, 'uri', t, 'contents typed: uri')
    fns = {'uri': uri, 'dns': dns, 'mail': mail}
    for kind, fn in fns.items():
        for _ in range(r.scale(130, 2500)):
            t = fn(rng)
            given(r, kind, t)
            k, o = attempt(lambda: KIND[kind](t).contents)
            if k == 'ok':
                c = list(o)
                if kind == 'uri' and rng.random() < .5:
                    k2, c2 = attempt(lambda: variant(o.decode('ascii'), rng).encode('ascii'))
                    c = list(c2) if k2 == 'ok' else c
                elif rng.random() < .3:
                    c = list(cased(bytes(c).decode('latin-1'), rng).encode('latin-1'))
                read(r, kind, c)
            u = variant(t, rng) if kind == 'uri' and t else cased(t, rng) if rng.random() < .5 else fn(rng)
            equal(r, kind, t, u)
            if k == 'ok':
                equal(r, kind, t, bytes(o))
                equal(r, kind, bytes(c), bytes(o))
                k, o2 = attempt(lambda: KIND[kind](u).contents)
                if k == 'ok':
                    equal(r, kind, t, bytes(o2))
    # the same place named with and without its port
    for sch in ('http', 'https', 'ldap', 'HTTPS', 'ftp'):
        for p, q in ((':80', ''), (':443', ''), ('', ':443'), (':', ''), (':80', ':443'), (':0', ''), (':8080', ''), (':080', ':80')):
            if rng.random() < .5:
                path = rng.choice(['', '/', '/a', '?x'])
                equal(r, 'uri', sch + '://a.example' + p + path, (sch if rng.random() < .8 else rng.choice(['http', 'https'])) + '://a.example' + q + path)
    addresses(r)
    f = lambda fn: str(attempt(fn)[1])
    for kind, T in KIND.items():
        for x in (b'a.example', 5, None, ['a'], {'a': 1}, True):
            if x is not None:
                r.ev('nontext', kind=kind, x=repr(x), out=f(lambda: T(x)))
            r.ev('nontext', kind=kind, x='set ' + repr(x), out=f(lambda: T().set(x)))
        o = T({'uri': 'http://a/', 'dns': 'a', 'mail': 'a@b', 'ip': '1.2.3.4'}[kind])
        for x in ('a', None, 5, core.IA5String('a'), x509.GeneralName('dns_name', 'x')):
            r.ev('other', kind=kind, x=repr(type(x)), eq={'True': 'T', 'False': 'F'}.get(f(lambda: o == x), 'odd'), ne={'True': 'T', 'False': 'F'}.get(f(lambda: o != x), 'odd'))
            g = x509.GeneralName(ALT[kind], o)
            if not isinstance(x, x509.GeneralName):
                r.ev('other', kind='general ' + kind, x=repr(type(x)), eq={'True': 'T', 'False': 'F'}.get(f(lambda: g == x), 'odd'), ne={'True': 'T', 'False': 'F'}.get(f(lambda: g != x), 'odd'))
