"""Values for the types of the specification's tables (exported by TLC as JSON), their Python
forms, and BER re-encodings.  Nothing here consults asn1crypto for what a type looks like."""
import copy, datetime, importlib, json, os, random, re
from collections import OrderedDict
from asn1crypto import core
from rec import attempt, bl, digits

NOTZ = 99999
SCHEMA = {}
_MIND = {}
CORE_ANY = ['core_Integer', 'core_UTF8String', 'core_OctetString', 'core_Boolean', 'core_ObjectIdentifier', 'core_PrintableString', 'core_Null', 'core_GeneralizedTime', 'core_BitString']
INF = 99


def load_schema(path=None):
    # the modules that register identifiers of types in other modules
    importlib.import_module('asn1crypto.pdf')
    importlib.import_module('asn1crypto.tsp')
    path = path or os.path.join(os.environ['VERIF_WORK'], 'schema.json')
    SCHEMA.update((a, b) for a, b in json.load(open(path)).items() if not a.startswith('user_'))
    t = os.path.join(os.environ['VERIF_WORK'], 'types.json')
    if os.path.exists(t):
        SCHEMA.update(json.load(open(t)))
    _mind()
    return SCHEMA


def _mind_one(n):
    t = SCHEMA[n]
    k = t['k']
    if k in ('seq', 'set'):
        _MIND[n] = 1 + max([_MIND[f['t']] for f in t['f'] if not f['opt'] and not f['hd']] or [0])
    elif k == 'choice':
        _MIND[n] = 1 + min([_MIND[f['t']] for f in t['f']] or [INF])
    else:
        _MIND[n] = 1 if k in ('seqof', 'setof') else 0


def _mind():
    """least nesting depth of a value of each type"""
    for n in SCHEMA:
        _MIND[n] = INF
    changed = True
    while changed:
        changed = False
        for n, t in SCHEMA.items():
            k = t['k']
            if k in ('seq', 'set'):
                req = [_MIND[f['t']] for f in t['f'] if not f['opt'] and not f['hd']]
                d = 1 + max(req or [0])
            elif k == 'choice':
                d = 1 + min([_MIND[f['t']] for f in t['f']] or [INF])
            elif k in ('seqof', 'setof'):
                d = 1
            else:
                d = 0
            if d < _MIND[n]:
                _MIND[n] = d
                changed = True


def field(t, name):
    for f in t['f']:
        if f['n'] == name:
            return f


def mget(v, name):
    for p in v['f']:
        if p['n'] == name:
            return p['v']
    return {'k': 'none'}


# ---------------------------------------------------------------- resolution of governed members
NULL_ALGOS = set('''1.2.840.113549.1.1.1 1.2.840.113549.1.1.2 1.2.840.113549.1.1.4 1.2.840.113549.1.1.5 1.2.840.113549.1.1.11 1.2.840.113549.1.1.12 1.2.840.113549.1.1.13 1.2.840.113549.1.1.14
1.3.14.3.2.26 2.16.840.1.101.3.4.2.4 2.16.840.1.101.3.4.2.1 2.16.840.1.101.3.4.2.2 2.16.840.1.101.3.4.2.3'''.split())


def path_type(t, by):
    f = field(t, by[0])
    return f['t'] if len(by) == 1 else path_type(SCHEMA[f['t']], by[1:])


def path_val(v, by):
    x = mget(v, by[0])
    return x if len(by) == 1 else (path_val(x, by[1:]) if x['k'] == 'map' else {'k': 'none'})


def dotted_of(tn, v):
    if v['k'] == 'name':
        d = [o for o, s in SCHEMA[tn]['om'] if s == v['s']]
        return '.'.join(map(str, d[-1])) if d else ''
    if v['k'] == 'oid':
        return '.'.join(''.join(map(str, a)) or '0' for a in v['a'])
    return ''


def gov_name(tn, v):
    t = SCHEMA[tn]
    if t['k'] == 'oid':
        d = dotted_of(tn, v)
        for o, s in t['om']:
            if '.'.join(map(str, o)) == d:
                return s
        return ''
    if v['k'] == 'name':
        return v['s']
    if v['k'] == 'int' and not v['neg']:
        n = int.from_bytes(bytes(v['m']), 'big')
        for a, s in t['m']:
            if a == n:
                return s
    return ''


def resolve(t, f, m):
    """-> (type name, wrapped?, known?)"""
    g = t['g']
    if g['of'] != f['n']:
        return f['t'], False, False
    pt = path_type(t, g['by'])
    pv = path_val(m, g['by'])
    n = gov_name(pt, pv)
    for a, b in g['tab']:
        if a == n and n:
            fk = SCHEMA[f['t']]['k']
            return b, fk == 'pocts' or (fk == 'pbits' and SCHEMA[b]['k'] != 'obits'), True
    if t['np'] and dotted_of(pt, pv) in NULL_ALGOS:
        return 'core_Null', False, True
    return f['t'], False, False


# ---------------------------------------------------------------- random values
def vint(n):
    return {'k': 'int', 'neg': n < 0, 'm': digits(abs(n), 256)}


def intval(v):
    n = int.from_bytes(bytes(v['m']), 'big')
    return -n if v['neg'] else n


BOUND = [0, 1, -1, 2, 127, 128, -127, -128, -129, 255, 256, -255, -256, -257, 32767, 32768, -32768, -32769, 65535, 65536,
         2**31 - 1, 2**31, -2**31, 2**63, 2**64 - 1, 2**64, -2**64, 2**127, 2**128 - 1]


def rint(rng, nonneg=False):
    r = rng.random()
    n = rng.choice(BOUND) if r < .5 else rng.randrange(0, 1000) if r < .75 else rng.getrandbits(rng.randrange(1, 200)) * rng.choice([1, 1, -1])
    return abs(n) if nonneg else n


def rbytes(rng, n=None):
    if n is None:
        n = rng.choice([0, 1, 1, 2, 3, 4, 5, 8, 16, 20]) if rng.random() < .95 else rng.choice([126, 127, 128, 129, 256])
    return bytes(rng.choice([0, 0, 1, 5, 0x30, 0x7f, 0x80, 0xff, rng.randrange(256)]) for _ in range(n))


ASCII_TEXT = 'abcXYZ 019.-_'
TEXTS = {
    'utf8': ASCII_TEXT + '\u00e9\u00df\u4e2d\u0416\U0001f600\u200d\x00"',
    'bmp': ASCII_TEXT + '\u00e9\u4e2d\u0416\ufffd\x00',
    'universal': ASCII_TEXT + '\u00e9\u4e2d\U0001f600\U0010ffff\x00',
    'teletex': ASCII_TEXT + '\u00df\u00e6\u0300\u20ac'.replace('\u20ac', '\u00f8'),
    'nrteletex': ASCII_TEXT,
    'numeric': '0123456789 ',
    'printable': "abcXYZ 019'()+,-./:=?",
    'ia5': ASCII_TEXT + '\x00@\x7f',
}
DNS = ['example.com', 'www.example.com', 'a.b.c.example.org', '*.example.com', 'localhost', '_srv.example.net']
URIS = ['http://example.com/', 'http://www.example.com/a/b.crl', 'https://example.org:8443/x?y=z', 'ldap://example.com/cn=x', 'http://ocsp.example.net', 'urn:oid:1.2.3']
EMAILS = ['a@example.com', 'john.doe@mail.example.org', 'example.com', 'x+y@example.net']


def rtext(rng, k):
    if k == 'dns':
        s = rng.choice(DNS)
    elif k == 'uri':
        s = rng.choice(URIS)
    elif k == 'email':
        s = rng.choice(EMAILS)
    else:
        a = TEXTS.get(k, ASCII_TEXT)
        s = ''.join(rng.choice(a) for _ in range(rng.choice([0, 1, 2, 2, 3, 5, 9])))
    return s


def rtime(rng, utc):
    y = rng.choice([1950, 1951, 1999, 2000, 2024, 2038, 2049]) if utc else rng.choice([1000, 1900, 1950, 2000, 2024, 2049, 2050, 2100, 9998])
    mo = rng.randrange(1, 13)
    d = rng.choice([1, 28, 29, 30, 31])
    leap = (y % 4 == 0 and y % 100 != 0) or y % 400 == 0
    d = min(d, [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo - 1])
    off = rng.choice([0, 0, 0, 0, 60, -60, 330, -570, 839, -719])
    if y in (1950, 2049):
        mo, d = (2, 3) if y == 1950 else (11, 30)
    us = 0 if utc else rng.choice([0, 0, 500000, 1, 123456, 999999, 120000])
    return {'k': 'time', 't': {'y': y, 'mo': mo, 'd': d, 'h': rng.randrange(24), 'mi': rng.randrange(60), 's': rng.randrange(60), 'us': us, 'off': off}}


def roid(rng):
    a = rng.choice([0, 1, 2, 2])
    b = rng.randrange(40) if a < 2 else rng.choice([0, 5, 39, 40, 47, 48, 100, 999, 2**40])
    rest = [rng.choice([0, 1, 2, 5, 127, 128, 129, 255, 16383, 16384, 2**31, 2**32, 2**64 + 3]) for _ in range(rng.randrange(0, 6))]
    return {'k': 'oid', 'a': [digits(x, 10) for x in [a, b] + rest]}


def leaves(v, acc):
    k = v['k']
    if k in ('list',):
        for x in v['l']:
            leaves(x, acc)
    elif k == 'map':
        for x in v['f']:
            leaves(x['v'], acc)
    elif k in ('ch', 'typed'):
        leaves(v['v'], acc)
    elif k in ('bool', 'int', 'oid', 'bits', 'oct', 'str'):
        acc.append(v)
    return acc


def sibling(v, rng):
    """a copy that differs in one place, mostly near the end"""
    v = copy.deepcopy(v)
    acc = leaves(v, [])
    if not acc:
        return v
    x = acc[-1] if rng.random() < .6 else rng.choice(acc)
    k = x['k']
    if k == 'bool':
        x['b'] = not x['b']
    elif k == 'int' and x['m']:
        x['m'] = x['m'][:-1] + [x['m'][-1] ^ (2 if len(x['m']) == 1 and x['m'][0] == 1 else 1)]
        if x['m'] == [0]:
            x['m'] = [1]
    elif k == 'oid':
        x['a'] = x['a'] + [[rng.randrange(1, 10)]]
    elif k == 'bits' and x['bits']:
        x['bits'] = x['bits'][:-1] + [1 - x['bits'][-1]]
    elif k == 'oct' and x['o'] and len(x['o']) not in (8, 32):
        x['o'] = x['o'][:-1] + [x['o'][-1] ^ rng.choice([1, 128, 255])]
    elif k == 'str' and x['c'] and (48 <= x['c'][-1] <= 57):
        x['c'] = x['c'][:-1] + [105 - x['c'][-1]]
        if 's' in x:
            x['s'] = ''.join(map(chr, x['c'])) if x['s'] else ''
    return v


class Gen:
    def __init__(self, rng, maxdepth=7, unknown=.12, opt=.5, maxlen=3):
        self.rng, self.maxdepth, self.unknown, self.opt, self.maxlen = rng, maxdepth, unknown, opt, maxlen

    def value(self, tn, depth=0, force=None, gov=None):
        """force: the alternative of a choice / the set of optional members present at the top;
        gov: the name the governing member at the top has"""
        rng = self.rng
        t = SCHEMA[tn]
        k = t['k']
        tight = depth >= self.maxdepth
        if k == 'bool':
            return {'k': 'bool', 'b': rng.random() < .5}
        if k == 'int':
            if t['m']:
                if rng.random() < .85:
                    return {'k': 'name', 's': rng.choice(t['m'])[1]}
                used = {a for a, _ in t['m']}
                n = rng.choice([x for x in (37, 60, 99, 127, 128, 300, 1000) if x not in used])
                return vint(n)
            return vint(rint(rng))
        if k == 'enum':
            return {'k': 'name', 's': rng.choice(t['m'])[1]} if t['m'] else vint(rint(rng))
        if k == 'null':
            return {'k': 'null'}
        if k == 'oid':
            if t['om'] and rng.random() >= self.unknown:
                return {'k': 'name', 's': rng.choice(t['om'])[1]}
            return roid(rng)
        if k == 'bits':
            if t['m']:
                names = [s for _, s in t['m'] if rng.random() < .35]
                if rng.random() < .05:
                    names = [s for _, s in t['m']]
                return {'k': 'bset', 'ns': names, 'ix': []}
            n = rng.choice([0, 1, 7, 8, 9, 15, 16, 17, rng.randrange(40)])
            return {'k': 'bits', 'bits': [rng.randrange(2) for _ in range(n)]}
        if k in ('octets', 'obits', 'pbits', 'pocts', 'videotex'):
            return {'k': 'oct', 'o': bl(rbytes(rng))}
        if k in ('ibits', 'iocts'):
            return vint(rint(rng, True))
        if k == 'ip':
            n = rng.choice([4, 4, 16, 16, 8, 32])
            b = bytes(rng.choice([0, 0, 1, 127, 255, rng.randrange(256)]) for _ in range(n if n in (4, 16) else n // 2))
            if n in (8, 32):
                bits = rng.randrange(n * 4 + 1)
                b += (((1 << bits) - 1) << (n * 4 - bits)).to_bytes(n // 2, 'big')
            return {'k': 'oct', 'o': bl(b)}
        if k in ('utc', 'gen'):
            return rtime(rng, k == 'utc')
        if k == 'any':
            n = rng.choice(CORE_ANY)
            return {'k': 'typed', 'n': n, 'v': self.value(n, depth + 1)}
        if k in ('seqof', 'setof'):
            if SCHEMA[t['of']]['k'] == 'void' or tight and _MIND[t['of']] > 1:
                n = 0
            else:
                n = rng.choice([0, 1, 1, 2, self.maxlen]) if not tight else rng.choice([0, 1])
            l = [self.value(t['of'], depth + 1) for _ in range(n)]
            if l and rng.random() < .25:
                # members that differ in a single place
                l = [l[0]] + [sibling(l[0], rng) for _ in range(max(1, n - 1))]
                rng.shuffle(l)
            return {'k': 'list', 'l': l}
        if k == 'choice':
            alts = t['f']
            if force:
                alts = [f for f in alts if f['n'] == force]
            elif tight:
                m = min(_MIND[f['t']] for f in alts)
                alts = [f for f in alts if _MIND[f['t']] == m]
            f = rng.choice(alts)
            return {'k': 'ch', 'n': f['n'], 'v': self.value(f['t'], depth + 1)}
        if k in ('seq', 'set'):
            v = {'k': 'map', 'f': []}
            g = t['g']
            for f in t['f']:
                mand = not f['opt'] and not f['hd']
                present = mand or (not tight and rng.random() < self.opt)
                if force is not None and not mand:
                    present = f['n'] in force
                if not present:
                    continue
                if g['of'] == f['n']:
                    ft, wrapped, known = resolve(t, f, v)
                    if tight and known and _MIND[ft] > 3 and mand is False:
                        continue
                    x = self.value(ft, depth + 1)
                elif g['by'] == [f['n']] and g['tab'] and (gov or rng.random() >= self.unknown):
                    tab = g['tab']
                    if gov:
                        tab = [e for e in tab if e[0] == gov]
                    if tight:
                        m = min(_MIND[b] for _, b in tab)
                        tab = [e for e in tab if _MIND[e[1]] == m]
                    x = {'k': 'name', 's': rng.choice(tab)[0]}
                    if SCHEMA[f['t']]['k'] == 'oid' and not any(s == x['s'] for _, s in SCHEMA[f['t']]['om']):
                        x = self.value(f['t'], depth + 1)
                elif g['by'] and g['by'][0] == f['n'] and len(g['by']) == 2:
                    x = self.alg(f['t'], [gov] if gov else [a for a, _ in g['tab']], depth + 1)
                else:
                    x = self.value(f['t'], depth + 1)
                v['f'].append({'n': f['n'], 'v': x})
            self.fixup(tn, v)
            return v
        return {'k': 'str', 'c': [ord(c) for c in rtext(rng, k)]}

    def fixup(self, tn, v):
        """conditions between the members of a value that its type does not state"""
        def put(n, x):
            for p in v['f']:
                if p['n'] == n:
                    p['v'] = x
        if tn == 'keys_ECPrivateKey':
            # a private key is less than the order, and the size of an unknown curve is not known
            p = mget(v, 'parameters')
            if p['k'] == 'ch' and p['n'] == 'named' and p['v']['k'] != 'name':
                p['v'] = {'k': 'name', 's': self.rng.choice(SCHEMA['keys_NamedCurve']['om'])[1]}
            if p['k'] == 'ch':
                put('private_key', vint(self.rng.choice([1, 2, 255, 256, 2**100, 2**110])))
            if p['k'] == 'ch' and p['n'] == 'specified':
                for q in p['v']['f']:
                    if q['n'] == 'order':
                        q['v'] = vint(self.rng.choice([2**112, 2**112 + 1, 2**113 - 1, 2**160 + 5, 2**160, 2**160 - 47, 2**256 + 1, 2**521 - 1, 2**521]))
        if tn == 'keys_PrivateKeyInfo':
            a, k = mget(v, 'private_key_algorithm'), mget(v, 'private_key')
            p = mget(a, 'parameters')
            if p['k'] == 'ch' and p['n'] == 'named' and p['v']['k'] != 'name' and k['k'] == 'map':
                p['v'] = {'k': 'name', 's': self.rng.choice(SCHEMA['keys_NamedCurve']['om'])[1]}
            if p['k'] == 'ch' and k['k'] == 'map':
                for q in k['f']:
                    if q['n'] == 'private_key':
                        q['v'] = vint(self.rng.choice([1, 2, 255, 256, 2**100, 2**110]))
            if p['k'] == 'ch' and p['n'] == 'specified':
                for q in p['v']['f']:
                    if q['n'] == 'order':
                        q['v'] = vint(self.rng.choice([2**112, 2**112 + 1, 2**113 - 1, 2**160 + 5, 2**160, 2**256 + 1, 2**521]))
            if k['k'] == 'map':
                # the domain parameters are those of the algorithm
                for q in k['f']:
                    if q['n'] == 'parameters' and p['k'] == 'ch':
                        q['v'] = copy.deepcopy(p)
        if tn == 'cms_AttributeCertificateInfoV1':
            # a version 2 certificate there is read as one (a work-around for real data)
            v['f'] = [p for p in v['f'] if p['n'] != 'version' or p['v'].get('s') == 'v1']

    def alg(self, tn, names, depth):
        """an algorithm identifier naming one of names"""
        t = SCHEMA[tn]
        names = [n for n in names if any(s == n for _, s in SCHEMA[t['f'][0]['t']]['om'])]
        v = {'k': 'map', 'f': [{'n': t['f'][0]['n'], 'v': {'k': 'name', 's': self.rng.choice(names)}}]}
        f = t['f'][1]
        if self.rng.random() < .8:
            ft, _, _ = resolve(t, f, v)
            v['f'].append({'n': f['n'], 'v': self.value(ft, depth + 1)})
        return v


# ---------------------------------------------------------------- classes and Python arguments
_CLS = {}


def cls_of(tn):
    if tn not in _CLS:
        m, c = tn.split('_', 1)
        if m == 'user':
            import usertypes
            _CLS[tn] = usertypes.get(c)
        else:
            mod = importlib.import_module('asn1crypto.' + m)
            if hasattr(mod, c):
                _CLS[tn] = getattr(mod, c)
            else:
                _CLS[tn] = None       # an anonymous list type of a member
    return _CLS[tn]


def text(v):
    return ''.join(map(chr, v['c']))


def pytime(t):
    tz = None if t['off'] == NOTZ else datetime.timezone(datetime.timedelta(minutes=t['off']))
    return datetime.datetime(t['y'], t['mo'], t['d'], t['h'], t['mi'], t['s'], t['us'], tz)


def scalar(tn, v):
    k, vk = SCHEMA[tn]['k'], v['k']
    if vk == 'null':
        return None
    if vk == 'bool':
        return v['b']
    if vk == 'int':
        return intval(v)
    if vk == 'name':
        return v['s']
    if vk == 'oid':
        return '.'.join(''.join(map(str, a)) or '0' for a in v['a'])
    if vk == 'bits':
        return tuple(v['bits'])
    if vk == 'bset':
        return set(v['ns'])
    if vk == 'str':
        return text(v)
    if vk == 'time':
        return pytime(v['t'])
    if vk == 'oct':
        if k == 'ip':
            return iptext(bytes(v['o']))
        if k == 'videotex':
            return bytes(v['o'])
        return bytes(v['o'])
    raise Exception(vk)


def iptext(o):
    import ipaddress
    if len(o) in (4, 16):
        return str(ipaddress.ip_address(o))
    h = len(o) // 2
    return str(ipaddress.ip_address(o[:h])) + '/' + str(bin(int.from_bytes(o[h:], 'big')).count('1'))


def native_arg(tn, v, rng):
    """plain Python argument"""
    t = SCHEMA[tn]
    k = t['k']
    if k == 'any':
        return obj(v['n'], v['v'], rng)
    if k == 'choice':
        f = field(t, v['n'])
        x = native_arg(f['t'], v['v'], rng)
        return {v['n']: x} if rng is None or rng.random() < .6 else (v['n'], x)
    if k in ('seqof', 'setof'):
        # a list member with a choice type has to be given as an object
        if SCHEMA[t['of']]['k'] in ('choice', 'any'):
            return [obj(t['of'], x, rng) for x in v['l']]
        return [native_arg(t['of'], x, rng) for x in v['l']]
    if k in ('seq', 'set'):
        d = OrderedDict()
        for p in v['f']:
            f = field(t, p['n'])
            ft, _, _ = resolve(t, f, v)
            if p['v']['k'] != 'none':
                d[p['n']] = member_arg(f, ft, p['v'], rng)
        return d
    return scalar(tn, v)


def member_arg(f, ft, v, rng):
    """None means absent for an optional member, so a NULL there is given as an object"""
    if f['opt'] and (v['k'] == 'null' or (v['k'] == 'typed' and v['v']['k'] == 'null')):
        return obj(ft, v, rng)
    return native_arg(ft, v, rng)


RAW_URI = False     # objects of URIs keep the text given as it is: the library writes schemes in small letters


def obj(tn, v, rng):
    """an object of the library, built bottom up"""
    t = SCHEMA[tn]
    k = t['k']
    c = cls_of(tn)
    if k == 'any':
        o = obj(v['n'], v['v'], rng)
        return c(o) if t['ex'] else o
    if k == 'choice':
        f = field(t, v['n'])
        return c(v['n'], member(f['t'], v['v'], rng))
    if k in ('seqof', 'setof'):
        l = [member(t['of'], x, rng) for x in v['l']]
        return l if c is None else c(l)
    if k in ('seq', 'set'):
        d = OrderedDict()
        for p in v['f']:
            f = field(t, p['n'])
            ft, wrapped, _ = resolve(t, f, v)
            d[p['n']] = wrapping(f, obj(ft, p['v'], rng), rng) if wrapped else member(ft, p['v'], rng) if ft == f['t'] else obj(ft, p['v'], rng)
        return c(d)
    if k == 'uri' and RAW_URI:
        return c.load(b'\x16' + bytes([len(v['c'])]) + bytes(v['c']))
    return c(scalar(tn, v))


def wrapping(f, o, rng):
    """the content of a governed octet string, or the octet string itself as someone has read it before"""
    w = cls_of(f['t'])
    if rng.random() < .75 or SCHEMA[f['t']]['k'] != 'pocts' or w is None:
        return o
    x = w(o.dump())
    q = rng.randrange(4)
    try:
        if q == 0:
            x.parsed
        elif q == 1:
            x.parse(core.Any)
        elif q == 2:
            x.parse(o.__class__)
    except (ValueError, TypeError):
        return w(o.dump())
    return x


FOREIGN = .08       # how many members are values that were tagged for another place


def member(tn, v, rng):
    o = obj(tn, v, rng)
    if SCHEMA[tn]['k'] == 'any' or not isinstance(o, core.Asn1Value) or rng is None or rng.random() > FOREIGN:
        return o
    n = rng.choice([0, 1, 5, 31])
    if rng.random() < .5 and not isinstance(o, core.Choice):
        return o.retag({'implicit': rng.choice([n, (1, n), (3, n)])})
    return o.retag({'explicit': rng.choice([n, (1, n)])})


def by_item(tn, v, rng):
    """an empty object filled through item assignment / append / set"""
    t = SCHEMA[tn]
    k = t['k']
    c = cls_of(tn)
    if k in ('seq', 'set'):
        o = c()
        for p in v['f']:
            f = field(t, p['n'])
            ft, _, _ = resolve(t, f, v)
            o[p['n']] = member_arg(f, ft, p['v'], rng)
        return o if v['f'] else c({})
    if k in ('seqof', 'setof'):
        o = c([])
        for x in v['l']:
            o.append(obj(t['of'], x, rng) if SCHEMA[t['of']]['k'] in ('choice', 'any') else native_arg(t['of'], x, rng))
        return o
    if k == 'choice' or k == 'any':
        return None
    o = c()
    o.set(scalar(tn, v))
    return o


# ---------------------------------------------------------------- natives -> abstract values
_ident = re.compile(r'[\x20-\x7e]{1,3000}\Z')


def nat(x):
    if x is None:
        return {'k': 'none'}
    if isinstance(x, bool):
        return {'k': 'bool', 'b': x}
    if isinstance(x, int):
        return vint(int(x))
    if isinstance(x, str):
        return {'k': 'str', 'c': [ord(c) for c in x], 's': x if _ident.match(x) else ''}
    if isinstance(x, (bytes, bytearray)):
        return {'k': 'oct', 'o': list(x)}
    if isinstance(x, dict):
        return {'k': 'map', 'f': [{'n': str(a), 'v': nat(b)} for a, b in x.items()]}
    if isinstance(x, list):
        return {'k': 'list', 'l': [nat(a) for a in x]}
    if isinstance(x, (set, frozenset)):
        return {'k': 'nset', 'ns': sorted(a for a in x if isinstance(a, str)), 'ix': sorted(a for a in x if isinstance(a, int))}
    if isinstance(x, tuple):
        if all(isinstance(a, int) for a in x):
            return {'k': 'tuple', 'bits': [int(a) for a in x]}
        return {'k': 'odd', 's': 'tuple'}
    if hasattr(x, 'microsecond') and hasattr(x, 'year'):
        off = x.utcoffset()
        o = NOTZ if off is None else int(off.total_seconds() // 60)
        return {'k': 'time', 't': {'y': x.year, 'mo': x.month, 'd': x.day, 'h': x.hour, 'mi': x.minute, 's': x.second, 'us': x.microsecond, 'off': o}}
    return {'k': 'odd', 's': type(x).__name__}


def nat_event(fn):
    k, v = attempt(fn)
    if k == 'ok':
        return {'k': 'ok', 'v': nat(v)}
    return {'k': 'err', 'e': v}


def der_event(fn, **kw):
    k, v = attempt(fn)
    if k == 'ok':
        if not isinstance(v, bytes):
            return dict({'k': 'err', 'e': 'type ' + type(v).__name__}, **kw)
        return dict({'k': 'ok', 'der': bl(v)}, **kw)
    return dict({'k': 'err', 'e': v}, **kw)
