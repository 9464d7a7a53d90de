"""P25: key containers, what they tell about the key, points, and EC keys under edits."""
import hashlib, json, os
from rec import attempt, bl
from asn1crypto import core, keys, algos
import gen

PRIV = ['rsa', 'rsassa_pss', 'dsa', 'ec', 'x25519', 'x448', 'ed25519', 'ed448']
PUB = ['rsa', 'rsaes_oaep', 'rsassa_pss', 'dsa', 'ec', 'dh', 'x25519', 'x448', 'ed25519', 'ed448']


def put(v, n, x):
    for p in v['f']:
        if p['n'] == n:
            p['v'] = x
            return
    raise KeyError(n)


def number(rng):
    """a positive number of one to sixty-six octets, often near a power of two"""
    n = rng.choice([1, 2, 8, 16, 20, 20, 21, 32, 64, 66])
    return rng.choice([1 << (8 * n - 1), (1 << (8 * n)) - 1, 1 << (8 * n), (1 << (8 * n - 1)) - 1, rng.getrandbits(8 * n) | 1, max(1, rng.getrandbits(8 * n - 7))])


def sizes(v, rng, names=('modulus', 'p', 'q', 'g', 'prime1', 'prime2', 'public_key', 'private_key')):
    for p in v['f']:
        if p['n'] in names and p['v']['k'] == 'int':
            p['v'] = gen.vint(number(rng))


# ---------------------------------------------------------------- what a container tells
def form(fn):
    k, v = attempt(fn)
    if k == 'err':
        return {'k': 'err', 'e': v}
    if v is None:
        return {'k': 'none'}
    if isinstance(v, str):
        return {'k': 'str', 's': v}
    if isinstance(v, int) and not isinstance(v, bool):
        return {'k': 'int', 'n': v}
    if isinstance(v, float):
        return {'k': 'float', 's': repr(v)}
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str):
        return {'k': 'curve', 'n': v[0], 'v': gen.nat(v[1])}
    return {'k': 'odd', 's': type(v).__name__}


ASK = ['algorithm', 'curve', 'hash_algo', 'bit_size', 'byte_size']


def told(o, rng):
    order = rng.sample(ASK, len(ASK))
    got = {a: form(lambda: getattr(o, a)) for a in order}
    if rng.random() < .3:
        # and again
        again = {a: form(lambda: getattr(o, a)) for a in rng.sample(ASK, len(ASK))}
        for a in ASK:
            if again[a] != got[a]:
                got[a] = {'k': 'changed'}
    return got


def public_octets(der):
    def head(b, i):
        n = b[i + 1]
        if n < 128:
            return i + 2, n
        k = n & 127
        return i + 2 + k, int.from_bytes(b[i + 2:i + 2 + k], 'big')
    i, _ = head(der, 0)
    i, n = head(der, i)
    i += n
    i, n = head(der, i)
    return der[i + 1:i + n]


def digests(o, der):
    b = public_octets(der)
    g1 = attempt(lambda: o.sha1)
    g2 = attempt(lambda: o.sha256)
    hexed = lambda g: g[1].hex() if g[0] == 'ok' and isinstance(g[1], bytes) else str(g[1])
    return {'of': bl(b), 'want1': hashlib.sha1(b).hexdigest(), 'want256': hashlib.sha256(b).hexdigest(), 'got1': hexed(g1), 'got256': hexed(g2)}


NOSHA = {'of': [], 'want1': '', 'want256': '', 'got1': '', 'got256': ''}


def report(r, op, label, kind, make, extra, rng):
    T = keys.PrivateKeyInfo if kind == 'private' else keys.PublicKeyInfo
    k, o = attempt(make)
    if k == 'err':
        none = {'k': 'none'}
        r.ev(op, label, kind=kind, dump={'k': 'err', 'e': o}, got={}, back={}, sha=NOSHA, **dict({'orig': []}, **dict(extra, src=none)))
        return
    first = rng.random() < .5
    got = told(o, rng) if first else None
    if kind == 'public' and rng.random() < .3:
        attempt(lambda: (o.sha1, o.sha256))
    dump = gen.der_event(lambda: o.dump())
    if not first:
        got = told(o, rng)
    back, sha = {}, NOSHA
    if dump['k'] == 'ok':
        b = bytes(dump['der'])
        p = T.load(b)
        back = told(p, rng)
        if kind == 'public':
            sha = digests(rng.choice([o, p]), b)
    x = dict({'src': {'k': 'none'}, 'orig': []}, **extra)
    if callable(x['src']):
        x['src'] = gen.der_event(x['src'])
    r.ev(op, label, kind=kind, dump=dump, got=got, back=back, sha=sha, **x)


SRC = {'rsa': 'keys_RSAPrivateKey', 'rsassa_pss': 'keys_RSAPrivateKey', 'dsa': 'keys_DSAPrivateKey', 'ec': 'keys_ECPrivateKey'}


def wraps(r, g):
    rng = r.rng
    for _ in range(r.scale(45, 700)):
        kind = rng.choice(['private', 'private', 'public'])
        alg = rng.choice(['rsa', 'rsassa_pss', 'dsa', 'ec', 'ec', 'ec'] if kind == 'private' else ['rsa', 'rsassa_pss'])
        tn = SRC[alg] if kind == 'private' else 'keys_RSAPublicKey'
        opt = ['parameters'] if alg == 'ec' and kind == 'private' else []
        if alg == 'ec' and rng.random() < .6:
            opt.append('public_key')
        v = g.value(tn, force=opt)
        if alg != 'ec':
            sizes(v, rng)
        if alg == 'ec' and gen.mget(v, 'parameters')['n'] == 'specified' and rng.random() < .6:
            put(v, 'parameters', {'k': 'ch', 'n': 'named', 'v': {'k': 'name', 's': rng.choice(gen.SCHEMA['keys_NamedCurve']['om'])[1]}})
        c = gen.cls_of(tn)
        how = rng.choice(['octets', 'object', 'native', 'parsed', 'touched'])
        mk = lambda: gen.obj(tn, v, rng)
        k, src = attempt(mk)
        if k == 'err':
            r.ev('crash', e='key of %s not made: %s' % (alg, src), at=[])
            continue
        if how == 'native':
            src = c(gen.native_arg(tn, v, rng))
        orig = src.dump()
        if how in ('parsed', 'touched', 'octets'):
            src = c.load(orig)
        if how == 'touched':
            src.native
        if rng.random() < .25:
            # the key is itself a member of something else
            src = src.retag({'explicit': 3}) if rng.random() < .5 else src.retag({'implicit': 2})
            if how == 'octets':
                src = c.load(orig)
        held = src.dump()
        arg = orig if how == 'octets' else src
        T = keys.PrivateKeyInfo if kind == 'private' else keys.PublicKeyInfo
        report(r, 'wrap', 'wrapped ' + kind, kind, lambda: T.wrap(arg, alg), {'alg': alg, 'v': v, 'src': (lambda: src.dump()), 'orig': bl(held)}, rng)


def infos(r, g):
    rng = r.rng
    for _ in range(r.scale(60, 900)):
        kind = rng.choice(['private', 'public'])
        tn = 'keys_PrivateKeyInfo' if kind == 'private' else 'keys_PublicKeyInfo'
        m = 'private_key_algorithm' if kind == 'private' else 'algorithm'
        alg = rng.choice(PRIV if kind == 'private' else PUB)
        v = g.value(tn, gov=alg, force=['attributes'] if rng.random() < .2 else [])
        a = {'k': 'map', 'f': [{'n': 'algorithm', 'v': {'k': 'name', 's': alg}}]}
        t = gen.SCHEMA[tn]
        at = gen.SCHEMA[gen.field(t, m)['t']]
        if alg in ('dsa', 'ec', 'dh') or rng.random() < .5:
            ft, _, known = gen.resolve(at, gen.field(at, 'parameters'), a)
            if known:
                x = g.value(ft, 1)
                if alg in ('dsa', 'dh'):
                    sizes(x, rng)
                if alg == 'ec':
                    if x['n'] == 'specified' and rng.random() < .6 or (x['n'] == 'named' and x['v']['k'] != 'name'):
                        x = {'k': 'ch', 'n': 'named', 'v': {'k': 'name', 's': rng.choice(gen.SCHEMA['keys_NamedCurve']['om'])[1]}}
                a['f'].append({'n': 'parameters', 'v': x})
        put(v, m, a)
        key = 'private_key' if kind == 'private' else 'public_key'
        ft, _, _ = gen.resolve(t, gen.field(t, key), v)
        x = g.value(ft, 1)
        if x['k'] == 'int':
            x = gen.vint(number(rng))
        if x['k'] == 'map' and alg != 'ec':
            sizes(x, rng)
        if kind == 'public' and alg == 'ec':
            w = rng.choice([14, 21, 32, 48, 66])
            h = rng.choice([4, 4, 2, 3])
            x = {'k': 'oct', 'o': [h] + bl(gen.rbytes(rng, w * (2 if h == 4 else 1)))}
        put(v, key, x)
        g.fixup(tn, v)
        how = rng.choice(['obj', 'native', 'items', 'load'])

        def make():
            if how == 'obj':
                return gen.obj(tn, v, rng)
            if how == 'native':
                return gen.cls_of(tn)(gen.native_arg(tn, v, rng))
            if how == 'items':
                return gen.by_item(tn, v, rng)
            return gen.cls_of(tn).load(gen.obj(tn, v, rng).dump())
        report(r, 'info', 'containers of a ' + kind + ' key', kind, make, {'v': v, 'alg': alg}, rng)


# ---------------------------------------------------------------- points
def points(r):
    rng = r.rng
    for _ in range(r.scale(25, 400)):
        n = rng.choice([1, 2, 14, 32, 48, 66])
        x, y = (rng.choice([0, 1, 255, 256, rng.getrandbits(8 * n), rng.getrandbits(8 * n - 7), (1 << 8 * n) - 1, 1 << (8 * n - 1)]) for _ in range(2))
        c = rng.choice([keys.ECPoint, keys.ECPointBitString])
        o = c.from_coords(x, y)
        if rng.random() < .5:
            o = c.load(o.dump())
        if rng.random() < .3:
            o = o.copy()
        octs = lambda i: bl(i.to_bytes((i.bit_length() + 7) // 8, 'big'))
        r.ev('point', 'points from coordinates', x=octs(x), y=octs(y), dump=bl(o.native), got=coords(o))
    for _ in range(r.scale(25, 400)):
        h = rng.choice([[4], [4], [4], [2], [3], [0], [5], []])
        w = rng.choice([1, 2, 14, 32, 66])
        p = h + (bl(gen.rbytes(rng, 2 * w)) if h else [])
        c = rng.choice([keys.ECPoint, keys.ECPointBitString])
        r.ev('coords', 'coordinates of octets', p=p, got=coords(c(bytes(p))))


def coords(o):
    k, v = attempt(lambda: o.to_coords())
    if k == 'err':
        return {'k': 'err', 'e': v}
    octs = lambda i: bl(i.to_bytes((i.bit_length() + 7) // 8, 'big')) if isinstance(i, int) and i >= 0 else ['odd']
    return {'k': 'point', 'x': octs(v[0]), 'y': octs(v[1])} if isinstance(v, tuple) and len(v) == 2 else {'k': 'odd'}


# ---------------------------------------------------------------- an EC key at work
def par(c, rng):
    k = rng.randrange(3)
    return ('named', c) if k == 0 else keys.ECDomainParameters('named', c) if k == 1 else keys.ECDomainParameters({'named': keys.NamedCurve(c)})


def number_arg(n, rng):
    n = int.from_bytes(bytes(n), 'big')
    return n if rng.random() < .6 else core.IntegerOctetString(n)


def fresh(n, rng):
    d = {'version': 1, 'private_key': number_arg(n, rng)}
    if rng.random() < .5:
        return keys.ECPrivateKey(d)
    k = keys.ECPrivateKey()
    for a in d:
        k[a] = d[a]
    return k


def refusals(key, box, rng):
    """calls that can not be carried out leave the key as it is"""
    k = box['private_key'].parsed if box is not None and rng.random() < .5 else key
    n = k['private_key'].native
    calls = [lambda: k.__setitem__('private_key', 'text'), lambda: k.__setitem__('parameters', ('named', '1.2.3.4.5')), lambda: k.__setitem__('parameters', 5),
             lambda: k.__setitem__('parameters', ('nowhere', 'secp256r1')), lambda: k.__setitem__('private_key', b'\x01\x02'), lambda: k.__setitem__('nothing', 1)]
    if n is not None and n > 255:
        calls += [lambda: k.set_key_size(1), lambda: k.set_key_size((n.bit_length() + 7) // 8 - 1)] * 2
    if k['parameters'].native is not None and k['parameters'].name == 'named':
        calls += [lambda: k.__setitem__('private_key', 1 << 600), lambda: k.__setitem__('private_key', core.IntegerOctetString(1 << 600))]
    for _ in range(rng.choice([1, 1, 2])):
        f = rng.choice(calls)
        if attempt(f)[0] == 'ok':
            raise RuntimeError('a call that can not be carried out is')


def play(ops, rng):
    key, box = keys.ECPrivateKey(), None
    key['version'] = rng.choice([1, 'ecPrivkeyVer1'])
    outs = []
    none = {'k': 'none'}
    for o in ops:
        w = o['op']
        if rng.random() < .3:
            refusals(key, box, rng)
        if w == 'key':
            key['private_key'] = number_arg(o['n'], rng)
        elif w == 'par':
            key['parameters'] = par(o['c'], rng)
        elif w == 'nopar':
            if rng.random() < .5:
                del key['parameters']
            else:
                key['parameters'] = None
        elif w == 'copy':
            key = key.copy()
        elif w == 'reload':
            key = keys.ECPrivateKey.load(key.dump())
        elif w == 'wrap':
            box = keys.PrivateKeyInfo.wrap(key if rng.random() < .6 else key.dump(), 'ec')
        elif w == 'put':
            n = key['private_key'].native
            k = fresh(n.to_bytes((n.bit_length() + 7) // 8, 'big'), rng)
            a = keys.PrivateKeyAlgorithm({'algorithm': 'ec', 'parameters': keys.ECDomainParameters('named', o['c'])})
            d = [('version', 0), ('private_key_algorithm', a), ('private_key', k)]
            if rng.random() < .5:
                box = keys.PrivateKeyInfo(dict(d))
            else:
                box = keys.PrivateKeyInfo()
                for x, y in d:
                    box[x] = y
        elif w == 'cpar':
            box['private_key_algorithm'] = keys.PrivateKeyAlgorithm({'algorithm': 'ec', 'parameters': keys.ECDomainParameters('named', o['c'])})
        elif w == 'ckey':
            box['private_key'] = fresh(o['n'], rng)
        elif w == 'inner':
            box['private_key'].parsed['private_key'] = number_arg(o['n'], rng)
        elif w == 'creload':
            box = keys.PrivateKeyInfo.load(box.dump())
        elif w == 'ccopy':
            box = box.copy()
        elif w == 'force':
            box.dump(force=True)
        has = key['private_key'].native is not None
        bits = 0
        if box is not None:
            x = form(lambda: box.bit_size)
            bits = x['n'] if x['k'] == 'int' else -1
        outs.append({'k': gen.der_event(lambda: key.dump()) if has else none, 'c': gen.der_event(lambda: box.dump()) if box is not None else none, 'bits': bits})
    return outs


def histories(r):
    rng = r.rng
    hs = json.load(open(os.path.join(os.environ['VERIF_WORK'], 'keys.json')))
    for i, ops in enumerate(hs):
        if i % r.parts != r.part or (not r.thorough and rng.random() > .6):
            continue
        k, outs = attempt(lambda: play(ops, rng))
        if k == 'err':
            r.ev('crash', e='history of an EC key: ' + outs, at=[json.dumps(ops)])
        else:
            r.ev('ec', 'histories of an EC key', ops=ops, outs=outs)


def record(r):
    gen.load_schema()
    g = gen.Gen(r.rng, maxdepth=4)
    wraps(r, g)
    infos(r, g)
    points(r)
    histories(r)
