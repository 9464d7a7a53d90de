"""P24: what algorithm identifiers say about the algorithm."""
import json, os
from rec import attempt
from asn1crypto import algos, cms, keys, core

ENC = ['kdf', 'kdf_hmac', 'kdf_salt', 'kdf_iterations', 'key_length', 'encryption_mode', 'encryption_cipher', 'encryption_block_size', 'encryption_iv']
SIG = ['signature_algo', 'hash_algo', 'cms_hash_algo']


# ---------------------------------------------------------------- DER by hand
def tlv(t, c):
    n = len(c)
    if n < 128:
        return bytes([t, n]) + c
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([t, 128 + len(b)]) + b + c


def num(n):
    return tlv(2, n.to_bytes(n.bit_length() // 8 + 1, 'big', signed=True))


def oid(arcs):
    out = b''
    for v in [arcs[0] * 40 + arcs[1]] + list(arcs[2:]):
        b = [v & 127]
        while v > 127:
            v >>= 7
            b.append(v & 127 | 128)
        out += bytes(b[::-1])
    return tlv(6, out)


def octs(x):
    return tlv(4, bytes(x))


def seq(*parts):
    return tlv(0x30, b''.join(parts))


NULL = b'\x05\x00'
ONE = [1, 2, 840, 113549, 1, 1, 1]


def alg_der(a, rng):
    p, k = a['p'], a['p']['k']
    if k == 'none':
        # ECB, key wrapping and the like: absent or NULL
        par = rng.choice([b'', NULL]) if a['o'] not in ([1, 2, 840, 113549, 3, 9], [1, 2, 840, 113549, 1, 1, 7]) else b''
    elif k == 'iv':
        par = octs(p['iv'])
    elif k == 'ccm':
        par = seq(octs(p['iv']), *([num(rng.choice([4, 8, 16]))] if rng.random() < .5 else []))
    elif k == 'rc2':
        par = seq(*([num(p['v'])] if p['v'] != -1 else []) + [octs(p['iv'])])
    elif k == 'rc5':
        par = seq(num(16), num(rng.choice([8, 127])), num(p['bits']), *([octs(p['iv'])] if p['iv'] != [-1] else []))
    elif k == 'pbe':
        par = seq(octs(p['salt']), num(p['n']))
    else:
        d = p['kdf']
        klen = [num(p['len'])] if p['len'] != -1 else []
        if d['k'] == 'scrypt':
            kd = seq(oid([1, 3, 6, 1, 4, 1, 11591, 4, 11]), seq(octs(d['salt']), num(16384), num(8), num(1), *klen))
        else:
            salt = seq(oid(ONE[:-1] + [9])) if d['other'] else octs(d['salt'])
            prf = [seq(oid(d['prf']), *([NULL] if rng.random() < .7 else []))] if d['prf'] else []
            kd = seq(oid([1, 2, 840, 113549, 1, 5, 12]), seq(salt, num(d['n']), *klen + prf))
        par = seq(kd, alg_der(p['e'], rng))
    return seq(oid(a['o']), par)


def dotted(o):
    return '.'.join(map(str, o))


def name(T, o, rng):
    """the identifier by name or by numbers"""
    t = dotted(o)
    n = T.map(t)
    return n if T.unmap(n) == t and rng.random() < .7 else t


def alg_native(a, rng):
    """the same by way of the constructors"""
    p, k = a['p'], a['p']['k']
    out = {'algorithm': name(algos.EncryptionAlgorithmId, a['o'], rng)}
    if k == 'iv':
        out['parameters'] = bytes(p['iv'])
    elif k == 'ccm':
        out['parameters'] = {'aes_nonce': bytes(p['iv'])}
    elif k == 'rc2':
        out['parameters'] = dict({'iv': bytes(p['iv'])}, **({'rc2_parameter_version': p['v']} if p['v'] != -1 else {}))
    elif k == 'rc5':
        out['parameters'] = dict({'version': 'v1-0', 'rounds': 8, 'block_size_in_bits': p['bits']}, **({'iv': bytes(p['iv'])} if p['iv'] != [-1] else {}))
    elif k == 'pbe':
        out['parameters'] = {'salt': bytes(p['salt']), 'iterations': p['n']}
    elif k == 'pbes2':
        d = p['kdf']
        klen = {'key_length': p['len']} if p['len'] != -1 else {}
        if d['k'] == 'scrypt':
            kd = {'algorithm': 'scrypt', 'parameters': dict({'salt': bytes(d['salt']), 'cost_parameter': 16384, 'block_size': 8, 'parallelization_parameter': 1}, **klen)}
        else:
            salt = algos.Pbkdf2Salt('other_source', {'algorithm': '1.2.840.113549.1.1.9'}) if d['other'] else algos.Pbkdf2Salt('specified', bytes(d['salt']))
            prf = {'prf': {'algorithm': name(algos.HmacAlgorithmId, d['prf'], rng)}} if d['prf'] else {}
            kd = {'algorithm': 'pbkdf2', 'parameters': dict({'salt': salt, 'iteration_count': d['n']}, **klen, **prf)}
        out['parameters'] = {'key_derivation_func': kd, 'encryption_scheme': alg_native(p['e'], rng)}
    return out


def told(obj, attrs):
    out = {}
    for x in attrs:
        k, v = attempt(lambda: getattr(obj, x))
        out[x] = {'k': 'err', 'e': v} if k == 'err' else {'k': 'none'} if v is None else {'k': 'str', 's': v} if isinstance(v, str) \
            else {'k': 'int', 'n': v} if type(v) is int and abs(v) < 2 ** 31 else {'k': 'oct', 'o': list(v)} if isinstance(v, bytes) else {'k': 'other', 's': repr(v)}
    return out


def blob(rng):
    return [rng.randrange(256) for _ in range(rng.choice([1, 4, 8, 8, 16, 16, 32]))]


def vary(a, rng):
    """other values of the parameters, of the same shape"""
    a = json.loads(json.dumps(a))
    p = a['p']
    for x in ('iv', 'salt'):
        if x in p and p[x] != [-1]:
            p[x] = blob(rng)
    if 'n' in p:
        p['n'] = rng.choice([1, 127, 128, 255, 2048, 600000, 2 ** 31 - 1, rng.randrange(1, 10 ** 6)])
    if 'v' in p and rng.random() < .3:
        p['v'] = rng.choice([160, 120, 58, -1, 256, 264, 512, 2048, rng.randrange(1024), 8 * rng.randrange(32, 128)])
    if p['k'] == 'pbes2':
        d = p['kdf']
        d['salt'] = blob(rng)
        if 'n' in d:
            d['n'] = rng.randrange(1, 10 ** 6)
        if p['len'] != -1:
            p['len'] = rng.choice([p['len'], rng.randrange(1, 65)])
        p['e'] = vary(p['e'], rng)
    return a


def enc(r, a):
    how = 'parsed'
    k, o = attempt(lambda: algos.EncryptionAlgorithm.load(alg_der(a, r.rng)))
    if k == 'ok':
        r.ev('enc', 'encryption algorithms, parsed', a=a, got=told(o, ENC))
    else:
        r.ev('enc', 'encryption algorithms, parsed', a=a, got={x: {'k': 'err', 'e': 'load: ' + o} for x in ENC})
    if algos.EncryptionAlgorithmId.map(dotted(a['o'])) is None or r.rng.random() < .5:
        return
    k, o = attempt(lambda: algos.EncryptionAlgorithm(alg_native(a, r.rng)))
    got = told(o, ENC) if k == 'ok' else {x: {'k': 'err', 'e': 'build: ' + o} for x in ENC}
    r.ev('enc', 'encryption algorithms, built', a=a, got=got)
    if k == 'ok':
        # as they come out of the encoding of the built one, and asked in another order
        k, o = attempt(lambda: algos.EncryptionAlgorithm.load(o.dump()))
        xs = list(ENC)
        r.rng.shuffle(xs)
        r.ev('enc', 'encryption algorithms, built and parsed', a=a, got=told(o, xs) if k == 'ok' else {x: {'k': 'err', 'e': 'load: ' + o} for x in ENC})


def encs(r, beh):
    rng = r.rng
    todo = list(beh['plain'])
    inner = [a for a in beh['plain'] if a['p']['k'] != 'pbe' and a['o'] != [1, 2, 3]]
    for d in beh['kdfs']:
        for n in (-1, 16):
            for e in inner if r.thorough or d['k'] == 'scrypt' else rng.sample(inner, 7):
                todo.append({'o': [1, 2, 840, 113549, 1, 5, 13], 'p': {'k': 'pbes2', 'kdf': d, 'len': n, 'e': e}})
    for i, a in enumerate(todo):
        if i % r.parts != r.part:
            continue
        for j in range(r.scale(2, 20)):
            enc(r, vary(a, rng) if j else a)


# ---------------------------------------------------------------- signatures
def pss_native(h, rng):
    if not h:
        return {}
    n = name(algos.DigestAlgorithmId, h, rng)
    return {'hash_algorithm': {'algorithm': n}, 'mask_gen_algorithm': {'algorithm': 'mgf1', 'parameters': {'algorithm': n}}, 'salt_length': 32}


def pss_der(h, rng):
    parts = []
    if h:
        parts.append(tlv(0xa0, seq(oid(h), *([NULL] if rng.random() < .5 else []))))
    if rng.random() < .5:
        # the hash of the mask is another matter
        parts.append(tlv(0xa1, seq(oid([1, 2, 840, 113549, 1, 1, 8]), seq(oid([2, 16, 840, 1, 101, 3, 4, 2, rng.choice([1, 2, 3])]), NULL))))
    if rng.random() < .5:
        parts.append(tlv(0xa2, num(rng.randrange(64))))
    return seq(*parts)


PSS = [1, 2, 840, 113549, 1, 1, 10]


def sig(r, a):
    rng = r.rng
    if a['o'] == PSS:
        par = pss_der(a['h'], rng) if a['par'] else b''
    else:
        par = rng.choice([b'', NULL])
    k, o = attempt(lambda: algos.SignedDigestAlgorithm.load(seq(oid(a['o']), par)))
    xs = list(SIG)
    rng.shuffle(xs)
    r.ev('sig', 'signature algorithms, parsed', a=a, got=told(o, xs) if k == 'ok' else {x: {'k': 'err', 'e': 'load: ' + o} for x in SIG})
    if algos.SignedDigestAlgorithmId.map(dotted(a['o'])) is None:
        return
    how = rng.randrange(3)

    def build():
        v = {'algorithm': name(algos.SignedDigestAlgorithmId, a['o'], rng)}
        if a['o'] == PSS and a['par']:
            v['parameters'] = pss_native(a['h'], rng)
        if how == 0:
            return algos.SignedDigestAlgorithm(v)
        o = algos.SignedDigestAlgorithm()
        for x in v:
            o[x] = v[x]
        return o if how == 1 else algos.SignedDigestAlgorithm.load(o.dump())
    k, o = attempt(build)
    r.ev('sig', 'signature algorithms, built', a=a, got=told(o, xs) if k == 'ok' else {x: {'k': 'err', 'e': 'build: ' + o} for x in SIG})


def sigs(r, beh):
    todo = []
    for o in beh['sigs'] + [[1, 2, 3, 4], [1, 2, 840, 10045, 4, 3, 9], [2, 16, 840, 1, 101, 3, 4, 3, 17], [1, 2, 840, 113549, 1, 1, 7]]:
        if o == PSS:
            todo += [{'o': o, 'par': False, 'h': []}] + [{'o': o, 'par': True, 'h': h} for h in [[]] + beh['digests']] * 3
        else:
            todo += [{'o': o, 'par': False, 'h': []}] * r.scale(2, 8)
    for a in todo[r.part::r.parts]:
        sig(r, a)


# ---------------------------------------------------------------- NULL
HOSTS = [(algos.DigestAlgorithm, algos.DigestAlgorithmId), (algos.SignedDigestAlgorithm, algos.SignedDigestAlgorithmId),
         (algos.EncryptionAlgorithm, algos.EncryptionAlgorithmId), (algos.AnyAlgorithmIdentifier, algos.AnyAlgorithmId),
         (cms.KeyEncryptionAlgorithm, cms.KeyEncryptionAlgorithmId), (keys.PublicKeyAlgorithm, keys.PublicKeyAlgorithmId),
         (keys.PrivateKeyAlgorithm, keys.PrivateKeyAlgorithmId)]


def state(der, o):
    """the parameters as they stand in the encoding"""
    rest = der[2 + len(oid(o)):] if der[:1] == b'\x30' and der[2:].startswith(oid(o)) else b'?'
    return 'absent' if rest == b'' else 'null' if rest == NULL else rest.hex()


def nulls(r, beh):
    rng = r.rng
    todo = []
    for T, I in HOSTS:
        for t in sorted(getattr(I, '_map', None) or {}):
            o = list(map(int, t.split('.')))
            spec = (T._oid_specs or {}).get(I.map(t))
            if spec is None or spec is core.Null:
                todo.append((T, I, o))
            elif T is algos.SignedDigestAlgorithm or T is algos.EncryptionAlgorithm:
                todo.append((T, I, o))
    for T, I, o in todo[r.part::r.parts]:
        for given in ('absent', 'null', 'octets'):
            for how in range(5):
                if given == 'octets' and (how == 4 or (T._oid_specs or {}).get(I.map(dotted(o))) is not None or o in beh['nulls']):
                    continue
                if given == 'null' and (T._oid_specs or {}).get(I.map(dotted(o))) not in (None, core.Null):
                    continue
                vals = {'absent': {}, 'null': {'parameters': core.Null()}, 'octets': {'parameters': core.OctetString(b'x')}}[given]
                n = name(I, o, rng)

                def build():
                    if how == 0:
                        v = T(dict({'algorithm': n}, **vals))
                    elif how == 1:
                        v = T()
                        v['algorithm'] = n
                        if vals:
                            v['parameters'] = vals['parameters']
                    elif how == 2:
                        # one algorithm in place of another
                        v = T({'algorithm': '1.2.3.4'})
                        v['algorithm'] = n
                        if vals:
                            v['parameters'] = vals['parameters']
                    elif how == 3:
                        v = T(dict({'algorithm': I(n)}, **vals))
                    else:
                        v = T(dict({'algorithm': n}, **vals)).copy()
                    return v.dump()
                k, d = attempt(build)
                r.ev('null', 'absent and NULL parameters', how=how, t=T.__name__, o=o, given='0401' + '78' if given == 'octets' else given, par=state(d, o) if k == 'ok' else 'err: ' + d)


# ---------------------------------------------------------------- P1363
def number(rng):
    k = rng.randrange(6)
    if k == 0:
        return rng.choice([0, 1, 127, 128, 255, 256, 65535, 65536])
    n = rng.choice([1, 8, 160, 224, 256, 384, 521, 9, 15, 16, 17])
    return rng.choice([rng.getrandbits(n), 1 << (n - 1), (1 << n) - 1, rng.getrandbits(max(1, n - 9))])


def o8(n):
    return list(n.to_bytes((n.bit_length() + 7) // 8, 'big'))


def fixed(r):
    rng = r.rng
    for _ in range(r.scale(60, 1200)):
        a, b = number(rng), number(rng)
        if rng.random() < .3:
            b = rng.getrandbits(max(1, a.bit_length()))
        m = max(1, len(o8(a)), len(o8(b)))
        w = rng.choice([-1, -1, m, m + 1, m + rng.randrange(40), m - 1, 32])
        how = rng.randrange(3)
        k, s = attempt(lambda: algos.DSASignature({'r': a, 's': b}) if how == 0 else algos.DSASignature.load(seq(num(a), num(b))) if how == 1
                       else algos.DSASignature({'s': b, 'r': a}).copy())
        k, d = attempt(lambda: s.to_p1363() if w == -1 else s.to_p1363(w)) if k == 'ok' else (k, s)
        r.ev('p1363', 'signatures into fixed width', r=o8(a), s=o8(b), w=w, got={'k': 'oct', 'o': list(d)} if k == 'ok' else {'k': 'err', 'e': d})
        w = rng.choice([m, m, m + rng.randrange(8)])
        d = a.to_bytes(w, 'big') + b.to_bytes(w, 'big')
        k, s = attempt(lambda: algos.DSASignature.from_p1363(d))
        if k == 'ok':
            k, s = attempt(lambda: (s['r'].native, s['s'].native) if how else (lambda x: (x['r'].native, x['s'].native))(algos.DSASignature.load(s.dump())))
        r.ev('from', 'signatures from fixed width', d=list(d), r=o8(s[0]) if k == 'ok' and s[0] >= 0 else [255, 0, 255], s=o8(s[1]) if k == 'ok' and s[1] >= 0 else [255, 0, 255])


def record(r):
    with open(os.path.join(os.environ['VERIF_WORK'], 'algo.json')) as f:
        beh = json.load(f)
    encs(r, beh)
    sigs(r, beh)
    nulls(r, beh)
    fixed(r)
