"""P20: comparison of distinguished names."""
import json, os
from rec import attempt, bl
from asn1crypto import x509, core

DIR = ['2.5.4.3', '2.5.4.4', '2.5.4.6', '2.5.4.7', '2.5.4.8', '2.5.4.9', '2.5.4.10', '2.5.4.11', '2.5.4.12', '2.5.4.17', '2.5.4.41', '2.5.4.42', '2.5.4.46', '0.9.2342.19200300.100.1.1', '2.5.4.97',
       '1.3.6.1.4.1.311.60.2.1.3', '0.2.262.1.10.7.20', '2.5.4.65']
UTF = ['2.23.133.2.1', '2.23.133.2.6']
FREE = ['1.2.3.4', '2.5.4.200', '1.3.6.1.4.1.311.60.2.1.9']
KINDS = {'teletex_string': x509.NotReallyTeletexString, 'printable_string': core.PrintableString, 'universal_string': core.UniversalString,
         'utf8_string': core.UTF8String, 'bmp_string': core.BMPString, 'ia5_string': core.IA5String}


def kinds(t):
    out = ['utf8_string', 'universal_string']
    if all(c < 0x10000 for c in t):
        out.append('bmp_string')
    if all(c < 256 for c in t):
        out.append('printable_string')
    if all(c < 128 for c in t):
        out.append('ia5_string')
    if all(chr(c).isalnum() and c < 128 or c == 32 for c in t):
        out.append('teletex_string')
    return out


class Names:
    def __init__(self, rng, alphabet):
        self.rng, self.alphabet = rng, alphabet
        self.base = [[97, 98], [65, 32, 98], [0xe9, 115], [99], [], [32], [0x5d0, 0x5d1], [0xdf], [97, 32, 32, 99, 44, 61], [97, 32, 0x903, 98], [99, 32, 0x20dd], [0x30ab, 0x3099], [49, 50], [111, 0x327, 0x301], [117, 0x308, 0x304], [92, 120, 49, 101]]

    def text(self):
        rng = self.rng
        q = rng.random()
        if q < .5:
            return list(rng.choice(self.base))
        if q < .7:
            return [rng.choice([97, 65, 98, 32, 49]) for _ in range(rng.choice([1, 2, 5, 9]))]
        return [rng.choice(self.alphabet) for _ in range(rng.choice([1, 2, 3, 6]))]

    def vary(self, t):
        """a text that is often equal to t"""
        rng, t = self.rng, list(t)
        for _ in range(rng.choice([1, 1, 2, 4])):
            q = rng.randrange(9)
            i = rng.randrange(len(t) + 1)
            if q == 0:
                t = [ord(chr(c).swapcase()) if c < 128 else c for c in t]
            elif q == 1:
                t.insert(i, rng.choice([0xad, 0, 0x200b, 0xfeff, 0x34f, 0x2060]))
            elif q == 2:
                t = [rng.choice([32, 0xa0, 9, 0x3000, 0x2002, 10]) if c == 32 else c for c in t]
            elif q == 3:
                t = sum(([c, 32] if c == 32 else [c] for c in t), [])
            elif q == 4:
                t = [32] * rng.randrange(3) + t + [32, 9][:rng.randrange(3)]
            elif q == 5:
                t = sum(({0xe9: [101, 0x301], 0xdf: [115, 115], 0x30ab: [0xff76], 0x3099: [0xff9e], 0xb2: [50], 97: [0xff21], 115: [0x17f], 50: [0xb2], 0x327: [0x301], 0x301: [0x327]}.get(c, [c]) for c in t), [])
            elif q == 6 and t:
                t[i % len(t)] = rng.choice(self.alphabet)
            elif q == 7 and t and rng.random() < .3:
                del t[i % len(t)]
            elif q == 8 and rng.random() < .3:
                t[i:i] = rng.choice([[32], [97], [0x301], [32, 0x301], [32, 0x903], [0x20dd]])
        return t

    def attr(self, used):
        rng = self.rng
        ty = rng.choice([x for x in rng.choice([DIR, DIR, DIR, DIR, UTF, FREE, ['2.5.4.45'], ['1.2.840.113549.1.9.1'], ['0.9.2342.19200300.100.1.25'], ['2.5.4.20']]) if x not in used] or ['1.2.3.%d' % len(used)])
        return self.valued(ty, None)

    def valued(self, ty, t):
        """attribute of type ty with text t (or another one)"""
        rng = self.rng
        if ty == '2.5.4.45':
            v = bytes(t) if t is not None else rng.choice([b'', b'\x81', b'ab', b'AB', b'\x1e\\', b'\\x1e\\\\', b'\x1f', b'\\x1f', b' ', bytes([rng.randrange(256)]), b'a \x1f2.5.4.3:  b'])
            return {'ty': ty, 'k': 'octets', 't': list(v)}
        if ty in ('1.2.840.113549.1.9.1', '0.9.2342.19200300.100.1.25'):
            ok = t is not None and t and all(c < 128 and (chr(c).isalnum()) for c in t)
            t = t if ok else [ord(c) for c in rng.choice(['ab', 'AB', 'aB', 'b1'])]
            return {'ty': ty, 'k': 'text', 't': t, 's': ''}
        t = self.text() if t is None else t
        if ty in UTF:
            return {'ty': ty, 'k': 'text', 't': t, 's': 'utf8_string'}
        if ty == '2.5.4.20':
            t = [c for c in t if c < 256]
            return {'ty': ty, 'k': 'text', 't': t, 's': 'printable_string'}
        return {'ty': ty, 'k': 'text', 't': t, 's': rng.choice(kinds(t))}

    def name(self):
        rng = self.rng
        n = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
            r = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                r.append(self.attr([a['ty'] for a in r]))
            n.append(r)
        return n

    def near(self, n):
        rng = self.rng
        n = [[self.valued(a['ty'], self.vary(a['t']) if rng.random() < .6 and a['k'] == 'text' else list(a['t'])) for a in r] for r in n]
        for r in n:
            rng.shuffle(r)
        q = rng.random()
        if q < .6 or not n:
            return n
        i = rng.randrange(len(n))
        if q < .68:
            n.insert(i, [self.attr([])])
        elif q < .74:
            del n[i]
        elif q < .8:
            rng.shuffle(n)
        elif q < .85:
            n[i].append(self.attr([a['ty'] for a in n[i]]))
        elif q < .9 and len(n[i]) > 1:
            n[i].pop()
        elif q < .95:
            a = n[i][0]
            if a['ty'] in DIR:
                n[i][0] = self.valued(rng.choice([x for x in DIR if x not in [b['ty'] for b in n[i]]]), a['t'])
        elif len(n) > 1 and len({a['ty'] for r in n[:2] for a in r}) == sum(map(len, n[:2])):
            n[:2] = [n[0] + n[1]]
        return n

    # the real objects
    def value(self, a):
        ty = a['ty']
        if a['k'] == 'octets':
            return core.OctetBitString(bytes(a['t']))
        s = ''.join(map(chr, a['t']))
        if ty == '1.2.840.113549.1.9.1':
            return x509.EmailAddress(s)
        if ty == '0.9.2342.19200300.100.1.25':
            return x509.DNSName(s)
        v = KINDS[a['s']](s)
        if ty in FREE or ty.startswith('1.2.3.') or ty in UTF or ty == '2.5.4.20':
            return v
        return x509.DirectoryString(name=a['s'], value=v)

    def obj(self, n, level):
        rng = self.rng
        if level != 'attr' and level != 'rdn' and len(n) and rng.random() < .15 and all(len(r) == 1 and r[0]['k'] == 'text' and r[0].get('s') in ('utf8_string', '') and r[0]['ty'] in DIR for r in n) and len({r[0]['ty'] for r in n}) == len(n):
            pairs = sorted([(x509.NameType.preferred_ordinal(x509.NameType.map(r[0]['ty'])), r) for r in n], key=lambda x: x[0])
            if [p[1] for p in pairs] == n:
                o = x509.Name.build({(x509.NameType.map(r[0]['ty']) if rng.random() < .7 else r[0]['ty']): (''.join(map(chr, r[0]['t'])) if r[0]['ty'] not in ('2.5.4.46', '2.5.4.6') else self.value(r[0])) for r in rng.sample(n, len(n))})
                return o if level == 'name' else o.chosen if level == 'rdns' else x509.GeneralName(name='directory_name', value=o)
        rs = [x509.RelativeDistinguishedName([x509.NameTypeAndValue({'type': a['ty'], 'value': self.value(a)}) for a in r]) for r in n]
        load = rng.random() < .6
        if level == 'attr':
            o = rs[0][0]
            return x509.NameTypeAndValue.load(o.dump()) if load else o
        if level == 'rdn':
            return x509.RelativeDistinguishedName.load(rs[0].dump()) if load else rs[0]
        o = x509.RDNSequence(rs)
        if level == 'rdns':
            return x509.RDNSequence.load(o.dump()) if load else o
        o = x509.Name(name='', value=o)
        if load:
            o = x509.Name.load(o.dump())
        return o if level == 'name' else x509.GeneralName(name='directory_name', value=o)


def hashable(o):
    if isinstance(o, x509.NameTypeAndValue):
        return o['type'].dotted + ' ' + o.prepped_value
    if isinstance(o, x509.GeneralName):
        return o.chosen.hashable
    return o.hashable


def truth(fn):
    k, v = attempt(fn)
    return v if k == 'err' else {True: 'T', False: 'F'}.get(v, repr(v))


def compare(r, label, ns, os_):
    eq = [[truth(lambda: a == b) for b in os_] for a in os_]
    ne = [[truth(lambda: a != b) for b in os_] for a in os_]
    seen, h, he = {}, [], []
    for o in os_:
        k, v = attempt(lambda: hashable(o))
        h.append(seen.setdefault(v, len(seen) + 1) if k == 'ok' else 0)
        he.append('' if k == 'ok' else v)
    strip = [[[{'ty': a['ty'], 'k': a['k'], 't': a['t']} for a in x] for x in n] for n in ns]
    r.ev('compare', label, names=strip, eq=eq, ne=ne, h=h, he=he)


def attrs(o):
    if isinstance(o, x509.NameTypeAndValue):
        return [o]
    if isinstance(o, x509.RelativeDistinguishedName):
        return list(o)
    if isinstance(o, (x509.GeneralName, x509.Name)):
        return attrs(o.chosen)
    return [a for x in o for a in x]


def record(r):
    rng = r.rng
    beh = json.load(open(os.path.join(os.environ['VERIF_WORK'], 'names.json')))
    g = Names(rng, beh['alphabet'])
    # every short text with its prepared form and with its neighbour
    prev = [97]
    for i, x in enumerate(beh['texts']):
        if i % r.parts == r.part:
            ty = DIR[i % len(DIR)]
            ns = [[[{'ty': ty, 'k': 'text', 't': t, 's': rng.choice(kinds(t))}]] for t in (x['t'], x['v'], prev)]
            compare(r, 'every short text', ns, [g.obj(n, 'attr' if i % 2 else 'name') for n in ns])
        prev = x['t']
    # random names, then edited
    for _ in range(r.scale(350, 6000)):
        level = rng.choice(['name', 'name', 'name', 'rdns', 'rdn', 'attr', 'general'])
        base = g.name()
        if level in ('rdn', 'attr'):
            base = (base or [[g.attr([])]])[:1]
            if level == 'attr':
                base[0] = base[0][:1]
        ns = [base]
        for _ in range(rng.choice([1, 2, 3])):
            n = g.near(rng.choice(ns))
            if level in ('rdn', 'attr'):
                n = (n or [[dict(a) for a in x] for x in base])[:1]
                if level == 'attr':
                    n[0] = n[0][:1]
            ns.append(n)
        os_ = [g.obj(n, level) for n in ns]
        compare(r, 'names at level ' + level, ns, os_)
        if rng.random() < .5:
            i = rng.randrange(len(ns))
            if rng.random() < .4:
                os_[i] = os_[i].copy()      # else the object that has been compared is edited
            # objects are found by type and value, as a loaded SET may be in another order
            want = [a for x in ns[i] for a in x]
            have = attrs(os_[i])
            order = []
            for x in ns[i]:
                pool = have[:len(x)]
                have = have[len(x):]
                order += [next(o for o in pool if o['type'].dotted == a['ty']) for a in x]
            if want:
                j = rng.randrange(len(want))
                new = g.valued(want[j]['ty'], g.vary(want[j]['t']) if rng.random() < .6 and want[j]['k'] == 'text' else None)
                order[j]['value'] = g.value(new)
                want[j].clear()
                want[j].update(new)
                compare(r, 'edited names at level ' + level, ns, os_)
        o = os_[0]
        if level != 'general':
            x = rng.choice([None, 'text', 5, o.dump(), x509.Name.build({'common_name': 'a'}) if level != 'name' else core.Null(), x509.RDNSequence([]) if level != 'rdns' else 0])
            r.ev('foreign', 'other objects', what=repr(type(x)), out=[truth(lambda: o == x), truth(lambda: o != x)])
