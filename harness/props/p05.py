"""P05: integers, enumerations, booleans, object identifiers and the int/bytes helpers."""
import gen, prims
from rec import attempt, bl
from gen import vint
from prims import SEE, FORCE, S, vstr

NONMIN = [b'\x00\x7f', b'\x00\x00\x80', b'\xff\x80', b'\xff\xff', b'\xff\xff\x7f', b'\x00', b'\x00\x00', b'\x80', b'\x7f\xff', b'\x80\x00', b'\x00\xff\xff']


def ints(rng, n):
    out = [0, 1, -1, 2, -2]
    for k in list(range(1, 10)) + [15, 16, 17, 20, 21, 31, 32, 33, 63, 64, 65, 127, 128]:
        for e in (8 * k, 8 * k - 1):
            for d in (-1, 0, 1):
                out += [2 ** e + d, -(2 ** e) + d]
    for _ in range(n):
        x = rng.getrandbits(rng.choice([3, 8, 20, 70, 200, 900, 2100]))
        out.append(rng.choice([x, -x]))
    return out


def badtext(rng):
    return rng.choice(['', '.', '1', '0', '1.', '.1', '1..2', '3.1', '0.40', '1.40', '4.0.0', 'x', '1.x', '1.2.x', '1.-2', '-1.2', '2.-1', '1.2.', '0.999',
                       'sha1 ', '1,2', '1.2.3.4.', '5.6', '1.2.a3', '1. 2', '1.2.3 ', ' 1.2.3', '1.+2', '1.2_3', '9.9.9', '1.2\u0663', '1.2.\u00b2'])


def oidtext(rng):
    v = gen.roid(rng) if rng.random() < .8 else {'a': [[2], gen.digits(rng.getrandbits(200), 10), gen.digits(rng.getrandbits(260), 10)]}
    return '.'.join(''.join(map(str, a)) or '0' for a in v['a'])


def oidcontents(rng):
    n = rng.randrange(1, 6)
    out = b''
    for _ in range(n):
        x = rng.choice([0, 1, 39, 40, 79, 80, 81, 119, 120, 127, 128, 16383, 16384, 2 ** 21, 2 ** 28, 2 ** 35 + 1, 2 ** 64, rng.getrandbits(100)])
        out += prims.ber.b128(x)
    r = rng.random()
    if r < .05:
        out += b'\x80'
    elif r < .1:
        out = b'\x80' + out
    elif r < .15:
        out = out[:-1] + bytes([out[-1] | 128])
    elif r < .17:
        out = b''
    return out


def record(r):
    SC = gen.load_schema()
    rng = r.rng
    names = [n for n in sorted(SC) if SC[n]['k'] in ('int', 'enum', 'iocts', 'ibits', 'bool', 'oid') and gen.cls_of(n) is not None]
    allnums = ints(rng, r.scale(60, 800))
    i = 0
    for n in names:
        t = SC[n]
        k = t['k']
        core = n.startswith('core_')
        for rep in range(r.scale(90 if core else 6, 900 if core else 60)):
            i += 1
            if i % r.parts != r.part:
                continue
            plan = []

            def num():
                if t['m'] and rng.random() < .5:
                    return rng.choice(t['m'])[0] + rng.choice([0, 0, 0, 1])
                return rng.choice(allnums)

            def good():
                if k == 'bool':
                    return {'k': 'bool', 'b': rng.random() < .5}
                if k == 'oid':
                    return vstr(rng.choice(t['om'])[1]) if t['om'] and rng.random() < .4 else vstr(oidtext(rng))
                if t['m'] and rng.random() < .6:
                    return vstr(rng.choice(t['m'])[1])
                x = num()
                return vint(abs(x) if k in ('iocts', 'ibits') and rng.random() < .9 else x)

            def bad():
                q = rng.random()
                if k == 'oid':
                    return vstr(badtext(rng)) if q < .7 else {'k': 'odd', 's': rng.choice(['float', 'list', 'int', 'bytes', 'none', 'object'])}
                if k == 'bool':
                    return good()
                if q < .4:
                    return vstr(rng.choice(['no_such_name', '', '1', '0', 'V1']))
                if q < .5 and k == 'enum' and t['m']:
                    return vint(rng.choice([99, 1000, 2 ** 40, -5]))
                return {'k': 'odd', 's': rng.choice(['float', 'list', 'bytes', 'none', 'dict', 'object'])}

            def enc():
                if k == 'bool':
                    return prims.raw(n, bytes([rng.choice([0, 1, 127, 128, 254, 255])]))
                if k == 'oid':
                    return prims.raw(n, oidcontents(rng))
                if k in ('int', 'enum'):
                    c = rng.choice(NONMIN) if rng.random() < .3 else prims.ber.intc(num())
                    return prims.raw(n, c if rng.random() < .97 else b'')
                x = abs(num())
                c = b'\x00' * rng.choice([0, 0, 1, 2]) + (x.to_bytes((x.bit_length() + 7) // 8, 'big'))
                if k == 'ibits':
                    u = rng.randrange(8) if c else 0
                    if u and rng.random() < .7:
                        c = c[:-1] + bytes([c[-1] >> u << u])
                    c = bytes([u]) + c
                return prims.rawc(n, c, rng) if rng.random() < .3 else prims.raw(n, c)

            start = rng.random()
            plan.append(S(s='load', b=enc()) if start < .45 else S(s='set', a=good()))
            for _ in range(rng.randrange(1, 6)):
                q = rng.random()
                if q < .35:
                    plan.append(SEE)
                elif q < .55:
                    plan.append(S(s='set', a=good()))
                elif q < .75:
                    plan += [S(s='set', a=bad()), SEE]
                elif q < .85:
                    plan.append(FORCE)
                elif k == 'iocts':
                    plan.append(S(s='width', n=rng.choice([0, 1, 2, 3, 8, 16, 33, 66, 130])) if rng.random() < .9 else SEE)
            plan.append(SEE)
            if k == 'iocts':
                plan = [p for p in plan if not (p['s'] == 'width' and p['n'] == 0)]
            prims.hist(r, n, plan, 'values of ' + k)
    for x in allnums:
        for signed in (False, True):
            bl_ = (abs(x).bit_length() + 7) // 8
            for w in {-1, -1, 0, bl_ - 1, bl_, bl_ + 1, bl_ + rng.randrange(2, 9)}:
                if w < -1 or (x, w) == (-1, 0):
                    continue
                i += 1
                if i % r.parts != r.part:
                    continue
                from asn1crypto.util import int_to_bytes
                kk, v = attempt(lambda: int_to_bytes(x, signed=signed, width=None if w < 0 else w))
                a = vint(x)
                r.ev('i2b', n={'neg': a['neg'], 'm': a['m']}, signed=signed, width=w, out={'k': 'ok', 'o': bl(v)} if kk == 'ok' else {'k': v, 'o': []})
    for _ in range(r.scale(150, 2000)):
        from asn1crypto.util import int_from_bytes
        b = rng.choice(NONMIN) if rng.random() < .3 else gen.rbytes(rng)
        signed = rng.random() < .5
        v = vint(int_from_bytes(b, signed=signed))
        r.ev('b2i', b=bl(b), signed=signed, neg=v['neg'], m=v['m'])
    for n in names:
        t = SC[n]
        if t['k'] != 'oid' or not t['om']:
            continue
        c = gen.cls_of(n)
        for _ in range(r.scale(6, 40)):
            i += 1
            if i % r.parts != r.part:
                continue
            d = rng.choice(['map', 'unmap'])
            q = rng.random()
            if q < .5:
                e = rng.choice(t['om'])
                s = '.'.join(map(str, e[0])) if d == 'map' or rng.random() < .3 else e[1]
            elif q < .7:
                s = oidtext(rng)
            else:
                s = badtext(rng)
            kk, v = attempt(lambda: getattr(c, d)(s))
            r.ev('map', t=n, dir=d, a=vstr(s), out=dict(vstr(v), k='ok') if kk == 'ok' else {'k': v, 's': '', 'c': []})
