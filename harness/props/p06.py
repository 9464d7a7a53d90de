"""P06: bit and octet strings: bits, names, unused bits, octets, integers and casts as histories."""
import gen, prims
from prims import SEE, FORCE, S

KINDS = ('bits', 'obits', 'ibits', 'pbits', 'octets', 'iocts', 'pocts')
CASTS = ['core_BitString', 'core_OctetBitString', 'core_IntegerBitString', 'core_ParsableOctetBitString', 'core_OctetString', 'core_IntegerOctetString',
         'core_ParsableOctetString', 'core_Integer', 'core_UTF8String']


def record(r):
    SC = gen.load_schema()
    rng = r.rng
    names = [n for n in sorted(SC) if SC[n]['k'] in KINDS and gen.cls_of(n) is not None]
    i = 0
    for n in names:
        t = SC[n]
        k = t['k']
        core = n.startswith('core_')
        # every length up to 17 bits with every count of unused bits is covered by rep
        for rep in range(r.scale(230 if core else 100 if t['m'] else 16, 1200 if core else 250 if t['m'] else 80)):
            i += 1
            if i % r.parts != r.part:
                continue

            def bits():
                ln = rng.choice(list(range(0, 18)) + [23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 129, 800])
                if t['m'] and rng.random() < .8:
                    ln = rng.randrange(0, t['m'][-1][0] + 3)
                x = rng.random()
                return [rng.choice([0, 0, 0, 1]) if x < .3 else 1 if x < .4 else 0 if x < .5 else rng.randrange(2) for _ in range(ln)]

            def octs():
                return list(gen.rbytes(rng))

            def name():
                return rng.choice(t['m'])[1]

            def good():
                if k in ('iocts', 'ibits'):
                    return gen.vint(abs(rng.choice([0, 1, 127, 128, 255, 256, 65535, 65536, rng.getrandbits(90), rng.getrandbits(600)])))
                if k == 'bits':
                    if t['m'] and rng.random() < .6:
                        return {'k': 'bset', 'ns': sorted({name() for _ in range(rng.randrange(0, 5))}), 'ix': []}
                    if t['m']:
                        b = bits()
                        return {'k': 'bits', 'bits': b[:1 + max(e[0] for e in t['m'])] if rng.random() < .8 else b}
                    return {'k': 'bits', 'bits': bits()}
                return {'k': 'oct', 'o': octs()}

            def bad():
                q = rng.random()
                if k == 'bits':
                    if q < .3:
                        return {'k': 'bset', 'ns': ['no_such_bit'] + ([name()] if t['m'] else []), 'ix': []}
                    if q < .5:
                        return {'k': 'odd', 's': rng.choice(['twos', 'negative tuple', 'tuple'])}
                    return {'k': 'odd', 's': rng.choice(['float', 'list', 'bytes', 'text', 'int', 'none', 'dict', 'object'])}
                if k in ('iocts', 'ibits'):
                    if q < .3:
                        return gen.vint(-rng.choice([1, 2, 255, 2 ** 70]))
                    return {'k': 'odd', 's': rng.choice(['float', 'list', 'bytes', 'text', 'none', 'dict', 'object', 'tuple'])}
                return {'k': 'odd', 's': rng.choice(['float', 'list', 'text', 'int', 'none', 'dict', 'object', 'tuple'])}

            def enc():
                if k in ('bits', 'obits', 'ibits', 'pbits'):
                    c = bytes(octs()) if rng.random() < .5 else gen.rbytes(rng, rng.randrange(0, 4))
                    u = rng.randrange(8) if c and (k in ('bits', 'ibits') or rng.random() < .3) else 0
                    if k == 'pbits' and rng.random() < .9:
                        u = 0
                    if u and rng.random() < .7:
                        c = c[:-1] + bytes([c[-1] >> u << u])
                    if rng.random() < .04:
                        u = rng.choice([8, 9, 255]) if c else rng.choice([1, 7])
                    c = bytes([u]) + c if rng.random() > .02 else b''
                else:
                    c = bytes(octs())
                    if k == 'iocts' and rng.random() < .3:
                        c = b'\x00' * rng.randrange(1, 4) + c
                if k in ('bits', 'obits', 'ibits') and rng.random() < .05:
                    # unused bits before the last chunk
                    return prims.raw(n, b''.join(b'\x03' + bytes([1 + len(x), u]) + x for u, x in
                                                 [(rng.choice([0, 0, 1, 4, 7]), rng.choice([b'', b'\0', b'\xf0', b'\xff\0', b'\x80'])) for _ in range(rng.choice([1, 2, 2, 3]))]), con=True)
                con = rng.random() < .35 and c
                if con and c and k in ('bits', 'obits', 'ibits', 'pbits') and c[0] > 7:
                    con = False
                return prims.rawc(n, c, rng) if con else prims.raw(n, c)

            plan = [S(s='load', b=enc()) if rng.random() < .5 else S(s='set', a=good())]
            for _ in range(rng.randrange(1, 7)):
                q = rng.random()
                if q < .3:
                    plan.append(SEE)
                elif q < .42:
                    plan.append(S(s='set', a=good()))
                elif q < .52:
                    plan += [S(s='set', a=bad()), SEE]
                elif q < .6:
                    plan.append(FORCE)
                elif q < .68 and not t['im'] and not t['ex']:
                    plan.append(S(s='cast', to=rng.choice([c for c in CASTS if gen.cls_of(c) is not None])))
                elif k == 'bits':
                    ix = rng.choice(list(range(0, 20)) + [31, 32, 63, 64, 200])
                    nm = ''
                    if t['m'] and rng.random() < .7:
                        nm = name() if rng.random() < .9 else 'no_such_bit'
                    elif not t['m'] and rng.random() < .04:
                        nm = 'no_such_bit'
                    elif t['m']:
                        ix = rng.randrange(0, 1 + max(e[0] for e in t['m']))
                    if rng.random() < .5:
                        plan.append(S(s='getbit', name=nm, ix=ix))
                    else:
                        plan.append(S(s='setbit', name=nm, ix=ix, v=rng.random() < .6))
                        if rng.random() < .5:
                            plan.append(SEE)
                elif k == 'iocts':
                    plan.append(S(s='width', n=rng.choice([1, 2, 3, 8, 16, 33, 66, 130])))
            plan.append(SEE)
            prims.hist(r, n, plan, 'values of ' + k)
