"""P07: every string type, over its whole repertoire and around its edges."""
import gen, prims
from prims import SEE, FORCE, S, vstr

KINDS = ('utf8', 'bmp', 'universal', 'teletex', 'nrteletex', 'ia5', 'numeric', 'printable', 'graphic', 'visible', 'general', 'character', 'videotex')
EDGE = [0, 1, 9, 10, 13, 31, 32, 33, 34, 35, 36, 39, 40, 42, 47, 48, 57, 58, 63, 64, 65, 90, 91, 92, 94, 95, 96, 97, 122, 123, 126, 127, 128, 129, 159, 160, 161, 163, 164, 165,
        166, 167, 168, 169, 172, 173, 174, 175, 180, 184, 191, 192, 195, 201, 208, 215, 216, 223, 224, 229, 247, 248, 255, 256, 257, 0x131, 0x132, 0x149, 0x14a, 0x152, 0x2014, 0x2018,
        0x2019, 0x201c, 0x20ac, 0x2122, 0x2126, 0x2190, 0x2193, 0x266a, 0x300, 0x301, 0x327, 0x332, 0x37f, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff,
        0x10000, 0x10001, 0x1f600, 0xfffff, 0x100000, 0x10ffff, 0xd800, 0xdbff, 0xdc00, 0xdfff]
BADUTF8 = [b'\x80', b'\xc0\x80', b'\xc1\xbf', b'\xc2', b'\xe0\x80\x80', b'\xe0\xa0', b'\xed\xa0\x80', b'\xed\xbf\xbf', b'\xef\xbf', b'\xf0\x80\x80\x80', b'\xf0\x8f\xbf\xbf',
           b'\xf4\x90\x80\x80', b'\xf5\x80\x80\x80', b'\xff', b'\xfe', b'a\xe4b', b'\xf0\x9f\x98', b'\xc3\xa9\xc3', b'\xf8\x88\x80\x80\x80']
BADBMP = [b'a', b'\x00', b'\xd8\x00', b'\xdc\x00', b'\xd8\x00\x00a', b'\x00a\xdc\x00', b'\xd8\x3d\xde\x00', b'\x00a\x00']
BADUNI = [b'\x00', b'\x00\x00\x00', b'\x00\x11\x00\x00', b'\x00\x00\xd8\x00', b'\xff\xff\xff\xff', b'\x00\x00\x00a\x00', b'\x00\x00\xdf\xff', b'\x7f\x00\x00\x00']


def record(r):
    SC = gen.load_schema()
    rng = r.rng
    names = [n for n in sorted(SC) if SC[n]['k'] in KINDS and gen.cls_of(n) is not None]
    i = 0
    for n in names:
        t = SC[n]
        k = t['k']
        core = n.startswith('core_')

        def one(plan):
            prims.hist(r, n, plan, 'text of ' + k)

        if core:
            # every code point to 0x3ff, alone and the edges beyond; every octet
            cps = list(range(0, 0x400 if k == 'teletex' else 0x180)) + EDGE
            for cp in cps:
                i += 1
                if i % r.parts != r.part:
                    continue
                s = chr(cp)
                if k == 'videotex':
                    continue
                one([S(s='set', a=vstr(s)), SEE, S(s='set', a=vstr('A' + s + 'b')), SEE])
            if k != 'videotex':
                for b in range(256):
                    i += 1
                    if i % r.parts != r.part:
                        continue
                    w = {'bmp': 2, 'universal': 4}.get(k, 1)
                    one([S(s='load', b=prims.raw(n, bytes(w - 1) + bytes([b]))), SEE, FORCE, SEE])
        for rep in range(r.scale(60 if core else 8, 900 if core else 80)):
            i += 1
            if i % r.parts != r.part:
                continue

            def txt():
                q = rng.random()
                if q < .35:
                    return gen.rtext(rng, k)
                if q < .6:
                    return ''.join(chr(rng.choice(EDGE[:60])) for _ in range(rng.randrange(0, 5)))
                if q < .7:
                    return rng.choice('aZ0 \u00e9\u4e2d') * rng.choice([1, 63, 64, 127, 128, 255, 256])
                return ''.join(chr(rng.choice(EDGE)) for _ in range(rng.randrange(1, 5)))

            def good():
                s = txt()
                if k == 'nrteletex':
                    # encoded as T.61 but decoded as Windows-1252, on purpose
                    s = ''.join(c for c in s if (ord(c) < 128 and c not in '#$\\^`{}~') or ord(c) > 0xd000)
                return {'k': 'oct', 'o': list(gen.rbytes(rng))} if k == 'videotex' else vstr(s)

            def enc():
                q = rng.random()
                if k == 'utf8' and q < .4:
                    c = rng.choice([b'', b'ab', '\u00e9'.encode()]) + rng.choice(BADUTF8) + rng.choice([b'', b'z', b'\x80'])
                elif k == 'bmp' and q < .4:
                    c = rng.choice(BADBMP)
                elif k == 'universal' and q < .4:
                    c = rng.choice(BADUNI)
                elif k in ('bmp', 'universal', 'utf8') and q < .8:
                    enc_ = {'bmp': 'utf-16-be', 'universal': 'utf-32-be', 'utf8': 'utf-8'}[k]
                    c = txt().encode(enc_, 'surrogatepass')
                else:
                    c = gen.rbytes(rng)
                return prims.rawc(n, c, rng) if rng.random() < .3 else prims.raw(n, c)

            plan = [S(s='load', b=enc()) if rng.random() < .5 else S(s='set', a=good())]
            for _ in range(rng.randrange(1, 5)):
                q = rng.random()
                if q < .35:
                    plan.append(SEE)
                elif q < .65:
                    plan.append(S(s='set', a=good()))
                elif q < .8:
                    plan += [S(s='set', a={'k': 'odd', 's': rng.choice(['float', 'list', 'int', 'none', 'dict', 'object', 'tuple'] + (['bytes'] if k != 'videotex' else ['text']))}), SEE]
                else:
                    plan.append(FORCE)
            plan.append(SEE)
            one(plan)
