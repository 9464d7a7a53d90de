"""P27: every registered number, name and bit, in both directions."""
from rec import attempt, bl
import gen


def text(k, v):
    return v if k == 'err' or isinstance(v, str) else repr(v)


def out(fn):
    return text(*attempt(fn))


def octets(fn):
    k, v = attempt(fn)
    return bl(v) if k == 'ok' else []


def oid_der(arcs):
    c = b''
    for i, a in enumerate([arcs[0] * 40 + arcs[1]] + list(arcs[2:])):
        p = bytes([a & 127])
        a >>= 7
        while a:
            p = bytes([a & 127 | 128]) + p
            a >>= 7
        c += p
    return b'\x06' + bytes([len(c)]) + c


def oid(r, t, cls, arcs, label):
    dotted = '.'.join(map(str, arcs))
    der = oid_der(arcs)
    m = out(lambda: cls.map(dotted))
    r.ev('oid', label, t=t, a=list(arcs), map=m, load=out(lambda: cls.load(der).native), made=out(lambda: cls(dotted).native), der=octets(lambda: cls(dotted).dump()),
         dotted=out(lambda: cls.load(der).dotted), unmap_num=out(lambda: cls.unmap(dotted)), unmap=out(lambda: cls.unmap(m)), nder=octets(lambda: cls(m).dump()), nnative=out(lambda: cls(m).native))


def name(r, t, cls, s):
    r.ev('name', 'registered names', t=t, s=s, unmap=out(lambda: cls.unmap(s)), der=octets(lambda: cls(s).dump()), native=out(lambda: cls(s).native), back=out(lambda: cls.load(cls(s).dump()).native))


def int_der(tag, n):
    c = n.to_bytes(n.bit_length() // 8 + 1, 'big', signed=True)
    return bytes([tag, len(c)]) + c


def shown(fn, n):
    """native as a name, or "number" if it is n itself"""
    k, v = attempt(fn)
    return 'number' if k == 'ok' and v == n and not isinstance(v, (str, bool)) else text(k, v)


def number(r, t, cls, n, s):
    der = int_der(10 if gen.SCHEMA[t]['k'] == 'enum' else 2, n)
    load = shown(lambda: cls.load(der).native, n)
    nm = s or load
    r.ev('num', 'numbers', t=t, n=n, load=load, made=shown(lambda: cls(n).native, n), num=load == 'number',
         der=octets(lambda: cls(n).dump()), nder=octets(lambda: cls(nm).dump()))


def bitset(r, t, cls, on, named, unused):
    width = max(on) + 1 if on else 0
    bits = [1 if i in on else 0 for i in range(width)]
    pad = (-width) % 8
    c = bytes([pad]) + (int(''.join(map(str, bits)) + '0' * pad or '0', 2)).to_bytes((width + 7) // 8, 'big')
    der = bytes([3, len(c)]) + c

    def show(fn):
        k, v = attempt(fn)
        if k != 'ok' or not isinstance(v, set):
            return {'k': 'err', 'names': [], 'nums': [], 'e': text(k, v)}
        return {'k': 'ok', 'names': sorted(x for x in v if isinstance(x, str)), 'nums': sorted(x for x in v if not isinstance(x, str)), 'e': ''}
    load = show(lambda: cls.load(der).native)
    # named ones given by name, the others by position; as a tuple only as far as there are names
    made = octets(lambda: cls(set(named.get(i, i) for i in on)).dump())
    tup = show(lambda: cls(tuple(bits)).native) if bits and width <= max(named) + 1 else load
    r.ev('bits', 'named bits', t=t, on=sorted(on), load=load, tup=tup, der=made)


UNKNOWN = ['', 'no such name', 'unknown', 'Common_Name', 'sha_1', '1', '1.', '.1', 'v9', 'digital signature', 'KEY_USAGE', 'aes128_xyz', '1.2.a', 'None', ' common_name', 'common_name ']


def record(r):
    S = gen.load_schema()
    rng = r.rng
    ts = [t for t in sorted(S) if not t.startswith('user_') and (S[t]['om'] or S[t]['m']) and gen.cls_of(t) is not None]
    for i, t in enumerate(ts):
        if i % r.parts != r.part:
            continue
        d, cls = S[t], gen.cls_of(t)
        if d['om']:
            known = [tuple(a) for a, _ in d['om']]
            for a in known:
                oid(r, t, cls, a, 'registered numbers')
            near = set()
            for a in known:
                near |= {a[:-1] + (a[-1] + x,) for x in (-1, 1, 2, 10)} | {a + (x,) for x in (0, 1)} | {a[:-1]}
                near |= {a[:j] + (a[j] + x,) + a[j + 1:] for j in range(2, len(a) - 1) for x in (-1, 1)}
            near = sorted(a for a in near if len(a) > 2 and min(a) >= 0 and a not in known)
            rng.shuffle(near)
            for a in near[:r.scale(60, 100000)]:
                oid(r, t, cls, a, 'unregistered numbers')
            # all that the other registries know
            others = sorted({tuple(a) for u in ts for a, _ in S[u]['om']} - set(known))
            for a in others if r.thorough else rng.sample(others, 60):
                oid(r, t, cls, a, 'numbers of other registries')
            for s in sorted({s for _, s in d['om']}):
                name(r, t, cls, s)
            bad = [s for s in UNKNOWN if s not in {s for _, s in d['om']}]
            for s in bad:
                if s != '1':
                    r.ev('refuse', 'unknown names', t=t, s=s, outs=[out(lambda: cls.unmap(s)), out(lambda: cls(s))])
        elif d['k'] == 'bits':
            named = {n: s for n, s in d['m']}
            top = max(named) + 3
            for n in range(top):
                bitset(r, t, cls, {n}, named, 0)
            bitset(r, t, cls, set(), named, 0)
            bitset(r, t, cls, set(named), named, 0)
            for _ in range(r.scale(60, 1500)):
                p = rng.random()
                bitset(r, t, cls, {n for n in (named if rng.random() < .7 else range(top + 20)) if rng.random() < p}, named, 0)
            for s in UNKNOWN:
                r.ev('refuse', 'unknown names', t=t, s=s, outs=[out(lambda: cls({s}))])
                r.ev('refuse', 'unknown names', t=t, s=s, outs=[out(lambda: cls({named[min(named)], s}))])
        else:
            named = {n: s for n, s in d['m']}
            for n in list(range(-3, 64)) + [127, 128, 255, 256, 65535, 65536, -128, -129, 2 ** 30]:
                number(r, t, cls, n, named.get(n))
            for s in UNKNOWN + ['1', '0']:
                if s not in named.values():
                    r.ev('refuse', 'unknown names', t=t, s=s, outs=[out(lambda: cls(s))])
