"""P03: arbitrary bytes and arbitrary reads."""
import zlib
import gen, structs, ber
from rec import attempt, bl
from props.p12 import flip
from props.p13 import params
from asn1crypto import core


def tree(rng, depth=0):
    """a random element"""
    q = rng.random()
    cls = rng.choice([0, 0, 0, 2, 2, 1, 3])
    tag = rng.choice([1, 2, 3, 4, 5, 6, 10, 12, 16, 17, 19, 22, 23, 24, 28, 30]) if not cls else rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 30, 31, 200])
    con = rng.random() < (.9 if cls == 0 and tag in (16, 17) else .3)
    if con and depth < 4:
        body = b''.join(tree(rng, depth + 1) for _ in range(rng.choice([0, 1, 1, 2, 3, 5])))
    else:
        body = gen.rbytes(rng)[:rng.choice([0, 1, 1, 2, 4, 9, 40])]
        if tag == 6:
            body = ber.oidc([int(''.join(map(str, x)) or 0) for x in gen.roid(rng)['a']]) if rng.random() < .7 else body
    st = ber.Style(rng, longlen=.1, indef=.2)
    return ber.tlv(cls, int(con), tag, body, st)


def damage(rng, b):
    q = rng.random()
    if q < .4:
        b = flip(rng, b)
        if rng.random() < .3:
            b = flip(rng, b)
    elif q < .7:
        try:
            b = ber.mutate(b, rng, rng.choice([1, 1, 2, 4]))
        except Exception:
            b = flip(rng, b)
    elif q < .8:
        b = b[:rng.randrange(len(b) + 1)]
    elif q < .85:
        b = b + gen.rbytes(rng)[:5]
    elif len(b) > 4:
        i = rng.randrange(len(b))
        b = b[:i] + gen.rbytes(rng)[:rng.choice([1, 2, 6])] + b[i + rng.choice([0, 1, 3]):]
    return b


def digest(x):
    return zlib.crc32(repr(x).encode('utf-8', 'surrogatepass')) & 0x3fffffff


def val(x):
    if isinstance(x, core.Asn1Value):
        return type(x).__name__
    if isinstance(x, (set, frozenset)):
        return sorted(map(str, x))
    if isinstance(x, dict):
        return [(k, val(v)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [val(v) for v in x]
    return x


class Reads:
    def __init__(self, rng, o):
        self.rng = rng
        self.hs = [o]
        self.ids = {}
        self.steps = []

    def do(self, h, name, fn, hold=False):
        k, x = attempt(fn)
        d = 0
        if k == 'ok':
            if hold:
                key = (h, name)
                if isinstance(x, core.Asn1Value) and len(self.hs) < 40:
                    self.ids.setdefault(key, len(self.hs))
                    if self.ids[key] == len(self.hs):
                        self.hs.append(x)
            k2, y = attempt(lambda: digest(val(x)))
            d = y if k2 == 'ok' else 0
        self.steps.append({'h': h, 'r': name, 'e': '' if k == 'ok' else x, 'd': d})

    def options(self, h):
        o, rng = self.hs[h], self.rng
        out = [('native', lambda: o.native, False), ('native', lambda: o.native, False), ('dump', lambda: o.dump(), False)]
        if isinstance(o, core.Choice):
            out += [('chosen', lambda: o.chosen, True), ('chosen', lambda: o.chosen, True), ('name', lambda: o.name, False)]
        elif isinstance(o, (core.Sequence, core.SequenceOf)):
            out += [('len', lambda: len(o), False), ('list', lambda: list(o), False)]
            k, n = attempt(lambda: len(o))
            if k == 'ok' and n:
                j = rng.randrange(min(n, 30))
                out += [('item %d' % j, lambda: o[j], True)] * 3
            if isinstance(o, core.Sequence) and o._fields:
                f = rng.choice(o._fields)[0]
                out += [('member ' + f, lambda: o[f], True)] * 4
                out += [('members', lambda: [o[x].native for x in o], False)]
            else:
                out += [('items', lambda: [x.native for x in o], False)]
        elif isinstance(o, core.BitString):
            out += [('list', lambda: list(o), False), ('unused', lambda: o.unused_bits, False), ('bit 3', lambda: o[3], False)]
        elif isinstance(o, (core.OctetBitString, core.IntegerBitString)):
            out += [('unused', lambda: o.unused_bits, False)]
        if isinstance(o, (core.OctetString, core.OctetBitString)):
            out += [('bytes', lambda: bytes(o), False)]
        if isinstance(o, core.ObjectIdentifier):
            out += [('dotted', lambda: o.dotted, False)]
        if isinstance(o, core.AbstractString):
            out += [('str', lambda: str(o), False)]
        return out

    def run(self, n):
        rng = self.rng
        for _ in range(n):
            h = rng.randrange(len(self.hs)) if rng.random() < .7 else len(self.hs) - 1
            name, fn, hold = rng.choice(self.options(h))
            self.do(h, name, fn, hold)
        # octets whose type nothing says: what they parse to is what they show from then on
        for h in range(len(self.hs)):
            o = self.hs[h]
            if isinstance(o, (core.ParsableOctetString, core.ParsableOctetBitString, core.Any)) and rng.random() < .7:
                m = len(self.hs)
                self.do(h, 'parsed' if not isinstance(o, core.Any) else 'parse', (lambda: o.parsed) if not isinstance(o, core.Any) else lambda: o.parse(), True)
                if len(self.hs) > m:
                    self.do(m, 'native', lambda: self.hs[m].native)
        if rng.random() < .5:
            self.do(0, 'forced dump', lambda: self.hs[0].dump(force=True))


def read(r, n, b, label, im=(), ex=(), steps=8, arg=None, mark=''):
    rng = r.rng
    c = gen.cls_of(n) if n != 'load' else core
    strict = rng.random() < .4
    kw = structs.tag_params(im, ex, rng) if n != 'load' else {}
    x = b if arg is None else arg
    k, o = attempt(lambda: c.load(x, strict=strict, **kw))
    w = None
    if k == 'ok':
        w = Reads(rng, o)
        if steps:
            w.run(steps)
        else:
            w.do(0, 'native', lambda: o.native)
    r.ev('read', label, t=n, mark=mark, bytes=arg is None, b=bl(b) if arg is None and not mark else [], strict=strict, load='' if k == 'ok' else o,
         lazy=bool(mark), steps=w.steps if w else [])


def record(r):
    S = gen.load_schema()
    rng = r.rng
    g = gen.Gen(rng, maxdepth=4, maxlen=3)
    names = structs.type_names(S)
    i = 0
    last = b'\x30\x00'
    if r.part == 0:
        read(r, 'load', b''.join(ber.ident(0, 1, 16) + ber.length(n) for n in nest(2000)), 'deep nesting', mark='2000 nested sequences', steps=0)
        for n in names:
            for a in ('text', 5, None, [48, 0], bytearray(b'\x05\x00')):
                if not isinstance(a, bytearray):
                    read(r, n, b'', 'not bytes', arg=a if a is not None else object())
    for n in names + ['load'] * 20:
        core_ = n.startswith('core_')
        for _ in range(r.scale(60 if core_ else 24, 600 if core_ else 300)):
            i += 1
            if i % r.parts != r.part:
                continue
            im, ex = [], []
            t = S.get(n)
            if t and rng.random() < .25 and t['k'] != 'any':
                im, ex = params(rng, S, n, t['k'] == 'choice')
            q = rng.random()
            if t is None or (q < .15 and t):
                b = tree(rng)
            elif q < .25:
                b = gen.rbytes(rng)
            elif q < .35 and last:
                b = last
            elif q < .5 and t['k'] in ('seq', 'set', 'seqof', 'setof') and not im and not ex:
                b = ber.tlv(0, 1, 16 if t['k'][:3] == 'seq' else 17, b''.join(tree(rng) for _ in range(rng.choice([1, 2, 3, len(t['f'])]))))
            else:
                k = rng.choice(names) if t['k'] == 'any' else n
                v = g.value(k) if S[k]['k'] != 'any' else None
                b = ber.enc(k, v, structs.ber_style(rng), im, ex) if v else tree(rng)
                last = b
                if rng.random() < .85:
                    b = damage(rng, b)
            read(r, n, b, 'arbitrary bytes', im, ex, steps=rng.choice([3, 6, 12]))


def nest(n):
    ls = [0]
    for _ in range(n - 1):
        x = ls[-1]
        ls.append(x + 1 + len(ber.length(x)))
    return ls[::-1]
