"""Encodings of abstract values: DER, BER with its freedoms, and damaged ones.  A generator of inputs
only: what they mean is decided by the specification."""
import gen
from gen import SCHEMA, resolve, field, mget
from usertypes import UNIV, LEAVES

KIND_CHUNK = {'bits': 3, 'obits': 3, 'ibits': 3, 'pbits': 3}
STR = {'octets', 'pocts', 'iocts', 'ip', 'videotex', 'bits', 'obits', 'ibits', 'pbits', 'utf8', 'numeric', 'printable', 'teletex', 'nrteletex', 'ia5', 'dns',
       'uri', 'email', 'utc', 'gen', 'graphic', 'visible', 'general', 'universal', 'character', 'bmp'}
UNIVX = dict(UNIV, ip=4, nrteletex=20, dns=22, uri=22, email=22)


class Style:
    def __init__(self, rng, longlen=0, indef=0, chunk=0, xdef=0, shuffle=0, extra=0, true=0, pad=0, times=0):
        self.rng = rng
        self.longlen, self.indef, self.chunk, self.xdef, self.shuffle, self.extra, self.true, self.pad, self.times = longlen, indef, chunk, xdef, shuffle, extra, true, pad, times

    def p(self, x):
        return x and self.rng.random() < x


DER = Style(None)


def ident(cls, con, tag):
    b = cls << 6 | con << 5
    if tag < 31:
        return bytes([b | tag])
    o = [tag & 127]
    tag >>= 7
    while tag:
        o.append(tag & 127 | 128)
        tag >>= 7
    return bytes([b | 31] + o[::-1])


def length(n, st=DER):
    if n < 128 and not st.p(st.longlen):
        return bytes([n])
    o = n.to_bytes((n.bit_length() + 7) // 8 or 1, 'big')
    if st.p(st.longlen):
        o = b'\x00' * st.rng.choice([0, 1, 1, 2, 3]) + o
    return bytes([128 | len(o)]) + o


def tlv(cls, con, tag, body, st=DER):
    if con and st.p(st.indef):
        return ident(cls, con, tag) + b'\x80' + body + b'\x00\x00'
    return ident(cls, con, tag) + length(len(body), st) + body


def chunks(k, own, body, st, depth=0):
    """the contents octets of the constructed form of a string"""
    rng = st.rng
    bits = k in KIND_CHUNK
    if bits:
        unused, data = body[:1], body[1:]
    else:
        unused, data = b'', body
    n = rng.choice([0, 1, 2, 2, 3])
    last = len(data) if unused not in (b'', b'\x00') else len(data) + 1     # unused bits need an octet to be in
    cuts = sorted(rng.randrange(last) for _ in range(n)) if last else []
    parts = [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]
    if not data and not bits and rng.random() < .5:
        parts = []
    out = b''
    t = 3 if bits else 4
    if own and getattr(st, "own", True) and k != 'ip' and UNIVX[k] != t and rng.random() < .1:
        t = UNIVX[k]
    for i, p in enumerate(parts):
        b = (unused if i == len(parts) - 1 else b'\x00') + p if bits else p
        if depth < 2 and st.p(st.chunk / 2):
            out += tlv(0, 1, t, chunks(k, own, b, st, depth + 1), st)
        else:
            out += tlv(0, 0, t, b, st)
    return out


def intc(n):
    return n.to_bytes((n if n >= 0 else ~n).bit_length() // 8 + 1, 'big', signed=True)


def b128(n):
    o = [n & 127]
    n >>= 7
    while n:
        o.append(n & 127 | 128)
        n >>= 7
    return bytes(o[::-1])


def oidc(a):
    return b''.join(b128(x) for x in [a[0] * 40 + a[1]] + list(a[2:]))


def bitc(bits, st=DER):
    u = -len(bits) % 8
    fill = [st.rng.randrange(2) if st.p(st.pad) else 0 for _ in range(u)]
    s = ''.join(map(str, list(bits) + fill))
    return bytes([u]) + (int(s, 2).to_bytes(len(s) // 8, 'big') if s else b'')


def timec(k, t, st):
    import datetime
    d = datetime.datetime(t['y'], t['mo'], t['d'], t['h'], t['mi'], t['s'], t['us'])
    off = t['off']
    rng = st.rng
    if not st.p(st.times) or (d - datetime.timedelta(minutes=off)).year != d.year:
        d -= datetime.timedelta(minutes=off)
        off = 0
    s = d.strftime('%Y%m%d%H%M').rjust(12, '0')
    if k == 'utc':
        s = s[2:]
    if k == 'utc' and d.second == 0 and st.p(st.times):
        pass
    else:
        s += '%02d' % d.second
        if d.microsecond:
            f = '%06d' % d.microsecond
            f = f.rstrip('0') if not st.p(st.times) else f
            s += ('.' if not st.p(st.times) else ',') + f if k == 'gen' else ''
    z = 'Z' if off == 0 and not st.p(st.times / 2) else '%s%02d%02d' % ('-' if off < 0 else '+', abs(off) // 60, abs(off) % 60)
    return (s + z).encode()


def text(k, v):
    s = ''.join(map(chr, v['c']))
    enc = {'utf8': 'utf-8', 'bmp': 'utf-16-be', 'universal': 'utf-32-be', 'ia5': 'ascii'}.get(k, 'latin-1')
    if k in ('dns', 'uri', 'email'):
        return s.encode('ascii', 'replace')
    if k == 'teletex':
        return teletex(s)
    return s.encode(enc, 'replace')


def teletex(s):
    import asn1crypto.core   # noqa: registers the codec
    return s.encode('teletex')


def contents(tn, t, v, st, el=False):
    k, vk = t['k'], v['k']
    if k == 'bool':
        return (bytes([st.rng.choice([1, 2, 127, 128, 254])]) if st.p(st.true) else b'\xff') if v['b'] else b'\x00'
    if k in ('int', 'enum'):
        if vk == 'name':
            return intc([a for a, s in t['m'] if s == v['s']][0])
        return intc(gen.intval(v))
    if k == 'null':
        return b''
    if k == 'oid':
        return oidc([int(x) for x in gen.dotted_of(tn, v).split('.')])
    if k in ('bits', 'obits', 'pbits', 'ibits'):
        if vk == 'bset':
            on = {a for a, s in t['m'] if s in v['ns']} | set(v['ix'])
            bits = [1 if i in on else 0 for i in range(max(on) + 1)] if on else []
            if st.p(st.pad):
                bits += [0] * st.rng.randrange(1, 12)
            return bitc(bits, st)
        if vk == 'bits':
            return bitc(v['bits'], st)
        if vk == 'int':
            n = gen.intval(v)
            return b'\x00' + n.to_bytes((n.bit_length() + 7) // 8 or 1, 'big')
        return b'\x00' + bytes(v['o'])
    if k == 'iocts':
        n = gen.intval(v)
        return n.to_bytes((n.bit_length() + 7) // 8 or 1, 'big')
    if k in ('utc', 'gen'):
        return timec(k, v['t'], st)
    if vk == 'oct':
        return bytes(v['o'])
    return text(k, v)


def enc(tn, v, st=DER, im=(), ex=()):
    t = SCHEMA[tn]
    k = t['k']
    e = list(ex) + list(t['ex'])
    if k == 'any':
        out = enc(v['n'], v['v'], st)
    elif k == 'choice':
        f = field(t, v['n'])
        out = enc(f['t'], v['v'], st, f['im'], f['ex'])
    else:
        bt = im or t['im'] or (0, UNIVX[k])
        if k in ('seq', 'set'):
            els = members(tn, t, v, st)
            out = tlv(bt[0], 1, bt[1], b''.join(els), st)
        elif k in ('seqof', 'setof'):
            els = [enc(t['of'], x, st) for x in v['l']]
            if k == 'setof':
                els.sort()
                if st.p(st.shuffle):
                    st.rng.shuffle(els)
            out = tlv(bt[0], 1, bt[1], b''.join(els), st)
        else:
            c = contents(tn, t, v, st)
            if k in STR and st.p(st.chunk):
                out = tlv(bt[0], 1, bt[1], chunks(k, not t['im'] and not t['ex'], c, st), st)
            else:
                out = tlv(bt[0], 0, bt[1], c, st)
    for c, n in reversed(e):
        out = tlv(c, 1, n, out, st)
    return out


def members(tn, t, v, st):
    els = []
    for f in t['f']:
        x = mget(v, f['n'])
        if x['k'] == 'none':
            if f['hd'] and st.p(st.xdef):
                x = f['def']
            else:
                continue
        ft, wrapped, known = resolve(t, f, v)
        if wrapped:
            inner = enc(ft, x)        # other freedoms there would not survive being rewritten
            bt = f['im'] or SCHEMA[f['t']]['im'] or (0, UNIVX[SCHEMA[f['t']]['k']])
            body = (b'\x00' if SCHEMA[f['t']]['k'] == 'pbits' else b'') + inner
            kk = SCHEMA[f['t']]['k']
            if st.p(st.chunk):
                o = tlv(bt[0], 1, bt[1], chunks(kk, False, body, st), st)
            else:
                o = tlv(bt[0], 0, bt[1], body, st)
            for c, n in reversed(list(f['ex']) + list(SCHEMA[f['t']]['ex'])):
                o = tlv(c, 1, n, o, st)
            els.append(o)
        else:
            o = enc(ft, x, st, f['im'], f['ex'])
            if f['hd'] and st is DER and o == enc(ft, f['def'], st, f['im'], f['ex']):
                continue
            els.append(o)
    if t['k'] == 'set':
        els.sort(key=lambda b: (b[0] & 0xdf, b) if False else tagkey(b))
        if st.p(st.shuffle):
            st.rng.shuffle(els)
    elif st.p(st.extra) and t['f'] and mget(v, t['f'][-1]['n'])['k'] not in ('none', 'void'):     # or the extra could stand for it
        els += st.rng.choice([[b'\x05\x00'], [b'\x02\x01\x05', b'\x01\x01\xff'], [b'\x0c\x01x'], [b'\xbf\x7f\x02\x05\x00']])
    return els


def tagkey(b):
    c = b[0] >> 6
    if b[0] & 31 != 31:
        return (c, b[0] & 31)
    n, i = 0, 1
    while True:
        n = n << 7 | b[i] & 127
        if b[i] < 128:
            return (c, n)
        i += 1


# ---------------------------------------------------------------- trees of elements
class El:
    """an element as the octets have it; constructed elements have children"""
    __slots__ = ('cls', 'con', 'tag', 'body', 'kids')

    def __init__(self, cls, con, tag, body, kids):
        self.cls, self.con, self.tag, self.body, self.kids = cls, con, tag, body, kids

    def bytes(self):
        b = b''.join(k.bytes() for k in self.kids) if self.con else self.body
        return tlv(self.cls, self.con, self.tag, b)

    def walk(self, out, parent=None):
        out.append((self, parent))
        for k in self.kids:
            k.walk(out, self)
        return out


def parse(b, i=0, end=None):
    """definite lengths only"""
    j = i + 1
    tag = b[i] & 31
    if tag == 31:
        tag = 0
        while True:
            tag = tag << 7 | b[j] & 127
            j += 1
            if b[j - 1] < 128:
                break
    n = b[j]
    j += 1
    if n & 128:
        k = n & 127
        n = int.from_bytes(b[j:j + k], 'big')
        j += k
    body = b[j:j + n]
    kids = []
    if b[i] & 32:
        p = 0
        while p < len(body):
            k, q = parse(body, p)
            kids.append(k)
            p = q
    return El(b[i] >> 6, b[i] >> 5 & 1, tag, body, kids), j + n


def mutate(der, rng, n=1):
    """structural damage to a DER encoding: one element changed"""
    root, _ = parse(der)
    for _ in range(n):
        els = root.walk([])
        e, p = rng.choice(els)
        m = rng.choice(['del', 'dup', 'swap', 'cls', 'tag', 'con', 'empty', 'ins', 'replace', 'unwrap', 'wrap', 'bytes', 'grow'])
        if m in ('del', 'dup', 'swap', 'ins', 'unwrap') and p is None:
            m = 'tag'
        if m == 'del':
            p.kids.remove(e)
        elif m == 'dup':
            p.kids.insert(p.kids.index(e), e)
        elif m == 'swap':
            o = rng.choice(p.kids)
            i, j = p.kids.index(e), p.kids.index(o)
            p.kids[i], p.kids[j] = p.kids[j], p.kids[i]
        elif m == 'cls':
            e.cls = rng.choice([c for c in range(4) if c != e.cls])
        elif m == 'tag':
            e.tag = rng.choice([t for t in (e.tag + 1, e.tag - 1, e.tag ^ 16, 0, 1, 2, 3, 4, 5, 6, 12, 16, 17, 30, 31) if t != e.tag and t >= 0 and (e.cls or t)])
        elif m == 'con':
            if e.con:
                e.body = b''.join(k.bytes() for k in e.kids)
                e.con, e.kids = 0, []
            else:
                e.con = 1
                e.kids = []
                try:
                    p2 = 0
                    ks = []
                    while p2 < len(e.body):
                        k, p2 = parse(e.body, p2)
                        ks.append(k)
                    e.kids = ks
                except IndexError:
                    pass
        elif m == 'empty':
            e.body, e.kids = b'', []
        elif m == 'ins':
            x, _ = parse(rng.choice([b'\x05\x00', b'\x02\x01\x07', b'\x80\x01\x07', b'\xa0\x03\x02\x01\x07', b'\x30\x00', b'\x04\x01a', b'\x81\x00', b'\x0c\x01z']))
            p.kids.insert(rng.randrange(len(p.kids) + 1), x)
        elif m == 'replace':
            o = rng.choice(els)[0]
            if p is not None and o is not e:
                sub = o.walk([])
                if all(x is not p for x, _ in sub):
                    p.kids[p.kids.index(e)] = o
        elif m == 'unwrap':
            if e.kids:
                i = p.kids.index(e)
                p.kids[i:i + 1] = e.kids
        elif m == 'wrap':
            w = El(rng.choice([0, 2]), 1, rng.choice([0, 1, 16]), b'', [El(e.cls, e.con, e.tag, e.body, e.kids)])
            if w.cls == 0:
                w.tag = 16
            e.cls, e.con, e.tag, e.body, e.kids = w.cls, w.con, w.tag, w.body, w.kids
        elif m == 'bytes' and not e.con and e.body:
            b = bytearray(e.body)
            b[rng.randrange(len(b))] = rng.choice([0, 1, 0x7f, 0x80, 0xff, rng.randrange(256)])
            e.body = bytes(b)
        elif m == 'grow' and not e.con:
            e.body = e.body + bytes([rng.choice([0, 1, 0x80, 0xff, 0x41])])
    return root.bytes()
