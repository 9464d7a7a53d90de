"""P02: recorded calls of parser.parse / peek / emit."""
import itertools
from rec import attempt, bl, digits
from asn1crypto import parser


def parse(r, b, strict, label='parse'):
    k, v = attempt(lambda: parser.parse(b, strict=strict))
    if k == 'ok':
        if not (isinstance(v, tuple) and len(v) == 6):
            out = {'k': 'err', 'e': 'shape'}
        else:
            out = {'k': 'ok', 'cls': v[0], 'con': v[1], 'tag': digits(v[2], 128), 'h': bl(v[3]), 'c': bl(v[4]), 't': bl(v[5])}
    else:
        out = {'k': 'err', 'e': v}
    r.ev('parse', label, b=bl(b), strict=strict, out=out)


def peek(r, b):
    k, v = attempt(lambda: parser.peek(b))
    r.ev('peek', b=bl(b), out={'k': 'ok', 'n': v} if k == 'ok' else {'k': 'err', 'e': v})


def emit(r, cls, con, tag, c, valid=True, want=''):
    k, v = attempt(lambda: parser.emit(cls, con, tag, c))
    if k == 'ok':
        hl = max(len(v) - len(c), 0)
        k2, back = attempt(lambda: parser.parse(v, strict=True))
        out = {'k': 'ok', 'h': bl(v[:hl])[:64], 'same': v[hl:] == c,
               'back': bool(k2 == 'ok' and back == (cls, con, tag, v[:hl], c, b''))}
    else:
        out = {'k': 'err', 'e': v}
    isint = isinstance(cls, int) and isinstance(con, int) and isinstance(tag, int) and tag >= 0
    r.ev('emit', valid=valid, want=want, cls=cls if isint else 0, con=con if isint else 0,
         tag=digits(tag, 128) if isint else [], clen=len(c) if isinstance(c, bytes) else 0, out=out)


ALPHA = [0x00, 0x01, 0x02, 0x1f, 0x30, 0x3f, 0x7f, 0x80, 0x81, 0x82, 0xbf, 0xff]


def length_form(rng, n):
    """some BER length octets for n"""
    kind = rng.random()
    raw = n.to_bytes((n.bit_length() + 7) // 8 or 1, 'big')
    if kind < .45:
        return bytes([n]) if n < 128 else bytes([0x80 | len(raw)]) + raw
    pad = rng.choice([0, 0, 1, 2, 3, 7, 60, 126 - len(raw)])
    return bytes([0x80 | (len(raw) + pad)]) + b'\0' * pad + raw


def tag_form(rng, cls, con, tag):
    if tag < 31 and rng.random() < .93:
        return bytes([cls << 6 | con << 5 | tag])
    ds = digits(tag, 128) or [0]
    if rng.random() < .1:
        ds = [0] * rng.randrange(1, 3) + ds
    return bytes([cls << 6 | con << 5 | 31]) + bytes([d | 0x80 for d in ds[:-1]] + [ds[-1]])


TAGS = [0, 1, 2, 4, 5, 16, 17, 29, 30, 31, 32, 63, 127, 128, 129, 255, 256, 16383, 16384, 2097151, 2097152, 2**32, 2**63, 2**70 + 1]


def rand_tlv(rng, depth):
    cls, con, tag = rng.randrange(4), rng.randrange(2), rng.choice(TAGS) if rng.random() < .5 else rng.randrange(40)
    if rng.random() < .35 and depth < 14:
        body = b''.join(rand_tlv(rng, depth + 1 + rng.randrange(0, 2)) for _ in range(rng.randrange(0, 3)))
        return tag_form(rng, cls, 1 if rng.random() < .95 else 0, tag) + b'\x80' + body + (b'\0\0' if rng.random() < .97 else b'\0')
    n = rng.choice([0, 0, 1, 2, 3, 5, 20, 126, 127, 128, 129, 130])
    if con and depth < 5 and rng.random() < .6:
        body = b''.join(rand_tlv(rng, depth + 1) for _ in range(rng.randrange(0, 3)))
    else:
        body = bytes(rng.choice([0, 0, 1, 0x80, 0xff, rng.randrange(256)]) for _ in range(n))
    return tag_form(rng, cls, con, tag) + length_form(rng, len(body)) + body


def nested_indef(depth, tail=b'', inner=b'\x02\x01\x05'):
    return b'\x30\x80' * depth + inner + b'\0\0' * depth + tail


def record(r):
    rng = r.rng
    # 1. every string over the alphabet up to a length
    L = r.scale(3, 4)
    idx = 0
    for n in range(0, L + 1):
        for t in itertools.product(ALPHA, repeat=n):
            idx += 1
            if idx % r.parts != r.part:
                continue
            b = bytes(t)
            parse(r, b, False, 'parse/exhaustive')
            if n <= 3:
                peek(r, b)
            if idx % 3 == 0:
                parse(r, b, True, 'parse/exhaustive')
    # 2. identifier x length boundaries, with exact, missing and surplus octets
    if r.part == 0:
        for cls in range(4):
            for con in range(2):
                for tag in TAGS:
                    ds = digits(tag, 128) or [0]
                    ident = bytes([cls << 6 | con << 5 | tag]) if tag < 31 else \
                        bytes([cls << 6 | con << 5 | 31]) + bytes([d | 0x80 for d in ds[:-1]] + [ds[-1]])
                    for tail in (b'\x00', b'\x01a', b'\x03ab', b'\x80\0\0', b''):
                        parse(r, ident + tail, False)
                        parse(r, ident + tail + b'\0', True)
                    for cl in (0, 1):
                        emit(r, cls, con, tag, b'a' * cl)
        for n in list(range(0, 6)) + list(range(120, 136)) + list(range(250, 260)) + [511, 512, 1000, 65534, 65535, 65536, 65537, 2**24 - 1, 2**24]:
            for cls, con, tag in ((0, 1, 16), (2, 0, 31), (1, 0, 5000)):
                emit(r, cls, con, tag, b'\x80' * n)
        for n in (0, 1, 126, 127, 128, 129, 255, 256, 257, 400):
            raw = n.to_bytes((n.bit_length() + 7) // 8 or 1, 'big')
            forms = [bytes([0x80 | (len(raw) + p)]) + b'\0' * p + raw for p in (0, 1, 2, 5, 126 - len(raw))]
            if n < 128:
                forms.append(bytes([n]))
            for f in forms:
                for d in (-2, -1, 0, 1, 2):
                    if n + d >= 0:
                        parse(r, b'\x04' + f + b'\x80' * (n + d), False)
                        parse(r, b'\x04' + f + b'\0' * (n + d), True)
                        peek(r, b'\x04' + f + b'\0' * (n + d))
        # huge lengths never succeed
        for k in (4, 5, 8, 9, 16, 126, 127):
            for fill in (b'\xff', b'\x01', b'\x80'):
                parse(r, b'\x04' + bytes([0x80 | k]) + fill * k + b'abc', False)
                parse(r, b'\x30' + bytes([0x80 | k]) + b'\0' + fill * (k - 1) + b'abc', False)
        # nesting depth of indefinite lengths
        for d in range(0, 16):
            for tail in (b'', b'\0', b'\0\0', b'x'):
                parse(r, nested_indef(d, tail), False)
                parse(r, nested_indef(d, tail), True)
                peek(r, nested_indef(d, tail))
            parse(r, nested_indef(d)[:-1], False)
            parse(r, nested_indef(d, inner=b'\x04\x02\0\0'), False)
            parse(r, nested_indef(d, inner=b'\x24\x80\x04\x01a\0\0' * 3), False)
        # invalid arguments
        for a in ('abc', None, 5, ['a'], bytearray(b'\x05\x00'), ):
            k, v = attempt(lambda: parser.parse(a))
            r.ev('badarg', b=[], what=repr(a), fn='parse', out={'k': k, 'e': v if k == 'err' else ''})
            k, v = attempt(lambda: parser.peek(a))
            r.ev('badarg', b=[], what=repr(a), fn='peek', out={'k': k, 'e': v if k == 'err' else ''})
        for args in ((-1, 0, 0), (4, 0, 0), (0, -1, 0), (0, 2, 0), (0, 0, -1)):
            emit(r, args[0], args[1], args[2], b'', valid=False, want='ValueError')
        for args in (('0', 0, 0, b''), (0, '0', 0, b''), (0, 0, '0', b''), (0, 0, 0, 'a'), (0.0, 0, 0, b''), (0, None, 0, b''), (0, 0, 1.0, b''), (0, 0, 0, None)):
            k, v = attempt(lambda: parser.emit(*args))
            r.ev('badarg', b=[], what=repr(args), fn='emit', out={'k': k, 'e': v if k == 'err' else ''})
    # 3. random elements, their truncations, extensions and corruptions
    for _ in range(r.scale(350, 6000)):
        b = rand_tlv(rng, rng.choice([0, 0, 0, 4, 8]))
        if len(b) > 600:
            continue
        parse(r, b, False, 'parse/random')
        parse(r, b, True, 'parse/random')
        peek(r, b)
        for _ in range(3):
            cut = rng.randrange(len(b) + 1)
            parse(r, b[:cut], rng.random() < .5, 'parse/truncated')
        parse(r, b + bytes(rng.choice(ALPHA) for _ in range(rng.randrange(1, 4))), rng.random() < .5, 'parse/extended')
        m = bytearray(b)
        m[rng.randrange(min(len(m), 12))] = rng.choice(ALPHA)
        parse(r, bytes(m), rng.random() < .3, 'parse/corrupted')
        peek(r, bytes(m))
        emit(r, rng.randrange(4), rng.randrange(2), rng.choice(TAGS + [rng.randrange(2**rng.randrange(1, 60))]), b'\0' * rng.randrange(0, 300))
