"""P19: PEM.  Every behaviour of the line machine up to four lines, as TLC writes them out, and random texts."""
import collections, json, os
from rec import attempt, bl
import gen
from asn1crypto import pem

UP = [c for c in range(32, 127) if not 97 <= c <= 122 and c not in (45, 58)]


def block(x):
    name, hs, der = x
    return {'name': bl(name.encode('latin-1')), 'hs': [{'n': bl(k.encode('latin-1')), 'v': bl(v.encode('latin-1'))} for k, v in hs.items()], 'der': bl(der)}


def unarmor(r, t, label, multiple):
    k, d = attempt(lambda: pem.detect(t))
    if multiple:
        got = []

        def fn():
            for x in pem.unarmor(t, multiple=True):
                got.append(block(x))
        k, x = attempt(fn)
        out = {'e': '' if k == 'ok' else x, 'bs': got}
    else:
        k, x = attempt(lambda: pem.unarmor(t))
        out = {'e': '' if k == 'ok' else x, 'bs': [block(x)] if k == 'ok' else []}
    r.ev('unarmor', label, t=bl(t), detect=bool(d), multiple=multiple, out=out)


def name(rng):
    q = rng.random()
    if q < .6:
        return rng.choice(['CERTIFICATE', 'RSA PRIVATE KEY', 'X509 CRL', 'PKCS7', 'certificate request', 'X9.42 DH PARAMETERS', 'A', '0', 'Private Key'])
    return ''.join(chr(rng.choice(UP)) for _ in range(rng.choice([1, 2, 5, 12, 60])))


def headers(rng):
    h = collections.OrderedDict()
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 4])):
        k = rng.choice(['Proc-Type', 'DEK-Info', 'X', 'a b', ' lead', 'trail ', '', '-----x', 'Comment']) + rng.choice(['', '', str(rng.randrange(9))])
        v = rng.choice(['4,ENCRYPTED', 'AES-128-CBC,0123456789ABCDEF', '', 'a: b', ':', '-----END X-----', 'x' * rng.choice([60, 70, 200]), 'QUJD', '"quoted"'])
        h[k] = v
    return h


def armored(rng):
    """a block, perhaps written in another style"""
    n, h, d = name(rng), headers(rng), gen.rbytes(rng)[:rng.choice([0, 1, 2, 3, 46, 47, 48, 49, 96, 97, 300])]
    b = pem.armor(n, d, h or None)
    q = rng.random()
    if q < .15:
        ls = b.split(b'\n')
        ls = [b'---- BEGIN ' + n.upper().encode() + b' ----' if i == 0 else b'---- END ' + n.upper().encode() + b' ----' if l.startswith(b'-----END') else l for i, l in enumerate(ls)]
        b = b'\n'.join(ls)
    elif q < .3:
        b = b''.join(l + rng.choice([b'', b' ', b'\t']) + b'\n' for l in b.split(b'\n'))
    elif q < .4:
        b = b.replace(b'\n', b'\n\n')
    elif q < .5 and not h:
        ls = b.strip().split(b'\n')
        body = b''.join(ls[1:-1])
        w = rng.choice([1, 4, 5, 76, 1000])
        b = b'\n'.join([ls[0]] + [body[i:i + w] for i in range(0, len(body), w)] + [ls[-1]]) + b'\n'
    return b


TRASH = [b'', b'text', b'Certificate:', b'    Data: x', b'-----', b'---- ', b'-----BEGIN', b'----- BEGIN X-----', b'-----BEGIN X----', b'---BEGIN X-----', b' -----BEGIN X-----',
         b'-----END X-----', b'\xff\xfe binary', b'=====', b'-----BEGIN -----', b'-----BEGIN x-----', b'# BEGIN', b'QUJD', b'----BEGIN X-----', b'-----BEGIN A:B-----', b'\x0b', b'BEGIN X']


def text(rng):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        out += [rng.choice(TRASH) + b'\n' for _ in range(rng.choice([0, 0, 1, 3]))]
        out.append(armored(rng))
    out += [rng.choice(TRASH) + b'\n' for _ in range(rng.choice([0, 0, 1]))]
    t = b''.join(out)
    nl = rng.choice([b'\n', b'\n', b'\r\n', b'\r'])
    if nl != b'\n':
        t = t.replace(b'\n', nl)
    q = rng.random()
    if q < .15 and t:
        i = rng.randrange(len(t))
        t = t[:i] + bytes([rng.choice([10, 13, 32, 45, 58, 61, 65, 97, 200])]) + t[i + rng.choice([0, 1]):]
    elif q < .25 and t:
        ls = t.split(nl)
        del ls[rng.randrange(len(ls))]
        t = nl.join(ls)
    elif q < .3:
        t = rng.choice([b'\n', b'\r\n \t\r\n', b' \n']) + t + rng.choice([b'\n\n', b' ', b''])
    elif q < .35:
        t = t.rstrip(b'\r\n')
    return t


def record(r):
    rng = r.rng
    beh = json.load(open(os.path.join(os.environ['VERIF_WORK'], 'pem.json')))
    lines = [bytes(x) for x in beh['lines']]
    for i, q in enumerate(beh['behaviours']):
        if i % r.parts != r.part:
            continue
        ls = [lines[x - 1] for x in q]
        nl = b'\n' if i % 3 else b'\r\n'
        unarmor(r, nl.join(ls) + (nl if i % 2 else b''), 'behaviours of the line machine', i % 4 != 0)
    for _ in range(r.scale(250, 4000)):
        n, h, d = name(rng), headers(rng), gen.rbytes(rng)
        k, t = attempt(lambda: pem.armor(n, d, h or (None if rng.random() < .7 else h)))
        r.ev('armor', 'armor', name=bl(n.encode()), hs=block(('', h, b''))['hs'], der=bl(d), out={'e': '' if k == 'ok' else t, 't': bl(t) if k == 'ok' else []})
        t = text(rng)
        unarmor(r, t, 'texts with blocks', True)
        if rng.random() < .4:
            unarmor(r, t, 'first block of a text', False)
    for _ in range(r.scale(5, 20)):
        x = rng.choice([None, 'text', 5, ['a'], 1.5, object()])
        for fn in (lambda: pem.detect(x), lambda: pem.unarmor(x), lambda: list(pem.unarmor(x, True)), lambda: pem.armor('X', x)):
            k, o = attempt(fn)
            r.ev('type', 'wrong types', what=repr(type(x)), out={'e': '' if k == 'ok' else o})
        y = rng.choice([None, b'X', 5])
        k, o = attempt(lambda: pem.armor(y, b'x'))
        r.ev('type', 'wrong types', what='name ' + repr(type(y)), out={'e': '' if k == 'ok' else o})
