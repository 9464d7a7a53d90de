"""P28: names in native form and in words, names built from attributes."""
import hashlib, json, os
from rec import attempt, bl
from asn1crypto import core, x509
import gen

TEXTS = ['a', 'b, c', '', 'a; b', 'x: y', 'CN=a', ' a ', 'DE', 'Country', '1', 'a,', ',', '\u00e9', '\u20ac', 'a b']
HOSTS = ['a.b', 'b', 'www.c.de']
MAILS = ['a@b.c', 'x.y@d.ef']
FREE = [[[1], [2], [3]], [[2], [5], [4], [9, 9]], [[1], [2], [3], [4, 0, 5, 6]]]
SAFE = [t for t in TEXTS if all(c.isalnum() and ord(c) < 128 or c in " ,:=" for c in t)]
SKIP = ('unique_identifier',)


def string(s):
    return {'k': 'str', 'c': [ord(c) for c in s], 's': s}


def spec_of(ty):
    return dict(gen.SCHEMA['x509_NameTypeAndValue']['g']['tab'])[ty]


def alternatives(s):
    out = ['utf8_string', 'bmp_string', 'universal_string']
    if all(ord(c) < 128 for c in s):
        out.append('ia5_string')
    if s in SAFE:
        out.append('printable_string')
    if all(c.isalnum() and ord(c) < 128 or c == ' ' for c in s):
        out.append('teletex_string')
    return out


def text_for(rng, ty):
    sp = spec_of(ty)
    return rng.choice(HOSTS if sp == 'x509_DNSName' else MAILS if sp == 'x509_EmailAddress' else SAFE if sp == 'core_PrintableString' else TEXTS)


def value_for(rng, ty, s=None):
    sp = spec_of(ty)
    s = text_for(rng, ty) if s is None else s
    return {'k': 'ch', 'n': rng.choice(alternatives(s)), 'v': string(s)} if sp == 'x509_DirectoryString' else string(s)


def attribute(rng, types):
    if rng.random() < .12:
        t, v = {'k': 'oid', 'a': rng.choice(FREE)}, {'k': 'typed', 'n': 'core_UTF8String', 'v': string(rng.choice(TEXTS))}
    else:
        ty = rng.choice(types)
        t, v = {'k': 'name', 's': ty}, value_for(rng, ty)
    return {'k': 'map', 'f': [{'n': 'type', 'v': t}, {'n': 'value', 'v': v}]}


def ordered(l, rng):
    """the members of a set in the order of their octets, which is how they are read as well"""
    return sorted(l, key=lambda a: gen.obj('x509_NameTypeAndValue', a, rng).dump())


def rel(rng, types):
    l = []
    for _ in range(rng.choice([1, 1, 1, 1, 2, 3])):
        a = attribute(rng, types)
        if a not in l:
            l.append(a)
    return {'k': 'list', 'l': ordered(l, rng)}


def name_value(rng):
    all_ = [t for t, _ in gen.SCHEMA['x509_NameTypeAndValue']['g']['tab'] if t not in SKIP]
    types = all_ if rng.random() < .4 else rng.sample(all_, 3) + ['country_name', 'common_name']
    l = [rel(rng, types) for _ in range(rng.choice([0, 1, 2, 2, 3, 4, 6]))]
    if l and rng.random() < .3:
        l.insert(rng.choice([0, len(l)]), {'k': 'list', 'l': [{'k': 'map', 'f': [{'n': 'type', 'v': {'k': 'name', 's': 'country_name'}}, {'n': 'value', 'v': value_for(rng, 'country_name', 'DE')}]}]})
    return {'k': 'ch', 'n': '', 'v': {'k': 'list', 'l': l}}




def view(r, label, o, v):
    rng = r.rng
    e = {'human': [], 'native': [], 'len': [], 'h1': [], 'h256': []}
    der = None
    asks = ['human', 'native', 'len', 'h1', 'h256', 'der']
    asks = rng.sample(asks, 6) + ([rng.choice(asks) for _ in range(4)] if rng.random() < .6 else [])
    for a in asks:
        if a == 'human':
            k, x = attempt(lambda: o.human_friendly)
            x = [ord(c) for c in x] if k == 'ok' and isinstance(x, str) else [0]
        elif a == 'native':
            k, x = attempt(lambda: gen.nat(o.native))
            x = x if k == 'ok' else {'k': 'odd', 's': x}
        elif a == 'len':
            k, x = attempt(lambda: len(o))
            x = x if k == 'ok' else -1
        elif a in ('h1', 'h256'):
            k, x = attempt(lambda: (o.sha1 if a == 'h1' else o.sha256).hex())
        else:
            d = gen.der_event(o.dump)
            if der is None:
                der = d
            continue
        if x not in e[a]:
            e[a].append(x)
    if der['k'] != 'ok':
        return r.ev('crash', e='name not encoded: ' + der['e'], at=[])
    b = bytes(der['der'])
    r.ev('view', label, v=v, der=der['der'], after=gen.der_event(o.dump).get('der', []), sha={'of': bl(b), 'h1': hashlib.sha1(b).hexdigest(), 'h256': hashlib.sha256(b).hexdigest()}, **e)


def made(v, rng):
    o = gen.obj('x509_Name', v, rng)
    q = rng.random()
    if q < .5:
        o = x509.Name.load(o.dump())
    elif q < .6:
        o = o.copy()
    elif q < .7:
        o = x509.Name.load(o.dump()).copy()
    return o


def edit(o, v, rng):
    """one change of the object and of its value"""
    v = json.loads(json.dumps(v))
    l = v['v']['l']
    q = rng.random()
    if not l or q < .3:
        x = rel(rng, ['common_name', 'country_name', 'organization_name'])
        l.append(x)
        o.chosen.append(gen.obj('x509_RelativeDistinguishedName', x, rng))
        return v
    i = rng.randrange(len(l))
    if q < .45:
        del l[i]
        del o.chosen[i]
        return v
    if q < .6:
        l[i] = rel(rng, ['common_name', 'country_name', 'organization_name'])
        o.chosen[i] = gen.obj('x509_RelativeDistinguishedName', l[i], rng)
        return v
    if len(l[i]['l']) != 1:
        return v
    a = l[i]['l'][0]
    ty = a['f'][0]['v'].get('s')
    if ty is None or spec_of(ty) != 'x509_DirectoryString':
        return v
    s = rng.choice(SAFE)
    a['f'][1]['v'] = value_for(rng, ty, s)
    o.chosen[i][0]['value'] = gen.obj('x509_DirectoryString', a['f'][1]['v'], rng)
    return v


def observe(r, label, v, edits):
    rng = r.rng
    k, o = attempt(lambda: made(v, rng))
    if k == 'err':
        return r.ev('crash', e='name not made: ' + o, at=[])
    if rng.random() < .8 or not edits:
        view(r, label, o, v)
    for _ in range(edits):
        k, x = attempt(lambda: edit(o, v, rng))
        if k == 'err':
            return r.ev('crash', e='name not edited: ' + x, at=[])
        v = x
        if rng.random() < .8:
            view(r, 'edited names', o, v)


def odd(r):
    """names with attributes whose values are octets, several of them at times"""
    rng = r.rng
    l, types = [], []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        ty = rng.choice(['unique_identifier', 'unique_identifier', 'common_name', 'country_name'])
        if ty not in types:
            types.append(ty)
        v = {'k': 'oct', 'o': bl(gen.rbytes(rng))} if ty == 'unique_identifier' else value_for(rng, ty)
        l.append({'k': 'list', 'l': [{'k': 'map', 'f': [{'n': 'type', 'v': {'k': 'name', 's': ty}}, {'n': 'value', 'v': v}]}]})
    o = made({'k': 'ch', 'n': '', 'v': {'k': 'list', 'l': l}}, rng)
    e = []
    for _ in range(2):
        k, x = attempt(lambda: o.human_friendly)
        x = {'k': 'text', 'c': [ord(c) for c in x]} if k == 'ok' and isinstance(x, str) else {'k': 'err', 'e': str(x)[:40]}
        if x not in e:
            e.append(x)
    r.ev('odd', 'names with octets', types=types, human=e)


def build(r, types):
    rng = r.rng
    printable = rng.random() < .4
    d, given = [], []
    for ty in types:
        tight = printable or ty in ('dn_qualifier', 'country_name', 'serial_number')
        sp = spec_of(ty)
        if ty in SKIP or rng.random() < .15:
            v = {'k': 'oct', 'o': bl(gen.rbytes(rng))} if ty in SKIP else value_for(rng, ty)
            d.append({'ty': ty, 'k': 'value', 'v': v})
            given.append(gen.obj(sp, v, rng))
        else:
            s = rng.choice(SAFE) if tight and sp == 'x509_DirectoryString' else text_for(rng, ty)
            d.append({'ty': ty, 'k': 'text', 't': [ord(c) for c in s]})
            given.append(s)
    named = lambda ty: ty if rng.random() < .7 else x509.NameType.unmap(ty)
    args = {named(x['ty']): g for x, g in zip(d, given)}
    call = lambda: (x509.Name.build(args, use_printable=printable) if printable or rng.random() < .5 else x509.Name.build(args)).dump()
    before = list(args)
    out = gen.der_event(call)
    if list(args) != before:
        out = {'k': 'err', 'e': 'attributes changed'}
    r.ev('build', 'names from attributes', d=d, printable=printable, out=out)


def record(r):
    gen.load_schema()
    rng = r.rng
    given = json.load(open(os.path.join(os.environ['VERIF_WORK'], 'words.json')))['names']
    for i, v in enumerate(given):
        if i % r.parts == r.part:
            observe(r, 'small names', v, 0)
    for _ in range(r.scale(40, 500)):
        observe(r, 'names', name_value(rng), rng.choice([0, 0, 1, 2, 3]))
    for _ in range(r.scale(8, 80)):
        odd(r)
    types = [t for t, _ in gen.SCHEMA['x509_NameTypeAndValue']['g']['tab']]
    for i, a in enumerate(types):
        if i % r.parts == r.part:
            b = types[(i + 1 + rng.randrange(len(types) - 1)) % len(types)]
            build(r, [a])
            build(r, [a, b])
            build(r, [b, a])
    for _ in range(r.scale(15, 300)):
        build(r, rng.sample(types, rng.choice([0, 2, 3, 5, 9, len(types)])))
    if r.part == 0:
        for t in types + ['1.2.3', '2.5.4.999']:
            k, x = attempt(lambda: x509.NameType(t).human_friendly)
            r.ev('word', 'types in words', ty=t, got=[ord(c) for c in x] if k == 'ok' else [0], own=[ord(c) for c in t])
        for t in ['1.2.3', '2.5.4.999', 'no_such_type', 'common name']:
            k, x = attempt(lambda: x509.Name.build({t: 'a'}))
            r.ev('refuse', 'types that can not be built', ty=t, out=x if k == 'err' else 'ok')
