"""Histories of calls on one primitive value."""
import copy
import datetime
import pickle
from rec import attempt, bl
import gen, ber
from gen import SCHEMA, cls_of, nat_event, der_event, vint, NOTZ

BYTES = {'octets', 'obits', 'pocts', 'pbits', 'videotex'}
STRK = {'utf8', 'bmp', 'universal', 'teletex', 'nrteletex', 'ia5', 'numeric', 'printable', 'graphic', 'visible', 'general', 'character', 'utc', 'gen'}


def small(fn, conv=lambda x: x):
    k, v = attempt(fn)
    if k != 'ok':
        return {'k': v, 'v': []}
    return {'k': 'ok', 'v': conv(v)}


def see(o, k, rng):
    """every view of the value, in any order"""
    todo = ['nat', 'der']
    if k in BYTES:
        todo.append('by')
    if k in ('int', 'enum'):
        todo.append('i')
    if k in ('bits', 'obits', 'ibits'):
        todo.append('ub')
    if k == 'oid':
        todo.append('dot')
    if k in STRK:
        todo.append('txt')
    if k == 'bool':
        todo.append('tru')
    rng.shuffle(todo)
    out = {}
    for what in todo:
        if what == 'nat':
            out['nat'] = nat_event(lambda: o.native)
        elif what == 'der':
            out['der'] = der_event(lambda: o.dump())
        elif what == 'by':
            out['by'] = small(lambda: bytes(o), bl)
        elif what == 'i':
            kk, v = attempt(lambda: int(o))
            out['i'] = dict(vint(v), k='ok') if kk == 'ok' else {'k': v}
        elif what == 'ub':
            out['ub'] = small(lambda: o.unused_bits, lambda x: [int(y) for y in x])
        elif what == 'dot':
            out['dot'] = small(lambda: o.dotted)
        elif what == 'txt':
            out['txt'] = small(lambda: str(o), gen.nat)
        elif what == 'tru':
            out['tru'] = small(lambda: bool(o))
    return out


def pyarg(a):
    k = a['k']
    if k == 'odd':
        return ODD[a['s']]
    if k == 'int':
        return gen.intval(a)
    if k == 'bool':
        return a['b']
    if k == 'str':
        return gen.text(a)
    if k == 'bits':
        return tuple(a['bits'])
    if k == 'bset':
        return set(a['ns']) | set(a['ix'])
    if k == 'oct':
        return bytes(a['o'])
    if k == 'time':
        return pytime(a['t'])
    raise Exception(k)


ODD = {'none': None, 'float': 1.5, 'list': [1], 'bytes': b'1', 'text': '1', 'int': 1, 'dict': {}, 'tuple': ('a',), 'object': object(), 'negative tuple': (-1, 0), 'twos': (0, 2), 'date': datetime.date(2000, 1, 1)}


def pytime(t):
    tz = None if t['off'] == NOTZ else datetime.timezone(datetime.timedelta(minutes=t['off']))
    if t['y'] == 0:
        from asn1crypto.util import extended_datetime
        return extended_datetime(0, t['mo'], t['d'], t['h'], t['mi'], t['s'], t['us'], tz)
    return datetime.datetime(t['y'], t['mo'], t['d'], t['h'], t['mi'], t['s'], t['us'], tz)


def vstr(s):
    return {'k': 'str', 'c': [ord(c) for c in s], 's': s if gen._ident.match(s) else ''}


def err(fn):
    k, v = attempt(fn)
    return ('', v) if k == 'ok' else (v, None)


def hist(r, tn, plan, label='hist'):
    """plan: list of abstract steps; performs and records them"""
    rng = r.rng
    c = cls_of(tn)
    k = SCHEMA[tn]['k']
    o = None
    objs, cur = [None], 0         # the value and its copies
    steps = []
    for s in plan:
        s = dict(s)
        w = s['s']
        if w == 'pick':
            if s['n'] >= len(objs):
                continue
            objs[cur] = o
            cur = s['n']
            o = objs[cur]
            steps.append(s)
            continue
        if w == 'load':
            s['e'], n = err(lambda: c.load(bytes(s['b'])))
            s['b'] = bl(s['b'])
            if n is None:
                # contents may be refused at load or at the first reading
                steps.append(s)
                break
            en, _ = err(lambda: n.native)
            if en:
                s['e'] = en
                steps.append(s)
                break
            if rng.random() < .5:
                n = c.load(bytes(s['b']))
            o = n
        elif w == 'set':
            if o is None:
                if s['a'] == {'k': 'odd', 's': 'none'}:
                    continue        # no value at all
                s['e'], n = err(lambda: c(pyarg(s['a'])))
                if n is not None:
                    o = n
            else:
                s['e'], _ = err(lambda: o.set(pyarg(s['a'])))
        elif o is None:
            continue
        elif w == 'copy':
            s['e'], n = err(lambda: COPY[s['how']](o))
            if n is not None:
                objs[cur] = o
                objs.append(n)
                cur = len(objs) - 1
                o = n
        elif w == 'width':
            s['e'], _ = err(lambda: o.set_encoded_width(s['n']))
        elif w == 'see':
            s['o'] = see(o, k, rng)
        elif w == 'force':
            s['der'] = der_event(lambda: o.dump(force=True))
        elif w == 'getbit':
            key = s['name'] if s['name'] else s['ix']
            s['e'], v = err(lambda: o[key])
            s['v'] = bool(v)
        elif w == 'setbit':
            key = s['name'] if s['name'] else s['ix']
            def fn():
                o[key] = s['v']
            s['e'], _ = err(fn)
        elif w == 'cast':
            s['e'], n = err(lambda: o.cast(cls_of(s['to'])))
            s['o'] = see(n, SCHEMA[s['to']]['k'], rng) if n is not None else {}
        steps.append(s)
    if steps:
        r.ev('hist', label, t=tn, steps=steps)


COPY = {'copy': lambda o: o.copy(), 'deepcopy': copy.deepcopy, 'shallow': copy.copy, 'list': lambda o: copy.deepcopy([o])[0],
        'pickle': lambda o: pickle.loads(pickle.dumps(o)), 'pickle2': lambda o: pickle.loads(pickle.dumps(o, 2))}


def S(**kw):
    return kw


SEE = {'s': 'see'}
FORCE = {'s': 'force'}


def raw(tn, contents, rng=None, con=False):
    t = SCHEMA[tn]
    cls, tag = t['im'] or (0, ber.UNIVX[t['k']])
    b = ber.tlv(cls, 1 if con else 0, tag, contents)
    for c, n in reversed([tuple(x) for x in t['ex']]):
        b = ber.tlv(c, 1, n, b)
    return b


def rawc(tn, contents, rng):
    """the constructed form of a string, in chunks"""
    st = ber.Style(rng, indef=.5)
    k = SCHEMA[tn]['k']
    t = SCHEMA[tn]
    cls, tag = t['im'] or (0, ber.UNIVX[k])
    b = ber.tlv(cls, 1, tag, ber.chunks(k, 0, contents, st), st)
    for c, n in reversed([tuple(x) for x in t['ex']]):
        b = ber.tlv(c, 1, n, b)
    return b
