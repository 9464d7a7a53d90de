"""make / load events for the structure layer"""
from rec import attempt, bl
import gen
import ber
from gen import SCHEMA, cls_of, der_event, nat_event


CLASSES = ['universal', 'application', 'context', 'private']


def tag_params(im, ex, rng):
    """constructor / load parameters for an implicit tag or explicit tags (outermost first)"""
    p = {}
    if im:
        p['implicit'] = im[1] if im[0] == 2 and rng.random() < .5 else (CLASSES[im[0]], im[1])
    if ex:
        l = [(CLASSES[c] if rng.random() < .5 else c, n) for c, n in reversed(ex)]
        if len(l) == 1:
            c, n = l[0]
            p['explicit'] = n if ex[0][0] == 2 and rng.random() < .5 else (c, n)
        else:
            p['explicit'] = tuple(l)
    return p


def make_event(r, tn, v, label='make', routes=('native', 'objects', 'items'), im=(), ex=()):
    rng = r.rng
    im, ex = list(im), [list(x) for x in ex]
    kw = tag_params(im, ex, rng)
    if kw:
        routes = ('native', 'retag')
    c = cls_of(tn)
    if c is None:
        return None
    outs = []
    first = None
    t = SCHEMA[tn]
    for how in routes:
        if how == 'native':
            if t['k'] == 'any':
                continue
            def fn():
                a = gen.native_arg(tn, v, rng)
                return c(a, **kw)
        elif how == 'retag':
            def fn():
                return gen.obj(tn, v, rng).retag(kw)
        elif how == 'objects':
            def fn():
                return gen.obj(tn, v, rng)
        else:
            if t['k'] in ('choice', 'any'):
                continue
            def fn():
                return gen.by_item(tn, v, rng)
        k, o = attempt(fn)
        if k != 'ok':
            outs.append({'k': 'err', 'e': o, 'how': how})
            continue
        if first is None:
            first = o
        outs.append(der_event(lambda: o.dump(), how=how))
    der = next((bytes(o['der']) for o in outs if o['k'] == 'ok'), None)
    none = {'k': 'err', 'e': 'not built'}
    n = nat_event(lambda: first.native) if first is not None else none
    back = force = none
    if der is not None:
        k, o = attempt(lambda: c.load(der, **kw))
        if k == 'ok':
            back = nat_event(lambda: o.native)
            force = der_event(lambda: o.dump(force=True))
        else:
            back = {'k': 'err', 'e': o}
    r.ev('make', label, t=tn, v=v, im=im, ex=ex, outs=outs, nat=n, back=back, force=force)
    return der


def load_event(r, tn, b, label='load', im=(), ex=()):
    im, ex = list(im), [list(x) for x in ex]
    kw = tag_params(im, ex, r.rng)
    c = cls_of(tn)
    k, o = attempt(lambda: c.load(b, **kw))
    none = {'k': 'err', 'e': 'not loaded'}
    if k != 'ok':
        r.ev('load', label, t=tn, b=bl(b), im=im, ex=ex, nat={'k': 'err', 'e': o}, dump=none, force=none, again=none)
        return
    n = nat_event(lambda: o.native)
    d = der_event(lambda: o.dump())
    k2, o2 = attempt(lambda: c.load(b, **kw))
    f = der_event(lambda: o2.dump(force=True)) if k2 == 'ok' else none
    again = nat_event(lambda: o2.native) if k2 == 'ok' else none
    r.ev('load', label, t=tn, b=bl(b), im=im, ex=ex, nat=n, dump=d, force=f, again=again)



def retag_event(r, tn, v, im, ex, im2, ex2, label='retag'):
    """a value tagged (im, ex) by its constructor, retagged and untagged"""
    rng = r.rng
    c = cls_of(tn)
    k, o = attempt(lambda: c(gen.native_arg(tn, v, rng), **tag_params(im, ex, rng)))
    none = {'k': 'err', 'e': 'not built'}
    if k != 'ok':
        r.ev('retag', label, t=tn, v=v, im=im, ex=ex, im2=im2, ex2=ex2, re={'k': 'err', 'e': o}, un=none, orig=none, twice=none, back=none)
        return
    if rng.random() < .3:
        o.dump()
    p2 = tag_params(im2, ex2, rng)
    re = der_event(lambda: o.retag(p2).dump())
    un = der_event(lambda: o.untag().dump())
    tw = der_event(lambda: o.retag(p2).untag().retag(p2).dump())
    back = nat_event(lambda: o.retag(p2).native)
    r.ev('retag', label, t=tn, v=v, im=im, ex=ex, im2=im2, ex2=ex2, re=re, un=un, orig=der_event(lambda: o.dump()), twice=tw, back=back)


def choice_event(r, tn, v, ex=()):
    """every way of naming an alternative, and what the result says it is"""
    rng = r.rng
    c = cls_of(tn)
    kw = tag_params([], ex, rng)
    alt = gen.field(SCHEMA[tn], v['n'])
    nm = v['n']

    def val():
        return gen.native_arg(alt['t'], v['v'], rng)

    def ob():
        return gen.obj(alt['t'], v['v'], rng)

    der = ber.enc(tn, v, ber.DER, [], ex)
    ways = [('name and value', lambda: c(nm, val(), **kw)), ('name and object', lambda: c(nm, ob(), **kw)),
            ('keywords', lambda: c(name=nm, value=val(), **kw)), ('tuple', lambda: c((nm, val()), **kw)), ('dict', lambda: c({nm: val()}, **kw)),
            ('tuple with object', lambda: c((nm, ob()), **kw)), ('copy', lambda: c((nm, val()), **kw).copy()),
            ('reloaded', lambda: c.load(c({nm: val()}, **kw).dump(), **kw))]
    if len(ex):
        ways.append(('retagged', lambda: c(nm, val()).retag(kw)))
    made = []
    for how, fn in ways:
        k, o = attempt(fn)
        if k != 'ok':
            made.append({'k': 'err', 'e': o, 'how': how})
            continue
        if rng.random() < .5:
            d = {'name': attempt(lambda: o.name)[1], 'dump': der_event(lambda: o.dump()), 'nat': nat_event(lambda: o.native),
                 'chosen': nat_event(lambda: o.chosen.native), 'cdump': der_event(lambda: o.chosen.dump()), 'after': der_event(lambda: o.dump())}
        else:
            d = {'nat': nat_event(lambda: o.native), 'chosen': nat_event(lambda: o.chosen.native), 'cdump': der_event(lambda: o.chosen.dump()),
                 'dump': der_event(lambda: o.dump()), 'name': attempt(lambda: o.name)[1], 'after': der_event(lambda: o.dump())}
        made.append(dict(d, k='ok', how=how))
    refused = []
    for how, fn in [('unknown name', lambda: c('no such alternative', val())), ('empty tuple', lambda: c(())), ('two keys', lambda: c({nm: val(), 'zz': 1})),
                    ('one item', lambda: c((nm,))), ('unknown key', lambda: c({'no such alternative': val()})), ('empty dict', lambda: c({}))]:
        k, o = attempt(fn)
        refused.append({'k': k, 'e': o if k != 'ok' else '', 'how': how})
    r.ev('choice', t=tn, v=v, ex=list(ex), made=made, refused=refused)


FREEDOMS = ('longlen', 'indef', 'chunk', 'xdef', 'shuffle', 'extra', 'true', 'pad', 'times')


def ber_style(rng, only=None):
    if only:
        return ber.Style(rng, **{only: 1 if rng.random() < .6 else .5})
    return ber.Style(rng, **{k: rng.choice([0, 0, .3, .7]) for k in FREEDOMS})


def type_names(S, user=None, kinds=None, skip=()):
    out = []
    for n in sorted(S):
        if user is not None and n.startswith('user_') != user:
            continue
        if kinds and S[n]['k'] not in kinds:
            continue
        if n in skip or gen.cls_of(n) is None:
            continue
        out.append(n)
    return out


GENERIC = ('core_Sequence', 'core_Set', 'core_SequenceOf', 'core_SetOf', 'core_Enumerated')


def concats(r, g, names, n):
    """values one after the other: built, loaded, loaded without the last ones or with more, one of them replaced"""
    from asn1crypto import core, x509
    rng = r.rng
    for _ in range(n):
        if rng.random() < .1:
            ts, cls = ['x509_Certificate', 'x509_CertificateAux'], x509.TrustedCertificate
        else:
            ts = [rng.choice(names if rng.random() < .5 else [x for x in names if x.startswith('core_')]) for _ in range(rng.choice([1, 2, 2, 3]))]
            cls = type(str('C'), (core.Concat,), {'_child_specs': [gen.cls_of(t) for t in ts]})
        if any(c is None for c in cls._child_specs):
            continue
        vs = [g.value(t) for t in ts]
        parts = [gen.obj(t, v, rng) for t, v in zip(ts, vs)]
        made = gen.der_event(lambda: cls(parts).dump())
        ders = [p.dump() for p in parts]
        m = rng.choice([len(ts)] * 3 + list(range(len(ts))))
        extra = rng.choice([b'', b'', b'\x05\x00', b'\x00', b'\x02\x01\x07']) if m == len(ts) else b''
        strict = rng.random() < .4
        b = b''.join(ders[:m]) + extra
        got = []

        def load():
            o = cls.load(b, strict=strict)
            if rng.random() < .5:
                for x in list(o)[:m]:
                    x.native
            got.append(o)
            return o.dump()
        out = gen.der_event(load)
        k, nat = attempt(lambda: [gen.nat(got[0][j].native) for j in range(m)]) if got else ('ok', [])
        e = dict(made=made, m=m, extra=bl(extra), strict=strict, out=out, nat=nat if k == 'ok' else [{'k': 'odd', 's': nat}], len=len(got[0]) if got else -1)
        # one replaced, in the object or in a copy of it
        e.update(i=0, w=vs[0], edited={'k': 'none'}, other={'k': 'none'}, bad=[])
        if got and m == len(ts):
            o = got[0] if rng.random() < .6 else cls(parts)
            c = o.copy()
            i = rng.randrange(len(ts))
            w = g.value(ts[i])
            x, y = (o, c) if rng.random() < .5 else (c, o)
            e.update(i=i, w=w)
            if SCHEMA[ts[i]]['k'] in ('seq', 'set', 'seqof', 'setof', 'choice', 'any') or rng.random() < .4:
                k, z = attempt(lambda: x.__setitem__(i, gen.obj(ts[i], w, rng)))
            else:
                k, z = attempt(lambda: x[i].set(gen.scalar(ts[i], w)))      # in place
            e['edited'] = gen.der_event(x.dump) if k == 'ok' else {'k': 'err', 'e': z}
            for fn in (lambda: y.__setitem__(len(ts), parts[0]), lambda: y.__setitem__(i, 'text'), lambda: y[len(ts)], lambda: y[-1], lambda: y.__setitem__(-1, parts[0])):
                e['bad'].append(attempt(fn)[0])
            e['other'] = gen.der_event(y.dump)
        r.ev('cat', 'values one after the other', ts=ts, vs=vs, **e)
