"""P10: histories of edits and reads."""
import gen, structs, ber, edits
from rec import attempt, bl

SKIP = {'core_Sequence', 'core_SequenceOf', 'core_Set', 'core_SetOf'}


def style(rng):
    return ber.Style(rng, longlen=rng.choice([0, 0, .3]), xdef=rng.choice([0, .5]), shuffle=rng.choice([0, .5]), extra=rng.choice([0, 0, .2]), true=rng.choice([0, .5]))


def history(r, g, n, wts, steps, label, im=(), ex=(), loaded=.6, damage=None, styled=None, deep=False):
    rng = r.rng
    t = gen.SCHEMA[n]
    c = gen.cls_of(n)
    v = g.value(n)
    w = edits.Walk(r, n, g, im, ex)
    kw = structs.tag_params(w.im, w.ex, rng)
    b = b''
    if rng.random() < loaded or damage:
        st = (styled or style)(rng)
        w.loose = bool(st.longlen or st.xdef)
        b = ber.enc(n, v, st, im=w.im, ex=w.ex)
        if damage:
            o = b
            b = damage(rng, b)
            w.invalid = True
            if b'\x80' in b[:10] and b'\x80' not in o[:10] or b[:1] == b'':
                return              # may have become an indefinite length
        k, o = attempt(lambda: c.load(b, **kw))
    else:
        def fn():
            return gen.obj(n, v, rng).retag(kw) if kw else gen.obj(n, v, rng) if rng.random() < .5 else c(gen.native_arg(n, v, rng))
        k, o = attempt(fn)
    if k != 'ok':
        if damage:
            return
        raise Exception('%s: cannot start: %s %s' % (n, o, b.hex()))
    w.start(o, not b)
    if rng.random() < .4:
        w.see(0)
    if deep and not damage:
        w.deep()
    w.run(steps, wts)
    if damage and hosts(o):
        return                      # which malformed hosts and URIs are read, and as what, is left open
    r.ev('edit', label, t=n, im=w.im, ex=w.ex, b=bl(b), v=v if not b else {'k': 'none'}, dmg=w.invalid, steps=w.steps)


def hosts(o, depth=0):
    """does the object hold a host name, mail address, or URI?"""
    from asn1crypto import core, x509
    if isinstance(o, (x509.URI, x509.EmailAddress, x509.DNSName, x509.IPAddress)):
        return True
    if depth > 60 or not isinstance(o, core.Asn1Value):
        return False
    below = [getattr(o, '_parsed', None)] + (list(getattr(o, 'children', None) or []))
    if isinstance(o, core.Choice):
        below.append(o.__dict__.get('_parsed'))
    below = [x[0] if isinstance(x, tuple) and x and isinstance(x[0], core.Asn1Value) else x for x in below]
    return any(hosts(x, depth + 1) for x in below)


def names(S):
    return structs.type_names(S, kinds=('seq', 'set', 'seqof', 'setof', 'choice'), skip=SKIP)


def record(r):
    S = gen.load_schema()
    rng = r.rng
    g = gen.Gen(rng, maxdepth=3, maxlen=3)
    i = 0
    for n in names(S):
        user = n.startswith('user_')
        for _ in range(r.scale(8 if user else 4, 60 if user else 30)):
            i += 1
            if i % r.parts != r.part:
                continue
            history(r, g, n, (5, 4, 8, 0, 0, .4), rng.randrange(4, 14), 'edits')
