"""P16: members typed by an identifier next to them."""
import gen, structs, ber


def governs(S, n):
    return bool(S[n]['g']['of'])


def record(r):
    S = gen.load_schema()
    rng = r.rng
    g = gen.Gen(rng, maxdepth=4)
    flat = gen.Gen(rng, maxdepth=3, unknown=.5)
    i = 0
    for n in structs.type_names(S):
        if not governs(S, n):
            continue
        t = S[n]
        user = n.startswith('user_')
        tab = [a for a, _ in t['g']['tab']]
        opt = {f['n'] for f in t['f']}
        for kw in [dict(force=opt, gov=a) for a in tab] * r.scale(4 if user else 2, 20) + [dict(force=x) for x in (opt, set())] * r.scale(6, 40):
            i += 1
            if i % r.parts != r.part:
                continue
            v = (g if 'gov' in kw else flat).value(n, **kw)
            structs.make_event(r, n, v, 'make')
            b = ber.enc(n, v)
            structs.load_event(r, n, b, 'load')
            structs.load_event(r, n, ber.enc(n, v, structs.ber_style(rng)), 'load BER')
            if rng.random() < .7:
                structs.load_event(r, n, ber.mutate(b, rng), 'load damaged')
