"""P15: choices, alone and embedded."""
import gen, structs, ber
from props.p13 import wrong, params


def holds(S, n, seen=None):
    """does the type hold a choice directly below it?"""
    t = S[n]
    if t['k'] == 'choice':
        return True
    if t['k'] in ('seq', 'set'):
        return any(S[f['t']]['k'] == 'choice' for f in t['f'])
    return bool(t['of']) and S[t['of']]['k'] == 'choice'


def record(r):
    S = gen.load_schema()
    rng = r.rng
    g = gen.Gen(rng, maxdepth=4)
    i = 0
    for n in structs.type_names(S, skip=structs.GENERIC):
        if not holds(S, n):
            continue
        t = S[n]
        user, ch = n.startswith('user_'), t['k'] == 'choice'
        alts = [dict(force=f['n']) for f in t['f']] if ch else [{}, {}]
        for kw in alts * r.scale(3 if user else 2, 25):
            i += 1
            if i % r.parts != r.part:
                continue
            v = g.value(n, **kw)
            im, ex = [], []
            if rng.random() < .4:
                im, ex = params(rng, S, n, True)
            structs.make_event(r, n, v, 'make', ex=ex)
            if ch:
                structs.choice_event(r, n, v, ex)
            b = ber.enc(n, v, ber.DER, im, ex)
            structs.load_event(r, n, b, 'load', ex=ex)
            structs.load_event(r, n, ber.enc(n, v, structs.ber_style(rng), im, ex), 'load BER', ex=ex)
            structs.load_event(r, n, wrong(rng, b), 'load wrongly tagged', ex=ex)
            structs.load_event(r, n, ber.mutate(b, rng), 'load damaged', ex=ex)
