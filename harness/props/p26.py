"""P26: every predefined structure, built and read."""
import gen, structs

SKIP = ('core_Sequence', 'core_Set', 'core_SequenceOf', 'core_SetOf', 'core_Enumerated')


def shapes(S, n):
    """forces for Gen.value that between them show every member, alternative and governed type of n"""
    t = S[n]
    if t['k'] == 'choice':
        return [dict(force=f['n']) for f in t['f']]
    if t['k'] in ('seq', 'set'):
        opt = [f['n'] for f in t['f'] if f['opt'] or f['hd']]
        out = [dict(force=set())]
        if opt:
            out.append(dict(force=set(opt)))
        if len(opt) > 1:
            out += [dict(force={o}) for o in opt]
        if len(opt) > 2:
            out += [dict(force=set(opt) - {o}) for o in opt]
        g = t['g']
        if g['of']:
            out += [dict(force=set(opt), gov=a) for a, _ in g['tab']]
        return out
    return []


def names(S):
    return sorted(n for n in S if not n.startswith('user_') and gen.cls_of(n) is not None and S[n]['k'] != 'any' and n not in SKIP)


def record(r):
    S = gen.load_schema()
    g = gen.Gen(r.rng, maxdepth=4)
    flat = gen.Gen(r.rng, maxdepth=3, unknown=.05)
    i = 0
    for n in names(S):
        for sh in shapes(S, n) * r.scale(1, 8):
            i += 1
            if i % r.parts == r.part:
                structs.make_event(r, n, flat.value(n, **sh), 'make every member and alternative')
        for _ in range(r.scale(5, 40)):
            i += 1
            if i % r.parts == r.part:
                structs.make_event(r, n, g.value(n), 'make random')
