"""P04: values built from Python encode to DER which loads back equal."""
import gen, structs


def record(r):
    S = gen.load_schema()
    g = gen.Gen(r.rng, maxdepth=5)
    i = 0
    for n in structs.type_names(S, user=True):
        for _ in range(r.scale(8, 60)):
            i += 1
            if i % r.parts == r.part:
                structs.make_event(r, n, g.value(n), 'make declared types')
    for n in structs.type_names(S, user=False, skip=structs.GENERIC):
        core = n.startswith('core_')
        for _ in range(r.scale(40 if core else 2, 300 if core else 20)):
            i += 1
            if i % r.parts == r.part and S[n]['k'] != 'any':
                structs.make_event(r, n, g.value(n), 'make core types' if core else 'make library types')
    plain = [n for n in structs.type_names(S, user=False, skip=structs.GENERIC) if S[n]['k'] not in ('any', 'void', 'null')]     # a NULL that is not given is one all the same
    structs.concats(r, g, plain, r.scale(12, 150))
