"""P09: encodings using the freedoms of BER, one at a time and together."""
import gen, structs, ber


def record(r):
    S = gen.load_schema()
    rng = r.rng
    g = gen.Gen(rng, maxdepth=5)
    i = 0
    for n in structs.type_names(S, skip=structs.GENERIC):
        user, core = n.startswith('user_'), n.startswith('core_')
        for _ in range(r.scale(4 if user else 12 if core else 2, 40 if user else 100 if core else 20)):
            i += 1
            if i % r.parts != r.part:
                continue
            v = g.value(n)
            structs.load_event(r, n, ber.enc(n, v), 'der')
            structs.load_event(r, n, ber.enc(n, v, structs.ber_style(rng)), 'several freedoms')
            f = rng.choice(structs.FREEDOMS)
            structs.load_event(r, n, ber.enc(n, v, structs.ber_style(rng, f)), f)
