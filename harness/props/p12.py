"""P12: refused calls leave every object as it was."""
import gen, structs, edits
from props.p11 import primitives
from props.p10 import history, names


def flip(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 2, 3])):
        q = rng.random()
        i = rng.randrange(len(b))
        if q < .5:
            b[i] ^= 1 << rng.randrange(8)
        elif q < .8:
            b[i] = rng.choice([0, 1, 2, 3, 4, 5, 0x30, 0x31, 0x80, 0xa0, 0xff, 0x7f])
        elif len(b) > 3:
            j = rng.randrange(len(b) - 1)
            b[j], b[j + 1] = b[j + 1], b[j]
    return bytes(b)


def record(r):
    S = gen.load_schema()
    rng = r.rng
    g = gen.Gen(rng, maxdepth=3, maxlen=3)
    i = 0
    for n in names(S):
        user = n.startswith('user_')
        for _ in range(r.scale(8 if user else 5, 60 if user else 40)):
            i += 1
            if i % r.parts != r.part:
                continue
            if rng.random() < .2:
                history(r, g, n, (6, 0, 0, 0, 1, 0), rng.randrange(4, 12), 'damaged', damage=flip)
            else:
                history(r, g, n, (4, 4, 3, 8, 1, .2), rng.randrange(4, 12), 'refused')
    primitives(r, S, .5, 'refused calls on ')
