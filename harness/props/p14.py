"""P14: members of sequences and sets."""
import gen, structs, ber


def damage(rng, b, t):
    """members of the outermost structure dropped, repeated, moved or replaced"""
    root, _ = ber.parse(b)
    e = root
    while len(e.kids) == 1 and e.kids[0].con and rng.random() < .5:
        e = e.kids[0]
    els = [x for x, _ in root.walk([]) if x.con and x.kids]
    if els and rng.random() < .4:
        e = rng.choice(els)
    k = e.kids
    for _ in range(rng.choice([1, 1, 1, 2])):
        m = rng.choice(['del', 'dup', 'swap', 'tag', 'ins', 'rev', 'last', 'clear'])
        if not k and m != 'ins':
            continue
        j = rng.randrange(len(k) + (m == 'ins'))
        if m == 'del':
            del k[j]
        elif m == 'dup':
            k.insert(rng.randrange(len(k) + 1), k[j])
        elif m == 'swap':
            q = rng.randrange(len(k))
            k[j], k[q] = k[q], k[j]
        elif m == 'tag':
            x = k[j]
            k[j] = ber.El(*(lambda c, n: (c, x.con, n, x.body, x.kids))(*rng.choice([(2, rng.randrange(6)), (1, 1), (0, rng.randrange(1, 31)), (x.cls, x.tag + 1)])))
        elif m == 'ins':
            k.insert(j, ber.parse(rng.choice([b'\x05\x00', b'\x02\x01\x07', b'\x80\x01\x07', b'\xa1\x03\x02\x01\x07', b'\x30\x00', b'\x04\x01a', b'\x0c\x01z', b'\x01\x01\xff']))[0])
        elif m == 'rev':
            k.reverse()
        elif m == 'last':
            del k[-1]
        elif m == 'clear':
            del k[:]
    return root.bytes()


def record(r):
    S = gen.load_schema()
    rng = r.rng
    g = gen.Gen(rng, maxdepth=3)
    i = 0
    for n in structs.type_names(S, kinds=('seq', 'set', 'seqof', 'setof'), skip=structs.GENERIC):
        t = S[n]
        user = n.startswith('user_')
        reps = r.scale(8 if user else 3, 60 if user else 20)
        names = [f['n'] for f in t['f']]
        for q in range(reps):
            i += 1
            if i % r.parts != r.part:
                continue
            kw = {}
            if names and q < 2:
                kw = dict(force=set(names) if q else set())
            v = g.value(n, **kw)
            if user or q == 0:
                structs.make_event(r, n, v, 'make')
            st = ber.Style(rng, xdef=.4, shuffle=.5, extra=.2)
            b = ber.enc(n, v, st)
            structs.load_event(r, n, b, 'load')
            for _ in range(2 if user else 3):
                structs.load_event(r, n, damage(rng, b, t), 'load damaged')
        if i % r.parts == r.part:
            for b in (b'\x30\x00', b'\x31\x00', b'\x30\x02\x05\x00', b'\x31\x02\x05\x00'):
                structs.load_event(r, n, b, 'load nearly empty')
