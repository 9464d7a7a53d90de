"""P13: tags by class, member, parameter and retag(); wrong tags refused."""
import gen, structs, ber

TAGS = [[2, 0], [2, 1], [2, 5], [2, 30], [2, 31], [1, 0], [1, 3], [3, 1], [3, 127], [2, 128], [1, 16384], [2, 2 ** 21], [0, 9], [0, 40]]


def params(rng, S, n, noim=False):
    ex = [rng.choice(TAGS) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
    im = rng.choice(TAGS) if rng.random() < .5 and not noim else []
    return im, ex


def wrong(rng, b):
    """the identifier of one of the outermost elements changed"""
    root, _ = ber.parse(b)
    chain = [root]
    while chain[-1].con and len(chain[-1].kids) == 1 and len(chain) < 4:
        chain.append(chain[-1].kids[0])
    e = rng.choice(chain)
    m = rng.choice(['cls', 'num', 'con', 'wrap', 'peel', 'two', 'none'])
    if m == 'cls':
        e.cls = (e.cls + rng.randrange(1, 4)) % 4
    elif m == 'num':
        e.tag = rng.choice([t for t in (e.tag + 1, max(0, e.tag - 1), e.tag + 32, e.tag ^ 31, e.tag + 128, e.tag % 31) if t != e.tag])
    elif m == 'con':
        if e.con:
            e.body = b''.join(k.bytes() for k in e.kids)
            e.con, e.kids = 0, []
        else:
            try:
                e.kids = [ber.parse(e.body)[0]] if e.body else []
                e.con = 1
            except IndexError:
                e.con, e.kids = 1, []
    elif m == 'wrap':
        i = ber.El(e.cls, e.con, e.tag, e.body, e.kids)
        e.cls, e.tag = rng.choice(TAGS)
        e.con, e.kids = 1, [i]
    elif m == 'peel' and len(chain) > 1:
        p = chain[rng.randrange(len(chain) - 1)]
        k = p.kids[0]
        p.cls, p.con, p.tag, p.body, p.kids = k.cls, k.con, k.tag, k.body, k.kids
    elif m == 'two' and e.con and e.kids:
        e.kids = e.kids + [rng.choice([e.kids[0], ber.El(0, 0, 5, b'', [])])]
    elif m == 'none' and e.con:
        e.kids = []
    if e.cls == 0 and e.tag == 0:
        e.tag = 1
    return root.bytes()


def record(r):
    S = gen.load_schema()
    rng = r.rng
    g = gen.Gen(rng, maxdepth=3)
    i = 0
    for n in structs.type_names(S, skip=structs.GENERIC):
        t = S[n]
        user, core, syst = n.startswith('user_'), n.startswith('core_'), n.startswith('user_Sys')
        noim = t['k'] in ('choice', 'any') or bool(t['ex'])
        for _ in range(r.scale(10 if syst or core else 3 if user else 1, 60 if syst or core else 20 if user else 8)):
            i += 1
            if i % r.parts != r.part:
                continue
            v = g.value(n)
            im, ex = params(rng, S, n, noim)
            if t['k'] != 'any' and not (t['k'] == 'choice' and im):
                structs.make_event(r, n, v, 'make with tag parameters', im=im, ex=ex)
                im2, ex2 = params(rng, S, n, noim)
                structs.retag_event(r, n, v, im, ex, im2, ex2)
            b = ber.enc(n, v, ber.DER, im, ex)
            structs.load_event(r, n, b, 'load tagged', im=im, ex=ex)
            for _ in range(2):
                structs.load_event(r, n, wrong(rng, b), 'load wrongly tagged', im=im, ex=ex)
            if rng.random() < .2:
                im2, ex2 = params(rng, S, n, noim)
                structs.load_event(r, n, b, 'load with other parameters', im=im2, ex=ex2)
