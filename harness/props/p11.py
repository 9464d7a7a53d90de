"""P11: copies taken at any point of a history stay equal and independent."""
import gen, structs, edits, prims, ber
from prims import SEE, FORCE, S as ST
from rec import attempt, bl
from props.p10 import history, SKIP


KINDS = {'bool', 'int', 'enum', 'oid', 'bits', 'obits', 'ibits', 'octets', 'iocts', 'utc', 'gen', 'utf8', 'bmp', 'universal', 'teletex', 'ia5', 'numeric',
         'printable', 'visible', 'general', 'graphic', 'videotex'}


def refused(rng, n, t):
    """a call that has to fail"""
    k = t['k']
    odd = {'k': 'odd', 's': rng.choice(['float', 'list', 'object'])}
    if k == 'iocts' and rng.random() < .4:
        return ST(s='width', n=rng.choice([0, 0, 1, 2]))
    if k == 'bits' and rng.random() < .6:
        if t['m'] and rng.random() < .5:
            return ST(s='setbit', name='no_such_bit', ix=0, v=True)
        return ST(s='set', a={'k': 'bset', 'ns': ['no_such_bit'], 'ix': []} if rng.random() < .5 else {'k': 'odd', 's': rng.choice(['twos', 'negative tuple', 'tuple'])})
    if k in ('iocts', 'ibits') and rng.random() < .5:
        return ST(s='set', a=gen.vint(-rng.choice([1, 255, 2 ** 70])))
    if k == 'enum' and t['m'] and rng.random() < .7:
        return ST(s='set', a=gen.vint(rng.choice([77, 1000, -5])) if rng.random() < .7 else prims.vstr('no_such_name'))
    if k == 'int' and t['m'] and rng.random() < .5:
        return ST(s='set', a=prims.vstr('no_such_name'))
    if k == 'oid' and rng.random() < .7:
        return ST(s='set', a=prims.vstr(rng.choice(['no such name', '1.2..3', '1', '3.1.1', '1.40.1', '', '1.2.x'])))
    if k in ('ia5', 'visible', 'numeric', 'printable', 'teletex', 'bmp', 'general', 'graphic') and rng.random() < .6:
        return ST(s='set', a=prims.vstr('a' + rng.choice('\u4e2d\U0001f600')))
    if k in ('utc', 'gen') and rng.random() < .6:
        return ST(s='set', a={'k': 'time', 't': {'y': rng.choice([1949, 2050, 2000]), 'mo': 1, 'd': 2, 'h': 3, 'mi': 4, 's': 5, 'us': 0, 'off': rng.choice([0, prims.NOTZ])}})
    return ST(s='set', a=odd)


def primitives(r, SC, bad=0, label='copies of '):
    """histories of a primitive value and of copies of it, and of calls that fail"""
    rng = r.rng
    g = gen.Gen(rng)
    names = [n for n in sorted(SC) if SC[n]['k'] in KINDS and gen.cls_of(n) is not None and gen._MIND[n] <= 3 and not SC[n].get('fw')]
    i = 0
    for n in names:
        t = SC[n]
        k = t['k']
        core = n.startswith('core_')
        for _ in range(r.scale((60 if k == 'iocts' else 16) if core else 3, 150 if core else 20)):
            i += 1
            if i % r.parts != r.part:
                continue

            def enc():
                b = ber.enc(n, g.value(n), ber.Style(rng, chunk=rng.choice([0, 0, .5])))
                if k in ('bits', 'obits', 'ibits') and rng.random() < .5 and not t['ex'] and not t['im']:
                    c = gen.rbytes(rng, rng.randrange(1, 4))
                    u = rng.randrange(8)
                    b = prims.raw(n, bytes([u]) + c[:-1] + bytes([c[-1] >> u << u]))
                return b

            def arg():
                v = g.value(n)
                return v if v['k'] in ('int', 'bool', 'str', 'bits', 'bset', 'oct', 'time') else None

            def put():
                if k == 'bits' and rng.random() < .5:
                    nm = rng.choice(t['m'])[1] if t['m'] else ''
                    return ST(s='setbit', name=nm, ix=rng.randrange(12), v=rng.random() < .6)
                a = arg()
                return SEE if a is None else ST(s='set', a=a)
            a = arg()
            plan = [ST(s='load', b=enc()) if rng.random() < .5 or a is None else ST(s='set', a=a)]
            n_ = 1
            for _ in range(rng.randrange(2, 8)):
                q = rng.random()
                if rng.random() < bad and k != 'bool':
                    plan.append(refused(rng, n, t))
                    if rng.random() < .7:
                        plan.append(SEE)
                elif q < .35 * (1 - bad) and n_ < 4 and not (bad and k == 'iocts'):
                    plan.append(ST(s='copy', how=rng.choice(sorted(set(prims.COPY) - {'shallow'}))))
                    n_ += 1
                    if rng.random() < .5:
                        plan.append(SEE)
                elif q < .5 and n_ > 1:
                    plan.append(ST(s='pick', n=rng.randrange(n_)))
                elif k == 'iocts' and bad and q < .6:
                    plan.append(ST(s='width', n=rng.choice([3, 8, 16])))
                elif q < .65:
                    plan.append(SEE)
                elif q < .75:
                    plan.append(FORCE)
                else:
                    plan.append(put())
            for j in range(n_):
                plan += [ST(s='pick', n=j), SEE]
            prims.hist(r, n, plan, label + k)


def boxed(r, g, n):
    """a value inside an Any, parsed, copied and then edited on one side"""
    rng = r.rng
    from asn1crypto import core
    b = ber.enc(n, g.value(n), ber.Style(rng))
    w = edits.Walk(r, n, g)
    class Box(core.Sequence):
        _fields = [('value', core.Any)]
    k, o = attempt(lambda: Box.load(ber.tlv(0, 1, 16, b))['value'])
    if k != 'ok':
        raise Exception('an Any does not load ' + b.hex())
    w.start(o, False)
    w.hs[0]['any'] = True
    w.deep(('copy', 'deepcopy'))         # what an Any reads back as from a pickle is left open
    w.run(rng.randrange(0, 4), (5, 2, 0, 0, 0, 0))
    r.ev('edit', 'copies of an Any', t=n, im=[], ex=[], b=bl(b), v={'k': 'none'}, dmg=False, steps=w.steps)


def record(r):
    S = gen.load_schema()
    rng = r.rng
    g = gen.Gen(rng, maxdepth=3, maxlen=3)
    i = 0
    for n in structs.type_names(S, skip=SKIP):
        user = n.startswith('user_')
        t = gen.SCHEMA[n]
        for _ in range(r.scale(5 if user else 4, 50 if user else 30)):
            i += 1
            if i % r.parts != r.part:
                continue
            im, ex = [], []
            if t['k'] not in ('choice', 'any', 'void') and rng.random() < .2:
                im, ex = rng.choice([([2, 3], []), ([], [[2, 1]]), ([1, 31], [[2, 4], [1, 5]])])
            history(r, g, n, (3, 4, 5, 0, 5, .3), rng.randrange(4, 14), 'copies', im=im, ex=ex, deep=rng.random() < .5)
        if t['k'] in edits.STRUCT and not t['ex'] and not t['im'] and rng.random() < 2 / r.parts:
            boxed(r, g, n)
    primitives(r, S)
