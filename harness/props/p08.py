"""P08: times, their texts, and the helper classes for the year 0."""
import datetime, re
import gen, prims
from rec import attempt, bl
from gen import NOTZ
from prims import SEE, FORCE, S, vstr, pytime

OFFS = [0, 0, 0, 60, -60, 330, -570, 839, -719, 1, -1, 59, 1439, -1439]


def leap(y):
    return (y % 4 == 0 and y % 100 != 0) or y % 400 == 0


def mlen(y, mo):
    return [31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo - 1]


def rtime(rng, years, us=(0, 0, 500000, 1, 123456, 999999, 120000, 10), offs=OFFS):
    y = rng.choice(years)
    mo = rng.randrange(1, 13)
    d = min(rng.choice([1, 2, 15, 28, 29, 30, 31]), mlen(y, mo))
    h, mi, s = rng.choice([(0, 0, 0), (23, 59, 59), (0, 0, 1), (12, 30, 0)]) if rng.random() < .3 else (rng.randrange(24), rng.randrange(60), rng.randrange(60))
    if y == 1 and mo == 1 and d <= 2:
        d = 3       # an instant of the year 0 is given as an extended_datetime
    return {'y': y, 'mo': mo, 'd': d, 'h': h, 'mi': mi, 's': s, 'us': rng.choice(us), 'off': rng.choice(offs)}


UTCY = [1950, 1951, 1968, 1969, 1970, 1999, 2000, 2001, 2004, 2024, 2038, 2048, 2049]
GENY = [0, 0, 1, 4, 100, 400, 999, 1000, 1582, 1600, 1899, 1900, 1949, 1950, 2000, 2024, 2049, 2050, 2100, 9998, 9999]


def instant_ok(t, lo, hi):
    """is the UTC instant certainly inside years lo..hi"""
    m = t['mo'], t['d']
    if t['y'] == lo and m[0] == 1 and m[1] <= 2 or t['y'] == hi and m[0] == 12 and m[1] >= 30:
        return t['off'] in (0, NOTZ)
    return lo <= t['y'] <= hi


def offtext(rng, off):
    if off == NOTZ:
        return ''
    if off == 0 and rng.random() < .8:
        return 'Z'
    sign = '-' if off < 0 or (off == 0 and rng.random() < .5) else '+'
    return '%s%02d%02d' % (sign, abs(off) // 60, abs(off) % 60)


def utctext(rng):
    t = rtime(rng, UTCY)
    if not instant_ok(t, 1950, 2049):
        t['off'] = 0
    s = '%02d%02d%02d%02d%02d' % (t['y'] % 100, t['mo'], t['d'], t['h'], t['mi'])
    if rng.random() < .75:
        s += '%02d' % t['s']
    return s + offtext(rng, t['off'])


def gentext(rng):
    t = rtime(rng, GENY, offs=OFFS + [NOTZ] * 3)
    if not instant_ok(t, 0, 9999):
        t['off'] = rng.choice([0, NOTZ])
    s = '%04d%02d%02d%02d' % (t['y'], t['mo'], t['d'], t['h'])
    q = rng.random()
    if q < .85:
        s += '%02d' % t['mi']
    if q < .7:
        s += '%02d' % t['s']
    if rng.random() < .5:
        s += rng.choice('..,') + rng.choice(['0', '5', '25', '50', '999999', '000001', '000', '123456', '1', '75', '5000', '333333', '5000000', '1230000000'])
        if q >= .7 and rng.random() < .5:
            # parts of a minute or hour that are whole microseconds
            s = re.split('[.,]', s)[0] + rng.choice('.,') + ('%09d' % rng.randrange(10 ** 9))[:rng.choice([7, 7 if q < .85 else 8])]
    return s + offtext(rng, t['off'])


def mutate(rng, s):
    q = rng.random()
    if q < .15:
        return s[:rng.randrange(len(s) + 1)]
    i = rng.randrange(len(s) + 1)
    if q < .3:
        return s[:i] + rng.choice('0123456789Z+-. ,:Tz') + s[i:]
    if q < .4:
        return s[:i] + s[i + 1:]
    if q < .5:
        return rng.choice([s + s, s + '+0000', s + 'Z', s + '\n', ' ' + s, s.rstrip('Z'), '-' + s[1:], s.lower(), s + '00'])
    return s[:i] + rng.choice('0123456789') + s[i + 1:]


def record(r):
    SC = gen.load_schema()
    rng = r.rng
    names = [n for n in sorted(SC) if SC[n]['k'] in ('utc', 'gen') and gen.cls_of(n) is not None]
    i = 0
    for n in names:
        t = SC[n]
        utc = t['k'] == 'utc'
        for rep in range(r.scale(1100, 9000)):
            i += 1
            if i % r.parts != r.part:
                continue

            def good():
                if rng.random() < .3:
                    return vstr(utctext(rng) if utc else gentext(rng))
                if utc:
                    x = rtime(rng, UTCY, us=[0])
                    if not instant_ok(x, 1950, 2049):
                        x['off'] = 0
                else:
                    x = rtime(rng, GENY)
                    if not instant_ok(x, 0, 9999):
                        x['off'] = 0
                return {'k': 'time', 't': x}

            def bad():
                q = rng.random()
                if q < .5:
                    x = rtime(rng, [1, 1900, 1948, 2051, 9999, 0] if utc else GENY[1:], us=[0], offs=[0, 60] if utc else [NOTZ])
                    return {'k': 'time', 't': x}
                if q < .7:
                    return {'k': 'time', 't': rtime(rng, UTCY, us=[0], offs=[NOTZ])}
                return {'k': 'odd', 's': rng.choice(['float', 'list', 'int', 'none', 'dict', 'object', 'tuple', 'date', 'bytes'])}

            def enc():
                s = utctext(rng) if utc else gentext(rng)
                if rng.random() < .55:
                    m = mutate(rng, s)
                    # digits beyond the microsecond may be kept or lost
                    s = s if re.search('[.,][0-9]{7}', m) else m
                if rng.random() < .03:
                    s = rng.choice(['', 'Z', '0', '99', 'x', '\u00e9', '991231235960Z', '19991231235960Z', '9913012359Z', '000229000000Z', '010229000000Z', '19000229000000Z'])
                c = s.encode('latin-1')
                if rng.random() < .02:
                    c = c[:4] + rng.choice([b'\x80', b'\xff', b'\x00', b'\xd9\xa3']) + c[5:]
                return prims.rawc(n, c, rng) if rng.random() < .2 else prims.raw(n, c)

            plan = [S(s='load', b=enc()) if rng.random() < .6 else S(s='set', a=good())]
            for _ in range(rng.randrange(1, 5)):
                q = rng.random()
                if q < .4:
                    plan.append(SEE)
                elif q < .65:
                    plan.append(S(s='set', a=good()))
                elif q < .85:
                    plan += [S(s='set', a=bad()), SEE]
                else:
                    plan.append(FORCE)
            plan.append(SEE)
            prims.hist(r, n, plan, 'times of ' + t['k'])
    helpers(r)


def vtime(x):
    return gen.nat(x)['t']


def helpers(r):
    rng = r.rng
    from asn1crypto.util import extended_date, extended_datetime
    offs = [0, 0, 60, -60, 330, 839, -719]
    for _ in range(r.scale(900, 12000) // r.parts):
        naive = rng.random() < .4
        o = [NOTZ] if naive else offs
        a = rtime(rng, [0], offs=o)
        b = rtime(rng, [0, 0, 0, 1, 4, 1999, 2000, 9999], offs=o if rng.random() < .9 else offs + [NOTZ] * 5)
        if rng.random() < .25:
            b = dict(a)
            if rng.random() < .6:
                f, lo = rng.choice([('us', 0), ('s', 0), ('mi', 0), ('h', 0), ('d', 1), ('mo', 1)])
                b[f] = lo
            if b['off'] != NOTZ and rng.random() < .4:
                b['off'] = rng.choice(offs)
        if rng.random() < .4:
            a, b = b, a
        x, y = pytime(a), pytime(b)
        kk, o_ = attempt(lambda: [x < y, x <= y, x > y, x >= y])
        kd, d = attempt(lambda: x - y)
        if 0 in (a['y'], b['y']):
            r.ev('cmp', a=a, b=b, eq=bool(x == y), ne=bool(x != y), ord={'k': 'ok', 'v': o_} if kk == 'ok' else {'k': o_, 'v': []},
                 diff={'k': 'ok', 'v': [d.days, d.seconds, d.microseconds]} if kd == 'ok' else {'k': d, 'v': []})
        z = rtime(rng, [0], offs=o)
        dd, ss, us = rng.choice([0, 0, 1, 30, 59, 60, 365, 366, 1000, 146097, 730485, 1000000]), rng.choice([0, 1, 59, 60, 3600, 86399]), rng.choice([0, 0, 1, 999999])
        if rng.random() < .3:
            dd, ss, us = -rng.randrange(0, 400), 0, 0
        td = datetime.timedelta(days=dd, seconds=ss, microseconds=us)
        w = pytime(z)
        kk, v = attempt(lambda: w + td if rng.random() < .5 else w - (-td))
        r.ev('add', a=z, d=dd, s=ss, us=us, out={'k': 'ok', 'v': vtime(v)} if kk == 'ok' else {'k': v})
        # a year 0 time as text
        if z['off'] == NOTZ:
            u = w
        elif instant_ok(z, 0, 9999) and not (z['mo'] == 12 and z['d'] >= 30):
            u = w.astimezone(datetime.timezone.utc)
        else:
            continue
        r.ev('text', a=z, iso=gen.nat(w.isoformat())['c'], str=gen.nat(str(w))['c'], strf=gen.nat(w.strftime('%Y%m%d%H%M%S%f'))['c'],
             date=gen.nat(str(w.date()) if rng.random() < .5 else w.date().isoformat())['c'], utc=vtime(u))
        # dates
        p, q = dict(z, h=0, mi=0, s=0, us=0, off=NOTZ), dict(b, h=0, mi=0, s=0, us=0, off=NOTZ)
        if rng.random() < .3:
            q = dict(p)
            if rng.random() < .5:
                q['mo'], q['d'] = rng.choice([(1, 1), (12, 31), (p['mo'], 1), (p['mo'], p['d'])])

        def date(t):
            return extended_date(0, t['mo'], t['d']) if t['y'] == 0 else datetime.date(t['y'], t['mo'], t['d'])
        x, y = date(p), date(q)
        kk, o_ = attempt(lambda: [x < y, x <= y, x > y, x >= y])
        r.ev('dcmp', a=p, b=q, eq=bool(x == y), ne=bool(x != y), ord={'k': 'ok', 'v': o_} if kk == 'ok' else {'k': o_, 'v': []})
        # replace
        ny, nmo, nd = rng.choice([(0, z['mo'], 1), (2000, z['mo'], z['d']), (2001, z['mo'], 28), (0, 2, 29), (1900, 2, 29), (0, 13, 1)])
        kk, v = attempt(lambda: w.replace(year=ny, month=nmo, day=nd))
        r.ev('repl', a=z, b=dict(z, y=ny, mo=nmo, d=nd), out={'k': 'ok', 'v': vtime(v)} if kk == 'ok' else {'k': v})
