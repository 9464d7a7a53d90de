"""Random histories of edits, reads, copies and refused calls on structured values."""
import contextlib, io
import copy, datetime, pickle
from rec import attempt, bl
import gen, ber, structs
from gen import SCHEMA, cls_of, nat, nat_event, der_event

STRUCT = ('seq', 'set', 'seqof', 'setof')


def err(fn):
    k, v = attempt(fn)
    return ('', v) if k == 'ok' else (v, None)


def F(n):
    return {'k': 'f', 'n': n, 'i': 0}


def I(i):
    return {'k': 'i', 'n': '', 'i': i}


C = {'k': 'c', 'n': '', 'i': 0}
P = {'k': 'p', 'n': '', 'i': 0}


def key(s):
    return (s['k'], s['n'], s['i'])


def badval(rng, tn, depth=0):
    """a value that a type cannot take, and what it is; None if none is known"""
    t = SCHEMA[tn]
    k = t['k']
    pick = rng.choice
    if k in ('int', 'enum'):
        return pick([('no such name', 'unknown name'), (1.5, 'float'), (object(), 'object'), ([1], 'list')])
    if k == 'oid':
        return pick([('not an oid', 'unknown name'), ('1.2..3', 'malformed oid'), (5, 'integer'), (b'1', 'bytes'), ('9.9.9', 'impossible oid')])
    if k in gen.TEXTS or k in ('graphic', 'visible', 'general', 'character', 'dns', 'uri', 'email', 'ip'):
        return pick([(5, 'integer'), (b'bytes', 'bytes'), (['a'], 'list')] + ([('\u4e2d\u6587', 'text outside the character set')] if k in ('ia5', 'teletex', 'visible') else []))
    if k in ('octets', 'obits', 'pocts', 'pbits', 'videotex'):
        return pick([('text', 'text'), (5, 'integer'), ([1], 'list')])
    if k == 'bits':
        return pick([('text', 'text'), (5, 'integer'), ({'no such bit'}, 'unknown bit'), ((2, 1), 'not bits')])
    if k in ('ibits', 'iocts'):
        return pick([('text', 'text'), (-1, 'negative'), (b'1', 'bytes')])
    if k in ('utc', 'gen'):
        return pick([(5, 'integer'), (datetime.datetime(2000, 1, 1), 'naive time'), (b'1', 'bytes')])
    if k == 'choice':
        return pick([(('no_such_alternative', 1), 'unknown alternative'), ({'a': 1, 'b': 2}, 'two alternatives'), (5, 'integer')])
    if k in ('seq', 'set'):
        if depth < 2 and t['f'] and rng.random() < .5:
            fs = [f for f in t['f'] if t['g']['of'] != f['n'] and f['n'] not in t['g']['by']]
            if fs:
                f = pick(fs)
                b = badval(rng, f['t'], depth + 1)
                if b:
                    return {f['n']: b[0]}, 'member ' + f['n'] + ': ' + b[1]
        return pick([({'no_such_field': 1}, 'unknown member'), (5, 'integer')]) if t['f'] else None
    if k in ('seqof', 'setof'):
        b = badval(rng, t['of'], depth + 1) if depth < 2 else None
        if b and SCHEMA[t['of']]['k'] != 'choice' and rng.random() < .6:
            return [b[0]], 'member: ' + b[1]
        return 5, 'integer'
    return None


def plural(v):
    """does v hold a list of several (a set of them is written in another order)?"""
    if v['k'] == 'list':
        return len(v['l']) > 1 or any(plural(x) for x in v['l'])
    if v['k'] in ('ch', 'typed'):
        return plural(v['v'])
    return v['k'] == 'map' and any(plural(f['v']) for f in v['f'])


EQUATED = set(gen.TEXTS) - {'dns', 'uri', 'email', 'ip'} | {'int', 'enum', 'bool', 'octets', 'bits', 'obits', 'ibits', 'iocts', 'oid', 'utc', 'gen', 'pocts', 'pbits'}
BADC = {'utf8': b'\xff', 'ia5': b'\xff', 'bmp': b'a', 'universal': b'a', 'utc': b'nonsense', 'gen': b'nonsense', 'printable': None, 'bits': b'\x09\x00'}


class Walk:
    def __init__(self, r, tn, g, im=(), ex=()):
        self.r, self.rng, self.g = r, r.rng, g
        self.tn, self.im, self.ex = tn, list(im), [list(x) for x in ex]
        self.steps = []
        self.hs = []          # handles: {'o', 'tn', 'root', 'path', 'dead', 'pt'}
        self.free = {}        # roots in which the order of a set was disturbed
        self.tags = {}        # root -> (im, ex)
        self.nroots = 1
        self.invalid = False
        self.loose = self.over = self.dumps = False

    def start(self, o, built):
        self.hs.append({'o': o, 'tn': self.tn, 'root': 1, 'path': [], 'tns': [self.tn], 'dead': False, 'pt': ''})
        self.free[1] = built
        self.tags[1] = (self.im, self.ex)

    def step(self, **kw):
        self.steps.append(kw)
        return kw

    def live(self):
        return [i for i, h in enumerate(self.hs) if not h['dead']]

    # ------------------------------------------------ reads
    def see(self, i, what=None):
        h, rng = self.hs[i], self.rng
        k = SCHEMA[h['tn']]['k']
        free = self.free[h['root']]
        opts = ['nat', 'nat', 'dump', 'dump']
        if k in STRUCT and not h.get('any'):
            opts += ['len', 'items', 'contents']
        if not h['path'] and self.tags[h['root']]:
            opts += ['reload']
        what = what or rng.choice(opts)
        if self.dumps and what in ('nat', 'items'):
            what = 'dump'
        o = h['o']
        if what == 'nat':
            self.step(s='nat', h=i + 1, free=free, out=nat_event(lambda: o.native))
        elif what == 'dump':
            self.step(s='dump', h=i + 1, out=der_event(lambda: o.dump()))
        elif what == 'len':
            k_, n = attempt(lambda: len(o))
            self.step(s='len', h=i + 1, n=n if k_ == 'ok' else -1)
        elif what == 'items':
            def fn():
                if k in ('seq', 'set'):
                    return [o[n].native for n in o]
                return [x.native for x in o]
            self.step(s='items', h=i + 1, free=free, out=nat_event(fn))
        elif what == 'contents':
            self.step(s='contents', h=i + 1, out=der_event(lambda: o.contents))
        elif what == 'reload':
            im, ex = self.tags[h['root']]
            c = cls_of(h['tn'])
            if c is not None:
                kw = structs.tag_params(im, ex, rng)
                self.step(s='reload', h=i + 1, free=True, out=nat_event(lambda: c.load(o.dump(), **kw).native))

    def poke(self, i):
        """another kind of read, of which nothing may be seen later"""
        h, rng = self.hs[i], self.rng
        o = h['o']
        props = [a for a in dir(type(o)) if not a.startswith('__') and isinstance(getattr(type(o), a, None), property) and a != 'contents']
        def debug():
            with contextlib.redirect_stdout(io.StringIO()):
                o.debug()
        fns = [('repr', lambda: repr(o)), ('str', lambda: str(o)), ('debug', debug), ('copy', lambda: o.copy()), ('deepcopy', lambda: copy.deepcopy(o)),
               ('hash', lambda: hash(o)), ('eq', lambda: o == o.copy()), ('pickle', lambda: pickle.dumps(o)), ('in', lambda: o in o), ('bool', lambda: bool(o)),
               ('untag', lambda: o.untag()), ('iter', lambda: [x for x in o]), ('list', lambda: [x.native for x in o]), ('len', lambda: len(o)),
               ('parsed', lambda: o.parsed.native), ('bytes', lambda: bytes(o)), ('unused', lambda: o.unused_bits)] + \
              [(a, lambda a=a: getattr(o, a)) for a in rng.sample(props, min(4, len(props)))]
        for name, fn in rng.sample(fns, rng.choice([1, 2, 3])):
            e, _ = err(fn)
            self.step(s='poke', h=i + 1, what=name, e=e)
            if name in ('parsed', 'debug') or name in props:
                # an accessor may parse octets whose type nothing says: they then show what was parsed
                self.dumps = True

    # ------------------------------------------------ places
    def govern(self, h, f):
        """-> (type, wrapped, usable) of a member of the structure h"""
        t = SCHEMA[h['tn']]
        g = t['g']
        if g['of'] != f['n']:
            return f['t'], False, SCHEMA[f['t']]['k'] not in ('any', 'void')
        try:
            x = h['o']
            for n in g['by']:
                x = x[n]
            name = x.native
        except Exception:
            return f['t'], False, False
        if name is None:
            return f['t'], False, False
        for a, b in g['tab']:
            if a == name:
                fk = SCHEMA[f['t']]['k']
                return b, fk == 'pocts' or (fk == 'pbits' and SCHEMA[b]['k'] != 'obits'), True
        return f['t'], False, False

    def in_set(self, h):
        return any(SCHEMA[t]['k'] == 'setof' for t in h['tns'])

    def get(self, i, deep=False):
        """a handle on a part of handle i (deep: preferably one that has parts)"""
        h, rng = self.hs[i], self.rng
        t = SCHEMA[h['tn']]
        k = t['k']
        o = h['o']
        if h.get('any'):
            e, o = err(lambda: o.parse(cls_of(h['tn'])))
            if e:
                self.step(s='get', h=i + 1, at=F(''), e=e)
                return None
        pt = ''
        if h['pt']:
            s, tn, fn = P, h['pt'], lambda: o.parsed
        elif k in ('seq', 'set'):
            fs = [f for f in t['f'] if not f['hd']]
            rng.shuffle(fs)
            if deep:
                fs.sort(key=lambda f: 0 if f['n'] == t['g']['of'] or SCHEMA[f['t']]['k'] in STRUCT + ('choice',) else 1)
            for f in fs:
                tn, wrapped, ok = self.govern(dict(h, o=o), f)
                if not ok:
                    continue
                from asn1crypto import core
                e, x = err(lambda: o[f['n']])
                if e:
                    if self.invalid:
                        return None
                    self.step(s='get', h=i + 1, at=F(f['n']), e=e)
                    return None
                if isinstance(x, core.Void) and SCHEMA[tn]['k'] != 'void':
                    continue
                s, fn = F(f['n']), lambda: o[f['n']] if rng.random() < .8 else o[t['f'].index(f)]
                if wrapped:
                    pt, tn = tn, f['t']
                break
            else:
                return None
        elif k in ('seqof', 'setof'):
            if k == 'setof' and self.free[h['root']]:
                return None
            try:
                n = len(o)
            except Exception:
                return None
            if not n:
                return None
            j = rng.randrange(n)
            s, tn = I(j + 1), t['of']
            if rng.random() < .5:
                fn = lambda: o[j]
            else:
                fn = lambda: list(o)[j]
        elif k == 'choice':
            e, name = err(lambda: o.name)
            if e:
                return None
            f = next((f for f in t['f'] if f['n'] == name), None)
            if f is None or SCHEMA[f['t']]['k'] in ('any', 'void'):
                return None
            s, tn, fn = C, f['t'], lambda: o.chosen
        else:
            return None
        e, x = err(fn)
        if e and self.invalid:
            return None
        self.step(s='get', h=i + 1, at=s, e=e)
        if e:
            return None
        self.hs.append({'o': x, 'tn': tn, 'root': h['root'], 'path': h['path'] + [key(s)], 'tns': h['tns'] + [tn], 'dead': False, 'pt': pt})
        return len(self.hs) - 1

    # ------------------------------------------------ edits
    def moved(self, i, s, gone):
        """the handles after the part at step s of handle i was replaced (or taken away)"""
        h = self.hs[i]
        root, base = h['root'], h['path']
        full = base + [key(s)]
        n = len(full)
        self.nroots += 1
        new = self.nroots
        self.free[new] = self.free[root]
        self.tags[new] = None
        # sets on the way are sorted anew
        touched = [d for d in range(len(h['tns'])) if SCHEMA[h['tns'][d]]['k'] == 'setof']
        if touched:
            self.free[root] = True
            self.free[new] = True
        for x in self.hs:
            if x['root'] != root:
                continue
            p = x['path']
            if p[:n] == full:
                x['root'], x['path'], x['tns'] = new, p[n:], x['tns'][n:]
            elif gone and s['k'] == 'i' and len(p) >= n and p[:n - 1] == base and p[n - 1][0] == 'i' and p[n - 1][2] > s['i']:
                x['path'] = base + [('i', '', p[n - 1][2] - 1)] + p[n:]
            if x['root'] == root and touched and len(x['path']) > touched[0] and x['path'][:touched[0]] == base[:touched[0]]:
                x['dead'] = True

    def edit(self, i):
        """an edit; where it changes nothing, the form of the headers around is left open"""
        h = self.hs[i]
        before = attempt(lambda: h['o'].contents) if self.loose and h['path'] else None
        did = self.edit_(i)
        if did and before and before == attempt(lambda: h['o'].dump() and h['o'].contents):
            self.over = True
        return did

    def edit_(self, i):
        h, rng = self.hs[i], self.rng
        t = SCHEMA[h['tn']]
        k, o = t['k'], h['o']
        if k in ('seq', 'set'):
            fs = [f for f in t['f'] if f['n'] not in t['g']['by'][:1]]
            if not fs or t.get('fw'):
                return False
            f = rng.choice(fs)
            name = f['n'] if rng.random() < .8 else t['f'].index(f)
            q = rng.random()
            if attempt(lambda: len(o) > len(t['f'])) == ('ok', True):
                q = 1               # an element after the last member could take the place of one taken away
            if (f['opt'] or f['hd']) and q < .2:
                if t['np'] and t['g']['of'] == f['n']:
                    return False
                e, _ = err(lambda: o.__delitem__(name))
                self.step(s='del', h=i + 1, at=F(f['n']), e=e)
            elif (f['opt'] or f['hd']) and q < .35 and not (t['np'] and t['g']['of'] == f['n']):
                def fn():
                    o[name] = None
                e, _ = err(fn)
                self.step(s='set', h=i + 1, at=F(f['n']), v={'k': 'none'}, e=e)
            else:
                tn, wrapped, ok = self.govern(h, f)
                if not ok or gen._MIND[tn] > 3 or (wrapped and SCHEMA[tn]['k'] == 'pocts'):
                    return False
                v = self.g.value(tn)
                if SCHEMA[tn].get('fw'):
                    return False
                def fn():
                    o[name] = gen.obj(tn, v, rng) if rng.random() < .4 or (f['opt'] and v['k'] == 'null') else gen.member_arg(f, tn, v, rng)
                e, _ = err(fn)
                self.step(s='set', h=i + 1, at=F(f['n']), v=v, e=e)
                if plural(v):
                    self.free[h['root']] = True
            if not e:
                self.moved(i, F(f['n']), False)
            return True
        if k in ('seqof', 'setof'):
            try:
                n = len(o)
            except Exception:
                return False
            q = rng.random()
            tn = t['of']
            if SCHEMA[tn]['k'] in ('any', 'void') or gen._MIND[tn] > 3:
                return False
            if n and q < .25:
                if k == 'setof' and self.free[h['root']]:
                    return False
                j = rng.randrange(n)
                e, _ = err(lambda: o.__delitem__(j))
                self.step(s='del', h=i + 1, at=I(j + 1), e=e)
                if not e:
                    self.moved(i, I(j + 1), True)
                return True
            v = self.g.value(tn)
            x = lambda: gen.obj(tn, v, rng) if rng.random() < .4 or SCHEMA[tn]['k'] == 'choice' else gen.native_arg(tn, v, rng)
            if n and q < .6:
                if k == 'setof' and self.free[h['root']]:
                    return False
                j = rng.randrange(n) if rng.random() < .8 else n
                def fn():
                    o[j] = x()
                e, _ = err(fn)
                self.step(s='set', h=i + 1, at=I(j + 1), v=v, e=e)
                if plural(v):
                    self.free[h['root']] = True
                if not e:
                    self.moved(i, I(j + 1), False)
                return True
            e, _ = err(lambda: o.append(x()))
            self.step(s='app', h=i + 1, v=v, e=e)
            if plural(v):
                self.free[h['root']] = True
            if not e:
                self.moved(i, I(n + 1), False)
            return True
        if not h['path'] and not h['pt'] and k not in ('choice', 'any', 'void', 'null') and not t.get('fw'):
            v = self.g.value(h['tn'])
            e, _ = err(lambda: o.set(gen.native_arg(h['tn'], v, rng)))
            self.step(s='pset', h=i + 1, v=v, e=e)
            return True
        return False

    # ------------------------------------------------ equality
    def equal(self):
        rng = self.rng
        js = [j for j in self.live() if SCHEMA[self.hs[j]['tn']]['k'] in EQUATED]
        if not js:
            return
        i = rng.choice(js)
        near = [j for j in js if SCHEMA[self.hs[j]['tn']]['k'] == SCHEMA[self.hs[i]['tn']]['k']]
        j = rng.choice(near if rng.random() < .8 else js)
        a, b = self.hs[i]['o'], self.hs[j]['o']
        e, x = err(lambda: bool(a == b))
        e2, y = err(lambda: bool(a != b))
        self.step(s='eq', h=i + 1, h2=j + 1, eq=bool(x), ne=bool(y), e=e or e2)

    # ------------------------------------------------ refused calls
    def badobj(self, tn):
        """an object of the right class whose contents cannot be read"""
        t = SCHEMA[tn]
        c = BADC.get(t['k'])
        if c is None:
            return None
        try:
            o = gen.cls_of(tn)(contents=c)
        except Exception:
            return None
        if err(lambda: o.native)[0] == 'ok':
            return None
        return o

    def bad(self, i):
        h, rng = self.hs[i], self.rng
        t = SCHEMA[h['tn']]
        k, o = t['k'], h['o']
        fn = what = None
        q = rng.random()
        if k in ('seq', 'set') and t['f']:
            fs = [f for f in t['f'] if f['n'] not in t['g']['by'][:1]]
            if q < .15:
                fn, what = rng.choice([(lambda: o['no_such_member'], 'reading an unknown member'), (lambda: o.__delitem__('no_such_member'), 'deleting an unknown member'),
                                       (lambda: o.__setitem__('no_such_member', 1), 'assigning an unknown member'), (lambda: o[len(t['f']) + 40], 'reading a member number out of range')])
            elif q < .3:
                ms = [f for f in t['f'] if not f['opt'] and not f['hd']]
                if ms:
                    f = rng.choice(ms)
                    if rng.random() < .5 or SCHEMA[f['t']]['k'] not in ('int', 'oid', 'octets', 'utf8', 'seq', 'enum', 'ia5'):
                        fn, what = lambda: o.__delitem__(f['n']), 'deleting a required member'
                    elif not (f['n'] in t['g']['by'] or f['n'] == t['g']['of']):
                        fn, what = lambda: o.__setitem__(f['n'], None), 'None for a required member'
            elif fs:
                f = rng.choice(fs)
                tn, wrapped, ok = self.govern(h, f)
                bo = self.badobj(tn) if ok and not wrapped and rng.random() < .4 else None
                b = badval(rng, tn) if ok and not wrapped else None
                if bo is not None:
                    fn, what = lambda: o.__setitem__(f['n'], bo), 'unreadable contents of ' + SCHEMA[tn]['k']
                elif b:
                    fn, what = lambda: o.__setitem__(f['n'], b[0]), '%s as %s' % (b[1], SCHEMA[tn]['k'])
        elif k in ('seqof', 'setof'):
            try:
                n = len(o)
            except Exception:
                return False
            b = badval(rng, t['of']) if SCHEMA[t['of']]['k'] != 'any' else None
            if q < .3 or not b:
                fn, what = rng.choice([(lambda: o[n + 5], 'reading an item out of range'), (lambda: o.__delitem__(n + 5), 'deleting an item out of range')])
                if b is None and q > .8:
                    fn = None
            elif q < .5:
                v = self.g.value(t['of']) if gen._MIND[t['of']] <= 3 else None
                if v:
                    fn, what = lambda: o.__setitem__(n + 3, gen.obj(t['of'], v, rng)), 'assigning an item out of range'
            elif q > .85 and self.badobj(t['of']) is not None:
                bo = self.badobj(t['of'])
                fn, what = rng.choice([lambda: o.append(bo), lambda: o.__setitem__(rng.randrange(n + 1), bo)]), 'unreadable contents of ' + SCHEMA[t['of']]['k']
            elif q < .75 and n:
                fn, what = lambda: o.__setitem__(rng.randrange(n), b[0]), 'item: ' + b[1]
            else:
                fn, what = lambda: o.append(b[0]), 'append: ' + b[1]
        elif h['pt'] and k in ('pocts', 'pbits'):
            fn, what = lambda: o.set('text'), 'text as ' + k
        if fn is None:
            return False
        for _ in range(rng.choice([1, 1, 2])):
            e, _ = err(fn)
            if e == '' and what.startswith('unreadable'):
                self.over = True        # accepted, to be found unreadable later: what follows is not judged
                return True
            self.step(s='bad', h=i + 1, what=what, e=e)
        return True

    # ------------------------------------------------ copies
    def deep(self, hows=('copy', 'deepcopy', 'pickle')):
        """an edit far down in a value or in its copy, after the copy was taken"""
        rng = self.rng
        def down(i):
            out = [i]
            while len(out) < 7:
                j = self.get(out[-1], True)
                if j is None:
                    break
                out.append(j)
            return out
        chain = down(0)
        n = len(self.hs)
        if not self.copies(rng.choice([0, 0, 0, rng.choice(chain)]), rng.choice(hows)) or len(self.hs) == n:
            return
        if rng.random() < .5:
            chain = down(n)
        for i in reversed(chain):
            if not self.hs[i]['dead'] and SCHEMA[self.hs[i]['tn']]['k'] in STRUCT and not self.hs[i].get('any') and self.edit(i):
                if rng.random() < .7 or self.over:
                    break

    def copies(self, i, how=None):
        h, rng = self.hs[i], self.rng
        o = h['o']
        t = SCHEMA[h['tn']]
        tags = self.place_tags(h)
        how = how or rng.choice(['copy', 'copy', 'deepcopy', 'deepcopy', 'pickle', 'shallow', 'retag', 'untag'])
        dead = False
        if how in ('retag', 'untag'):
            if t['k'] in ('choice', 'any', 'void'):
                return False
            if how == 'untag':
                spec = {'k': 'untag', 'im': [], 'ex': []}
                fn = lambda: o.untag()
                tags = [], []
            else:
                im = rng.choice([[], [2, rng.randrange(0, 40)], [1, 3], [3, 200]])
                ex = rng.choice([[], [[2, rng.randrange(0, 40)]], [[1, 5]]]) if im else [[2, rng.randrange(0, 40)]]
                tags = im, ex
                spec = {'k': 'retag', 'im': im, 'ex': ex}
                kw = structs.tag_params(im, ex, rng)
                fn = lambda: o.retag(kw)
            e, n = err(fn)
            self.step(s='retag', h=i + 1, how=spec, e=e)
        else:
            fn = {'copy': lambda: o.copy(), 'deepcopy': lambda: copy.deepcopy(o), 'shallow': lambda: copy.copy(o),
                  'pickle': lambda: pickle.loads(pickle.dumps(o, rng.choice([2, 4, 5])))}[how]
            e, n = err(fn)
            self.step(s='copy', h=i + 1, how=how, e=e)
        if e:
            return True
        self.nroots += 1
        self.free[self.nroots] = self.free[h['root']]
        self.tags[self.nroots] = tags
        self.hs.append({'o': n, 'tn': h['tn'], 'root': self.nroots, 'path': [], 'tns': [h['tn']], 'dead': False, 'pt': h['pt'], 'any': h.get('any', False)})
        j = len(self.hs) - 1
        if how == 'shallow':
            self.see(j, 'dump')
            self.see(j, 'nat')
            self.hs[j]['dead'] = True
        elif rng.random() < .3:
            self.see(j)
        return True

    def place_tags(self, h):
        if not h['path']:
            return self.tags[h['root']]
        # the tags the last step adds
        s = h['path'][-1]
        if s[0] in ('f', 'c'):
            pt = SCHEMA[h['tns'][-2]]
            f = next(f for f in pt['f'] if (f['n'] == s[1] if s[0] == 'f' else True and f['t'] == h['tn'])) if s[0] == 'f' else None
            if f is None:
                return None
            return f['im'], f['ex']
        return [], []

    def force(self, i):
        h = self.hs[i]
        if h['path'] or SCHEMA[h['tn']].get('fw'):
            return False
        o = h['o']
        self.step(s='force', h=i + 1, out=der_event(lambda: o.dump(force=True)))
        self.free[h['root']] = True
        for x in self.hs:
            if x['root'] == h['root'] and x['path']:
                x['dead'] = True
        return True

    def run(self, n, wts):
        """n steps; wts: weights of see, get, edit, bad, copy, force"""
        rng = self.rng
        done = 0
        for _ in range(n * 4):
            if done >= n or self.over:
                break
            live = self.live()
            i = rng.choice(live) if rng.random() < .6 else live[-1]
            h = self.hs[i]
            w = rng.choices(['see', 'get', 'edit', 'bad', 'copy', 'force', 'eq', 'poke'], tuple(wts[:6]) + ((wts[4] / 2),) + (tuple(wts[6:7]) or (0,)))[0]
            before = len(self.steps)
            if w == 'see':
                self.see(i)
            elif w == 'get':
                self.get(i)
            elif w == 'edit':
                if not self.invalid:
                    self.edit(i)
            elif w == 'bad':
                if not self.invalid and self.bad(i) and not self.over and rng.random() < .7:
                    self.see(rng.choice([0, i]) if not self.hs[0]['dead'] else i, rng.choice(['dump', 'nat', None]))
            elif w == 'copy':
                self.copies(i)
            elif w == 'eq':
                self.equal()
            elif w == 'poke':
                self.poke(i)
            elif w == 'force':
                if not self.invalid:
                    self.force(i)
            if len(self.steps) > before:
                done += 1
        if self.over:
            return
        # at the end every live root shows its whole value
        for i in self.live():
            if not self.hs[i]['path'] or rng.random() < .3:
                for what in rng.sample(['dump', 'nat'], 2):
                    self.see(i, what)
                if not self.hs[i]['path'] and not self.invalid and self.tags[self.hs[i]['root']]:
                    self.see(i, 'reload')
