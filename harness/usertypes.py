"""Types a user of the library might declare, as descriptors in the notation of spec/Types.tla.
`python usertypes.py SEED TIER OUT` writes a family as JSON (read by TLC as S_user and by the
recorders); get(name) declares the same type with the library's class syntax."""
import json, os, random, sys

G0 = {'by': [], 'of': '', 'tab': []}


def ty(k, **kw):
    d = {'k': k, 'f': [], 'of': '', 'm': [], 'om': [], 'nn': '', 'im': [], 'ex': [], 'g': dict(G0), 'np': False, 'fw': False}
    d.update(kw)
    return d


def fld(n, t, **kw):
    d = {'n': n, 't': t, 'im': [], 'ex': [], 'opt': False, 'hd': False, 'def': {'k': 'none'}}
    d.update(kw)
    return d


LEAVES = {
    'bool': 'Boolean', 'int': 'Integer', 'bits': 'BitString', 'octets': 'OctetString', 'null': 'Null', 'oid': 'ObjectIdentifier',
    'enum': 'Enumerated', 'utf8': 'UTF8String', 'numeric': 'NumericString', 'printable': 'PrintableString', 'teletex': 'TeletexString',
    'ia5': 'IA5String', 'utc': 'UTCTime', 'gen': 'GeneralizedTime', 'graphic': 'GraphicString', 'visible': 'VisibleString',
    'general': 'GeneralString', 'universal': 'UniversalString', 'character': 'CharacterString', 'bmp': 'BMPString',
    'pocts': 'ParsableOctetString', 'pbits': 'ParsableOctetBitString', 'obits': 'OctetBitString', 'ibits': 'IntegerBitString',
    'iocts': 'IntegerOctetString', 'videotex': 'VideotexString'}
BASES = dict(LEAVES, seq='Sequence', set='Set', seqof='SequenceOf', setof='SetOf', choice='Choice', any='Any')
UNIV = {'bool': 1, 'int': 2, 'bits': 3, 'obits': 3, 'ibits': 3, 'pbits': 3, 'octets': 4, 'pocts': 4, 'iocts': 4, 'null': 5, 'oid': 6, 'enum': 10,
        'utf8': 12, 'seq': 16, 'seqof': 16, 'set': 17, 'setof': 17, 'numeric': 18, 'printable': 19, 'teletex': 20, 'videotex': 21, 'ia5': 22,
        'utc': 23, 'gen': 24, 'graphic': 25, 'visible': 26, 'general': 27, 'universal': 28, 'character': 29, 'bmp': 30}
NUMS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 30, 31, 32, 127, 128, 129, 255, 256, 16383, 16384, 2 ** 21]


class Family:
    def __init__(self, rng, schema):
        self.rng, self.S, self.mine, self.n = rng, dict(schema), {}, 0
        import gen
        self.gen = gen
        gen.SCHEMA.update(self.S)

    def add(self, name, d):
        name = 'user_' + name
        self.S[name] = d
        self.mine[name] = d
        self.gen.SCHEMA[name] = d
        self.gen._mind_one(name)
        return name

    def fresh(self, stem):
        self.n += 1
        return '%s%d' % (stem, self.n)

    # identifiers an element of the type may start with
    def tags(self, tn, im=(), ex=()):
        t = self.S[tn]
        e = list(ex) + list(t['ex'])
        if e:
            return {tuple(e[0])}
        if t['k'] == 'any':
            return {'any'}
        if t['k'] == 'choice':
            out = set()
            for f in t['f']:
                out |= self.tags(f['t'], f['im'], f['ex'])
            return out
        return {tuple(im or t['im'] or (0, UNIV[t['k']]))}

    def tag(self, used, small=False):
        rng = self.rng
        while True:
            c = 2 if rng.random() < .75 else rng.choice([1, 3])
            n = rng.randrange(0, 6) if small or rng.random() < .75 else rng.choice(NUMS)
            if (c, n) not in used:
                return [c, n]

    def leaf(self):
        rng = self.rng
        r = rng.random()
        if r < .75:
            return 'core_' + LEAVES[rng.choice([k for k in LEAVES if k != 'enum'])]
        return rng.choice(self.leaves)

    def base_leaves(self):
        rng = self.rng
        self.leaves = []
        self.leaves.append(self.add('IntMap', ty('int', m=[[0, 'v1'], [1, 'v2'], [2, 'v3'], [10, 'ten'], [300, 'big']])))
        self.leaves.append(self.add('EnumMap', ty('enum', m=[[0, 'zero'], [1, 'one'], [128, 'onetwoeight'], [5, 'five']])))
        self.leaves.append(self.add('Flags', ty('bits', m=[[0, 'a'], [1, 'b'], [2, 'c'], [7, 'h'], [8, 'i'], [15, 'p'], [16, 'q']])))
        self.leaves.append(self.add('Flags1', ty('bits', m=[[0, 'only']])))
        self.leaves.append(self.add('Oids', ty('oid', om=[[[1, 2, 3, 1], 'first'], [[1, 2, 3, 2], 'second'], [[2, 5, 4, 300], 'third'], [[2, 999, 1], 'fourth']])))
        self.leaves.append(self.add('AppInt', ty('int', im=[1, 3])))
        self.leaves.append(self.add('PrivOct', ty('octets', im=[3, 40])))
        self.leaves.append(self.add('CtxStr', ty('utf8', im=[2, 9])))
        self.leaves.append(self.add('ExInt', ty('int', ex=[[2, 5]])))
        self.leaves.append(self.add('ExAppOid', ty('oid', ex=[[1, 31]], om=[[[1, 2, 3, 1], 'first'], [[1, 2, 3, 2], 'second']])))
        self.leaves.append(self.add('Ex2Bool', ty('bool', ex=[[2, 1], [1, 2]])))
        self.leaves.append(self.add('ExImUtf', ty('utf8', ex=[[2, 3]], im=[2, 4])))

    # every way of writing a tag for every kind, as a type of its own
    def systematic(self):
        out = []
        forms = [dict(im=[1, 5]), dict(im=[2, 0]), dict(im=[3, 31]), dict(im=[2, 2 ** 21]), dict(ex=[[2, 0]]), dict(ex=[[1, 31]]), dict(ex=[[3, 128], [2, 7]]),
                 dict(ex=[[2, 2]], im=[2, 3])]
        for i, k in enumerate(sorted(LEAVES)):
            for f in range(2):
                out.append(self.add('Sys_%s_%d' % (k, f), ty(k, **forms[(2 * i + f * 3 + self.rng.randrange(len(forms))) % len(forms)])))
        for k in ('seq', 'set'):
            for f in forms:
                out.append(self.add(self.fresh('Sys_%s_' % k), ty(k, f=[fld('a', 'core_Integer'), fld('b', 'core_UTF8String', opt=True)], **f)))
        for k in ('seqof', 'setof'):
            for f in forms:
                out.append(self.add(self.fresh('Sys_%s_' % k), ty(k, of=self.rng.choice(['core_Integer', 'core_OctetString', 'core_Boolean']), **f)))
        for f in forms:
            if 'im' not in f:
                out.append(self.add(self.fresh('Sys_choice_'), ty('choice', f=[fld('a', 'core_Integer'), fld('b', 'core_UTF8String', im=[2, 1])], **f)))
                out.append(self.add(self.fresh('Sys_any_'), ty('any', **f)))
        return out

    # lists as members, of elements that need their type to be read
    def lists(self):
        for k in ('seqof', 'setof'):
            for of in ('user_IntMap', 'user_Oids', 'user_Flags', self.struct(0, 'seq'), self.choice(0)):
                t = self.add(self.fresh('M'), ty(k, of=of))
                self.add(self.fresh('ML'), ty('seq', f=[fld('n', 'core_Integer', opt=True), fld('l', t, im=self.rng.choice([[], [2, 7]]), opt=self.rng.random() < .5)]))

    def member_type(self, depth):
        rng = self.rng
        r = rng.random()
        if depth <= 0 or r < .5:
            return self.leaf()
        if r < .62:
            return self.listof(depth - 1)
        if r < .78:
            return self.struct(depth - 1)
        if r < .92:
            return self.choice(depth - 1)
        return 'core_Any'

    def listof(self, depth):
        t = self.member_type(depth)
        return self.add(self.fresh('L'), ty(self.rng.choice(['seqof', 'setof']), of=t, **self.class_tag()))

    def class_tag(self):
        rng = self.rng
        r = rng.random()
        if r < .85:
            return {}
        if r < .93:
            return dict(im=self.tag(()))
        return dict(ex=[self.tag(())])

    def place(self, t, used, optional=False, strict=False):
        """tagging of a member of type t whose identifiers stay clear of used"""
        rng = self.rng
        k = self.S[t]['k']
        hasex = bool(self.S[t]['ex'])
        im, ex = [], []
        must_ex = k in ('choice', 'any')
        own = self.tags(t)
        clash = bool(own & used) or ('any' in own and (used or optional)) or 'any' in used or ('any' in own and strict)
        if clash or rng.random() < .35:
            u = {x for x in used if x != 'any'}
            if not must_ex and not hasex and rng.random() < .6:
                im = self.tag(u)
            else:
                ex = [self.tag(u)]
                # several layers are written by giving a class tag and a member tag
        return im, ex

    def struct(self, depth, kind=None, nf=None):
        rng = self.rng
        kind = kind or rng.choice(['seq', 'seq', 'seq', 'set'])
        nf = nf if nf is not None else rng.choice([1, 2, 3, 3, 4, 5])
        fs, pending = [], set()
        for i in range(nf):
            t = self.member_type(depth)
            r = rng.random()
            opt = r < .3
            hd = .3 <= r < .5 and self.S[t]['k'] not in ('any', 'null', 'choice')
            im, ex = self.place(t, pending, opt or hd, kind == 'set')
            f = fld('m%d' % i, t, im=im, ex=ex, opt=opt, hd=hd)
            if hd:
                g = self.gen.Gen(random.Random(rng.random()), maxdepth=2, maxlen=1)
                f['def'] = g.value(t)
            fs.append(f)
            mine = self.tags(t, im, ex)
            if kind == 'set':
                pending |= mine
            else:
                pending = pending | mine if (opt or hd) else set()
        return self.add(self.fresh('S' if kind == 'seq' else 'T'), ty(kind, f=fs, **self.class_tag()))

    def choice(self, depth):
        rng = self.rng
        fs, used = [], set()
        for i in range(rng.choice([1, 2, 3, 4])):
            t = self.member_type(depth)
            im, ex = self.place(t, used, True, True)
            fs.append(fld('c%d' % i, t, im=im, ex=ex))
            used |= self.tags(t, im, ex)
        d = {}
        if rng.random() < .12:
            d = dict(ex=[self.tag(())])
        return self.add(self.fresh('C'), ty('choice', f=fs, **d))

    def governed(self, depth):
        """a member typed by the identifier, number or name next to it"""
        rng = self.rng
        by = rng.choice(['user_Oids', 'user_Oids', 'user_Oids', 'user_IntMap', 'user_EnumMap', 'user_ExAppOid'])
        names = [s for _, s in (self.S[by]['om'] or self.S[by]['m'])]
        rng.shuffle(names)
        of = rng.choice(['core_Any', 'core_Any', 'core_Any', 'core_ParsableOctetString', 'core_ParsableOctetBitString'])
        tab = []
        for s in names[:rng.choice([1, 2, 3, 4])]:
            t = self.member_type(depth)
            while self.S[t]['k'] in ('any',) or (of == 'core_ParsableOctetBitString' and self.S[t]['k'] in ('obits', 'pbits')) or (of == 'core_ParsableOctetString' and self.S[t]['k'] in ('pocts', 'pbits')) or (of == 'core_Any' and self.S[t]['k'] == 'null'):
                t = self.member_type(depth)
            tab.append([s, t])
        opt = rng.random() < .3
        im, ex = [], []
        used = set()
        bim, bex = self.place(by, used)
        if of == 'core_Any':
            if opt or rng.random() < .4:
                ex = [self.tag({tuple((bex or [bim or [9, 9]])[0])})]
        else:
            im, ex = self.place(of, self.tags(by, bim, bex), opt)
        fs = [fld('type', by, im=bim, ex=bex)]
        mid = rng.random() < .3
        if mid:
            fs.append(fld('extra', 'core_Boolean', hd=True, **{'def': {'k': 'bool', 'b': False}}))
        fs.append(fld('value', of, im=im, ex=ex, opt=opt))
        if mid and not ex and not im:
            fs[-1]['ex'] = [self.tag({(0, 1)})]
        if rng.random() < .3:
            last = fs[-1]
            u = self.tags(last['t'], last['im'], last['ex']) if last['opt'] else set()
            u = {x for x in u if x != 'any'}
            fs.append(fld('tail', 'core_Integer', opt=True, im=self.tag(u)))
        return self.add(self.fresh('G'), ty('seq', f=fs, g={'by': ['type'], 'of': 'value', 'tab': tab}, cb=rng.random() < .3, **self.class_tag()))


def main():
    seed, tier, out = sys.argv[1:4]
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import gen
    schema = json.load(open(os.path.join(os.path.dirname(out), 'schema.json')))
    schema = {k: v for k, v in schema.items() if not k.startswith('user_')}
    gen.SCHEMA.update(schema)
    gen._mind()
    fam = Family(random.Random('types/%s' % seed), schema)
    fam.base_leaves()
    fam.systematic()
    n = 4 if tier == 'thorough' else 1
    for _ in range(30 * n):
        fam.struct(2)
    for _ in range(10 * n):
        fam.struct(3, 'seq')
        fam.struct(1, 'set')
        fam.listof(2)
    for _ in range(16 * n):
        fam.choice(2)
    for _ in range(20 * n):
        fam.governed(1)
    fam.lists()
    json.dump(fam.mine, open(out, 'w'))


# ---------------------------------------------------------------- classes of the library
_CACHE = {}
CLASSES = ['universal', 'application', 'context', 'private']


def params(f, rng):
    """member parameters in one of the forms the documentation gives"""
    p = {}
    for key in ('im', 'ex'):
        if not f[key]:
            continue
        c, n = f[key] if key == 'im' else f[key][0]
        word = 'implicit' if key == 'im' else 'explicit'
        forms = [(CLASSES[c], n)]
        if key == 'ex':
            forms.append((c, n))
        if c == 2:
            forms += [n, n]
        x = rng.choice(forms)
        if c == 2 and rng.random() < .15:
            p.update({'tag_type': word, 'tag': n})
        else:
            p[word] = x
    if f['opt']:
        p['optional'] = True
    return p


def get(name):
    """the class for user_<name>"""
    full = 'user_' + name
    if full in _CACHE:
        return _CACHE[full]
    import gen
    from asn1crypto import core
    d = gen.SCHEMA[full]
    rng = random.Random(full + json.dumps(d['f'])[:50])
    base = getattr(core, BASES[d['k']])
    ns = {'__module__': __name__, '__qualname__': 'Z_' + name}
    if d['im']:
        ns['class_'], ns['tag'] = d['im']
    if d['ex']:
        e = [tuple(x) for x in reversed(d['ex'])]      # innermost first
        ns['explicit'] = e[0] if len(e) == 1 else tuple(e)
    if d['m']:
        ns['_map'] = dict((a, b) for a, b in d['m'])
    if d['om']:
        ns['_map'] = dict(('.'.join(map(str, a)), b) for a, b in d['om'])
    if d['of']:
        ns['_child_spec'] = gen.cls_of(d['of'])
    if d['f']:
        fs = []
        for f in d['f']:
            p = params(f, rng)
            if f['hd']:
                p['default'] = gen.native_arg(f['t'], f['def'], None)
            c = gen.cls_of(f['t'])
            m = gen.SCHEMA[f['t']]
            if m['of'] and f['t'].startswith('user_') and not m['im'] and not m['ex'] and d['g']['of'] != f['n'] and rng.random() < .5:
                # the type of the elements given with the member
                p['spec'] = gen.cls_of(m['of'])
                c = getattr(core, BASES[m['k']])
            fs.append((f['n'], c, p) if p else (f['n'], c))
        ns['_alternatives' if d['k'] == 'choice' else '_fields'] = fs
    if d['g']['of']:
        specs = dict((a, gen.cls_of(b)) for a, b in d['g']['tab'])
        if d.get('cb'):
            def spec(self, specs=specs):
                return specs.get(self['type'].native)
            ns['_spec_callbacks'] = {d['g']['of']: spec}
        else:
            ns['_oid_pair'] = (d['g']['by'][0], d['g']['of'])
            ns['_oid_specs'] = specs
    c = type('Z_' + name, (base,), ns)
    globals()['Z_' + name] = c
    _CACHE[full] = c
    return c


if __name__ == '__main__':
    sys.modules['usertypes'] = sys.modules['__main__']
    main()
