"""P17: what a type does never depends on which types were used before."""
import hashlib, importlib, json, os, random, subprocess, sys
from rec import attempt, REPO
from asn1crypto import core
import setups


# ---------------------------------------------------------------- families declared for the purpose
def families(r, beh):
    rng = r.rng
    hs = beh['histories']
    chunks = [hs[i:i + 144] for i in range(0, len(hs), 144)]
    todo = [(k, f, c) for k in setups.KINDS for f in beh['families'] for c in range(len(chunks))]
    for i, (k, f, c) in enumerate(todo):
        if i % r.parts != r.part or (not r.thorough and rng.random() > .3):
            continue
        own = [[(x['n'], x['s']) for x in d] for d in f['own']]
        runs = []
        for h in chunks[c]:
            fam = setups.Family(k, f['parent'], own, rng.choice([0, 0, 1, 2]))
            runs.append([dict(q, got=fam.ask(q['c'], q['u'], q['s'], q['n'], rng.randrange(6))) for q in h])
        r.ev('family', 'families: ' + k, kind=k, own=f['own'], runs=runs, threads=False)
        r.counts['histories of families'] = r.counts.get('histories of families', 0) + len(runs)


# ---------------------------------------------------------------- types of the library
def canon(x):
    if isinstance(x, dict):
        return '{' + ','.join(canon(str(a)) + ':' + canon(b) for a, b in x.items()) + '}'
    if isinstance(x, (list, tuple)):
        return type(x).__name__ + '[' + ','.join(map(canon, x)) + ']'
    if isinstance(x, (set, frozenset)):
        return 'set[' + ','.join(sorted(map(canon, x))) + ']'
    return type(x).__name__ + repr(x)


def short(s):
    return s if len(s) < 40 else hashlib.sha1(s.encode('utf-8', 'surrogatepass')).hexdigest()


def plain(fn):
    """attempt() without its timer, for threads"""
    from rec import exc_name
    try:
        return 'ok', fn()
    except RecursionError:
        return 'err', 'RecursionError'
    except Exception as e:
        return 'err', exc_name(e)


def edit(o, rng, depth, p=.5):
    """changes here and there within a value"""
    if isinstance(o, core.Choice):
        edit(o.chosen, rng, depth + 1, p)
    elif isinstance(o, (core.Sequence, core.Set)):
        for f in list(o):
            v = o[f]
            if rng.random() < p:
                edit(v, rng, depth + 1, p)
    elif isinstance(o, (core.SequenceOf, core.SetOf)):
        if len(o):
            o.append(o[0].copy())
            edit(o[0], rng, depth + 1, p)
    elif isinstance(o, core.Boolean):
        o.set(not o.native)
    elif isinstance(o, core.Integer) and not o._map:
        o.set(o.native + 1)
    elif isinstance(o, core.OctetString) and type(o) is core.OctetString:
        o.set(b'edited')
    elif type(o) in (core.UTF8String, core.PrintableString):
        o.set('edited')


def ask(q, timed=True):
    """q: [module, class, what, argument]"""
    mod, cn, what, arg = q[:4]
    T = getattr(importlib.import_module('asn1crypto.' + mod), cn)
    if what == 'load':
        def fn():
            o = T.load(bytes.fromhex(arg))
            return canon(o.native) + (canon(o.name) if hasattr(T, '_alternatives') else '')
    elif what == 'redump':
        fn = lambda: T.load(bytes.fromhex(arg)).copy().dump(force=True).hex()
    elif what == 'child':
        def fn():
            o = T.load(bytes.fromhex(arg))
            return canon([(n, type(o[n]).__name__, o[n].native) for n in o])
    elif what == 'edit':
        def fn():
            o = T.load(bytes.fromhex(arg))
            edit(o, random.Random(q[4]), 0)
            return o.dump().hex()
    elif what == 'empty':
        def fn():
            o = T()
            return canon([(f[0], o[f[0]].native) for f in T._fields if len(f) > 2 and ('default' in f[2] or 'optional' in f[2])])
    elif what == 'edit empty':
        def fn():
            o = T()
            for f in T._fields:
                if len(f) > 2 and 'default' in f[2]:
                    edit(o[f[0]], random.Random(q[4]), 0, 1)
            return canon([(f[0], o[f[0]].native) for f in T._fields if len(f) > 2 and 'default' in f[2]])
    elif what == 'spec':
        fn = lambda: canon([type(x).__name__ if x is not None else None for x in T().spec(arg)] if isinstance(T().spec(arg), tuple) else T().spec(arg).__name__)
    elif what == 'map':
        fn = lambda: T.map(arg)
    elif what == 'unmap':
        fn = lambda: T.unmap(arg)
    elif what == 'init':
        fn = lambda: T(set(arg) if isinstance(arg, list) else arg).dump().hex()
    elif what == 'make':
        import gen
        fn = lambda: T(gen.native_arg(mod + '_' + cn, arg, random.Random(q[4]))).dump().hex()
    else:
        import gen
        fn = lambda: gen.obj(mod + '_' + cn, arg, random.Random(q[4])).dump().hex()
    k, v = attempt(fn) if timed else plain(fn)
    return short(v) if k == 'ok' else 'error ' + v


def forked(qs):
    """the answers a fresh process gives, one after the other"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            with os.fdopen(wr, 'w') as f:
                json.dump([ask(q) for q in qs], f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd) as f:
        s = f.read()
    os.waitpid(pid, 0)
    return json.loads(s) if s else ['died'] * len(qs)


def questions(rng, S, count):
    import gen, structs, ber
    g = gen.Gen(rng, maxdepth=4)
    names = [n for n in structs.type_names(S, user=False) if n.split('_', 1)[0] != 'core' and not n.startswith('core_')]
    out = []
    rng.shuffle(names)
    i = 0
    while len(out) < count:
        n = names[i % len(names)]
        i += 1
        mod, cn = n.split('_', 1)
        t = S[n]
        try:
            v = g.value(n)
            der = ber.enc(n, v).hex()
        except RecursionError:
            continue
        what = rng.choice(['load', 'load', 'redump', 'make', 'objects'] + (['child', 'edit', 'edit'] if t['k'] in ('seq', 'set') else ['edit'] if t['k'] in ('seqof', 'setof', 'choice') else []))
        if t['k'] == 'any' and what in ('make',):
            what = 'load'
        out.append([mod, cn, what, v if what in ('make', 'objects') else der, rng.randrange(1 << 30)])
        if t['k'] == 'oid' and t['om']:
            a, s = rng.choice(t['om'])
            out.append([mod, cn, 'map', '.'.join(map(str, a)), 0])
            out.append([mod, cn, 'unmap', rng.choice([s, s, 'no_such_name', '1.2.3.4.5']), 0])
        elif t['k'] in ('enum', 'int') and t['m']:
            out.append([mod, cn, 'init', rng.choice(t['m'])[1], 0])
        elif t['k'] == 'bits' and t['m']:
            out.append([mod, cn, 'init', [rng.choice(t['m'])[1]], 0])
        elif t['k'] in ('seq', 'set') and t['f']:
            out.append([mod, cn, 'spec', rng.choice(t['f'])['n'], 0])
            if any(f['hd'] for f in t['f']):
                out.append([mod, cn, 'empty', '', 0])
                out.append([mod, cn, 'edit empty', '', rng.randrange(1 << 30)])
    return out


def related(S):
    """types that share a definition further up: by class inheritance, or one is a member of the other"""
    import gen
    groups = {}
    for n in S:
        c = gen.cls_of(n) if not n.startswith('user_') else None
        if c is None or n.startswith('core_'):
            continue
        for b in c.__mro__:
            if b.__module__ != 'asn1crypto.core' and b is not object:
                groups.setdefault(b, set()).add(n)
        for f in S[n]['f']:
            groups.setdefault(n, {n}).add(f['t'])
    return [sorted(x) for x in groups.values() if len(x) > 1]


SCRIPT = '''
import sys, json
sys.dont_write_bytecode = True
sys.path[:0] = [%(repo)r, %(here)r, %(props)r]
order, qs = json.load(sys.stdin)
import importlib
for m in order:
    importlib.import_module('asn1crypto.' + m)
import p17
print(json.dumps([p17.ask(q) for q in qs]))
'''
MODS = ['algos', 'cms', 'core', 'crl', 'csr', 'keys', 'ocsp', 'parser', 'pdf', 'pem', 'pkcs12', 'tsp', 'util', 'x509']


def ordered(order, qs):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    p = subprocess.run([sys.executable, '-B', '-c', SCRIPT % {'repo': REPO, 'here': here, 'props': os.path.join(here, 'props')}], input=json.dumps([order, qs]), capture_output=True, text=True, timeout=100)
    return json.loads(p.stdout) if p.returncode == 0 else ['error ' + p.stderr.strip().split('\n')[-1][:200]] * len(qs)


def record(r):
    import gen
    rng = r.rng
    S = gen.load_schema()
    beh = json.load(open(os.path.join(os.environ['VERIF_WORK'], 'setup.json')))
    qs = questions(rng, S, r.scale(160, 1500))
    base = [forked([q])[0] for q in qs]
    show = [[q[0], q[1], q[2], q[3] if isinstance(q[3], str) else ''] for q in qs]
    r.ev('base', 'questions asked alone', q=show, ans=base)
    by = {}
    for i, q in enumerate(qs):
        by.setdefault(q[0] + '_' + q[1], []).append(i)
    groups = [[n for n in g if n in by] for g in related(S)]
    groups = [g for g in groups if len(g) > 1]
    for _ in range(r.scale(90, 1500)):
        if rng.random() < .5 and groups:
            pool = sum((by[n] for n in rng.choice(groups)), [])
            h = [rng.choice(pool) for _ in range(rng.choice([2, 3, 6]))]
        else:
            h = [rng.randrange(len(qs)) for _ in range(rng.choice([10, 30, 60]))]
        got = forked([qs[i] for i in h])
        r.ev('history', 'histories of library types', b=1, q=[i + 1 for i in h], got=got, threads=False)
    # orders of imports; the pdf and tsp modules register identifiers with types of other modules
    plain = [i for i, q in enumerate(qs) if q[2] in ('load', 'redump', 'map', 'unmap', 'init', 'child', 'spec', 'edit', 'empty', 'edit empty') and not isinstance(q[3], dict)]
    few = [m for m in MODS if m not in ('pdf', 'tsp')]
    for mods, what in ((MODS, 'all modules'), (few, 'without pdf and tsp')):
        ask_ = [qs[i] for i in plain if qs[i][0] in mods][:r.scale(60, 300)]
        ans = ordered(mods, ask_)
        r.ev('base', 'questions after imports', q=[what] + [[q[0], q[1], q[2], q[3]] for q in ask_], ans=ans)
        b = r.n
        for _ in range(r.scale(2, 20)):
            o = rng.sample(mods, len(mods))
            r.ev('order', 'orders of imports', b=b, order=o, got=ordered(o, ask_))
        if mods is few:
            # each question with nothing imported but its own module
            for m in sorted({q[0] for q in ask_}):
                sub = [i for i, q in enumerate(ask_) if q[0] == m]
                if rng.random() < r.scale(.4, 1):
                    r.ev('history', 'one module imported', b=b, q=[i + 1 for i in sub], got=ordered([m], [ask_[i] for i in sub]), threads=False)
    families(r, beh)
