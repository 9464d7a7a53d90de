"""P18: first use of a type from several threads at once."""
import json, os, random
from rec import attempt, REPO
import setups, importlib
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import p17


def families(r, beh):
    rng = r.rng
    qs = beh['questions']
    n = 0
    for k in setups.KINDS:
        for j in range(r.scale(2, 60)):
            f = rng.choice(beh['families'])
            own = [[(x['n'], x['s']) for x in d] for d in f['own']]
            tagged = rng.choice([0, 0, 1])
            a, b = rng.choice(beh['pairs'])
            if rng.random() < .5:
                b = dict(b, c=a['c'])
            extra = [rng.choice(qs) for _ in range(rng.choice([0, 0, 0, 1]))]
            before = [rng.choice(qs) for _ in range(rng.choice([0, 0, 1]))]
            ways = [rng.randrange(6) for _ in range(4)]
            seqs = [[a], [b] + extra]
            if rng.random() < .2:
                seqs.append([rng.choice(qs)])
            opcodes = r.thorough and j % 3 == 0

            def go(plan):
                fam = setups.Family(k, f['parent'], own, tagged)
                first = [dict(q, got=fam.ask(q['c'], q['u'], q['s'], q['n'])) for q in before]
                fns = [lambda s=s: [fam.ask(q['c'], q['u'], q['s'], q['n'], ways[i]) for i, q in enumerate(s)] for s in seqs]
                out, steps = setups.schedule(fns, plan, opcodes)
                runs = [first] if first else []
                for s, o in zip(seqs, out):
                    o = o if isinstance(o, list) else [o] * len(s)
                    runs.append([dict(q, got=g) for q, g in zip(s, o)])
                r.ev('family', 'families from threads: ' + k, kind=k, own=f['own'], runs=runs, threads=True)
                r.counts['schedules'] = r.counts.get('schedules', 0) + 1
                return steps
            steps = go([])
            # the first thread is stopped at each point once
            for p in range(steps[0] + 1):
                go([[0, p], [1, None]])
            # both are stopped, then the rest one after the other
            for _ in range(r.scale(25, 150)):
                p = rng.randrange(steps[0] + 1)
                go([[0, p], [1, rng.randrange(steps[1] + 1)], [0, rng.choice([None, rng.randrange(1, 6)])], [1, None]])


def threads(r, qs, seqs, plan):
    """in a fresh process"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            fns = [lambda s=s: [p17.ask(qs[i], False) for i in s] for s in seqs]
            out, steps = setups.schedule(fns, plan)
            with os.fdopen(wr, 'w') as f:
                json.dump([[o if isinstance(o, list) else [o] * len(s) for o, s in zip(out, seqs)], steps], f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd) as f:
        s = f.read()
    os.waitpid(pid, 0)
    return json.loads(s) if s else [[['died'] * len(s) for s in seqs], [1] * len(seqs)]


def record(r):
    import gen
    rng = r.rng
    S = gen.load_schema()
    beh = json.load(open(os.path.join(os.environ['VERIF_WORK'], 'setup.json')))
    qs = p17.questions(rng, S, r.scale(60, 400))
    base = [p17.forked([q])[0] for q in qs]
    r.ev('base', 'questions asked alone', q=[q[:3] for q in qs], ans=base)
    by = {}
    for i, q in enumerate(qs):
        by.setdefault(q[0] + '_' + q[1], []).append(i)
    groups = [g for g in ([n for n in g if n in by] for g in p17.related(S)) if len(g) > 1]
    for _ in range(r.scale(40, 800)):
        q = rng.random()
        if q < .4:
            pool = rng.choice(list(by.values()))
        elif q < .8 and groups:
            pool = sum((by[n] for n in rng.choice(groups)), [])
        else:
            pool = range(len(qs))
        seqs = [[rng.choice(pool) for _ in range(rng.choice([1, 1, 2]))] for _ in range(rng.choice([2, 2, 3]))]
        n = threads(r, qs, seqs, [])[1]
        for _ in range(r.scale(4, 12)):
            plan = [[0, rng.randrange(n[0] + 1)], [1, None if rng.random() < .5 else rng.randrange(n[1] + 1)], [0, None if rng.random() < .5 else rng.randrange(1, 20)]]
            out = threads(r, qs, seqs, plan)[0]
            r.ev('history', 'library types from threads', b=1, q=[i + 1 for s in seqs for i in s], got=[x for o in out for x in o], threads=True)
            r.counts['schedules'] = r.counts.get('schedules', 0) + 1
    families(r, beh)
