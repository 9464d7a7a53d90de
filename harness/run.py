#!/usr/bin/env python3
# check <property> <quick|thorough>: record, validate with TLC, model check, write evidence.
import glob, importlib, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import tlc
PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
    PY = sys.executable


def load_findings(prop):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: '):
                d = json.loads(l[7:])
                if d.get('property') == prop and d.get('status') == 'known':
                    out.append(d)
    return out


def matches(f, ev, clause):
    """A finding names the exact event: every key of its 'event' must be equal, and the clause."""
    if f.get('clause') is not None and f['clause'] != clause:
        return False
    for k, v in f['event'].items():
        if ev.get(k) != v:
            return False
    return True


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfgs = json.load(open(os.path.join(HERE, 'checks.json')))
    cfg = cfgs[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1', TZ='UTC', VERIF_WORK=work)
    for k in ('PYTHONPATH', 'PYTHONHOME'):
        env.pop(k, None)
    violations = []   # (kind, text, event)
    known = []
    models = []
    events = 0
    counts = {}
    samples = []
    err = None
    try:
        # 1. model checking of the specification, and behaviours generated from it
        gens = {}
        os.environ.pop('TYPES_FILE', None)
        for m in cfg.get('models', []):
            if m.get('tier', 'both') not in ('both', tier):
                continue
            menv = {'OUT': os.path.join(work, m['gen'])} if m.get('gen') else None
            r = tlc.model_check(m['module'], m['cfg'], workers=m.get('workers', '8'), env=menv,
                                extra=m.get('extra', []), timeout=m.get('timeout', 800))
            models.append({k: r[k] for k in ('module', 'cfg', 'ok', 'generated', 'distinct', 'wall_s')})
            if not r['ok']:
                print(r['out'][-3000:])
                raise tlc.TlcError('the specification itself fails model checking: %s %s' % (m['module'], m['cfg']))
        if cfg.get('types'):
            env['TYPES_FILE'] = os.path.join(work, 'types.json')
            os.environ['TYPES_FILE'] = env['TYPES_FILE']
            o = subprocess.run([PY, '-B', os.path.join(HERE, 'usertypes.py'), str(seed), tier, env['TYPES_FILE']], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if o.returncode != 0:
                raise tlc.TlcError('type generator failed:\n' + o.stdout[-3000:])
        # 2. record the implementation
        parts = cfg.get('parts_thorough', cfg.get('parts', 4)) if tier == 'thorough' else cfg.get('parts', 4)
        shards = cfg.get('shards', 2)
        procs = []
        for p in range(parts):
            procs.append(subprocess.Popen([PY, '-B', os.path.join(HERE, 'rec.py'), prop, tier, str(seed), work, str(shards), str(p), str(parts)],
                                          env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        tmax = 700 if tier == 'quick' else 3 * 3600
        for p in procs:
            try:
                o, _ = p.communicate(timeout=tmax)
            except subprocess.TimeoutExpired:
                p.kill()
                o, _ = p.communicate()
                o += '\nrecorder timeout'
            if p.returncode != 0:
                raise tlc.TlcError('recorder failed:\n' + o[-3000:])
            if o.strip() and os.environ.get('VERIF_DEBUG'):
                print(o)
        # 3. let TLC judge every recorded event
        trace_modules = cfg['trace'] if isinstance(cfg['trace'], list) else [cfg['trace']]
        traces = sorted(glob.glob(os.path.join(work, 'ev-*.ndjson')))
        res = tlc.validate_all(trace_modules[0], traces, heap=cfg.get('heap', '3g'))
        findings = load_findings(prop)
        for t in traces:
            n, bad = res[t]
            events += n
            if n and len(samples) < 6:
                with open(t) as f:
                    l = f.readline()
                samples.append(l.strip() if len(l) < 1500 else l[:1500] + '...')
            if bad:
                lines = open(t).read().split('\n')
                for k, clause in bad:
                    ev = json.loads(lines[k - 1])
                    hit = [f for f in findings if matches(f, ev, clause)]
                    if hit:
                        known.append((hit[0], ev, clause))
                    else:
                        violations.append((clause, ev))
        for p in glob.glob(os.path.join(work, 'counts-*.json')):
            for k, v in json.load(open(p)).items():
                counts[k] = counts.get(k, 0) + v
        if events < cfg.get('min_events', 1) and not violations:
            raise tlc.TlcError('vacuous run: only %d events recorded' % events)
    except Exception as e:   # noqa
        err = e
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if err is not None:
        print('ERROR property=%s %s' % (prop, err))
        sys.exit(2)
    replay = None
    if violations:
        rd = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        replay = os.path.join(rd, '%s.ndjson' % prop)
        with open(replay, 'w') as f:
            for clause, ev in violations[:5000 if os.environ.get('VERIF_DEBUG') else 200]:
                f.write(json.dumps({'clause': clause, 'event': ev}) + '\n')
    wall = round(time.time() - t0, 1)
    ev = {
        'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': cfg['level'],
        'coverage': {
            'states': sum(m['distinct'] for m in models),
            'transitions': sum(m['generated'] for m in models),
            'traces_validated_against_impl': events,
            'samples': samples,
            'models': models,
            'events_by_kind': counts,
        },
        'assumptions': cfg.get('assumptions', []),
        'wall_s': wall,
        'violations': len(violations),
    }
    evp = os.path.join(ROOT, 'evidence', '%s.json' % prop)
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    json.dump(finish_evidence(ev, cfg), open(evp, 'w'), indent=1)
    seen = set()
    for f, e, clause in known:
        if f['what'] not in seen:
            seen.add(f['what'])
            print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    print('%s %s: %d events judged by TLC, %d model states, %.1fs' % (prop, tier, events, sum(m['distinct'] for m in models), wall))
    if os.environ.get('VERIF_DEBUG') or violations:
        hist = {}
        for clause, e in violations:
            hist.setdefault((e.get('op'), clause), []).append(e)
        for (op, c), es in sorted(hist.items(), key=lambda kv: -len(kv[1]))[:40]:
            s = json.dumps(es[0])
            print('  %5d x [%s] %s e.g. %s' % (len(es), op, c, s if len(s) < 700 else s[:700] + '...'))
    if violations:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        sys.exit(1)
    sys.exit(0)


def finish_evidence(ev, cfg):
    return ev


if __name__ == '__main__':
    main()
