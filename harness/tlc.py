# Running TLC: trace validation of event shards and model checking.
import os, re, subprocess, threading, tempfile, shutil, time
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


class TlcError(Exception):
    pass


def _java(module, cfg, workdir, env=None, heap='3g', workers='1', extra=(), timeout=None):
    cmd = ['java', '-Xss64m', '-Xmx' + heap, '-XX:+UseSerialGC' if workers == '1' else '-XX:+UseParallelGC',
           '-XX:TieredStopAtLevel=4', '-DTLA-Library=' + SPEC, '-cp', JAR, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir',
           os.path.join(workdir, 'meta'), '-workers', workers, '-config', os.path.join(SPEC, cfg)] + list(extra) + [
               os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    p = subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout)
    return p.returncode, p.stdout


def validate(module, trace, timeout=None, heap='3g'):
    """-> (number of events judged, [(index, clause)])"""
    with open(trace) as f:
        n = sum(1 for _ in f)
    if n == 0:
        return 0, []
    bad = []
    start = 1
    unevaluable = 0
    while start <= n:
        wd = tempfile.mkdtemp(prefix='tlc')
        try:
            rc, out = _java(module, 'Trace.cfg', wd, {'TRACE_FILE': trace, 'TRACE_START': str(start)}, heap=heap,
                            timeout=timeout)
        finally:
            shutil.rmtree(wd, ignore_errors=True)
        for m in re.finditer(r'<<"@BAD", (\d+),\s+"([^"]*)">>', out):
            bad.append((int(m.group(1)), m.group(2)))
        if re.search(r'<<"@DONE", %d>>' % n, out) and rc == 0:
            break
        # evaluation stopped inside an event: find which one from the last state
        ms = re.findall(r'^(?:/\\ )?at = (\d+)', out, re.M)
        if 'Parsing' in out and ('***Parse Error***' in out or 'Semantic error' in out or 'Fatal errors' in out) or not ms:
            raise TlcError(out[-4000:])
        k = int(ms[-1])
        why = 'specification cannot evaluate this observation'
        unevaluable += 1
        if os.environ.get('VERIF_DEBUG'):
            print(out[-3000:])
        bad.append((k, why))
        start = k + 1
        if unevaluable >= 3:
            break
    return n, sorted(set(bad))


def validate_all(module, traces, jobs=8, timeout=None, heap='3g'):
    res = {}
    errs = []
    lock = threading.Lock()
    todo = list(traces)

    def work():
        while True:
            with lock:
                if not todo or errs:
                    return
                t = todo.pop(0)
            try:
                r = validate(module, t, timeout, heap)
            except Exception as e:
                with lock:
                    errs.append(e)
                return
            with lock:
                res[t] = r
    ths = [threading.Thread(target=work) for _ in range(min(jobs, len(todo)))]
    [t.start() for t in ths]
    [t.join() for t in ths]
    if errs:
        raise errs[0]
    return res


def model_check(module, cfg, workers='8', env=None, extra=(), timeout=None, heap='8g'):
    """-> dict(states, distinct, ok, output)"""
    wd = tempfile.mkdtemp(prefix='tlc')
    t = time.time()
    try:
        rc, out = _java(module, cfg, wd, env, workers=workers, extra=extra, timeout=timeout, heap=heap)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return {'module': module, 'cfg': cfg, 'ok': rc == 0 and 'Error:' not in out, 'generated': gen, 'distinct': dist,
            'rc': rc, 'out': out, 'wall_s': round(time.time() - t, 1)}
