# Recording side: runs under the repository's interpreter, imports asn1crypto from /repo,
# performs public calls and writes one ndjson event per observation.
from __future__ import annotations
import json, os, random, signal, sys, importlib

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.setrecursionlimit(3000)


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)


def exc_name(e):
    """Exceptions are named by the most specific builtin family the contract speaks about."""
    if isinstance(e, Hang):
        return 'Hang'
    for cls in (RecursionError, UnicodeError, OverflowError, ZeroDivisionError, IndexError, KeyError, AttributeError,
                NotImplementedError, AssertionError, StopIteration, MemoryError):
        if isinstance(e, cls):
            # UnicodeError is a ValueError
            return 'ValueError' if cls is UnicodeError else cls.__name__
    for cls in (ValueError, TypeError):
        if isinstance(e, cls):
            return cls.__name__
    return type(e).__name__


def attempt(fn, timeout=20):
    """-> ('ok', value) or ('err', exception name)"""
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        try:
            return ('ok', fn())
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Hang:
        return ('err', 'Hang')
    except RecursionError:
        return ('err', 'RecursionError')
    except Exception as e:
        if os.environ.get('VERIF_DEBUG') == '2':
            import traceback
            traceback.print_exc()
        return ('err', exc_name(e))


class Recorder:
    def __init__(self, outdir, nshards, seed, tier, part=0, parts=1):
        self.outdir, self.seed, self.tier = outdir, seed, tier
        self.part, self.parts = part, parts
        self.n = 0
        self.counts = {}
        self.files = [open(os.path.join(outdir, 'ev-%d-%d.ndjson' % (part, s)), 'w') for s in range(nshards)]
        self.sizes = [0] * nshards
        self.rng = random.Random('%s/%s/%s' % (seed, tier, part))
        self.seen = set()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def ev(self, op, label=None, **kw):
        kw['op'] = op
        s = json.dumps(kw, separators=(',', ':'))
        h = hash(s)
        if h in self.seen:
            return
        self.seen.add(h)
        # keep the shards balanced by volume
        k = self.sizes.index(min(self.sizes))
        self.sizes[k] += len(s) + 200
        self.files[k].write(s + '\n')
        self.n += 1
        c = label or op
        self.counts[c] = self.counts.get(c, 0) + 1

    def close(self):
        for f in self.files:
            f.close()
        with open(os.path.join(self.outdir, 'counts-%d.json' % self.part), 'w') as f:
            json.dump(self.counts, f)


def bl(b):
    return list(b)


def digits(n, base):
    out = []
    while n:
        n, r = divmod(n, base)
        out.append(r)
    return out[::-1]


def main():
    prop, tier, seed, outdir, nshards, part, parts = sys.argv[1:8]
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    mod = importlib.import_module('props.' + prop.lower())
    r = Recorder(outdir, int(nshards), int(seed), tier, int(part), int(parts))
    try:
        mod.record(r)
    except (Exception, Hang) as e:
        # an exception out of the library where none can be is an observation too
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        if not any(f.filename.startswith(os.path.join(REPO, 'asn1crypto')) for f in tb):
            raise
        r.ev('crash', e=type(e).__name__ + ': ' + str(e)[:300], at=['%s:%s' % (os.path.basename(f.filename), f.name) for f in tb[-8:]])
    r.close()


if __name__ == '__main__':
    sys.modules['rec'] = sys.modules['__main__']
    main()
