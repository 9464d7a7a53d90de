"""Families of related types (spec/Setup.tla), asked questions in the library's own terms, alone, after one another, or from threads."""
import itertools, json, os, re, sys, threading
from rec import REPO
from asn1crypto import core

KINDS = ['int', 'enum', 'bits', 'oid', 'seq', 'set', 'choice', 'within', 'governed', 'list', 'listed']
_n = itertools.count()


def tlv(tag, body):
    return bytes([tag, len(body)]) + body


def integer(n):
    return tlv(2, bytes([n]))


class Family:
    """the classes of a family, newly declared; own: for each class its definition [[number, name], ..] or None"""

    def __init__(self, kind, parent, own, tagged=0):
        self.kind, self.tagged = kind, tagged
        self.cls = []
        for i, (p, d) in enumerate(zip(parent, own)):
            base = self.cls[p - 1] if p else None
            at = self.attrs(d, i) if d else {}
            if not p and tagged:
                at['explicit'] = (2, 5) if tagged == 1 else ((2, 5),)
            self.cls.append(type('Family%d_%d' % (next(_n), i + 1), (base or self.root(),), at))
        if kind == 'within':
            self.cls = [type('Outer%d' % next(_n), (core.Sequence,), {'_fields': [('x', c), ('y', core.Integer, {'optional': True})]}) for c in self.cls]
        if kind == 'listed':
            self.cls = [type('Outer%d' % next(_n), (core.SetOf,), {'_child_spec': c}) for c in self.cls]

    def root(self):
        return {'int': core.Integer, 'enum': core.Enumerated, 'bits': core.BitString, 'oid': core.ObjectIdentifier, 'seq': core.Sequence, 'set': core.Set,
                'choice': core.Choice, 'within': core.Choice, 'governed': core.Sequence, 'list': core.SequenceOf, 'listed': core.Sequence}[self.kind]

    def attrs(self, d, i):
        k = self.kind
        m = {n: s for n, s in d}
        if k in ('int', 'enum', 'bits'):
            return {'_map': m}
        if k == 'oid':
            return {'_map': {'1.2.%d' % n: s for n, s in d}}
        if k in ('seq', 'set', 'listed'):
            return {'_fields': [(s, core.Integer, {'implicit': n, 'optional': True}) for n, s in d]}
        if k in ('choice', 'within'):
            return {'_alternatives': [(s, core.Integer, {'implicit': n}) for n, s in d]}
        if k == 'governed':
            specs = {'1.2.%d' % n: type('Spec%d' % next(_n), (core.Integer,), {'_map': {1: s}}) for n, s in d}
            return {'_fields': [('skip%d' % j, core.Integer, {'implicit': j, 'optional': True}) for j in range(i)] + [('type', core.ObjectIdentifier), ('value', core.Any)],
                    '_oid_pair': ('type', 'value'), '_oid_specs': specs}
        if k == 'list':
            return {'_child_spec': type('Item%d' % next(_n), (core.Integer,), {'_map': m})}

    def wrap(self, b):
        return tlv(0xa5, b) if self.tagged and self.kind not in ('within', 'listed') else b

    def bare(self, b):
        if self.tagged and self.kind not in ('within', 'listed'):
            assert b[0] == 0xa5 and b[1] == len(b) - 2
            return b[2:]
        return b

    def inner(self, b):
        return tlv(0xa5, b) if self.tagged else b

    def ask(self, c, u, s, n, way=0):
        """-> answer as text"""
        T, k = self.cls[c - 1], self.kind
        try:
            if u == 'num':
                return self.number(T, k, s, way)
            r = self.name(T, k, n, way)
            return r if isinstance(r, str) else 'none'
        except ValueError:
            return 'ValueError'
        except KeyError:
            return 'KeyError'
        except Exception as e:
            return type(e).__name__

    def number(self, T, k, s, way):
        if k in ('int', 'enum'):
            b = self.bare(T(s).dump())
            assert b[0] == (2 if k == 'int' else 10)
            return str(b[2])
        if k == 'bits':
            b = self.bare(T({s}).dump())
            bits = ''.join(format(x, '08b') for x in b[3:])
            return str(bits.index('1'))
        if k == 'oid':
            d = [lambda: T.unmap(s), lambda: T(s).dotted][way % 2]()
            return d.split('.')[2] if d.startswith('1.2.') else d
        if k in ('seq', 'set'):
            if way % 2:
                o = T()
                try:
                    o[s] = 7
                except KeyError:
                    return 'ValueError'
            else:
                o = T({s: 7})
            b = self.bare(o.dump())
            assert b[0] == (0x30 if k == 'seq' else 0x31) and b[1] == 3 and b[4] == 7, b
            return str(b[2] & 31)
        if k == 'choice':
            b = self.bare(T(name=s, value=7).dump())
            assert b[2] == 7
            return str(b[0] & 31)
        if k == 'within':
            b = T({'x': (s, 7)}).dump()[2:]
            if self.tagged:
                assert b[0] == 0xa5
                b = b[2:]
            return str(b[0] & 31)
        if k == 'listed':
            b = T([{s: 7}]).dump()[2:]
            if self.tagged:
                assert b[0] == 0xa5
                b = b[2:]
            return str(b[2] & 31)
        if k == 'governed':
            for n in list(range(1, 11)):
                try:
                    o = T({'type': '1.2.%d' % n, 'value': s})
                    o.dump()
                except (ValueError, TypeError):
                    continue
                return str(n)
            return 'ValueError'
        if k == 'list':
            b = self.bare(T([s]).dump())
            return str(b[4])

    def name(self, T, k, n, way):
        if k in ('int', 'enum'):
            return [lambda: T.load(self.wrap(tlv(2 if k == 'int' else 10, bytes([n])))).native, lambda: T(n).native][way % 2 if k == 'int' else 0]()
        if k == 'bits':
            bits = '0' * n + '1' + '0' * (7 - n % 8)
            r = T.load(self.wrap(tlv(3, bytes([7 - n % 8]) + int(bits, 2).to_bytes(len(bits) // 8, 'big')))).native
            assert len(r) == 1
            return list(r)[0]
        if k == 'oid':
            d = '1.2.%d' % n
            r = [lambda: T.load(self.wrap(tlv(6, bytes([42, n])))).native, lambda: T.map(d), lambda: T(d).native][way % 3]()
            return n if r == d else r
        el = tlv(0x80 | n, b'\x07')
        if k in ('seq', 'set'):
            r = T.load(self.wrap(tlv(0x30 if k == 'seq' else 0x31, el))).native
            l = [a for a, v in r.items() if v is not None]
            assert len(l) == 1 and r[l[0]] == 7
            return l[0]
        if k == 'choice':
            o = T.load(self.wrap(el))
            assert o.native == 7
            return o.name
        if k == 'within':
            o = T.load(tlv(0x30, self.inner(el)))
            assert o['x'].native == 7
            return o['x'].name
        if k == 'listed':
            r = T.load(tlv(0x31, self.inner(tlv(0x30, el))))[0].native
            l = [a for a, v in r.items() if v is not None]
            assert len(l) == 1 and r[l[0]] == 7
            return l[0]
        if k == 'governed':
            return T.load(self.wrap(tlv(0x30, tlv(6, bytes([42, n])) + integer(1))))['value'].native
        if k == 'list':
            return T.load(self.wrap(tlv(0x30, integer(n)))).native[0]


# ---------------------------------------------------------------- threads under a schedule
HOME = os.path.join(REPO, 'asn1crypto') + os.sep


class Runner:
    """a thread that stops after a given number of steps inside the library"""

    def __init__(self, fn, opcodes):
        self.fn, self.opcodes = fn, opcodes
        self.go, self.at = threading.Semaphore(0), threading.Semaphore(0)
        self.steps, self.limit, self.done, self.out, self.free = 0, 0, False, None, False
        self.t = threading.Thread(target=self.main, daemon=True)
        self.t.start()

    def main(self):
        self.go.acquire()
        sys.settrace(self.trace)
        try:
            self.out = self.fn()
        except BaseException as e:
            self.out = type(e).__name__
        finally:
            sys.settrace(None)
        self.done = True
        self.at.release()

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(HOME):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line'):
            self.steps += 1
            if self.steps > self.limit and not self.free:
                self.at.release()
                self.go.acquire()
        return self.local

    def run(self, n):
        """let it take n more steps (None: all); -> False if it does not get on (waits for the other thread)"""
        if self.done:
            return True
        if n is None:
            self.free = True
        else:
            self.limit = self.steps + n
        self.go.release()
        last, still = -1, 0
        while not self.at.acquire(timeout=.004):
            still = still + 1 if self.steps == last else 0
            last = self.steps
            if still >= 2:
                self.free = True
                return False
        return True


def schedule(fns, plan, opcodes=False, timeout=20):
    """plan: [[thread, steps], ..]; then each runs to its end.  -> outputs ('Hang' if a thread does not end)"""
    rs = [Runner(f, opcodes) for f in fns]
    for t, n in plan:
        if not rs[t].free:
            rs[t].run(n)
    for r in rs:
        if not r.free:
            r.run(None)
    for r in rs:
        r.t.join(timeout)
    return [r.out if r.done else 'Hang' for r in rs], [r.steps for r in rs]
