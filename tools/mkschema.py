#!/usr/bin/env python3
"""Bootstrap of spec/Schema.tla (run by hand, output reviewed against the RFCs and committed; no check runs this)."""
import sys
sys.path.insert(0, '/repo')
sys.dont_write_bytecode = True
import importlib
from asn1crypto import core
MODS = ['algos', 'cms', 'crl', 'csr', 'keys', 'ocsp', 'pdf', 'pkcs12', 'tsp', 'x509']
todo, done, names = [], {}, {}
SPECIAL = {'x509.DNSName': 'dns', 'x509.URI': 'uri', 'x509.EmailAddress': 'email', 'x509.IPAddress': 'ip', 'x509.NotReallyTeletexString': 'nrteletex'}
CORE = {'Boolean': 'bool', 'Integer': 'int', 'BitString': 'bits', 'OctetString': 'octets', 'Null': 'null', 'ObjectIdentifier': 'oid', 'Enumerated': 'enum',
        'UTF8String': 'utf8', 'NumericString': 'numeric', 'PrintableString': 'printable', 'TeletexString': 'teletex', 'VideotexString': 'videotex', 'IA5String': 'ia5',
        'UTCTime': 'utc', 'GeneralizedTime': 'gen', 'GraphicString': 'graphic', 'VisibleString': 'visible', 'GeneralString': 'general', 'UniversalString': 'universal',
        'CharacterString': 'character', 'BMPString': 'bmp', 'ParsableOctetString': 'pocts', 'ParsableOctetBitString': 'pbits', 'OctetBitString': 'obits',
        'IntegerBitString': 'ibits', 'IntegerOctetString': 'iocts', 'Any': 'any', 'Sequence': 'seq', 'Set': 'set', 'SequenceOf': 'seqof', 'SetOf': 'setof', 'Choice': 'choice',
        'ObjectDescriptor': 'objdesc', 'External': 'seq', 'Real': 'real', 'EmbeddedPdv': 'seq', 'Void': 'void'}


def nm(cls):
    if cls is None:
        return CBT[0]
    if cls not in names:
        names[cls] = cls.__module__.split('.')[-1] + '_' + cls.__name__
        todo.append(cls)
    return names[cls]


def q(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


def oid(s):
    return '<<' + ','.join(s.split('.')) + '>>'


def kind(cls):
    for b in cls.__mro__:
        k = b.__module__.split('.')[-1] + '.' + b.__name__
        if k in SPECIAL:
            return SPECIAL[k]
        if b.__module__ == 'asn1crypto.core' and b.__name__ in CORE:
            return CORE[b.__name__]
    raise Exception(cls)


def ast(v):
    c = type(v)
    if isinstance(v, bool):
        return 'VBool(%s)' % str(v).upper()
    if isinstance(v, int):
        return 'VNat(%d)' % v
    if isinstance(v, str):
        return 'VName(%s)' % q(v)
    if isinstance(v, bytes):
        return 'VOct(<<%s>>)' % ','.join(map(str, v))
    if isinstance(v, set):
        return 'VBits({%s})' % ','.join(q(x) for x in sorted(v))
    if isinstance(v, dict):
        return 'VMap(<<%s>>)' % ', '.join('P(%s, %s)' % (q(k), ast(x)) for k, x in v.items())
    raise Exception(repr(v))


def field(owner, f):
    name, spec = f[0], f[1]
    p = dict(f[2]) if len(f) > 2 else {}
    if 'spec' in p:
        inner = p.pop('spec')
        sub = names_owner(owner) + '_' + name
        extra.append((sub, '%s(%s)' % ('SeqOfT' if issubclass(spec, core.SequenceOf) else 'SetOfT', q(nm(inner)))))
        t = sub
    else:
        t = nm(spec)
    s = 'F(%s, %s)' % (q(name), q(t))
    if 'implicit' in p:
        s = 'Im(%d, %s)' % (p.pop('implicit'), s)
    if 'explicit' in p:
        s = 'Ex(%d, %s)' % (p.pop('explicit'), s)
    if 'default' in p:
        s = 'Def(%s, %s)' % (ast(p.pop('default')), s)
        p.pop('optional', None)
    if p.pop('optional', False):
        s = 'Opt(%s)' % s
    assert not p, p
    return s


def names_owner(cls):
    return names[cls]


extra = []
CBT = ['?']
CB = {'algos.DigestAlgorithm': 'null_algos'}


def table(d):
    return '<<%s>>' % ', '.join('<<%s, %s>>' % (q(str(k)), q(nm(v))) for k, v in d.items())


def desc(cls):
    k = kind(cls)
    if k in ('seq', 'set'):
        try:
            inst = cls()
        except Exception as e:
            print('init', cls, e, file=sys.stderr)
        CBT[0] = {'cms.SignedData': 'cms_EncapsulatedContentInfo', 'cms.DigestedData': 'cms_EncapsulatedContentInfo', 'x509.SubjectDirectoryAttribute': 'core_SetOf'}.get(cls.__module__.split('.')[-1] + '.' + cls.__name__, 'cms_SetOfAny')
        fs = '<<' + ',\n        '.join(field(cls, f) for f in cls._fields) + '>>'
        s = '%s(%s)' % ('SeqT' if k == 'seq' else 'SetT', fs)
        if cls._oid_pair:
            s = 'Gov(<<%s>>, %s, %s,\n      %s)' % (q(cls._oid_pair[0]), q(cls._oid_pair[1]), table(cls._oid_specs or {}), s)
        elif cls._oid_specs:
            cbf = list(cls._spec_callbacks)[0]
            s = 'Gov(<<"type">>, %s, %s,\n      %s)' % (q(cbf), table(cls._oid_specs), s)
        if cls._spec_callbacks:
            for fld, fn in cls._spec_callbacks.items():
                n = fn.__name__
                if n == '_parameters_spec':
                    s = ('NullParams(%s)' if cls._oid_pair else 'NullParamsOnly(%s)') % s
                elif n == '_encap_content_info_spec':
                    s = 'Gov(<<"version">>, "encap_content_info", <<<<"v1", "cms_ContentInfo">>>>, %s)' % s
                elif n == '_private_key_spec':
                    s = 'Gov(<<"private_key_algorithm", "algorithm">>, "private_key", <<<<"rsa", "keys_RSAPrivateKey">>, <<"rsassa_pss", "keys_RSAPrivateKey">>, <<"dsa", "core_Integer">>,\n      <<"ec", "keys_ECPrivateKey">>, <<"x25519", "core_OctetString">>, <<"x448", "core_OctetString">>, <<"ed25519", "core_OctetString">>, <<"ed448", "core_OctetString">>>>, %s)' % s
                elif n == '_public_key_spec':
                    s = 'Gov(<<"algorithm", "algorithm">>, "public_key", <<<<"rsa", "keys_RSAPublicKey">>, <<"rsaes_oaep", "keys_RSAPublicKey">>, <<"rsassa_pss", "keys_RSAPublicKey">>,\n      <<"dsa", "core_Integer">>, <<"dh", "core_Integer">>, <<"ec", "keys_ECPointBitString">>, <<"x25519", "core_OctetBitString">>, <<"x448", "core_OctetBitString">>,\n      <<"ed25519", "core_OctetBitString">>, <<"ed448", "core_OctetBitString">>>>, %s)' % s
    elif k in ('seqof', 'setof'):
        s = '%s(%s)' % ('SeqOfT' if k == 'seqof' else 'SetOfT', q(nm(cls._child_spec) if cls._child_spec else 'core_Any'))
    elif k == 'choice':
        try:
            inst = cls.__new__(cls)
            inst._setup()
        except Exception as e:
            print('setup', cls, e, file=sys.stderr)
        s = 'ChoiceT(<<%s>>)' % ',\n        '.join(field(cls, f) for f in cls._alternatives)
    elif k in ('int', 'enum', 'bits') and getattr(cls, '_map', None):
        s = '%s(<<%s>>)' % ({'int': 'IntMapT', 'enum': 'EnumT', 'bits': 'BitMapT'}[k], ', '.join('<<%d, %s>>' % (a, q(b)) for a, b in cls._map.items()))
    elif k == 'oid' and getattr(cls, '_map', None) is not None:
        o = cls()
        o._setup() if hasattr(o, '_setup') else None
        s = 'OidT(<<%s>>)' % ',\n        '.join('<<%s, %s>>' % (oid(a), q(b)) for a, b in cls._map.items())
        amb = {}
        for a, b in cls._map.items():
            amb.setdefault(b, []).append(a)
        rm = cls.__dict__.get('_reverse_map')
        for b, l in amb.items():
            if len(l) > 1:
                print('AMBIG', cls.__name__, b, l, (rm or {}).get(b), file=sys.stderr)
    elif cls.__name__ in ('StatusGood', 'StatusUnknown'):
        s = 'NullNameT(%s)' % q(cls.__name__[6:].lower())
    else:
        s = 'PrimT("%s")' % k
    if cls.__module__ != 'asn1crypto.core':
        for b in cls.__mro__:
            if b.__module__ != 'asn1crypto.core' and ('class_' in b.__dict__ or 'tag' in b.__dict__):
                s = 'Tagged(%d, %d, %s)' % (cls.class_, cls.tag, s)
                break
    return s


def main():
    for m in MODS:
        M = importlib.import_module('asn1crypto.' + m)
        for k, v in vars(M).items():
            if isinstance(v, type) and issubclass(v, core.Asn1Value) and v.__module__ == M.__name__ and not k.startswith('_Force'):
                nm(v)
    for k in CORE:
        if k not in ('Choice', 'Void', 'ObjectDescriptor', 'Real', 'External', 'EmbeddedPdv'):
            nm(getattr(core, k))
    out = {}
    while todo:
        c = todo.pop(0)
        d = desc(c)
        out[names[c]] = d
    for n, d in extra:
        out[n] = d
    for m in ['core'] + MODS:
        print('S_%s == [' % m)
        print(',\n'.join('  %s |->\n      %s' % (n, out[n]) for n in out if n.split('_')[0] == m))
        print(']\n')


main()
