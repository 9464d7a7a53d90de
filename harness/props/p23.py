"""P23: what the convenience attributes of parsed structures say."""
import copy, hashlib, json, os, zlib
from rec import attempt, bl
from asn1crypto import core, x509, crl, ocsp, cms, pkcs12
import gen

PATH = {'x509_Certificate': ['tbs_certificate', 'extensions'], 'crl_CertificateList': ['tbs_cert_list', 'crl_extensions'], 'crl_RevokedCertificate': ['crl_entry_extensions'],
        'ocsp_Request': ['single_request_extensions'], 'ocsp_OCSPRequest': ['tbs_request', 'request_extensions'], 'ocsp_SingleResponse': ['single_extensions'],
        'ocsp_OCSPResponse': ['response_bytes', 'response', 'tbs_response_data', 'response_extensions']}
EXT = {'x509_Certificate': 'x509_Extension', 'crl_CertificateList': 'crl_TBSCertListExtension', 'crl_RevokedCertificate': 'crl_CRLEntryExtension', 'ocsp_Request': 'ocsp_RequestExtension',
       'ocsp_OCSPRequest': 'ocsp_TBSRequestExtension', 'ocsp_SingleResponse': 'ocsp_SingleResponseExtension', 'ocsp_OCSPResponse': 'ocsp_ResponseDataExtension'}
TOLD = {'x509_Certificate': '''private_key_usage_period subject_directory_attributes key_identifier key_usage subject_alt_name issuer_alt_name basic_constraints name_constraints
                               crl_distribution_points certificate_policies policy_mappings authority_key_identifier policy_constraints freshest_crl inhibit_any_policy
                               extended_key_usage authority_information_access subject_information_access tls_feature ocsp_no_check''',
        'crl_CertificateList': 'issuer_alt_name crl_number delta_crl_indicator issuing_distribution_point authority_key_identifier freshest_crl authority_information_access',
        'crl_RevokedCertificate': 'crl_reason invalidity_date certificate_issuer', 'ocsp_Request': 'service_locator',
        'ocsp_OCSPRequest': 'nonce acceptable_responses preferred_signature_algorithms',
        'ocsp_SingleResponse': 'crl archive_cutoff crl_reason invalidity_date certificate_issuer', 'ocsp_OCSPResponse': 'nonce extended_revoke'}
MORE = {'x509_Certificate': '''serial_number signature public_key subject issuer not_valid_before not_valid_after key_identifier authority_key_identifier issuer_serial
                               authority_issuer_serial ca max_path_length self_issued self_signed ocsp_urls crl_distribution_points delta_crl_distribution_points
                               sha1 sha256 sha1_fingerprint sha256_fingerprint''',
        'crl_CertificateList': 'issuer signature authority_key_identifier issuer_cert_urls delta_crl_distribution_points sha1 sha256',
        'crl_RevokedCertificate': 'issuer_name', 'ocsp_OCSPResponse': 'basic_ocsp_response response_data', 'x509_DistributionPoint': 'url', 'crl_CRLReason': 'human_friendly',
        'pkcs12_Pfx': 'authenticated_safe'}


def attrs(tn):
    l = MORE.get(tn, '').split()
    if tn in TOLD:
        l += ['critical_extensions'] + [n + '_value' for n in TOLD[tn].split()]
    return l


# ---------------------------------------------------------------- what an attribute came to
def plain_der(o):
    # a name found in a general name has the tag of that
    return (o.untag() if isinstance(o, core.Asn1Value) and o.explicit else o).dump()


def shown(a, o):
    if o is None:
        return {'k': 'none'}
    if isinstance(o, core.Asn1Value):
        k, b = attempt(lambda: bl(plain_der(o)))
        return {'k': 'obj', 'der': b} if k == 'ok' else {'k': 'err', 'e': b}
    if isinstance(o, set):
        return {'k': 'names', 'l': sorted(map(str, o))}
    if isinstance(o, list):
        if o and isinstance(o[0], str):
            return {'k': 'texts', 'l': [[ord(c) for c in x] if isinstance(x, str) else [0] for x in o]}
        k, l = attempt(lambda: [bl(plain_der(x)) for x in o])
        return {'k': 'objs', 'l': l} if k == 'ok' else {'k': 'err', 'e': l}
    x = ''
    if isinstance(o, bytes):
        x = o[:32].hex() + o[32:].decode('latin1') if a.endswith('_serial') else o.hex()
    elif isinstance(o, str):
        x = o
    return {'k': 'nat', 'v': gen.nat(o), 'x': x}


def read(o, a):
    k, v = attempt(lambda: getattr(o, a))
    return shown(a, v) if k == 'ok' else {'k': 'err', 'e': v}


def reads(o, tn, rng, there=()):
    names = attrs(tn)
    got = {a: [] for a in names}
    order = rng.sample(names, len(names))
    there = [a for a in there if a in got]
    if there and rng.random() < .7:
        order.insert(0, rng.choice(there))      # before anything else is known of the extensions
    if rng.random() < .5:
        order += rng.sample(names, len(names))
    elif len(names) > 4:
        order += [rng.choice(names) for _ in range(4)]
    for a in order:
        x = read(o, a)
        if x not in got[a]:
            got[a].append(x)
    return got


def digest(b):
    h1, h256 = hashlib.sha1(b).hexdigest(), hashlib.sha256(b).hexdigest()
    fp = lambda h: ' '.join(h[i:i + 2].upper() for i in range(0, len(h), 2))
    return {'of': bl(b), 'h1': h1, 'h256': h256, 'f1': fp(h1), 'f256': fp(h256)}


def digests(tn, v, der, rng):
    out = []
    if tn in ('x509_Certificate', 'crl_CertificateList'):
        out.append(digest(der))
    if tn == 'x509_Certificate':
        ns = [gen.mget(gen.mget(v, 'tbs_certificate'), 'issuer')]
        for e in ext_list(tn, v):
            if gen.mget(e, 'extn_id').get('s') == 'authority_key_identifier':
                ns += [g['v'] for g in gen.mget(gen.mget(e, 'extn_value'), 'authority_cert_issuer').get('l', []) if g['n'] == 'directory_name']
        seen = []
        for n in ns:
            if n not in seen:
                seen.append(n)
                out.append(digest(gen.obj('x509_Name', n, rng).dump()))
    return out


def observe(r, label, tn, v):
    rng = r.rng
    k, der = attempt(lambda: gen.obj(tn, v, rng).dump())
    if k == 'err':
        r.ev('crash', e='%s not made: %s' % (tn, der), at=[])
        return None
    o = gen.cls_of(tn).load(der)
    if rng.random() < .2:
        o.native
    elif rng.random() < .1:
        o = o.copy()
    got = reads(o, tn, rng, [gen.mget(e, 'extn_id').get('s', '') + '_value' for e in ext_list(tn, v)] if tn in PATH else [])
    r.ev('read', label, t=tn, v=v, der=bl(der), got=got, dump=bl(o.dump()), sha=digests(tn, v, der, rng))
    return der


# ---------------------------------------------------------------- values
def walk(v, path):
    for n in path:
        v = gen.mget(v, n)
        if v['k'] != 'map':
            return v
    return v


def ext_list(tn, v):
    return walk(v, PATH[tn]).get('l', [])


def put(v, path, x):
    """set the member at the path, which is the last of its structure when it is not there"""
    for n in path[:-1]:
        v = gen.mget(v, n)
    for p in v['f']:
        if p['n'] == path[-1]:
            p['v'] = x
            return
    v['f'].append({'n': path[-1], 'v': x})


def string(s):
    return {'k': 'str', 'c': [ord(c) for c in s], 's': s}


URLS = ['http://a.b/c', 'HTTP://a.b/', 'https://a.b/', 'hTTps://b.c/x.crl', 'ldap://d.e/cn=x', 'LDAPS://d.e/', 'ftp://a.b/', 'httpx://a.b/', 'http:/a', 'urn:a:b', 'file:///http://']
NAMES = [[['common_name', 'a b']], [['common_name', 'A  B']], [['common_name', ' a b ']], [['common_name', 'ab']], [['organization_name', 'a b']], [['country_name', 'DE'], ['common_name', 'x']], [],
         [['common_name', 'a b'], ['common_name', 'a b']], [['country_name', 'de'], ['common_name', 'X']]]


def name(rng, n=None):
    n = rng.choice(NAMES) if n is None else n
    alts = ['utf8_string', 'printable_string', 'bmp_string']
    ch = lambda s: {'k': 'ch', 'n': rng.choice(alts), 'v': string(s)}
    return {'k': 'ch', 'n': '', 'v': {'k': 'list', 'l': [{'k': 'list', 'l': [{'k': 'map', 'f': [{'n': 'type', 'v': {'k': 'name', 's': t}}, {'n': 'value', 'v': ch(s)}]}]} for t, s in n]}}


class Make:
    def __init__(self, rng):
        self.rng = rng
        self.g = gen.Gen(rng, maxdepth=4, unknown=0, opt=.4, maxlen=2)

    def general(self):
        rng = self.rng
        q = rng.random()
        if q < .5:
            return {'k': 'ch', 'n': 'uniform_resource_identifier', 'v': string(rng.choice(URLS))}
        if q < .75:
            return {'k': 'ch', 'n': 'directory_name', 'v': name(rng)}
        return self.g.value('x509_GeneralName', 2, force=rng.choice(['rfc822_name', 'dns_name', 'ip_address', 'registered_id', 'other_name']))

    def generals(self, least=0):
        return {'k': 'list', 'l': [self.general() for _ in range(self.rng.choice([least, 1, 1, 2, 3]))]}

    def point(self):
        rng = self.rng
        f = []
        q = rng.random()
        if q < .7:
            f.append({'n': 'distribution_point', 'v': {'k': 'ch', 'n': 'full_name', 'v': self.generals()}})
        elif q < .85:
            f.append({'n': 'distribution_point', 'v': {'k': 'ch', 'n': 'name_relative_to_crl_issuer', 'v': name(rng, [['common_name', 'r']])['v']['l'][0]}})
        if rng.random() < .3:
            f.append({'n': 'reasons', 'v': self.g.value('x509_ReasonFlags')})
        if rng.random() < .3:
            f.append({'n': 'crl_issuer', 'v': self.generals(1)})
        return {'k': 'map', 'f': f}

    def extension_value(self, et, n):
        rng, g = self.rng, self.g
        m = lambda *a: {'k': 'map', 'f': [{'n': x, 'v': y} for x, y in a]}
        if n in ('crl_distribution_points', 'freshest_crl'):
            return {'k': 'list', 'l': [self.point() for _ in range(rng.choice([0, 1, 1, 2, 3]))]}
        if n in ('authority_information_access', 'subject_information_access'):
            return {'k': 'list', 'l': [m(('access_method', {'k': 'name', 's': rng.choice(['ocsp', 'ocsp', 'ca_issuers', 'ca_issuers', 'time_stamping'])}), ('access_location', self.general())) for _ in range(rng.choice([0, 1, 2, 3, 4, 5]))]}
        if n == 'key_identifier':
            return {'k': 'oct', 'o': rng.choice([[1, 2], [1, 3], [], [0]])}
        if n == 'authority_key_identifier':
            f = []
            if rng.random() < .7:
                f.append(('key_identifier', {'k': 'oct', 'o': rng.choice([[1, 2], [1, 3], [], [0]])}))
            if rng.random() < .5:
                f.append(('authority_cert_issuer', self.generals()))
            if rng.random() < .5:
                f.append(('authority_cert_serial_number', gen.vint(rng.choice([0, 1, -1, 255, 1 << 64, rng.getrandbits(150)]))))
            return m(*f)
        if n == 'basic_constraints':
            f = []
            if rng.random() < .6:
                f.append(('ca', {'k': 'bool', 'b': True}))
            if rng.random() < .6:
                f.append(('path_len_constraint', gen.vint(rng.choice([0, 0, 1, 3, 255]))))
            return m(*f)
        if n == 'certificate_issuer' and rng.random() < .8:
            return self.generals()
        tab = dict(gen.SCHEMA[et]['g']['tab'])
        return g.value(tab[n], 2)

    def extension(self, et, n, critical):
        rng = self.rng
        f = []
        if n == 'other':
            f.append({'n': 'extn_id', 'v': {'k': 'oid', 'a': [[1], [2], [int(c) for c in str(rng.randrange(1, 999))], [7]]}})
        else:
            f.append({'n': 'extn_id', 'v': {'k': 'name', 's': n}})
        if critical != 'absent':
            f.append({'n': 'critical', 'v': {'k': 'bool', 'b': critical == 'yes'}})
        if n == 'other':
            x = {'k': 'oct', 'o': rng.choice([[4, 1, 0], [48, 0], [5, 0], [2, 1, 7]])}
        else:
            x = self.extension_value(et, n)
        f.append({'n': 'extn_value', 'v': x})
        return {'k': 'map', 'f': f}

    def body(self, tn):
        """a value without the extensions"""
        g, rng = self.g, self.rng
        if tn == 'x509_Certificate':
            v = g.value(tn, 1)
            t = gen.mget(v, 'tbs_certificate')
            v['f'][0]['v'] = {'k': 'map', 'f': [p for p in t['f'] if p['n'] != 'extensions']}
            n = rng.choice(NAMES)
            put(v, ['tbs_certificate', 'issuer'], name(rng, n))
            put(v, ['tbs_certificate', 'subject'], name(rng, n if rng.random() < .5 else None))
            put(v, ['tbs_certificate', 'serial_number'], gen.vint(rng.choice([0, 1, -1, 127, 128, 1 << 63, rng.getrandbits(159)])))
            put(v, ['tbs_certificate', 'subject_public_key_info'], self.key())
        elif tn == 'crl_CertificateList':
            v = g.value(tn, 1)
            t = gen.mget(v, 'tbs_cert_list')
            v['f'][0]['v'] = {'k': 'map', 'f': [p for p in t['f'] if p['n'] not in ('crl_extensions', 'revoked_certificates')]}
        elif tn == 'ocsp_OCSPRequest':
            v = g.value(tn, 2)
            t = gen.mget(v, 'tbs_request')
            v['f'][0]['v'] = {'k': 'map', 'f': [p for p in t['f'] if p['n'] != 'request_extensions']}
            v['f'] = v['f'][:1]
        elif tn == 'ocsp_OCSPResponse':
            b = g.value('ocsp_BasicOCSPResponse', 2)
            t = gen.mget(b, 'tbs_response_data')
            b['f'][0]['v'] = {'k': 'map', 'f': [p for p in t['f'] if p['n'] != 'response_extensions']}
            b['f'] = [p for p in b['f'] if p['n'] != 'certs']
            v = {'k': 'map', 'f': [{'n': 'response_status', 'v': {'k': 'name', 's': 'successful'}},
                                   {'n': 'response_bytes', 'v': {'k': 'map', 'f': [{'n': 'response_type', 'v': {'k': 'name', 's': 'basic_ocsp_response'}}, {'n': 'response', 'v': b}]}}]}
        else:
            v = g.value(tn, 1, force=['next_update'] if tn == 'ocsp_SingleResponse' and rng.random() < .5 else [])
        return v

    def key(self):
        m = lambda *a: {'k': 'map', 'f': [{'n': x, 'v': y} for x, y in a]}
        return m(('algorithm', m(('algorithm', {'k': 'name', 's': 'rsa'}), ('parameters', {'k': 'null'}))), ('public_key', m(('modulus', gen.vint(self.rng.getrandbits(64) | 1)), ('public_exponent', gen.vint(3)))))

    def container(self, tn, exts):
        v = self.body(tn)
        if exts is not None:
            put(v, PATH[tn], {'k': 'list', 'l': [self.extension(EXT[tn], n, c) for n, c in exts]})
        return v


def some(tn, rng):
    """which extensions, which critical"""
    if rng.random() < .05:
        return rng.choice([None, []])
    known = [a for a, _ in gen.SCHEMA[EXT[tn]]['g']['tab']]
    n = min(len(known), rng.choice([1, 2, 3, 4, 6, 9]))
    l = rng.sample(known, n)
    if tn == 'x509_Certificate' and rng.random() < .7:
        l = list(dict.fromkeys(l + rng.sample(['key_identifier', 'authority_key_identifier', 'basic_constraints', 'crl_distribution_points', 'authority_information_access', 'freshest_crl'], 4)))
    if rng.random() < .3:
        l.append('other')
    rng.shuffle(l)
    return [(x, rng.choice(['yes', 'no', 'absent', 'absent'])) for x in l]


def damaged(r, tn, der):
    """the same with an octet changed: an attribute comes to the same each time, a value or ValueError"""
    rng = r.rng
    b = bytearray(der)
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randrange(len(b) // 3, len(b)) if rng.random() < .8 else rng.randrange(len(b))
        b[i] = rng.choice([b[i] ^ (1 << rng.randrange(8)), rng.randrange(256), 0xff, 0x80, 0])
    k, o = attempt(lambda: gen.cls_of(tn).load(bytes(b)))
    if k == 'err':
        return
    if 0x80 in b:
        return      # a dump of an indefinite form may change what is read (P01)
    names = attrs(tn)
    got = {a: [] for a in names}
    for a in rng.sample(names, len(names)) + rng.sample(names, len(names)):
        x = read(o, a)
        if x not in got[a]:
            got[a].append(x)
    r.ev('broken', 'attributes of damaged encodings', t=tn, b=bl(b), got=got)


def pfx(r, mk):
    rng, g = r.rng, mk.g
    m = lambda *a: {'k': 'map', 'f': [{'n': x, 'v': y} for x, y in a]}
    for _ in range(r.scale(4, 60)):
        safe = g.value('pkcs12_AuthenticatedSafe', 3)
        inner = {'k': 'oct', 'o': bl(gen.obj('pkcs12_AuthenticatedSafe', safe, rng).dump())}
        if rng.random() < .5:
            c = m(('content_type', {'k': 'name', 's': 'data'}), ('content', inner))
        else:
            s = g.value('cms_SignedData', 3, force=[])
            put(s, ['version'], {'k': 'name', 's': rng.choice(['v1', 'v1', 'v3'])})
            put(s, ['encap_content_info'], m(('content_type', {'k': 'name', 's': 'data'}), ('content', inner)))
            c = m(('content_type', {'k': 'name', 's': 'signed_data'}), ('content', s))
        v = m(('version', {'k': 'name', 's': 'v3'}), ('auth_safe', c))
        observe(r, 'contents of PKCS #12 files', 'pkcs12_Pfx', v)
    v = m(('version', {'k': 'name', 's': 'v3'}), ('auth_safe', m(('content_type', {'k': 'name', 's': 'data'}))))
    observe(r, 'contents of PKCS #12 files', 'pkcs12_Pfx', v)


def compressed(r):
    rng = r.rng
    for _ in range(r.scale(3, 12)):
        o = gen.rbytes(rng)
        d = cms.CompressedData({'version': 'v0', 'compression_algorithm': {'algorithm': 'zlib'}, 'encap_content_info': {'content_type': 'data', 'content': zlib.compress(o)}})
        if rng.random() < .5:
            d = cms.CompressedData.load(d.dump())
        r.ev('plain', 'compressed contents', o=bl(o), got=[read(d, 'decompressed'), read(d, 'decompressed')])
        z = zlib.compress(o * 3 + b'x' * 40)
        z = z[:rng.randrange(len(z))] if rng.random() < .5 else z[:-1] + bytes([z[-1] ^ 1])
        d = cms.CompressedData({'version': 'v0', 'compression_algorithm': {'algorithm': 'zlib'}, 'encap_content_info': {'content_type': 'data', 'content': z}})
        r.ev('cut', 'compressed contents', z=bl(z), got=[read(d, 'decompressed')['k'], read(d, 'decompressed')['k']])


def record(r):
    gen.load_schema()
    gen.RAW_URI = True
    rng = r.rng
    mk = Make(rng)
    given = json.load(open(os.path.join(os.environ['VERIF_WORK'], 'access.json')))
    for i, v in enumerate(given['certs']):
        if i % r.parts == r.part:
            observe(r, 'related names and identifiers', 'x509_Certificate', v)
    for i, s in enumerate(given['shapes']):
        if i % r.parts == r.part and rng.random() < r.scale(.05 if len(s['l']) > 1 else .5, .4 if len(s['l']) > 1 else 1):
            observe(r, 'presence of extensions', s['t'], mk.container(s['t'], [(x['n'], x['c']) for x in s['l']]))
    for tn in EXT:
        for _ in range(r.scale(16 if tn == 'x509_Certificate' else 6, 200 if tn == 'x509_Certificate' else 60)):
            der = observe(r, 'many extensions', tn, mk.container(tn, some(tn, rng)))
            for _ in range(r.scale(2, 6)):
                if der:
                    damaged(r, tn, der)
    for s in [x[1] for x in gen.SCHEMA['ocsp_OCSPResponseStatus']['m']]:
        observe(r, 'responses without a body', 'ocsp_OCSPResponse', {'k': 'map', 'f': [{'n': 'response_status', 'v': {'k': 'name', 's': s}}]})
    for _ in range(r.scale(1, 10)):
        observe(r, 'responses of another type', 'ocsp_OCSPResponse', {'k': 'map', 'f': [{'n': 'response_status', 'v': {'k': 'name', 's': 'successful'}},
                {'n': 'response_bytes', 'v': {'k': 'map', 'f': [{'n': 'response_type', 'v': {'k': 'oid', 'a': [[1], [2], [rng.randrange(1, 9)]]}}, {'n': 'response', 'v': {'k': 'oct', 'o': rng.choice([[48, 0], [4, 1, 1], [5, 0]])}}]}}]})
    for s in [x[1] for x in gen.SCHEMA['crl_CRLReason']['m']]:
        observe(r, 'reasons in words', 'crl_CRLReason', {'k': 'name', 's': s})
    for _ in range(r.scale(15, 200)):
        der = observe(r, 'distribution points', 'x509_DistributionPoint', mk.point())
        if der:
            damaged(r, 'x509_DistributionPoint', der)
    pfx(r, mk)
    compressed(r)
