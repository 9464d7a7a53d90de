"""P21: the hosts a certificate is valid for."""
import json, os
from rec import attempt
from asn1crypto import x509, core, keys, algos
from datetime import datetime, timezone

KEY = keys.PublicKeyInfo({'algorithm': {'algorithm': 'rsa'}, 'public_key': keys.RSAPublicKey({'modulus': 2 ** 512 + 1, 'public_exponent': 65537})})
cp = lambda s: [ord(c) for c in s]


def rdns(rng, cns):
    """subject: the common names in order, among other attributes"""
    attrs = [('common_name', c) for c in cns]
    for _ in range(rng.choice([0, 0, 1, 3])):
        attrs.insert(rng.randrange(len(attrs) + 1), (rng.choice(['organization_name', 'organizational_unit_name', 'dn_qualifier', 'locality_name']), rng.choice(['other.example.com', 'x', '*.b.com', 'b.com'])))
    out = []
    for t, v in attrs:
        kinds = ['utf8_string', 'bmp_string', 'universal_string']
        if all(ord(c) < 128 and (c.isalnum() or c in ' .-+()\':=?/') for c in v):
            kinds.append('printable_string')
        ntv = x509.NameTypeAndValue({'type': t, 'value': core.PrintableString(v) if t == 'dn_qualifier' else x509.DirectoryString(name=rng.choice(kinds), value=v)})
        # as a SET OF has its members in another order, two common names do not share one
        if out and rng.random() < .3 and t not in [a['type'].native for a in out[-1]]:
            out[-1].append(ntv)
        else:
            out.append([ntv])
    return x509.Name(name='', value=x509.RDNSequence([x509.RelativeDistinguishedName(x) for x in out]))


def raw(cls, o):
    v = cls()
    v.contents = bytes(o)
    if isinstance(v, core.OctetString):
        v._bytes = v.contents
    return v


def general(g, rng):
    if g['k'] == 'dns':
        return x509.GeneralName(name='dns_name', value=x509.DNSName.load(b'\x16' + core.OctetString(bytes(g['o'])).dump()[1:]))
    if g['k'] == 'ip':
        return x509.GeneralName(name='ip_address', value=x509.IPAddress.load(core.OctetString(bytes(g['o'])).dump()))
    t = ''.join(map(chr, g['o']))
    q = rng.randrange(5)
    if q == 0:
        return x509.GeneralName(name='rfc822_name', value='a@b.com')
    if q == 1:
        return x509.GeneralName(name='uniform_resource_identifier', value='http://b.com/')
    if q == 2:
        return x509.GeneralName(name='directory_name', value=x509.Name.build({'common_name': 'b.com'}))
    if q == 3:
        return x509.GeneralName(name='registered_id', value='1.2.3.4')
    return x509.GeneralName(name='other_name', value=x509.AnotherName({'type_id': '1.2.3', 'value': core.UTF8String('b.com')}))


def certificate(rng, san, cns):
    exts = []
    for _ in range(rng.choice([0, 1])):
        exts.append({'extn_id': 'issuer_alt_name', 'critical': False, 'extn_value': x509.GeneralNames([x509.GeneralName(name='dns_name', value='b.com'), x509.GeneralName(name='ip_address', value='1.2.3.4')])})
    if rng.random() < .3:
        exts.append({'extn_id': 'key_usage', 'critical': True, 'extn_value': {'digital_signature'}})
    if san:
        exts.insert(rng.randrange(len(exts) + 1), {'extn_id': 'subject_alt_name', 'critical': rng.random() < .5, 'extn_value': x509.GeneralNames([general(g, rng) for g in san])})
    t = {'version': 'v3', 'serial_number': rng.randrange(1, 9999), 'signature': {'algorithm': 'sha256_rsa'}, 'issuer': x509.Name.build({'common_name': 'ca.b.com'}),
         'validity': {'not_before': x509.Time(name='utc_time', value=datetime(2020, 1, 1, tzinfo=timezone.utc)), 'not_after': x509.Time(name='utc_time', value=datetime(2030, 1, 1, tzinfo=timezone.utc))},
         'subject': rdns(rng, cns), 'subject_public_key_info': KEY}
    if exts:
        t['extensions'] = exts
    c = x509.Certificate({'tbs_certificate': t, 'signature_algorithm': {'algorithm': 'sha256_rsa'}, 'signature_value': b'\x00' * 8})
    return x509.Certificate.load(c.dump()) if rng.random() < .8 else c


def observe(r, label, san, cns, hosts, c=None):
    c = c or certificate(r.rng, san, cns)
    first = r.rng.random() < .5
    read = lambda: ([cp(d) for d in c.valid_domains], list(c.valid_ips))
    before = read() if first else None
    out = []
    for h in hosts:
        k, v = attempt(lambda: c.is_valid_domain_ip(h))
        out.append({'t': cp(h), 'out': {True: 'T', False: 'F'}.get(v, repr(v)) if k == 'ok' else v})
    after = read()
    before = before or after
    r.ev('cert', label, san=san, cns=[cp(x) for x in cns], dom=before[0], ips=before[1], hosts=out, dom2=after[0], ips2=after[1])


LABELS = ['a', 'b', 'www', 'example', 'com', 'org', 'co', 'A', 'Www', 'EXAMPLE', 'a-b', '1', 'x1', 'mail', 'a' * 63, '-', 'xn--4ca', 'xn--e1afmkfd', 'a_b', '127', '0']
IDN = ['\xe9', 'b\xfccher', '\u4e2d\u6587', '\u043a\u0442\u043e', '\xdf', '\u03b2\u03c2', '\uff21b', '\u212a1', 'e\u0301', '\xc9', '\uff11', 'stra\xdfe', '\u0130']
PART = ['*', '*', '*', 'f*', '*r', 'f*r', '**', 'a*', '*.', 'w+', '(a', 'a.', '[ab]', '.*', 'a?', '\\w', 'x*y*', 'xn--*', '*a', '^a', 'a|b', '', 'a*a', 'ab*ba', 'f*fr', '\xe9*', '*\xe9', 'b*\xfc', 'xn--4*', 'xn--*4ca', '\u043a*\u043e']


class Gen:
    def __init__(self, rng):
        self.rng = rng

    def label(self):
        rng = self.rng
        return rng.choice(LABELS if rng.random() < .8 else IDN)

    def domain(self):
        rng = self.rng
        q = rng.random()
        ls = [self.label() for _ in range(rng.choice([1, 2, 2, 3, 3, 4]))]
        if rng.random() < .4:
            ls = ls[:-1] + ['com']
        if q < .35:
            ls.insert(0, rng.choice(PART))
        elif q < .4:
            ls.insert(rng.randrange(len(ls) + 1), rng.choice(PART))
        elif q < .43:
            ls.append('')
        elif q < .46:
            ls.insert(0, '')
        return '.'.join(ls)

    def octets(self, d):
        """of a DNS name in a certificate"""
        rng = self.rng
        out = []
        for l in d.split('.'):
            try:
                l = l.encode('idna').decode() if l else ''
            except UnicodeError:
                l = 'x'
            out.append(l)
        o = '.'.join(out)
        try:
            o.encode('ascii').decode('idna')
        except UnicodeError:
            o = 'x.com'
        return cp(o)

    def near(self, d):
        """a host close to a domain pattern"""
        rng = self.rng
        ls = d.split('.')
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.choice([0, 0, rng.randrange(len(ls))])
            q = rng.randrange(13)
            if q == 0 and '*' in ls[0]:
                # the text before the wildcard runs into the text after it
                b, e = ls[0].split('*', 1)
                ls[0] = b + e[1:] if b and e else b + rng.choice('ab1') + e
            elif q < 5:
                ls = [l.replace('*', rng.choice(['', 'x', 'a', 'oo', '1-', 'f', '*', 'r', 'xy']), 1) for l in ls]
            elif q == 5:
                ls[i] = ls[i].swapcase()
            elif q == 6:
                ls.insert(i, rng.choice(['a', 'www', '']))
            elif q == 7 and len(ls) > 1:
                del ls[i]
            elif q == 8:
                ls[i] = self.label()
            elif q == 9:
                ls[i] += rng.choice(['x', '-', '\n', ' ', '.', '\xad', '\u200b'])
            elif q == 10:
                ls[i] = ls[i][:-1]
            elif q == 11:
                try:
                    ls[i] = ls[i].encode('ascii').decode('idna')
                except UnicodeError:
                    pass
            elif q == 12:
                try:
                    ls[i] = ls[i].encode('idna').decode('ascii')
                except UnicodeError:
                    pass
        sep = rng.choice(['.'] * 12 + ['\u3002', '\uff0e', '\uff61'])
        return sep.join(ls)

    def ip(self):
        rng = self.rng
        n = rng.choice([4, 4, 16, 16, 16, 8, 32])
        if n == 4:
            return [rng.choice([0, 1, 10, 127, 192, 255]) for _ in range(4)]
        if n == 16:
            z = rng.choice([0, 0, 2, 4, 10, 12, 15])
            o = [rng.choice([0, 0, 1, 0x20, 0xff, 254]) for _ in range(16)]
            i = rng.randrange(17 - z)
            o[i:i + z] = [0] * z
            if rng.random() < .2:
                o = [0] * 10 + rng.choice([[255, 255], [0, 0]]) + [1, 2, 3, rng.randrange(256)]
            return o
        return [10, 0, 0, 1] + [255, 255, 255, rng.choice([0, 128, 255])] if n == 8 else [32, 1] + [0] * 13 + [1] + [255] * 8 + [0] * 8

    def iptext(self, o):
        rng = self.rng
        o = o[:4] if len(o) == 8 else o[:16]
        if len(o) == 4:
            t = '.'.join(str(b) for b in o)
            q = rng.randrange(14)
            if q == 0:
                t = '.'.join('%02d' % b for b in o)
            elif q == 1:
                t += rng.choice(['\n', '.', ' ', '/32', '.1'])
            elif q == 2:
                t = t[:-1] or '1'
            elif q == 3:
                t = ''.join(chr(0xff10 + int(c)) if c.isdigit() and rng.random() < .5 else c for c in t)
            elif q == 4:
                t = '::ffff:' + t
            elif q == 5:
                t = t.replace(str(o[0]), '256', 1)
            elif q == 6:
                t = '::' + t
            return t
        gs = ['%x' % (o[i] * 256 + o[i + 1]) for i in range(0, 16, 2)]
        if rng.random() < .2:
            gs = [g.rjust(4, '0') for g in gs]
        dotted = rng.random() < .2
        if dotted:
            gs = gs[:6] + ['.'.join(map(str, o[12:]))]
        runs = [(i, j) for i in range(len(gs)) for j in range(i + 1, len(gs) + 1) if all(g.strip('0') == '' for g in gs[i:j])]
        if runs and rng.random() < .7:
            i, j = rng.choice(runs)
            t = ':'.join(gs[:i]) + '::' + ':'.join(gs[j:])
        else:
            t = ':'.join(gs)
        q = rng.randrange(12)
        if q == 0:
            t = t.upper()
        elif q == 1:
            t += rng.choice(['\n', ':', '%1', '/64', ' ', ':0', '::'])
        elif q == 2:
            t = t.replace(':', '::', 1)
        elif q == 3:
            t = '[' + t + ']'
        elif q == 4:
            t = t.replace(':0', ':00000', 1)
        elif q == 5:
            t = t.replace(':', '', 1)
        elif q == 6:
            t = ''.join(chr(0xff10 + int(c)) if c.isdigit() else c for c in t)
        return t


def record(r):
    rng = r.rng
    g = Gen(rng)
    beh = json.load(open(os.path.join(os.environ['VERIF_WORK'], 'hosts.json')))
    hosts = [''.join(map(chr, h)) for h in beh['hosts']]
    for i, p in enumerate(sorted(beh['patterns'])):
        if i % r.parts == r.part:
            observe(r, 'every pattern', [{'k': 'dns', 'o': p}], ['b.com'], hosts)
    for _ in range(r.scale(130, 3000)):
        doms = [g.domain() for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
        ips = [g.ip() for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        cns = [g.domain() for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        if rng.random() < .3:
            cns = [x for d in cns for x in (d, rng.choice([d + '\n', d.upper(), d, '*.' + d, ' ' + d, 'CN ' + d, d.replace('.', '-'), d + '.', d + '.c', d + '.co']))]
        san = []
        if rng.random() < .7:
            san = [{'k': 'dns', 'o': g.octets(d)} for d in doms] + [{'k': 'ip', 'o': o} for o in ips] + [{'k': 'other', 'o': []} for _ in range(rng.choice([0, 0, 1, 2]))]
            san += [dict(rng.choice(san)) for _ in range(rng.choice([0, 0, 1])) if san]
            rng.shuffle(san)
        known = [''.join(map(chr, x['o'])) for x in san if x['k'] == 'dns'] + cns + doms
        hs = ['']
        for _ in range(14):
            q = rng.random()
            hs.append(g.near(rng.choice(known)) if known and q < .55 else rng.choice(known) if known and q < .65 else g.near(g.domain()) if q < .75 else g.iptext(rng.choice(ips) if ips and rng.random() < .8 else g.ip()))
        if rng.random() < .5:
            hs += [g.iptext(x) for x in ips]
        hs = [h for h in hs if all(x.isascii() or all(c in g_ok for c in x) for x in [h])]
        observe(r, 'names and addresses' if san else 'common names', san, cns, hs)
    for o, k in ((cp('xn--*.com'), 'dns'), ([195, 233], 'dns'), ([1, 2, 3], 'ip'), ([1] * 8, 'ip')):
        c = certificate(rng, [{'k': k, 'o': cp('a.com') if k == 'dns' else [1, 2, 3, 4]}, {'k': k, 'o': o}], [])
        ask = [lambda: c.valid_domains if k == 'dns' else c.valid_ips, lambda: c.is_valid_domain_ip('b.com' if k == 'dns' else '1.2.3.5')]
        r.ev('unreadable', what=bytes(o).hex(), out=[x[1] if x[0] == 'err' else repr(x[1]) for x in (attempt(rng.choice(ask)) for _ in range(4))])
    c = certificate(rng, [{'k': 'dns', 'o': cp('a.com')}, {'k': 'ip', 'o': [1, 2, 3, 4]}], [])
    for x in (b'a.com', 5, None, ['a.com'], b'1.2.3.4'):
        k, v = attempt(lambda: c.is_valid_domain_ip(x))
        r.ev('nontext', what=repr(x), out=v if k == 'err' else repr(v))


# characters the model of nameprep speaks about
g_ok = set(map(chr, range(128))) | set(''.join(IDN)) | set('\u3002\uff0e\uff61\xad\u200b') | set(chr(0xff10 + i) for i in range(10)) | set('\xc9\xdc\xfc\u4e2d\u6587\u041a\u0422\u041e\u03a3\u0392\u043f\u0440\u0438\u043c\u0435\u0440\u041f\u0420\u0418\u041c\u0415') 
