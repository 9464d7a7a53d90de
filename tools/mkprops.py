#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os, re, subprocess
ROOT = '/repo/asn1crypto/'
def loc(f, pat):
    for i, l in enumerate(open(ROOT + f, encoding='utf-8'), 1):
        if re.search(pat, l):
            return 'asn1crypto/%s:%d' % (f, i)
    raise SystemExit('no anchor %s %s' % (f, pat))
P = []
def prop(id, title, statement, over, qtext, why, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, (id, statement.count('. '))
    files = []
    m = []
    for name, f, pat in mech:
        w = loc(f, pat)
        m.append({'name': name, 'where': w})
        if 'asn1crypto/' + f not in files:
            files.append('asn1crypto/' + f)
    a = {'files': files, 'mechanism': m}
    if state: a['state'] = [{'name': n, 'meaning': t} for n, t in state]
    a['observe_at'] = [observe or 'return value or exception of the public call']
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})

prop('P01', 'An untouched loaded value dumps to exactly the bytes it was loaded from',
 'For every type and every byte string its load() accepts, dump() of the loaded, unmodified object returns exactly the bytes that were accepted, at every nesting level: BER length forms, indefinite lengths, explicitly encoded defaults, unsorted sets and unrecognised members included. '
 'Reading beforehand in any order or amount (native, parsed, contents, fields, iteration, len, debug, copy, repr) never changes what dump() returns.',
 ['inputs', 'histories'], 'all types, all accepted encodings, all sequences of read-only calls before dump()',
 'Tests round-trip some dozens of fixtures; signatures depend on byte exactness for every length, BER form and read history.',
 [('Asn1Value.dump', 'core.py', r'^    def dump\(self, force=False\)'), ('Primitive.dump', 'core.py', r'^class Primitive'), ('Sequence.dump', 'core.py', r'^class Sequence\('),
  ('SequenceOf.dump', 'core.py', r'^class SequenceOf'), ('Choice.dump', 'core.py', r'^class Choice'), ('Any/ParsableOctetString.dump', 'core.py', r'^class ParsableOctetString\('), ('Concat.dump', 'core.py', r'^class Concat')],
 [('_header/_trailer/contents', 'encoded form as loaded'), ('children', 'lazily parsed members'), ('_mutated', 'edit marker')])

prop('P02', 'The TLV parser splits bytes exactly as X.690 prescribes',
 'parser.parse() and parser.peek() accept a byte string exactly when it begins with one complete, well-formed BER element (minimal high tags, definite or indefinite length, nothing following if strict), and report its class, method, tag number, header, contents and trailer such that the concatenation is precisely the bytes consumed. '
 'Every other input, truncated anywhere or nested beyond the supported depth, raises ValueError. '
 'parser.emit() produces the DER identifier and length octets that parse() inverts, for every class, method, tag number and contents length.',
 ['inputs'], 'all byte strings; all (class, method, tag, contents) tuples',
 'Tests sample a few headers; off-by-one errors sit at length-form, tag-number and truncation boundaries.',
 [('parse', 'parser.py', r'^def parse'), ('peek', 'parser.py', r'^def peek'), ('emit', 'parser.py', r'^def emit'), ('_parse', 'parser.py', r'^def _parse'), ('_dump_header', 'parser.py', r'^def _dump_header')])

prop('P03', 'Arbitrary bytes yield a value or a ValueError, never anything else',
 'For every byte string given to the load() of every type, and for every later read of what load() returned (native, fields, iteration, parsed, chosen, len, dump), the outcome is a value or a ValueError (a TypeError only for non-bytes arguments); no other exception, hang or interpreter-level recursion failure is possible. '
 'Repeating the same read gives the same outcome.',
 ['inputs', 'histories'], 'all byte strings x all types x all read sequences',
 'Tests feed a handful of malformed inputs; a parser of untrusted certificates must be total.',
 [('_build', 'core.py', r'^def _build'), ('_parse_build', 'core.py', r'^def _parse_build'), ('load', 'core.py', r'^def load'), ('_parse', 'parser.py', r'^def _parse')])

prop('P04', 'Values built from Python encode to canonical DER that loads back equal',
 'For every type and every Python value its constructor or set() accepts, dump() is the unique DER encoding of that value (minimal lengths and integers, booleans 00/FF, defaults omitted, named bit lists without trailing zero bits, set members in canonical order). '
 'Loading that encoding gives back the same native value, and dump(force=True) returns the same bytes.',
 ['inputs'], 'all types and type parameters, all native values',
 'Tests construct few values; canonical form matters at every size boundary and member combination.',
 [('Sequence._set_contents', 'core.py', r'^class Sequence\('), ('SetOf ordering', 'core.py', r'^class SetOf'), ('Set ordering', 'core.py', r'^class Set\('), ('_dump_header', 'parser.py', r'^def _dump_header'), ('BitString.set', 'core.py', r'^class BitString'), ('Integer.set', 'core.py', r'^class Integer\(')])

prop('P05', 'Integers, enumerations, booleans and OIDs are exact at any magnitude',
 'Integer, Enumerated, IntegerOctetString, IntegerBitString, Boolean, ObjectIdentifier and the int/bytes helpers convert between Python values and content octets exactly as X.690 and big-endian two\'s complement define, for every sign and magnitude and with any requested width. '
 'Encodings are minimal where DER requires it, and values that cannot be represented (wrong type, unknown name, illegal OID arcs, too small a width) are refused rather than altered.',
 ['inputs'], 'all integers, all OID arc lists, all content octets, all widths and signedness flags',
 'Tests cover about twenty numbers; sign bits, byte boundaries and base-128 carries are unbounded.',
 [('int_to_bytes', 'util.py', r'def int_to_bytes'), ('int_from_bytes', 'util.py', r'def int_from_bytes'), ('Integer', 'core.py', r'^class Integer\('), ('Enumerated', 'core.py', r'^class Enumerated'), ('ObjectIdentifier', 'core.py', r'^class ObjectIdentifier'), ('IntegerOctetString', 'core.py', r'^class IntegerOctetString'), ('Boolean', 'core.py', r'^class Boolean')])

prop('P06', 'Bit and octet strings keep every bit, name and unused-bit count',
 'For BitString (plain and named), OctetBitString, IntegerBitString, OctetString, IntegerOctetString and the parsable variants, native, item access, unused_bits, bytes(), int values and casts between the kinds agree with the same underlying bits, for every length and unused-bit count. '
 'Setting from any accepted Python form (tuple, set of names, bytes, integer, single bits by index or name) stores exactly those bits, and invalid forms are refused.',
 ['inputs', 'histories'], 'all bit strings and lengths, all name maps, all sequences of bit edits and casts',
 'Tests use a few bit patterns; padding, leading zero and sparse name handling vary with length and position.',
 [('BitString', 'core.py', r'^class BitString'), ('_IntegerBitString', 'core.py', r'^class _IntegerBitString'), ('OctetBitString', 'core.py', r'^class OctetBitString'), ('IntegerBitString', 'core.py', r'^class IntegerBitString'), ('_int_to_bit_tuple', 'core.py', r'^def _int_to_bit_tuple'), ('Castable.cast', 'core.py', r'^class Castable')])

prop('P07', 'Character strings map text to octets by their declared character set',
 'For each string type the octets stored for a text and the text read from octets are those of the type\'s character set (UTF-8, BMP as UTF-16-BE, Universal as UTF-32-BE, T.61 for Teletex, ASCII family), so that text in the repertoire survives set, dump, load and native unchanged. '
 'Text or octets outside the repertoire raise ValueError instead of being altered.',
 ['inputs'], 'all texts and octet strings for each string type',
 'Tests use ASCII samples mostly; the repertoire is large and each type has its own coding.',
 [('AbstractString', 'core.py', r'^class AbstractString'), ('BMPString', 'core.py', r'^class BMPString'), ('UniversalString', 'core.py', r'^class UniversalString'), ('TeletexString', 'core.py', r'^class TeletexString'), ('T.61 tables', '_teletex_codec.py', r'^DECODING_TABLE')])

prop('P08', 'UTCTime and GeneralizedTime denote exactly one instant, both ways',
 'Every time text that is valid for its type decodes to the instant it denotes (two-digit-year window 1950-2049, missing minutes or seconds, fractions of the last unit, Z and signed offsets, year 0), and every aware datetime set encodes to the DER text in UTC for the same instant with years outside the range refused. '
 'Invalid time text raises ValueError, and the year-0 and timezone helper classes order, compare, add and format like ordinary datetimes.',
 ['inputs'], 'all time texts, all datetimes, offsets and fractions, all pairs for comparison',
 'Tests list about fifteen time strings; calendar, offset and fraction arithmetic has many corners.',
 [('AbstractTime', 'core.py', r'^class AbstractTime'), ('UTCTime', 'core.py', r'^class UTCTime'), ('GeneralizedTime', 'core.py', r'^class GeneralizedTime'), ('extended_datetime', 'util.py', r'^class extended_datetime'), ('extended_date', 'util.py', r'^class extended_date\('), ('create_timezone', 'util.py', r'def create_timezone')])

prop('P09', 'BER variants read the same as DER, and forcing a dump yields the DER form',
 'An encoding that differs from the DER of a value only in BER freedoms (longer length forms, indefinite lengths, string types split into nested chunks, explicit defaults, member order in sets) loads to an object with the same native value as the DER. '
 'dump(force=True) of that object returns the DER encoding, again with the same native value, and forcing a second time changes nothing.',
 ['inputs'], 'all values x all combinations of BER freedoms at all nesting levels',
 'Tests have a handful of indefinite-length samples; combinations of freedoms across levels are unbounded.',
 [('Constructable._merge_chunks', 'core.py', r'^class Constructable'), ('_parse indefinite', 'parser.py', r'^def _parse'), ('_build', 'core.py', r'^def _build'), ('Asn1Value.dump', 'core.py', r'^    def dump\(self, force=False\)')])

prop('P10', 'Every edit is visible in dump(), native and every other view',
 'After any sequence of edits through public methods (set, item and field assignment, deletion, append, bit assignment, None for optional members, edits of nested members through references already handed out), interleaved with any reads and dumps, native, len, iteration, fields and dump() all describe the edited value. '
 'Loading dump() gives an equal value, and members that were not edited keep their original bytes.',
 ['histories'], 'all interleavings of edits, reads and dumps on any structure, at any depth',
 'Tests exercise single edits; caches (native, parsed, mutation flags) go stale only for particular orders.',
 [('Sequence._is_mutated', 'core.py', r'    def _is_mutated'), ('Sequence.__setitem__', 'core.py', r'^class Sequence\('), ('SequenceOf', 'core.py', r'^class SequenceOf'), ('Choice', 'core.py', r'^class Choice'), ('ParsableOctetString', 'core.py', r'^class ParsableOctetString\('), ('Concat.__setitem__', 'core.py', r'^class Concat')],
 [('_native', 'cached native value'), ('_parsed', 'cached parsed payload'), ('_mutated', 'edit marker'), ('children', 'lazily parsed members')])

prop('P11', 'Copies are equal to and independent of the original',
 'copy(), copy.copy(), copy.deepcopy() and pickling of any object, in any state of parsing or editing, give an object of the same type with the same dump() and native value. '
 'Editing a copy() or deep copy at any depth never changes the original or its other copies, and vice versa; retag() and untag() change only the tagging of their result; and equality of primitives agrees with type, tag and contents.',
 ['inputs', 'histories'], 'all types, all parse/edit histories before and after the copy',
 'Tests copy a few structures; sharing shows only with particular caching histories and nested edits.',
 [('Asn1Value._copy', 'core.py', r'    def _copy\(self, other, copy_func\)'), ('copy', 'core.py', r'^    def copy'), ('retag', 'core.py', r'^    def retag'), ('untag', 'core.py', r'^    def untag'), ('unpickle_helper', 'core.py', r'^def unpickle_helper'), ('Primitive.__eq__', 'core.py', r'^class Primitive')])

prop('P12', 'A refused operation changes nothing',
 'When constructing, loading, assigning, setting, appending, deleting or parsing raises, every object involved keeps the native value and dump() it had before, remains usable, and raises again if the same operation is repeated. '
 'A failed operation on one object never affects other objects or later uses of the type.',
 ['histories', 'inputs'], 'all operations that raise, from any object state, followed by any operations',
 'Tests check that errors are raised, hardly ever what state is left behind.',
 [('Sequence.__setitem__', 'core.py', r'^class Sequence\('), ('Sequence._parse_children', 'core.py', r'    def _parse_children'), ('SequenceOf.append', 'core.py', r'    def append'), ('Primitive.set', 'core.py', r'^class Primitive'), ('Choice.__init__', 'core.py', r'^class Choice')])

prop('P13', 'Explicit and implicit tags are written and required exactly as declared',
 'A value tagged by its class, by a field or alternative, or by load/constructor parameters (implicit or explicit, any class, any number, several explicit layers) encodes with precisely those identifier octets around its contents, and its decoder accepts precisely those identifier octets, rejecting any other class, number or primitive/constructed form with ValueError. '
 'retag() and untag() add and remove exactly the stated tagging.',
 ['inputs', 'configurations'], 'all types x all tagging declarations x all identifier octets on input',
 'Tests cover a few tag combinations; classes, high numbers, layers and choices multiply.',
 [('_build', 'core.py', r'^def _build'), ('_tag_type_to_explicit_implicit', 'core.py', r'^def _tag_type'), ('Asn1Value.__init__', 'core.py', r'^class Asn1Value'), ('_fix_tagging', 'core.py', r'^def _fix_tagging'), ('retag', 'core.py', r'^    def retag')])

prop('P14', 'Structure members are matched by declared order, tag, optionality and default',
 'Decoding a Sequence assigns elements to fields in declared order, a Set by tag in any order, and SequenceOf/SetOf element by element; absent optional fields read as void, absent default fields as the default, and a missing required field, an unmatched or a surplus element in a Set is refused with ValueError. '
 'Encoding omits absent and default-valued members, refuses a missing required one, and every element decoded is reachable under exactly one field.',
 ['inputs', 'configurations'], 'all field declarations x all presence/absence patterns x all element orders',
 'Tests have some structures with fixed presence patterns; the field/optional/default/tag combinations are exponential.',
 [('Sequence._parse_children', 'core.py', r'^class Sequence\('), ('Set._parse_children', 'core.py', r'^class Set\('), ('_build_id_tuple', 'core.py', r'^def _build_id_tuple'), ('Sequence._make_value', 'core.py', r'    def _make_value'), ('SequenceOf._parse_children', 'core.py', r'^class SequenceOf')])

prop('P15', 'A Choice always is exactly the alternative its tag or constructor names',
 'Decoding a Choice selects the alternative whose identifier octets (through explicit, implicit and nested-choice tagging) the data carries and rejects data matching none; constructing by name, (name, value) tuple or one-key dict selects that name. '
 'name, chosen, native and dump() always describe the same alternative and value, wherever the choice is embedded and however it is tagged.',
 ['inputs', 'configurations'], 'all sets of alternatives with all taggings, all values, all embeddings',
 'Tests use a few choices; nested choices, shared tags across classes and explicit wrapping combine freely.',
 [('Choice', 'core.py', r'^class Choice'), ('Choice.validate', 'core.py', r'    def validate\(self, class_, tag, contents\)'), ('Choice._setup', 'core.py', r'^    def _setup'), ('_build', 'core.py', r'^def _build')])

prop('P16', 'OID-governed members are typed by the identifier next to them',
 'In every structure where an identifier selects the type of another member (attributes, extensions, content infos, algorithm parameters, bags, revocation info, version-dependent contents), that member decodes and encodes as the type registered for the identifier, from bytes or from Python values, and as raw any/octets when the identifier is unknown. '
 'This holds for optional and absent members, for values wrapped in octet or bit strings, and after the identifier or member is replaced.',
 ['inputs', 'histories'], 'all governed structures x all registered and unknown identifiers x all values',
 'Tests reach perhaps a third of the registered identifiers through fixtures.',
 [('Sequence._determine_spec', 'core.py', r'    def _determine_spec'), ('Sequence.spec', 'core.py', r'    def spec\(self, field_name\)'), ('Any.parse', 'core.py', r'^class Any'), ('ParsableOctetString.parse', 'core.py', r'^class ParsableOctetString\('), ('SignedData spec callback', 'cms.py', r'_encap_content_info_spec'), ('CertificateChoices.validate', 'cms.py', r'^class CertificateChoices'), ('Pfx.authenticated_safe', 'pkcs12.py', r'def authenticated_safe')])

prop('P17', 'What a type does never depends on which types were used before it',
 'The behaviour of a type (names, maps, fields, alternatives, load, construction, map/unmap) is the same whatever other types, parents, subclasses or instances were imported or used earlier in the process, in whatever order. '
 'Name maps translate both ways consistently: mapping a number or OID to a name and back gives the original.',
 ['histories'], 'all orders of first use of types related by inheritance; all mapped names',
 'Tests run in one fixed order in one process, so lazily built class state is sampled once.',
 [('ValueMap._setup', 'core.py', r'^class ValueMap'), ('ObjectIdentifier.map', 'core.py', r'    def map\(cls'), ('Sequence._setup', 'core.py', r'^class Sequence\('), ('Choice._setup', 'core.py', r'^class Choice'), ('_SETUP_CLASSES', 'core.py', r'^_SETUP_CLASSES')],
 [('_SETUP_CLASSES', 'classes whose lazy setup already ran'), ('_reverse_map/_field_map/_id_map', 'class level tables built lazily')])

prop('P18', 'First use of a type from several threads at once is safe',
 'When several threads load, construct or map values of the same or related types concurrently, including the very first use of those types in the process, every thread obtains the result it would obtain alone, under every interleaving. '
 'No thread sees half-built type tables.',
 ['schedules'], 'all interleavings of first uses by two or more threads, for each kind of lazily initialised type',
 'The test suite is single threaded.',
 [('Asn1Value.__init__ setup', 'core.py', r'^class Asn1Value'), ('ValueMap._setup', 'core.py', r'^class ValueMap'), ('Sequence._setup', 'core.py', r'^class Sequence\('), ('Set._setup', 'core.py', r'^class Set\('), ('Choice._setup', 'core.py', r'^class Choice'), ('ObjectIdentifier.unmap', 'core.py', r'    def unmap\(cls')],
 [('_SETUP_CLASSES', 'global table of classes already set up')])

prop('P19', 'PEM armor and unarmor are inverse, block by block',
 'armor() output is detected and unarmor()s to the same type name, headers and bytes, for every type name, header dict and byte string, and any sequence of such blocks with arbitrary text between them, CRLF or LF line ends and surrounding whitespace is unarmored to those blocks in order. '
 'Input with no complete block is refused with ValueError and non-byte input with TypeError.',
 ['inputs', 'histories'], 'all type names, headers, payload lengths, block sequences and line-ending styles',
 'Tests use a few fixture files; the line-driven state machine has many boundary sequences.',
 [('armor', 'pem.py', r'^def armor'), ('unarmor', 'pem.py', r'^def unarmor'), ('_unarmor', 'pem.py', r'^def _unarmor'), ('detect', 'pem.py', r'^def detect')])

prop('P20', 'Distinguished names compare by RFC 5280 rules, consistently with hashing',
 'Two Names, relative names or attributes are equal exactly when RFC 5280 section 7.1 / RFC 4518 preparation makes them equal: same shape and attribute types in order, values compared after mapping, normalisation, case folding and insignificant-space handling regardless of string type, multi-valued members as a set. '
 'Equality is reflexive, symmetric and transitive, and equal names have equal hashable forms while unequal names have different ones.',
 ['inputs'], 'all pairs and triples of names, all attribute types, string types and texts',
 'Tests compare a short list of name pairs; equivalence is a relation over all texts.',
 [('Name.__eq__', 'x509.py', r'^class Name\('), ('NameTypeAndValue._ldap_string_prep', 'x509.py', r'    def _ldap_string_prep'), ('RelativeDistinguishedName', 'x509.py', r'^class RelativeDistinguishedName'), ('RDNSequence', 'x509.py', r'^class RDNSequence'), ('Name.hashable', 'x509.py', r'    def hashable')])

prop('P21', 'Host validation accepts exactly the names a certificate covers',
 'is_valid_domain_ip() is true exactly when the given IP address equals a listed IP, or the given domain, compared case-insensitively and after IDNA encoding label by label, equals a listed DNS name, where a wildcard covers one whole left-most label or part of a non-IDNA left-most label and never more. '
 'Subject common names count only when no subject alternative DNS name is present, and valid_domains and valid_ips list precisely those names in order without duplicates.',
 ['inputs'], 'all certificates (SAN and subject combinations) x all hosts',
 'Tests check a small table; matching is security critical for every label combination.',
 [('is_valid_domain_ip', 'x509.py', r'def is_valid_domain_ip'), ('_is_wildcard_match', 'x509.py', r'def _is_wildcard_match'), ('valid_domains', 'x509.py', r'def valid_domains'), ('valid_ips', 'x509.py', r'def valid_ips')])

prop('P22', 'Internationalised names and IP addresses keep their meaning both ways',
 'DNSName, EmailAddress and URI store the ASCII form (IDNA host labels, percent-encoded UTF-8) of the text they are given and return the same text, with equality independent of case where the standard says so; IPAddress stores the network-order octets and the mask of the address or CIDR text given and returns the canonical text. '
 'Percent-escapes, reserved characters, ports and empty parts are preserved, and malformed addresses are refused.',
 ['inputs'], 'all host names, mailboxes, URIs/IRIs, IPv4/IPv6 addresses and prefixes',
 'Tests have short lists of samples; escaping and address compression rules have many corners.',
 [('URI', 'x509.py', r'^class URI'), ('EmailAddress', 'x509.py', r'^class EmailAddress'), ('DNSName', 'x509.py', r'^class DNSName'), ('IPAddress', 'x509.py', r'^class IPAddress'), ('iri_to_uri', '_iri.py', r'^def iri_to_uri'), ('uri_to_iri', '_iri.py', r'^def uri_to_iri'), ('inet_pton', '_inet.py', r'^def inet_pton'), ('inet_ntop', '_inet.py', r'^def inet_ntop')])

prop('P23', 'Convenience accessors report exactly what the structure contains',
 'For every certificate, CRL, revoked entry, OCSP request and OCSP response, each convenience attribute (extension values, critical extension sets, issuer, serial, key identifiers, CA flag, path length, self-issued/self-signed state, URLs, distribution points, hashes, validity) equals what a direct reading of the fields gives. '
 'Absent extensions or members give None, an empty collection or the documented default rather than an exception.',
 ['inputs'], 'all combinations of present, absent, critical and unknown extensions and members',
 'Fixtures contain about thirty certificates; presence combinations of sixteen extensions are not covered.',
 [('Certificate accessors', 'x509.py', r'^class Certificate\('), ('CertificateList accessors', 'crl.py', r'^class CertificateList'), ('RevokedCertificate accessors', 'crl.py', r'^class RevokedCertificate\('), ('OCSPRequest accessors', 'ocsp.py', r'^class OCSPRequest'), ('OCSPResponse accessors', 'ocsp.py', r'^class OCSPResponse\('), ('SingleResponse accessors', 'ocsp.py', r'^class SingleResponse\(')])

prop('P24', 'Algorithm identifiers report the algorithm, hash, mode and sizes they encode',
 'For every signature, digest, key-derivation, encryption and MAC algorithm identifier the library knows, the derived attributes (signature algorithm, hash algorithm, kdf and its parameters, cipher, mode, key length, block size, IV) are those the standard assigns to the identifier and parameters, and ValueError is raised for those that do not apply. '
 'Parameters are encoded absent, NULL or typed as the algorithm requires, and DSA signatures convert to and from fixed-width form without loss.',
 ['inputs'], 'all known algorithm identifiers x all parameter values',
 'Tests look at about ten algorithms.',
 [('SignedDigestAlgorithm', 'algos.py', r'^class SignedDigestAlgorithm\('), ('EncryptionAlgorithm', 'algos.py', r'^class EncryptionAlgorithm\('), ('_ForceNullParameters', 'algos.py', r'^class _ForceNullParameters'), ('DSASignature', 'algos.py', r'^class DSASignature')])

prop('P25', 'Key containers carry the key through unchanged and report its real size',
 'Wrapping a private or public key in PrivateKeyInfo or PublicKeyInfo and reading it back gives the same key, algorithm and parameters; algorithm, curve, hash_algo, bit_size, byte_size and unwrapped forms are those of the key itself. '
 'Elliptic-curve points and private values are fixed-width for their curve and convert to and from coordinates without loss for all coordinate values.',
 ['inputs'], 'all key types, parameter forms, key sizes and coordinate values',
 'Tests wrap a few fixture keys of round sizes; widths fail for particular magnitudes.',
 [('PrivateKeyInfo', 'keys.py', r'^class PrivateKeyInfo'), ('PublicKeyInfo', 'keys.py', r'^class PublicKeyInfo'), ('_ECPoint', 'keys.py', r'^class _ECPoint'), ('ECPrivateKey', 'keys.py', r'^class ECPrivateKey'), ('NamedCurve', 'keys.py', r'^class NamedCurve')])

prop('P26', 'Predefined structures follow their published ASN.1 modules',
 'Every predefined structure of the X.509, CRL, CSR, OCSP, CMS/PKCS#7, PKCS#12, TSP, PDF and key/algorithm modules encodes and decodes with the fields, order, types, tags, tagging mode, optionality and defaults of its published ASN.1 module, for every combination of present members. '
 'Valid encodings produced by another implementation of that module are accepted and read into the documented field names.',
 ['inputs', 'configurations'], 'all predefined structures x all member combinations and values',
 'Fixtures touch about half of the roughly 330 structures and few optional members.',
 [('X.509 structures', 'x509.py', r'^class TbsCertificate'), ('CMS structures', 'cms.py', r'^class SignedData\('), ('OCSP structures', 'ocsp.py', r'^class ResponseData\('), ('CRL structures', 'crl.py', r'^class TbsCertList'), ('TSP structures', 'tsp.py', r'^class TSTInfo'), ('PKCS#12 structures', 'pkcs12.py', r'^class SafeBag'), ('key structures', 'keys.py', r'^class RSAPrivateKey'), ('algorithm structures', 'algos.py', r'^class RSASSAPSSParams'), ('CSR structures', 'csr.py', r'^class CertificationRequestInfo'), ('PDF structures', 'pdf.py', r'^class RevocationInfoArchival')])

prop('P27', 'Registered OIDs, numbers and flags carry their standard names',
 'Every name the library knows for an object identifier, enumeration value, version number or named bit translates to the number the standard assigns, in both directions, in native, map()/unmap() and encoded form. '
 'Unknown numbers pass through as themselves, and unknown names are refused.',
 ['inputs'], 'all registered names and all unregistered numbers',
 'Tests use perhaps a tenth of about 700 registered names.',
 [('ExtensionId', 'x509.py', r'^class ExtensionId'), ('NameType', 'x509.py', r'^class NameType'), ('SignedDigestAlgorithmId', 'algos.py', r'^class SignedDigestAlgorithmId'), ('EncryptionAlgorithmId', 'algos.py', r'^class EncryptionAlgorithmId'), ('NamedCurve', 'keys.py', r'^class NamedCurve'), ('ContentType', 'cms.py', r'^class ContentType'), ('KeyPurposeId', 'x509.py', r'^class KeyPurposeId')])
prop('P28', 'Names show all their attributes in words and are built from exactly those given',
 'For every distinguished name, native gives every attribute value under its type (several of one type as a list, in order), and human_friendly gives every type in English or as its number with every value, each exactly once, most specific first, separated by semicolons when any value holds a comma; both, len() and the digests follow every item assignment, insertion and deletion, in any order of asking, and never change the encoding. '
 'Name.build() gives a name with exactly the attributes given, by name or number, one relative name each in the preferred order whatever the order given, in the string types the type and use_printable call for, and refuses a type it has no encoding for.',
 ['inputs', 'histories'], 'all names of registered and unregistered attribute types, single and multi-valued; all attribute dictionaries without one type twice; all orders of asking and editing; texts of attribute values that are not strings are left open',
 'Tests show and build a handful of fixture names, none with three values of a type, unknown types or edits.',
 [('Name.native', 'x509.py', r'^class Name\('), ('Name.build', 'x509.py', r'^    def build\(cls, name_dict'), ('Name.human_friendly', 'x509.py', r'^    def _recursive_humanize'), ('NameType', 'x509.py', r'^class NameType\(')])
# Statements as they turned out to be decidable: corrections made while building the checks (see DESIGN.md).
NOW = {
 'P01': dict(statement='For every type and every byte string its load() accepts, dump() of the loaded, unmodified object returns exactly the bytes that were accepted, at every nesting level: BER length forms, explicitly encoded defaults, unsorted sets and unrecognised members included; a value whose own header is of indefinite length, or whose own string is in pieces, may instead be re-written as its DER. '
   'Reading beforehand in any order or amount (native, parsed, contents, fields, iteration, len, debug, copy, repr) never changes what dump() returns.'),
 'P03': dict(q='all byte strings x all types x all read sequences, up to the nesting depth the parser accepts; a dump of a value in indefinite form may change what later reads show to its DER'),
 'P05': dict(q='all integers, all OID arc lists, all content octets, all widths and signedness flags; refused means ValueError, OverflowError or TypeError'),
 'P07': dict(q='all texts and octet strings for each string type; the Numeric, Printable, Graphic, Visible, General and CharacterString repertoires are one octet per character (Latin-1), as the library documents, and the certificate Teletex variant reads Windows-1252'),
 'P08': dict(q='all time texts, all datetimes, offsets and fractions, all pairs for comparison; digits finer than a microsecond have no datetime, and an instant of year 0 is given as extended_datetime'),
 'P10': dict(q='all interleavings of edits, reads and dumps on any structure, at any depth: item and field assignment, deletion, append, insertion, bit and choice assignment, whole-value set(), and the same on members reached through references; primitive members are replaced, not set() in place'),
 'P11': dict(statement='copy(), copy.copy(), copy.deepcopy() and pickling of any object, in any state of parsing or editing, give an object of the same type with the same dump() and native value. Editing a copy() or deep copy at any depth never changes the original or its other copies, and vice versa; retag() and untag() change only the tagging of their result; and primitives are equal exactly when class, tag and contents are.',
   q='all types, all parse/edit histories before and after the copy; URI, e-mail, DNS and IP values have an equality of their own (P22)'),
 'P17': dict(q='all orders of first use of types related by inheritance; all mapped names; apart from the identifiers the pdf and tsp modules document that they register when imported'),
 'P19': dict(q='all type names of printable ASCII without small letters and colons or leading dashes, all headers whose names hold no colon and whose values no line end or outer whitespace, all payload lengths, block sequences and line-ending styles'),
 'P20': dict(q='all pairs and triples of names without two attributes of one type in one relative name; all attribute types, string types and texts but those that mix writing directions'),
 'P21': dict(statement='is_valid_domain_ip() is true exactly when the given IP address equals a listed IP, or the given domain, compared case-insensitively and after IDNA encoding label by label, equals a listed DNS name, where a wildcard covers one whole left-most label or part of a non-IDNA left-most label and never more. Subject common names count only when there are no subject alternative names, and valid_domains and valid_ips list precisely those names in order without duplicates. A certificate with a name that cannot be read raises ValueError every time rather than list some of them.',
   q='all certificates (SAN and subject combinations) x all hosts; a partial wildcard over a host label that is itself an encoded one is left open'),
 'P22': dict(statement='DNSName, EmailAddress and URI store the ASCII form (IDNA host labels, percent-encoded UTF-8) of the text they are given and return the same text, with equality independent of case where the standard says so; IPAddress stores the network-order octets and the mask of the address or CIDR text given and returns the canonical text. Percent-escapes of reserved characters, ports and paths are preserved, and malformed addresses are refused, by the built-in and the bundled address functions alike.',
   q='all host names, mailboxes, URIs/IRIs with a scheme, IPv4/IPv6 addresses and prefixes; an empty user, query or fragment counts as none, escapes may change the case of their digits, and escapes of unreserved characters may be resolved'),
 'P23': dict(statement='For every certificate, CRL, revoked entry, OCSP request and response, distribution point and PKCS #12 file, each convenience attribute (extension values, critical extension sets, issuer, serial, key identifiers, CA flag, path length, self-issued/self-signed state, URLs, distribution points, hashes, validity, contents) equals what a direct reading of the fields gives. Absent extensions or members give None, an empty collection or the documented default rather than an exception. Reading any attribute, in any order and however often, gives the same result and leaves the structure as it is.',
   q='all combinations of present, absent, critical and unknown extensions and members of parsed structures; all orders of reading'),
 'P24': dict(q='all known algorithm identifiers x all parameter values; the mode of a stream cipher and the IV of modes the library does not interpret are left open'),
 'P25': dict(q='all key types, parameter forms, key sizes and coordinate values; sizes in bits are of whole octets; the two coordinates of a point share a width'),
 'P27': dict(q='all registered names and all unregistered numbers; a number without a name passes through except for an enumeration, whose native value raises ValueError; of several OIDs with one name each reads as that name and one is written'),
}
for p in P:
    n = NOW.get(p['id'], {})
    if 'statement' in n:
        assert n['statement'].count('. ') <= 2, p['id']
        p['statement'] = n['statement']
    if 'q' in n:
        p['quantifier']['text'] = n['q']
json_lines = '\n'.join(json.dumps(p, ensure_ascii=False) for p in P) + '\n'
open('/verif/properties.jsonl', 'w').write(json_lines)
print(len(P))
