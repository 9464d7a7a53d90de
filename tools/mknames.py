#!/usr/bin/env python3
"""Writes spec/NameTables.tla: the parts of RFC 4518 / RFC 3454 / Unicode that the name comparison model needs, for a chosen alphabet.
Source: Python's stringprep (RFC 3454 tables, Unicode 3.2) and unicodedata.  Run once; the result is committed and reviewed."""
import stringprep, unicodedata, sys
u = unicodedata
A = list(range(128)) + [
    0x85, 0x9f, 0xa0, 0xa8, 0xaa, 0xad, 0xb2, 0xb4, 0xb5, 0xbd, 0xc5, 0xc9, 0xd6, 0xdc, 0xdf, 0xe5, 0xe9, 0xf6, 0xfc,
    0x130, 0x131, 0x149, 0x17f, 0x1c5, 0x1d5, 0x301, 0x308, 0x304, 0x327, 0x34f, 0x3a3, 0x3c2, 0x3c3, 0x41f, 0x43f, 0x5d0, 0x5d1, 0x627, 0x660, 0x6dd, 0x70f,
    0x1680, 0x1806, 0x180b, 0x180e, 0x1e9b, 0x2002, 0x200b, 0x200e, 0x2028, 0x2029, 0x202a, 0x202f, 0x205f, 0x2060, 0x206a, 0x2122, 0x2126, 0x212a, 0x212b, 0x2460,
    0x3000, 0x30ab, 0xff76, 0xff9e, 0x3099, 0x4e2d, 0xe000, 0xfb01, 0xfdd0, 0xfe00, 0xfeff, 0xfff9, 0xfffc, 0xfffd, 0xff21, 0xff0c,
    0x430, 0x432, 0x435, 0x438, 0x43a, 0x43c, 0x43e, 0x440, 0x442, 0x41a, 0x41e, 0x422, 0x392, 0x3b2, 0x2121, 0x3002, 0xff0e, 0xff61, 0xff1a, 0x6587,
    0xff10, 0xff11, 0xff12, 0xff13, 0xff14, 0xff15, 0xff16, 0xff17, 0xff18, 0xff19, 0x1d173, 0x1d17a, 0x1d400, 0x1f600, 0xe0001, 0xe0020, 0xe007f, 0x10ffff, 0x221, 0x340, 0x903, 0x20dd, 0x415, 0x418, 0x41c, 0x41f, 0x420]
# RFC 4518 section 2.2
DROP = [0xad, 0x1806, 0x34f, (0x180b, 0x180d), (0xfe00, 0xfe0f), 0xfffc, (0, 8), (0xe, 0x1f), (0x7f, 0x84), (0x86, 0x9f), 0x6dd, 0x70f, 0x180e,
        (0x200c, 0x200f), (0x202a, 0x202e), (0x2060, 0x2063), (0x206a, 0x206f), 0xfeff, (0xfff9, 0xfffb), (0x1d173, 0x1d17a), 0xe0001, (0xe0020, 0xe007f), 0x200b]
SPACE = [9, 10, 11, 12, 13, 0x85, 0x20, 0xa0, 0x1680, (0x2000, 0x200a), 0x2028, 0x2029, 0x202f, 0x205f, 0x3000]


def within(c, l):
    return any(c == x if isinstance(x, int) else x[0] <= c <= x[1] for x in l)


drop = [c for c in A if within(c, DROP)]
space = [c for c in A if within(c, SPACE)]
fold = {c: [ord(x) for x in stringprep.map_table_b2(chr(c))] for c in A if c not in drop and c not in space}
space_ = [32]
closure = set(sum(fold.values(), [])) | {32}
dec = {}
while True:
    new = set()
    for c in closure:
        if c not in dec:
            dec[c] = [ord(x) for x in u.normalize('NFKD', chr(c))]
            new |= set(dec[c])
    al = closure | new
    comp = {}
    for a in al:
        for b in al:
            if u.combining(chr(b)):
                x = u.normalize('NFC', chr(a) + chr(b))
                if len(x) == 1 and u.decomposition(x) == '%04X %04X' % (a, b):
                    comp[(a, b)] = ord(x)
                    new.add(ord(x))
    if new <= closure:
        break
    closure |= new
ccc = {c: u.combining(chr(c)) for c in closure if u.combining(chr(c))}
mark = [c for c in closure if u.category(chr(c))[0] == 'M']
bad = [c for c in closure if stringprep.in_table_a1(chr(c)) or stringprep.in_table_c8(chr(c)) or stringprep.in_table_c3(chr(c)) or stringprep.in_table_c4(chr(c))
       or stringprep.in_table_c5(chr(c)) or c == 0xfffd]
ral = [c for c in closure if stringprep.in_table_d1(chr(c))]
lcat = [c for c in closure if stringprep.in_table_d2(chr(c))]


for c in closure:
    assert c in fold or u.normalize('NFKC', stringprep.map_table_b2(chr(c))) == u.normalize('NFKC', chr(c)) or c == 32, hex(c)


def st(l):
    return '{' + ', '.join(map(str, sorted(l))) + '}'


def wrap(items, w=150):
    out, cur = [], '  '
    for i, x in enumerate(items):
        x += ', ' if i < len(items) - 1 else ''
        if len(cur) + len(x) > w:
            out.append(cur)
            cur = '  '
        cur += x
    return '\n'.join(out + [cur])


def tab(d):
    return '<<\n' + wrap(['<<%d, <<%s>>>>' % (k, ', '.join(map(str, v))) for k, v in sorted(d.items())]) + ' >>'


with open('/verif/spec/NameTables.tla', 'w') as f:
    f.write('''----------------------------- MODULE NameTables -----------------------------
(* Written by tools/mknames.py: RFC 4518 section 2.2, RFC 3454 B.2, A.1, C.3,  *)
(* C.4, C.5, C.8, D.1, D.2 and the Unicode decompositions, compositions and    *)
(* combining classes, for the characters the name model is exercised with.     *)
EXTENDS Integers, Sequences
Dropped == %s
Spaces == %s
(* RFC 3454 table B.2 and, for characters without an entry, themselves         *)
FoldTable == %s
DecompTable == %s
CompTable == <<
%s >>
ClassTable == %s
Marks == %s
Prohibited == %s
RandAL == %s
LCat == %s
(* every character folding, decomposing and composing lead to: left alone by  *)
(* folding                                                                    *)
Closure == %s
ToFun(t) == [c \\in {t[i][1] : i \\in DOMAIN t} |-> t[CHOOSE i \\in DOMAIN t : t[i][1] = c][2]]
=============================================================================
''' % (st(drop), st(space), tab(fold), tab({c: d for c, d in dec.items() if d != [c]}),
       wrap(['<<<<%d, %d>>, %d>>' % (a, b, c) for (a, b), c in sorted(comp.items())]), tab({c: [v] for c, v in ccc.items()}),
       st(mark), st(bad), st(ral), st(lcat), st(closure - set(A))))
print(len(A), len(fold), len(closure), len(comp), sorted(map(hex, bad)))
