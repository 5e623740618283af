"""C02 whitespace encoding: every short text over the relevant characters, random longer ones"""
from .base import *
from itertools import product
from ezodf.whitespaces import encode_whitespaces, decode_whitespaces
from ezodf.xmlns import CN

KINDS = {CN('text:tab'): '\t', CN('text:line-break'): '\n'}


def enumerated():
    for n in range(0, 8):
        for t in product('a \n\t', repeat=n):
            yield [''.join(t)]
    for a in ('a  b', '  ', 'x\n ', '   \t'):
        for b in ('', ' ', 'b', '\n', '  c'):
            yield [a, b, a]
    for n in (10, 100, 1000):
        yield [' ' * n]
        yield ['a' + ' ' * n + 'b\n' * n]


def random_case(rng):
    return [rtext(rng, rng.choice([3, 8, 20])) for _ in range(rng.choice([1, 1, 1, 2, 3]))]


def content(p):
    """text of a piece by its XML alone"""
    if isinstance(p, str):
        return p
    e = p.xmlnode
    if e.tag == CN('text:s'):
        return ' ' * int(e.get(CN('text:c'), '1'))
    return KINDS[e.tag]


def verify(text, pieces):
    if not isinstance(pieces, list):
        return 'no list of pieces for %r' % text
    seen = []
    for p in pieces:
        if isinstance(p, str):
            if not p or '\n' in p or '\t' in p or '  ' in p:
                return 'piece %r of %r is not clean' % (p, text)
            continue
        e = p.xmlnode
        if e.tag != CN('text:s') and e.tag not in KINDS:
            return 'element %s for %r' % (e.tag, text)
        if e.getparent() is not None or e.text or e.tail or len(e) or e in seen:
            return 'whitespace element of %r is not a new empty element' % text
        seen.append(e)
        if p.plaintext() != content(p) or str(p) != content(p) or p.textlen != len(content(p)):
            return 'element %s of %r: text %r, length %r' % (e.tag, text, p.plaintext(), p.textlen)
    if ''.join(map(content, pieces)) != text:
        return '%r is encoded as %r' % (text, [content(p) for p in pieces])
    if decode_whitespaces(pieces) != text:
        return '%r is decoded as %r' % (text, decode_whitespaces(pieces))


def check(case):
    made = []
    for t in case:
        made.append((t, encode_whitespaces(t)))
        for t2, ps in made:
            m = verify(t2, ps)
            if m:
                return m


def shrink(case):
    for i in range(len(case)):
        if len(case) > 1:
            yield case[:i] + case[i + 1:]
        for j in range(len(case[i])):
            yield case[:i] + [case[i][:j] + case[i][j + 1:]] + case[i + 1:]
