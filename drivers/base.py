"""shared helpers of the drivers: run the real code on real lxml trees"""
import random, json, copy, sys
sys.path.insert(0, '/repo')
from lxml import etree

WORDS = ['a', 'bc', 'x y', '  ', ' ', '\n', '\t', 'Z', '\u00e4\u00df', '\u4e2d', '0', '1', 'true', 'false', ' lead', 'trail ', 'a\n\nb', '<&>"\'', '  \n', 'a  b', '\t\t', '-', '1.5']


def rtext(rng, n=4, empty=True):
    k = rng.randint(0 if empty else 1, n)
    s = ''.join(rng.choice(WORDS) for _ in range(k))
    if not s and not empty:
        s = 'q'
    return s


def xml(e):
    return etree.tostring(e).decode()


def tree(e):
    """comparable structure of an element (without its tail)"""
    return (e.tag, dict(e.attrib), e.text or '', [(tree(c), c.tail or '') for c in e])


def raises(f, *exc):
    try:
        f()
    except exc:
        return True
    return False
