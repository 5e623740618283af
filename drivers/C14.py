"""C14 metadata: operation sequences against a dict/set model, including a reload of the serialized xml"""
from .base import *
from ezodf.meta import OfficeDocumentMeta, TAGS
from ezodf.const import META_NS

KEYS = ['generator', 'title', 'description', 'subject', 'initial-creator', 'creator', 'creation-date', 'date', 'editing-cycles', 'language']
STATS = ['page', 'table', 'draw', 'image', 'object', 'ole-object', 'paragraph', 'word', 'character', 'row', 'frame', 'sentence',
         'syllable', 'non-whitespace-character', 'cell']
NAMES = ['a', 'b', 'A', 'a b', "it's", '"q"', '\u00e4', 'name', ' a']


def state(meta):
    d = {}
    for k in KEYS:
        try:
            d[k] = meta[k]
        except KeyError:
            pass
    return dict(tags=d, kw=list(meta.keywords), ud=[(n, v, meta.usertags.typeof(n)) for n, v in meta.usertags], stats=dict(iter(meta.count)))


def check(case):
    meta = OfficeDocumentMeta()
    st = state(meta)
    tags, kw, ud, stats = st['tags'], st['kw'], {}, {}
    if set(tags) != {'creation-date', 'date', 'generator'}:
        return 'new metadata has tags %r' % sorted(tags)
    for op in case['ops']:
        o = op[0]
        if o == 'set':
            meta[op[1]] = op[2]
            tags[op[1]] = op[2]
        elif o == 'cycles':
            meta.inc_editing_cycles()
            try:
                n = int(tags['editing-cycles'])
            except (KeyError, ValueError, TypeError):
                n = 0
            tags['editing-cycles'] = str(n + 1)
        elif o == 'kwadd':
            meta.keywords.add(op[1])
            if op[1] not in kw:
                kw.append(op[1])
        elif o == 'kwdel':
            meta.keywords.remove(op[1])
            if op[1] in kw:
                kw.remove(op[1])
        elif o == 'kwclear':
            meta.keywords.clear()
            kw = []
        elif o == 'udset':
            v = op[2]
            if op[3] is None and op[4]:
                meta.usertags[op[1]] = v
            else:
                meta.usertags.set(op[1], v, op[3])
            ud[op[1]] = (str(v), op[3] or 'string')
        elif o == 'uddel':
            try:
                del meta.usertags[op[1]]
            except KeyError:
                if op[1] in ud:
                    return 'KeyError deleting the user tag %r' % op[1]
            else:
                if op[1] not in ud:
                    return 'deleted the absent user tag %r' % op[1]
                del ud[op[1]]
        elif o == 'udclear':
            meta.usertags.clear()
            ud = {}
        elif o == 'udupdate':
            meta.usertags.update(dict(op[1]))
            for k, v in op[1]:
                ud[k] = (str(v), 'string')
        elif o == 'stat':
            meta.count[op[1]] = op[2]
            stats[op[1]] = op[2]
        elif o == 'statupdate':
            meta.count.update(dict(op[1]))
            stats.update(dict(op[1]))
        elif o == 'statclear':
            meta.count.clear()
            stats = {}
        elif o == 'clear':
            meta.clear()
            tags, kw, ud, stats = {}, [], {}, {}
        elif o == 'touch':
            meta.touch()
            tags['date'], tags['generator'] = meta['date'], meta['generator']
        elif o == 'reload':
            meta = OfficeDocumentMeta(etree.XML(meta.tobytes()))
        elif o == 'bad':
            if not raises(lambda: meta.__setitem__('bogus', 'x'), KeyError) or not raises(lambda: meta['bogus'], KeyError) \
                    or not raises(lambda: meta.count['bogus'], KeyError) or not raises(lambda: meta.count.__setitem__('bogus', 1), KeyError) \
                    or not raises(lambda: meta.usertags['bogus'], KeyError) or not raises(lambda: meta.usertags.typeof('bogus'), KeyError):
                return 'unknown key accepted'
        s = state(meta)
        if {k: v or '' for k, v in s['tags'].items()} != {k: v or '' for k, v in tags.items()}:
            return 'tags %r instead of %r after %r' % (s['tags'], tags, op)
        if s['kw'] != kw:
            return 'keywords %r instead of %r after %r' % (s['kw'], kw, op)
        if [x[0] for x in s['ud']] != list(ud) or any((v or '', t) != ud[n] for n, v, t in s['ud']):
            return 'user tags %r instead of %r after %r' % (s['ud'], ud, op)
        for n in ud:
            if n not in meta.usertags or (meta.usertags[n] or '') != ud[n][0]:
                return 'user tag %r reads %r' % (n, ud[n])
        for n in NAMES:
            if (n in meta.usertags) != (n in ud):
                return 'membership of user tag %r' % n
            if (n in meta.keywords) != (n in kw):
                return 'membership of keyword %r' % n
        if s['stats'] != stats:
            return 'statistics %r instead of %r after %r' % (s['stats'], stats, op)
        for k in STATS:
            if meta.count[k] != stats.get(k, 0):
                return 'statistic %s' % k
        m = meta.xmlnode
        if len(m.findall('.//{%s}document-statistic' % META_NS)) != 1:
            return 'not exactly one statistics tag'
        for k in KEYS:
            from ezodf.xmlns import CN
            if len(meta.meta.findall(CN(TAGS[k]))) > 1:
                return 'tag %s stored twice' % k
    return None


def random_op(rng):
    r = rng.random()
    if r < .22:
        return ['set', rng.choice(KEYS), rtext(rng, 3, False) if rng.random() < .7 else None if rng.random() < .3 else rng.choice(['3', '99', 'x', '-1'])]
    if r < .28:
        return ['cycles']
    if r < .42:
        return ['kwadd', rng.choice(NAMES)]
    if r < .5:
        return ['kwdel', rng.choice(NAMES)]
    if r < .68:
        return ['udset', rng.choice(NAMES), rng.choice(['v', 'w', 1, 2.5, True, 0, ' x ']), rng.choice([None, None, 'float', 'boolean', 'string', 'date']), rng.random() < .5]
    if r < .75:
        return ['uddel', rng.choice(NAMES)]
    if r < .84:
        return ['stat', rng.choice(STATS), rng.randint(0, 50)]
    return rng.choice([['kwclear'], ['udclear'], ['statclear'], ['clear'], ['touch'], ['reload'], ['reload'], ['bad'],
                       ['udupdate', [[n, rng.choice(['u', 5])] for n in rng.sample(NAMES, 2)]],
                       ['statupdate', [[n, rng.randint(0, 9)] for n in rng.sample(STATS, 3)]]])


def random_case(rng):
    return dict(ops=[random_op(rng) for _ in range(rng.randint(1, 14))])


def enumerated():
    for k in KEYS:
        yield dict(ops=[['set', k, None], ['set', k, 'y'], ['reload'], ['set', k, ''], ['reload'], ['set', k, 'z']])
        yield dict(ops=[['set', k, 'x'], ['set', k, 'y'], ['reload'], ['set', k, 'z'], ['reload']])
    for k in STATS:
        yield dict(ops=[['stat', k, 3], ['stat', k, 4], ['reload'], ['stat', k, 5], ['clear'], ['stat', k, 6]])
    yield dict(ops=[['set', 'editing-cycles', 'x'], ['cycles'], ['cycles'], ['reload'], ['cycles']])


def shrink(case):
    ops = case['ops']
    for i in range(len(ops)):
        yield dict(ops=ops[:i] + ops[i + 1:])
