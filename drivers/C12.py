"""C12 real saves, interrupted or failing at every single step

A step is an effect on the scratch directory (create, write, close, remove, rename). Interrupted: the process
ends there (an exception nobody handles, and nothing of what follows is done). Failing: OSError from that step.
"""
from .packages import *
import builtins, random as _random
from ezodf.document import FlatXMLDocument, PackagedDocument

BUDGET = 25
MIME = 'application/vnd.oasis.opendocument.text'


class Crash(BaseException):
    pass


class Steps(object):
    """counts the effects; at number `at` ends (crash) or fails (error)"""
    def __init__(self, at, mode, root):
        self.n, self.at, self.mode, self.root, self.dead = 0, at, mode, root, False

    def step(self, late=False):
        if self.dead:
            raise Crash()
        self.n += 1
        if self.n == self.at:
            if self.mode == 'crash':
                self.dead = True
                raise Crash()
            raise OSError(28, 'No space left on device')

    def __enter__(self):
        me = self
        self.saved = (os.rename, os.remove, os.unlink, os.replace, builtins.open, io.open)
        real_open = builtins.open

        def wrap(f):
            def g(*a, **k):
                me.step()
                return f(*a, **k)
            return g

        def open_(file, mode='r', *a, **k):
            if not isinstance(file, (str, bytes)) or not any(x in mode for x in 'wax+'):
                return real_open(file, mode, *a, **k)
            me.step()
            fp = real_open(file, mode, *a, **k)
            w, cl = fp.write, fp.close

            class Fp(object):
                def write(self, b):
                    if me.dead:
                        return len(b)
                    me.n += 1
                    if me.n == me.at:
                        w(bytes(b)[:len(b) // 2])
                        fp.flush()
                        if me.mode == 'crash':
                            me.dead = True
                            raise Crash()
                        raise OSError(28, 'No space left on device')
                    return w(b)

                def truncate(self, *a):
                    return 0 if me.dead else fp.truncate(*a)

                def close(self):
                    cl()

                def __enter__(self):
                    return self

                def __exit__(self, *a):
                    cl()

                def __getattr__(self, n):
                    return getattr(fp, n)
            return Fp()
        os.rename, os.remove, os.unlink, os.replace = [wrap(f) for f in self.saved[:4]]
        builtins.open = io.open = open_
        return self

    def __exit__(self, *a):
        os.rename, os.remove, os.unlink, os.replace, builtins.open, io.open = self.saved


def document(case, s):
    """(save function, bytes -> complaint if it is not the complete new document, serialization switch)"""
    k = case['doc']
    if k == 'flat':
        d = FlatXMLDocument(filename=s.path('doc.odt'), xmlnode=None)
        d.backup = case['backup']
        return d.save, lambda b: None if b == d.tobytes() else 'not the new document', None
    x = XML('new content' * 50)
    parts = [('settings.xml', 's' * 100), ('Pictures/a.png', 'p')]
    if k == 'file':
        s.put('src.odt', make(parts, MIME))
        fm = FileManager(s.path('src.odt'))
    elif k == 'same':
        fm = FileManager(s.path('doc.odt'))
    else:
        fm = FileManager()
    if k == 'new':
        parts = []
    fm.register('mimetype', MIME)
    fm.register('content.xml', x, 'text/xml')
    e = expect(parts, [('content.xml', ('xml', x.s))], MIME)
    return (lambda: fm.save(s.path('doc.odt'), backup=case['backup'])), (lambda b: compare(b, e)), x


def check(case):
    with Scratch() as s:
        return check1(case, s)


def check1(case, s):
    old = None
    if case['exists'] or case['doc'] == 'same':
        old = make([('settings.xml', 's' * 100), ('Pictures/a.png', 'p')], MIME)
        s.put('doc.odt', old)
    if case['bak']:
        s.put('doc.odt.bak', b'older')
    s.put('other.odt', b'other')
    s.put('other.tmp', b'other tmp')
    save, complaint, x = document(case, s)
    before = s.state()
    fate = 'done'
    if case['mode'] == 'content' and x is not None:
        x.fail = ValueError('cannot be serialized')
    with Steps(0 if case['mode'] == 'content' else case['at'], case['mode'], s.d) as st:
        try:
            save()
        except Crash:
            fate = 'crash'
        except OSError as e:
            fate = 'error'
            if case['mode'] == 'content':
                return 'unexpected %r' % e
        except ValueError:
            fate = 'content'
    after = s.state()
    for n in before:
        if n not in ('doc.odt', 'doc.odt.bak') and after.get(n) != before[n]:
            return '%s after %d steps: %s changed' % (fate, st.n, n)
    if fate == 'done':
        m = complaint(after.get('doc.odt', b''))
        if m:
            return 'saved: ' + m
        if case['backup'] and old is not None and after.get('doc.odt.bak') != old:
            return 'saved: the backup is not the previous document'
        if (not case['backup'] or old is None) and after.get('doc.odt.bak') != before.get('doc.odt.bak'):
            return 'saved: backup file changed'
        if set(after) - set(before) - set(['doc.odt', 'doc.odt.bak']):
            return 'saved: left over %r' % sorted(set(after) - set(before))
        return None
    if fate == 'content' and any(after.get(n) != before.get(n) for n in ('doc.odt', 'doc.odt.bak')):
        return 'content cannot be produced: the existing document or backup was touched'
    if old is not None and after.get('doc.odt') != old and after.get('doc.odt.bak') != old and all(complaint(b) for b in after.values()):
        return '%s at step %d: neither the old nor the complete new document is on disk: %r' % (fate, st.n, sorted((n, len(b)) for n, b in after.items()))
    return None


def cases():
    for doc in ('file', 'same', 'new', 'flat'):
        for backup in (True, False):
            if doc == 'flat' and not backup:
                continue
            for exists in (True, False):
                for bak in (True, False):
                    yield dict(doc=doc, backup=backup, exists=exists, bak=bak)


def enumerated():
    for c in cases():
        yield dict(c, mode='error', at=0)
        if c['doc'] != 'flat':
            yield dict(c, mode='content', at=0)
        for mode in ('crash', 'error'):
            for at in range(1, 61):
                yield dict(c, mode=mode, at=at)


def random_case(rng):
    c = dict(doc=rng.choice(['file', 'same', 'new', 'flat']), backup=rng.random() < .6, exists=rng.random() < .8, bak=rng.random() < .5,
             mode=rng.choice(['crash', 'error', 'content']), at=rng.randint(0, 60))
    if c['doc'] == 'flat':
        c['backup'] = True
    return c
