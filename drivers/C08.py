"""C08 rejected table operations change nothing (valid ones in between)"""
from .tables import *
from .C06 import rop
from .C07 import cop

BADKEYS = ['', '1', 'A', 'A0', 'A00', '1A', 'A-1', 'A1.5', ' A1', 'A1 ', 'A1\n', 'A1B', '$A$1', 'A 1', '\u00c41', 'A\u0661']


def check(case):
    return check_ops(case)


def bad_ops(n, m):
    for k in (0, -1, -5):
        yield ['append_rows', k]
        yield ['append_columns', k]
        for o in ('insert_rows', 'delete_rows', 'insert_columns', 'delete_columns'):
            for i in (0, -1, n + m):
                yield [o, i, k]
    for o, l in (('rows', n), ('columns', m)):
        for k in (1, 2):
            for i in (l, l + 1, -l - 1, -l - 2):
                yield ['insert_' + o, i, k]
        for i in range(-l - 2, l + 2):
            for k in range(1, l + 2):
                p = i + l if i < 0 else i
                if k >= l or not 0 <= p or p + k > l:
                    yield ['delete_' + o, i, k]
    for i, j in ((n, 0), (-n - 1, 0), (0, m), (0, -m - 1), (n, m), (-n - 1, -m - 1), (n + 3, -1)):
        yield ['get_cell', i, j]
        yield ['set_cell', i, j, 'x']
        yield ['set_cell', i, j, 'text']
    yield ['set_cell', 0, 0, 'text']
    yield ['set_cell', 0, 0, 'none']
    for i in (n, -n - 1):
        yield ['row', i]
        yield ['row_info', i]
    for i in (m, -m - 1):
        yield ['column', i]
        yield ['column_info', i]
    for a in ((0, 1), (1, 0), (0, 0), (-1, 3), (2, -1)):
        yield ['reset'] + list(a)
    for a in BADKEYS:
        yield ['address', a]


def enumerated():
    for n in (1, 2, 3):
        for m in (1, 2, 3):
            for lay in (dict(), dict(rw=[0, 2], cw=[2, 0], deep=1)):
                for op in bad_ops(n, m):
                    yield dict(lay, n=n, m=m, ops=[op])


def random_case(rng):
    case = random_layout(rng)
    ops, n, m = [], case['n'], case['m']
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        if r < 0.2:
            op, n = rop(rng, n)
            ops.append(op)
        elif r < 0.4:
            op, m = cop(rng, m)
            ops.append(op)
        elif r < 0.45:
            n, m = rng.randint(1, 4), rng.randint(1, 4)
            ops.append(['reset', n, m])
        elif r < 0.5:
            ops.append(['clear'])
        else:
            ops.append(rng.choice(list(bad_ops(n, m))))
    return dict(case, ops=ops)
