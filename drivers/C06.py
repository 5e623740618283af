"""C06 row operations against the model"""
from .tables import *


def check(case):
    return check_ops(case)


def enumerated():
    for n in (1, 2, 3, 4):
        for m in (1, 2):
            for lay in (dict(), dict(rw=[0, None]), dict(rw=[2, 1, 2], deep=1), dict(rw=[1, 1, 0])):
                for k in (1, 2, 3):
                    yield dict(lay, n=n, m=m, ops=[['append_rows', k]])
                    for i in range(-n, n):
                        yield dict(lay, n=n, m=m, ops=[['insert_rows', i, k]])
                        if k < n and (i + n if i < 0 else i) + k <= n:
                            yield dict(lay, n=n, m=m, ops=[['delete_rows', i, k], ['append_rows', 1]])


def rop(rng, n):
    """a valid row operation for n rows and the number of rows after it"""
    o = rng.choice(['append_rows', 'insert_rows', 'delete_rows'])
    k = rng.choice([1, 1, 2, 3])
    if o == 'append_rows':
        return [o, k], n + k
    i = rng.randint(-n, n - 1)
    if o == 'insert_rows':
        return [o, i, k], n + k
    p = i + n if i < 0 else i
    k = min(k, n - p)
    if k >= n:
        return ['append_rows', 1], n + 1
    return [o, i, k], n - k


def random_case(rng):
    case = random_layout(rng)
    ops, n, m = [], case['n'], case['m']
    for _ in range(rng.randint(1, 8)):
        if rng.random() < 0.25:
            ops.append(['set_cell', rng.randrange(-n, n), rng.randrange(-m, m), rng.choice([1, 'x', 2.5])])
        else:
            op, n = rop(rng, n)
            ops.append(op)
    return dict(case, ops=ops)
