"""C07 column operations against the model"""
from .tables import *


def check(case):
    return check_ops(case)


def enumerated():
    for m in (1, 2, 3, 4):
        for n in (1, 2):
            for lay in (dict(), dict(cw=[0, None]), dict(cw=[2, 1, 2], deep=1), dict(cw=[1, 1, 0], rw=[0, 1])):
                for k in (1, 2, 3):
                    yield dict(lay, n=n, m=m, ops=[['append_columns', k]])
                    for i in range(-m, m):
                        yield dict(lay, n=n, m=m, ops=[['insert_columns', i, k]])
                        if k < m and (i + m if i < 0 else i) + k <= m:
                            yield dict(lay, n=n, m=m, ops=[['delete_columns', i, k], ['append_columns', 1]])


def cop(rng, m):
    o = rng.choice(['append_columns', 'insert_columns', 'delete_columns'])
    k = rng.choice([1, 1, 2, 3])
    if o == 'append_columns':
        return [o, k], m + k
    i = rng.randint(-m, m - 1)
    if o == 'insert_columns':
        return [o, i, k], m + k
    p = i + m if i < 0 else i
    k = min(k, m - p)
    if k >= m:
        return ['append_columns', 1], m + 1
    return [o, i, k], m - k


def random_case(rng):
    case = random_layout(rng)
    ops, n, m = [], case['n'], case['m']
    for _ in range(rng.randint(1, 8)):
        r = rng.random()
        if r < 0.2:
            ops.append(['set_cell', rng.randrange(-n, n), rng.randrange(-m, m), rng.choice([1, 'x', 2.5])])
        elif r < 0.3:
            n += 1
            ops.append(rng.choice([['append_rows', 1], ['insert_rows', 0, 1]]))
        else:
            op, m = cop(rng, m)
            ops.append(op)
    return dict(case, ops=ops)
