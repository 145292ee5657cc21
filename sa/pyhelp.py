# Never imported or run: the source of builtin sequence algorithms, which the
# analyser interprets in contract mode.  Identity is checked before equality,
# as the builtins do.


def list_eq(a, b):
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        if not (x is y or x == y): return False
    return True


def list_lt(a, b):
    for x, y in zip(a, b):
        if not (x is y or x == y): return x < y
    return len(a) < len(b)


def list_le(a, b):
    for x, y in zip(a, b):
        if not (x is y or x == y): return x <= y
    return len(a) <= len(b)


def list_gt(a, b):
    for x, y in zip(a, b):
        if not (x is y or x == y): return x > y
    return len(a) > len(b)


def list_ge(a, b):
    for x, y in zip(a, b):
        if not (x is y or x == y): return x >= y
    return len(a) >= len(b)


def list_count(a, x):
    n = 0
    for y in a:
        if x is y or x == y: n += 1
    return n


def list_index(a, x, start=0, stop=9223372036854775807):
    n = len(a)
    if start < 0:
        start += n
        if start < 0: start = 0
    if stop < 0:
        stop += n
        if stop < 0: stop = 0
    i = 0
    for y in a:
        if i >= stop: break
        if i >= start and (y is x or y == x): return i
        i += 1
    raise ValueError('not in list')


def list_remove(a, x):
    i = 0
    for y in a:
        if y is x or y == x:
            del a[i]
            return None
        i += 1
    raise ValueError('not in list')
