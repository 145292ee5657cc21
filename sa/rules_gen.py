"""Every public operation with every documented argument shape, in full mode,
and what must hold of all of them: no internal failure (C16), persistent
receivers and arguments unchanged (C01), transients owning their contents (C02),
the class of the result (C04), laziness (C05, C06), no traversal in
single-element operations (C23)."""
from .scen import *
from .ops import ops
from .rules_set import rcheck
from .rules_list import must, user_exc

NODE = ast.parse('x').body[0].value


def fullarg(cx, st, spec, me, named):
    """A value for an argument shape; None if the shape does not apply."""
    if isinstance(spec, tuple):
        if spec[0] == 'const': return ('k', type(spec[1]).__name__, spec[1])
        if spec[0] == 'slice':
            parts = []
            for p in spec[1:]:
                if p is None: parts.append(NONE)
                elif isinstance(p, int): parts.append(I(p))
                else: parts.append(fullarg(cx, st, p, me, named))
            return ('t', 'slice') + tuple(parts)
    if spec == 'self': return me
    name, ty = spec.split(':')
    if ty in ALL:
        r = cx.fw.recv(st, ty, name); named.append((r, ty)); return r
    v = ('s', name)
    if ty != 'any': st.types[v] = ty
    return v


def scenarios(cx, c):
    """(label, op, lazy policy, receiver options)"""
    for m, args, kw, tags in ops(c):
        if not cx.has(c, m): continue
        flat = [a for a in list(args) + list(kw.values()) if isinstance(a, str)]
        lz = c in LAZY or any(a.split(':')[-1] in LAZY for a in flat)
        for pol in ((True, False) if lz else (None,)):
            for opt in (('orig', 'plain') if c in TRANSIENT else ('hashed', 'plain')):
                yield m, args, kw, tags, pol, opt


def label(c, m, args, kw, opt, pol):
    a = [x if isinstance(x, str) else repr(x) for x in args] + [f'{k}={v}' for k, v in kw.items()]
    return f'{c}.{m}({", ".join(a)})'


def sweep(cx, c, judge, only=None, secs=4, budget=40000):
    for sc in scenarios(cx, c):
        if only is not None and not only(*sc): continue
        yield lambda sc=sc: one(cx, c, sc, judge, secs, budget)


def one(cx, c, sc, judge, secs, budget):
    m, args, kw, tags, pol, opt = sc
    st = cx.fw.state()
    if pol is not None: st.x['$lazy'] = pol
    named = []
    me = cx.fw.recv(st, c, 'A', orig=opt == 'orig', hashed=opt == 'hashed')
    named.append((me, c))
    av = tuple(fullarg(cx, st, a, me, named) for a in args)
    kv_ = {k: fullarg(cx, st, a, me, named) for k, a in kw.items()}
    before = st.fork()
    outs = cx.run(cx.fi, lambda: cx.fw.call(st, me, m, av, kv_), budget, secs)
    if outs is None: return
    where = cx.where(c, m); what = label(c, m, args, kw, opt, pol)
    judge(cx, c, m, args, av, tags, pol, where, what, before, me, named, outs)


def plainop(m, args, kw, tags, pol, opt):
    """Operations without a second collection (those are examined in contract mode)."""
    return not any(isinstance(a, str) and (a == 'self' or a.split(':')[-1] in ALL + ('list', 'iterable', 'set', 'frozenset', 'oset', 'dict')) for a in args)


HEAVY = {'seq': ('__mul__', '__rmul__', '__imul__', 'sort', 'reverse'), 'set': (), 'map': ('__reduce__', '__json__', 'popitem', '__str__', '__repr__', '__hash__', '__eq__', '__ne__')}


def light(c):
    return lambda m, args, kw, tags, pol, opt: plainop(m, args, kw, tags, pol, opt) and m not in HEAVY[kind_of(c)] and 'cmp' not in tags


def nojudge(*a): pass


# operations Python itself has a substitute for, or that a kind does not have
OPTIONAL = {'__ne__', '__reversed__', '__str__', '__repr__', '__reduce__', '__contains__'}


def present(cx, c):
    """Every documented operation exists."""
    if cx.fp.problems: cx.f.undecided('the source is only partly understood'); return
    for m in sorted({o[0] for o in ops(c)}):
        if m in OPTIONAL or m.startswith(('__r', '__i')) or m == '__json__' and c in SETLIKE: continue
        o, v = cx.fp.lookup(c, m)
        must(cx, 'C16', cx.where(c, m), f'{c}.{m}', cx.fw.state(), o is not None and v != NONE, f'{c} has no {m}')


def full(cx, c):
    """Every operation on one collection, interpreted down to the tries."""
    yield lambda: present(cx, c)
    yield from sweep(cx, c, nojudge, light(c))
