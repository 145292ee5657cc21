"""Command line: python3 -B -m sa.main PROPERTY

Analyses the current source of the repository (environment REPO, default /repo)
and reports obligations whose violation the abstract semantics admits."""
import importlib, json, multiprocessing as mp, os, re, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
KNOWN = os.path.join(VERIF, 'known_findings.txt')

from . import contract
from .terms import NONE, I
from .world import SEQ, SETLIKE, MAPS, ALL, LAZY, PERSISTENT, TRANSIENT, kind_of
from .registry import REGISTRY, TEXT, OWN, ALSO


def worker(task):
    """One shard of one generator."""
    prop, modn, fn, c, k, m, t_end = task
    from .scen import Ctx
    t0 = time.time()
    cx = Ctx(REPO); cx.prop = prop
    gen = getattr(importlib.import_module('.' + modn, __package__), fn)(cx, c)
    slow = []
    for i, th in enumerate(gen):
        if i % m != k: continue
        if time.time() > t_end:
            cx.f.undecided('time budget of the check used up'); continue
        t = time.time()
        try:
            for sp in variants(prop, modn, fn, c):
                contract.SPECIAL.clear(); contract.SPECIAL.update(sp)
                th()
            contract.SPECIAL.clear()
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            cx.f.undecided(f'analyser: {type(e).__name__} {e} at {os.path.basename(tb.filename)}:{tb.lineno}')
        dt = time.time() - t
        if dt > 20: slow.append((dt, c, fn, i))
    f = cx.f
    # only this property's verdicts count here; rules shared by several
    # properties report to each of them separately
    f.viol = [v for v in f.viol if v['rule'] == prop]
    used = {os.path.relpath(it.p.fns[n].file, REPO) + ':' + it.p.fns[n].qual for it in (cx.fi, cx.ci) for n in it.cover if n in it.p.fns and it.p.fns[n].file.startswith(REPO)}
    for v in f.viol: v['cls'] = c
    return f, used, slow, (modn + '.' + fn, c, time.time() - t0)


def variants(prop, modn, fn, c):
    """Assignments of particular objects to kinds of elements, keys and values."""
    yield {}
    if prop not in ('C09', 'C11', 'C12', 'C15', 'C18', 'C19', 'C20', 'C22'): return
    k = kind_of(c)
    if fn == 'c09map': yield {'Q': NONE, 'R': NONE}
    elif k == 'map' and fn in ('c12alg', 'c18', 'c19', 'c20'):
        yield {'Q': NONE}
        yield {'P': I(0), 'R': NONE}
    if k != 'seq' and fn in ('c09set', 'c11', 'c09map', 'c12alg', 'c18', 'c19', 'c20'):
        yield {'key P': I(0), 'key Q': NONE}
        yield {'key P': NONE, 'key R': I(0)}
    if k == 'seq' and fn in ('c18', 'c09seq', 'c15alg'):
        yield {'seq P': NONE}
        yield {'seq Q': I(0)}
    if fn == 'c22':
        yield {'elem': NONE}
        yield {'elem': I(0)}
    if os.environ.get('VERIF_TIER') != 'thorough': return
    for o in (('k', 'bool', False), ('k', 'str', '')):
        if k == 'map' and fn in ('c09map', 'c12alg', 'c18', 'c19', 'c20'): yield {'Q': o} if fn == 'c20' else {'Q': o, 'R': o}
        if k != 'seq' and o[1] != 'str' and fn in ('c09set', 'c11', 'c09map', 'c12alg', 'c18', 'c19', 'c20'): yield {'key P': o}
        if k == 'seq' and fn in ('c18', 'c09seq', 'c15alg'): yield {'seq P': o}
        if fn == 'c22': yield {'elem': o}


def known():
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) key=(.*?) :: (.*)$', l.strip())
            if m: r.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return r


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    limit = 560 if tier == 'quick' else 840
    t_end = t0 + limit
    tasks = []
    for modn, fn, classes, shards in REGISTRY[prop]:
        for c in classes:
            for k in range(shards): tasks.append((prop, modn, fn, c, k, shards, t_end))
    from .scen import Findings, Ctx
    cx = Ctx(REPO)          # fails loudly if the repository cannot be parsed
    missing = [c for c in ALL if c not in cx.fp.classes]
    if missing: print('cannot analyse: classes not found:', *missing); sys.exit(2)
    n = int(os.environ.get('SA_JOBS', '0') or 0) or min(8, os.cpu_count() or 1)
    tot = Findings(); used = set(); slow = []; units = []; also = [0, 0, 0]
    with mp.get_context('fork').Pool(n, maxtasksperchild=4) as pool:
        for f, u, sl, un in pool.imap_unordered(worker, tasks, chunksize=1):
            if un[0].split('.')[1] in ALSO.get(prop, ()): also = [also[0] + f.obl, also[1] + f.ok, also[2] + f.und]
            tot.merge(f); used |= u; slow += sl; units.append(un)
    by = tot.by.get(prop, [0, 0, 0])
    own = prop in OWN
    if not own:
        tot.why = {w: k for w, k in tot.why.items() if w.startswith(('gave up', 'analyser', 'time budget'))}
        gave = sum(tot.why.values())
        tot.obl, tot.ok, tot.und = by[0] + also[0] + gave, by[1] + also[1], by[2] + also[2] + gave
    kn = known().get(prop, {})
    seen = {}; viol = []
    for v in sorted(tot.viol, key=lambda v: (v['where'], v['cls'], v['text'])):
        seen.setdefault(v['key'], v)
    shown = set()
    for key, v in seen.items():
        if key in kn:
            if key not in shown: print(f'KNOWN-FINDING: property={prop} {kn[key]}')
            shown.add(key)
        else: viol.append(v)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rep = os.path.join(VERIF, 'evidence', f'{prop}-violations.txt')
    if viol:
        with open(rep, 'w') as fh:
            for v in viol:
                fh.write(f"{v['where']}\n  {v['text']}\n")
                for p in v['path']: fh.write(f'    path {p}\n')
                fh.write('\n')
    elif os.path.exists(rep): os.remove(rep)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
          'coverage': {
              'explanation': TEXT[prop],
              'entry_scenarios': tot.entries, 'abstract_outcomes': tot.paths,
              'obligations': tot.obl, 'discharged': tot.ok, 'undecided': tot.und, 'violated': len(tot.viol),
              'judged_on_every_call': {'obligations': by[0], 'discharged': by[1], 'undecided': by[2]},
              'undecided_reasons': dict(sorted(tot.why.items(), key=lambda x: -x[1])[:25]),
              'functions_analysed': sorted(used),
              'functions_analysed_count': len(used),
              'units': sorted({(a, b) for a, b, _ in units}),
          },
          'assumptions': [
              'the phamt library and the Python interpreter and standard library primitives behave as documented (their calls are interpreted by models)',
              'hashes and equality of user objects are consistent unless they raise',
              'the representation invariant of a receiver holds when a public method is entered',
          ],
          'violations': len(viol), 'wall_s': round(time.time() - t0, 2)}
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as fh: json.dump(ev, fh, indent=1, default=str)
    print(f'{prop}: {tot.entries} scenarios, {tot.paths} outcomes, {tot.obl} obligations, {tot.ok} discharged, {tot.und} undecided, {len(viol)} violated, {time.time() - t0:.1f}s')
    if os.environ.get('SA_VERBOSE'):
        for w, k in sorted(tot.why.items(), key=lambda x: -x[1])[:30]: print('   undecided', k, w)
        for un in sorted(units, key=lambda u: -u[2])[:6]: print('   slow unit', un)
        for s in sorted(slow, reverse=True)[:8]: print('   slow scenario', s)
    if viol:
        for v in viol[:12]: print(f"  {v['where']}: {v['text']}")
        print(f'VIOLATION property={prop} replay={rep}')
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__': main()
