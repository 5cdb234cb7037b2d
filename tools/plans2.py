"""The checks with machinery of their own: C01, C07, C14, C18, C19."""
import json, os, resource, subprocess, threading, time
import vlib, gen, apigen, scale
from engine import ToolError, WORK, NPROC, cps, txt, public, show, short


# ---------------------------------------------------------------- C07: types

ATOMS = [[0], [1], [2], [3], [4], [5], [8]]


def grow(s, n):
    """s, arrays of it and tuples of up to n of it."""
    out = {tuple(t): 1 for t in s}
    for t in s:
        out.setdefault((6,) + tuple(t), 1)
    tups = [[]]
    for _ in range(n):
        tups = tups + [t + [x] for t in tups for x in s if len(t) == max(map(len, tups))]
    for t in tups:
        out.setdefault(tuple([7, len(t)] + [y for x in t for y in x]), 1)
    return [list(t) for t in out]


def rtype(r, depth, anyp=0.15, width=4):
    if depth == 0 or r.random() < .25:
        return [0] if r.random() < anyp else r.choice(ATOMS[1:])
    if r.random() < .5:
        return [6] + rtype(r, depth - 1, anyp, width)
    n = r.choice([0, 1, 2, 3, r.randint(1, width)])
    return [7, n] + [y for _ in range(n) for y in rtype(r, depth - 1, anyp, width)]


def tparse(f, i=0):
    if f[i] == 6:
        t, j = tparse(f, i + 1)
        return (6, t), j
    if f[i] == 7:
        ts, j = [], i + 2
        for _ in range(f[i + 1]):
            t, j = tparse(f, j)
            ts.append(t)
        return (7, ts), j
    return (f[i],), i + 1


def tflat(t):
    if t[0] == 6:
        return [6] + tflat(t[1])
    if t[0] == 7:
        return [7, len(t[1])] + [y for x in t[1] for y in tflat(x)]
    return [t[0]]


def tmut(r, t, p):
    """Another type that differs from t here and there, mostly by Any."""
    if r.random() < p:
        return r.choice([(0,), (0,), (0,), (3,), (6, (0,)), (7, []), (7, [(0,)])])
    if t[0] == 6:
        return (6, tmut(r, t[1], p))
    if t[0] == 7:
        ts = [tmut(r, x, p) for x in t[1]]
        if ts and r.random() < p / 2:
            ts.pop(r.randrange(len(ts)))
        elif r.random() < p / 2:
            ts.append((0,))
        return (7, ts)
    return t


def types_stage(run, name, types, rows):
    t = time.time()
    d = os.path.join(WORK, 'types-%s-%s' % (run.prop, name))
    os.makedirs(d, exist_ok=True)
    tfile, cfile = os.path.join(d, 'types'), os.path.join(d, 'cases')
    json.dump(types, open(tfile, 'w'))
    per = max(1, min(40, len(rows) // 64 + 1))
    jobs = [rows[i:i + per] for i in range(0, len(rows), per)]
    res = {}

    def work(k):
        inp, outp = os.path.join(d, 'in%d' % k), os.path.join(d, 'out%d' % k)
        with open(inp, 'w') as f:
            f.write(json.dumps(dict(types=types)) + '\n')
            for i in range(k, len(jobs), NPROC):
                f.write(json.dumps(dict(id=i + 1, rows=jobs[i])) + '\n')
        open(outp, 'w').close()
        try:
            p = subprocess.run([run.binary, 'types', inp, outp], preexec_fn=vlib.limits(4), timeout=300,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 'hang'
        got = [json.loads(l) for l in open(outp) if l.endswith('\n')]
        for g in got:
            res[g['id']] = g['rows']
        if rc != 0:
            bad = [i for i in range(k, len(jobs), NPROC) if i + 1 not in res][:1]
            run.violation('%s: comparing types ends the process (%s)' % (name, rc), dict(types=[[types[j] for j in r] for i in bad for r in jobs[i]][:3]), {})
    ts = [threading.Thread(target=work, args=(k,)) for k in range(NPROC)]
    [x.start() for x in ts]
    [x.join() for x in ts]
    with open(cfile, 'w') as f:
        for i, r in sorted(res.items()):
            out = []
            for row, o in zip(jobs[i - 1], r):
                out.append(dict(i=row[0], js=row[1:], panic='panic' in o, one=o.get('one', {}), pairs=o.get('pairs', [])))
            f.write(json.dumps(dict(id=i, rows=out)) + '\n')
    n = 0
    if res:
        rc, out = vlib.tlc('OverTypesTrace', 'OverTypesTrace.cfg', env={'TYPES': tfile, 'CASES': cfile}, tag=run.prop + name)
        recs = vlib.said(out)
        if rc != 0 or sum(x['t'] == 'judged' for x in recs) != len(res):
            raise ToolError('TLC (%s) on types %s\n%s' % (rc, name, out[-3000:]))
        for x in recs:
            if x['t'] == 'bad':
                row = next(w for w in jobs[x['id'] - 1] if w[0] == x['i'])
                o = res[x['id']][jobs[x['id'] - 1].index(row)]
                run.violation('%s: types %s and %s: %s differ from the specification' % (name, types[x['i']], types[x['j']], x['what']),
                              dict(types=[types[x['i']], types[x['j']]]), dict(got=o.get('one') if x['i'] == x['j'] and len(row) < 2 else short(o, 2000)))
        g, st = vlib.stats(out)
        run.cov['states'] += st
        run.cov['transitions'] += g
    for row in rows:
        n += len(row)
    run.cov['traces'] += len(rows)
    run.cov['evals'] += n
    for row in rows[:200000]:
        for j in row[1:200]:
            run.distinct.add((row[0], j, name))
    run.sample(dict(stage=name, types=types[len(types) // 2], with_=types[-1]))
    subprocess.run(['rm', '-rf', d])
    run.stage(name, kind='tables of type relations computed by the library, judged by TLC', types=len(types), pairs=n - len(rows), s=round(time.time() - t, 1))


def mc(run, name, module, config, expect=0, timeout=600):
    """A model on its own."""
    t = time.time()
    rc, out = vlib.tlc(module, config, tag=run.prop + name, timeout=timeout)
    if rc != expect:
        raise ToolError('TLC (%s) on %s %s\n%s' % (rc, module, config, out[-3000:]))
    g, d = vlib.stats(out)
    run.cov['states'] += d
    run.cov['transitions'] += g
    run.stage(name, kind='the model alone' if not expect else 'the model with a planted fault: TLC has to refute it', states=d, s=round(time.time() - t, 1))


def c07(run):
    mc(run, 'laws-of-three', 'MCTypes', 'MCTypes.cfg')
    mc(run, 'laws', 'MCTypes', run.n('MCTypesDeep.cfg', 'MCTypesBig.cfg'), timeout=1500)
    u = grow(grow([[0], [3], [5]], 2), 2)
    types_stage(run, 'all-pairs', u, [[i] + list(range(len(u))) for i in range(len(u))])
    u = grow([[k] for k in (0, 1, 2, 3, 4, 5, 8)], run.n(2, 3))
    types_stage(run, 'all-kinds', u, [[i] + list(range(len(u))) for i in range(len(u))])
    r = run.rng
    types, rows = [], []
    for _ in range(run.n(4000, 40000)):
        a = rtype(r, r.choice([2, 3, 5, 8, 20]), r.choice([0, .1, .3]), r.choice([3, 6, 12]))[:]
        if len(a) > 400:
            continue
        t = tparse(a)[0]
        k = len(types)
        vs = [t] + [tmut(r, t, p) for p in (.02, .1, .3)]
        vs.append(tmut(r, vs[1], .1))
        types += [tflat(x) for x in vs]
        rows += [[k, k, k + 1, k + 2, k + 3, k + 4], [k + 1, k + 2, k + 3, k + 4]]
    for n in (10, 60, 64, 200):
        for o in ([6], [7, 1]):
            k = len(types)
            types += [o * n + [0], o * n + [3], o * (n - 1) + [0], o * (n + 1) + [3], o * n + [5]]
            rows += [[i] + list(range(k, k + 5)) for i in range(k, k + 5)]
    types_stage(run, 'random-pairs', types, rows)
    # The types values have.
    cases = [dict(text=t) for t in ()]
    run.docs('types-of-values', rdocs(run, run.n(500, 4000), arr=12, tup=8, null=2) + cases, ['alive', 'out', 'graph'])


def rdocs(run, n, **w):
    out = []
    for _ in range(n):
        g = gen.Gen(run.rng, bad=run.rng.choice((0, .02)), **w)
        out.append(dict(text=g.doc()[0]))
    return out


# ---------------------------------------------------------------- C14: IDs

def ids_run(run, args, timeout=600):
    try:
        p = subprocess.run([run.binary, 'ids'] + [str(a) for a in args], preexec_fn=vlib.limits(8), timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    except subprocess.TimeoutExpired:
        run.violation('ids %s does not end' % (args,), dict(ids=args), {})
        return None
    if p.returncode != 0:
        run.violation('ids %s ends with %s' % (args, p.returncode), dict(ids=args), p.stderr[-500:])
        return None
    return json.loads(p.stdout)


def c14(run):
    mc(run, 'threads', 'OverIds', 'MCIds.cfg')
    mc(run, 'no-atomicity', 'OverIds', 'MCIdsRace.cfg', expect=12)
    mc(run, 'wrap-around', 'OverIds', 'MCIdsWrap.cfg', expect=12)
    # One thread goes far beyond what 32 bits can count, while the rest runs.
    far = {}

    def work():
        try:
            far['r'] = ids_run(run, ['far', 2**32 + 1000, 450] if run.quick else ['far', 3 * 2**32, 2500], timeout=800 if run.quick else 3000)
        except Exception as e:  # noqa
            far['e'] = e
    th = threading.Thread(target=work)
    th.start()
    t = time.time()
    cases = []

    def add(k, args, **kw):
        cases.append(dict(id=len(cases) + 1, k=k, args=args, **kw))
    for s in range(10):
        r = ids_run(run, ['order', s, 40])
        if r:
            add('threads', ['order', s, 40], log=[[r['ids']]])
    for n in (2, 3, 8, 32):
        for rep in range(run.n(4, 20)):
            ph, m = run.n((6, 40), (14, 60))
            args = ['conc', n, ph, m, run.rng.randrange(2**30), rep % 2]
            r = ids_run(run, args)
            if r:
                add('threads', args, log=r)
    for n in (1, 2, 8):
        for rep in range(run.n(3, 12)):
            r = ids_run(run, ['mixed', n, 60])
            if r:
                add('mixed', ['mixed', n, 60], log=r)
    for n, m in [(1, 2**20 + 1), (2, 2**22), (8, run.n(2**26 + 8 * 13, 2**30)), (32, 2**24), (64, 2**20 + 64 * 3)]:
        r = ids_run(run, ['big', n, m])
        if r:
            add('big', ['big', n, m], log=[], **r)
    ids_judge(run, 'ids', cases, t)
    # Histories of calls, with the IDs of everything made.
    run.api('histories', [apigen.history(run.rng, 'C14') for _ in range(run.n(500, 4000))], ['ids', 'same'])
    a, b = cps('a'), cps('b')
    mk = lambda to, args, names, parent: dict(o='obj', to=to, args=args, names=names, parent=parent, how='checked')
    ops = [dict(o='empty', to=2, k='arr', how='empty'), dict(o='empty', to=3, k='tup', how='empty'), dict(o='empty', to=4, k='obj', how='empty'), dict(o='arr', to=2, args=[1, 1], how='checked'),
           dict(o='tup', to=3, args=[1], how='values'), mk(4, [1], [a], 0), mk(3, [2], [b], 0), dict(o='clone', s=2, to=4), dict(o='drop', s=2), dict(o='drop', s=3), dict(o='arr', to=2, args=[1, 3], how='checked')]
    run.api_all('all-histories', dict(n=4, prefix=[dict(o='val', to=1, v=apigen.vint(7))], ops=ops, max=run.n(3, 4)), ['ids', 'same'])
    th.join()
    if 'e' in far:
        raise far['e']
    if far.get('r'):
        r = far['r']
        run.cov['far'] = r['at']
        run.stage('far', kind='instances one thread made', made=r['at'])
        ids_judge(run, 'far', [dict(id=1, k='far', args=['far'], log=[], off=max(-10**6, min(10**6, r['got'] - r['at'])), tail=r['tail'])], t)


def ids_judge(run, name, cases, t):
    path = os.path.join(WORK, 'ids-%s.ndjson' % name)
    with open(path, 'w') as f:
        for c in cases:
            f.write(json.dumps(c) + '\n')
    rc, out = vlib.tlc('OverIdsTrace', 'OverIdsTrace.cfg', env={'CASES': path}, tag=run.prop + name)
    recs = vlib.said(out)
    if rc != 0 or len({x['id'] for x in recs if x['t'] == 'judged'}) != len(cases):
        raise ToolError('TLC (%s) on ids\n%s' % (rc, out[-3000:]))
    byid = {c['id']: c for c in cases}
    for x in recs:
        if x['t'] == 'bad':
            c = byid[x['id']]
            run.violation('IDs of %s: no order of creation explains them: next %s in phase %s at %s; %s' % (
                c['args'], x['next'], x['phase'], x['at'], short({k: v for k, v in c.items() if k != 'log'})), dict(ids=c['args']), dict(c))
    g, d = vlib.stats(out)
    run.cov['states'] += d
    run.cov['transitions'] += g
    run.cov['traces'] += len(cases)
    for c in cases:
        n = c['made'] if c['k'] == 'big' else 2**32 if c['k'] == 'far' else sum(len(p) for t_ in c['log'] for p in t_)
        run.cov['evals'] += n
        run.saw(c)
    if cases:
        run.sample(dict(stage=name, args=cases[0]['args'], log=cases[0]['log']))
    run.stage(name, kind='IDs of instances made by concurrent threads, validated by TLC', runs=len(cases), s=round(time.time() - t, 1))
    os.remove(path)


# ---------------------------------------------------------------- C18: depth

def level(kind, inner, files, r):
    """inner, one construct deeper."""
    if kind == 'arr':
        return '[%s]' % inner
    if kind == 'arr2':
        return '[[] %s]' % inner if inner.startswith('[') else '[%s ]' % inner
    if kind == 'tup':
        return '(%s)' % inner
    if kind == 'tup2':
        return '(1 %s "s")' % inner
    if kind == 'obj':
        return '{a: %s}' % inner
    if kind == 'obj2':
        return '{b: 1 @g%d: %s c: 2}' % (len(files) * 100 + r.randrange(100), inner) if False else '{b: [1] a: %s c: 2}' % inner
    if kind == 'parent':
        return '{^: %s}' % inner if inner[0] in '{<' else '{a: %s}' % inner
    if kind == 'un':
        return r.choice('-+') + inner
    if kind in ('inc', 'incarr', 'inctup'):
        n = 'f%d' % len(files)
        files.append(dict(dir=[], name=n, kind='text', text=('a: %s' if kind == 'inc' else '%s') % inner))
        return '<%s"%s">' % ({'inc': '', 'incarr': 'Arr ', 'inctup': 'Tup '}[kind], n)
    if kind == 'incpath':
        # The path of an include is an expression itself.
        n = 'p%d' % len(files)
        files.append(dict(dir=[], name=n, kind='text', text='%s' % inner if False else 'a: 1'))
        return '(<Obj %s> %s)' % ('"%s"' % n, inner)
    raise ValueError(kind)


KINDS = ['arr', 'arr2', 'tup', 'tup2', 'obj', 'obj2', 'parent', 'inc', 'incarr', 'inctup', 'incpath']


def chain(kinds, leaf, r):
    files = []
    t = leaf
    for k in reversed(kinds):
        t = level(k, t, files, r)
    return dict(text='x: %s y: 1' % t, files=files, dirs=[])


LEAVES = [('1', 0), ('"s"', 0), ('[]', 1), ('{}', 1), ('()', 1), ('-1', 1), ('--1', 2), ('[-1]', 2), ('1 + -1', 1), ('2*(1).0', 1), ('[1] + [2]', 1), ('<Str "s">', 1), ('[1 2 -3 4]', 2), ('null', 0)]


def depth_docs(run):
    r = run.rng
    out = []
    for x in KINDS:
        for y in KINDS:
            for n in (61, 62, 63, 64):
                k = r.choice([1, n // 2, n - 1, r.randrange(n)])
                out.append(chain([x] * k + [y] * (n - k), '1', r))
    for leaf, d in LEAVES:
        for n in (60, 61, 62, 63, 64):
            for x in r.sample(KINDS, 2):
                out.append(chain([x] * (n - d), leaf, r))
    for _ in range(run.n(300, 4000)):
        n = r.choice([59, 60, 61, 62, 63, 63, 64, 64, 65, 70])
        leaf, d = r.choice(LEAVES)
        ks = [r.choice(KINDS) for _ in range(max(0, n - d))]
        out.append(chain(ks, leaf, r))
    # Unary signs, and mixed with containers.
    for n in (1, 2, 61, 62, 63, 64, 65, 200):
        out.append(dict(text='x: ' + '-' * n + '1'))
        out.append(dict(text='x: ' + '+' * n + '1 y: 2'))
        out.append(dict(text='y: 3 x: 1 * ' + '-' * n + 'y'))
    for k in (10, 40, 62):
        for n in (60, 61, 62, 63, 64):
            if n > k:
                out.append(chain(['arr'] * k, '-' * (n - k) + '1', r))
                out.append(chain(['inc'] * k, '-' * (n - k) + '1', r))
                out.append(chain(['tup'] * k, '2 - ' + '-' * (n - k) + '1', r))
    # Dotted accesses: through objects built one by one, and indexes that are dotted themselves.
    for n in (1, 2, 60, 61, 62, 63, 64, 65, 70):
        d = 'o0: {x: 1} ' + ' '.join('o%d: {x: @o%d}' % (i, i - 1) for i in range(1, n)) if False else \
            '@o0: {x: 1} ' + ' '.join('@o%d: {x: @o%d}' % (i, i - 1) for i in range(1, n))
        out.append(dict(text='%s r: @o%d%s' % (d, n - 1, '.x' * n)))
        for k in (1, 5, 61):
            if n > k:
                out.append(dict(text='%s r: %s@o%d%s%s' % (d, '[' * k, n - 1 - k, '.x' * (n - k), ']' * k)))
                out.append(dict(text='%s r: %s@o%d%s%s' % (d, '(' * (k - 1) + '-', n - 1 - k, '.x' * (n - k), ')' * (k - 1))))
    for n in (1, 2, 30, 61, 62, 63, 64, 65):
        d = '@z: 0 ' + ' '.join('@t%d: [%s]' % (i, '0') for i in range(3))
        out.append(dict(text='%s r: %s@z' % (d, '@t0.' * n)))
        out.append(dict(text='%s r: (%s@z)' % (d, '@t0.' * n)))
        out.append(dict(text='%s r: %s0' % (d, '@t1.' * n)))
        for k in range(4):
            # Through arrays, tuples and objects in any mixture.
            seq = ['@t0.', '@u0.', '@u1.', '@w.t.', '@w.u.']
            path = [seq[1 + k % 2]] * n if k < 2 else [r.choice(seq) for _ in range(n)]
            out.append(dict(text='%s @u0: (0) @u1: (0 1 "s") @w: {t: [0] u: (0)} r: %s%s' % (d, ''.join(path), r.choice(['0', '@z']))))
    # Repetition is no nesting.
    for n in (100, 300):
        out.append(dict(text=' '.join('x%s: [(1) {a: 2}]' % ('a' * i) for i in range(n // 5)) + ' '))
        out.append(dict(text='x: [' + '[1] ' * n + '] y: (' + '{} ' * n + ')'))
        out.append(dict(text='x: ' + '+'.join(['1'] * n) + ' y: ' + '-'.join(['-1'] * n)))
        out.append(chain(['arr'] * 61, '[1]' + ' [2]' * n, r))
        out.append(chain(['tup'] * 62, ' '.join(['1 + 1'] * n), r))
        out.append(chain(['obj'] * 61, '[1]' + ' + [2]' * n, r))
        c = chain(['inc'] * 10, '(' + '<"q"> <Arr "q2"> ' * n + ')', r)
        c['files'] += [dict(dir=[], name='q', kind='text', text='a: [[1]]'), dict(dir=[], name='q2', kind='text', text='[[1]] [[2]]')]
        out.append(c)
    # A shared file reached at different depths, the deeper first or last.
    for n in (60, 61, 62, 63):
        for ks in (['arr'] * n, ['inc'] * n, ['obj', 'inctup'] * (n // 2) + ['arr'] * (n % 2)):
            for deep_first in (0, 1):
                c = chain(ks, '<"g">', r)
                c['files'].append(dict(dir=[], name='g', kind='text', text='a: [1]'))
                c['text'] = c['text'].replace(' y: 1', ' y: <"g">') if deep_first else 'y: <"g"> ' + c['text'].replace(' y: 1', '')
                out.append(c)
    return out


def c18(run):
    cmp = ['alive', 'out', 'tree', 'kind', 'pos']
    for n, close in ((60, ']'), (61, ']')):
        run.generated('boundary-%d' % n, ['[', '(', '{a:', '-', '1', ')', '} ', close, ' ' + close * n], run.n(5, 6), cmp, prefix='x:' + '[' * n)
    run.generated('signs', ['-', '+', '1', '(', ')', ' ', 'v', '*'], run.n(5, 6), cmp, prefix='v:2 x:' + '-' * 60)
    c = depth_docs(run)
    run.docs('chains', c, cmp, big=True)
    # The same from a file.
    cs = []
    for d in run.rng.sample(c, min(len(c), run.n(250, 1500))):
        fs = [dict(f) for f in d.get('files', [])] + [dict(dir=[], name='root.over', kind='text', text=d['text'])]
        cs.append(dict(text=None, files=fs, dirs=[], root=len(fs), path='root.over'))
    run.docs('files', cs, cmp, big=True)
    if not any(v == 'MaxDepth' for v in run.outcomes) or not run.outcomes['ok']:
        raise ToolError('the depth limit was not exercised')


# ---------------------------------------------------------------- C19 and others: every character

def sweep(run, cols, deep=False):
    t = time.time()
    step = 0x110000 // 64
    bounds = [(i * step, min(0x110000, (i + 1) * step)) for i in range(65) if i * step < 0x110000]
    res, todo = {}, list(range(len(bounds)))
    lock = threading.Lock()

    def work():
        while True:
            with lock:
                if not todo:
                    return
                k = todo.pop()
            try:
                p = subprocess.run([run.binary, 'sweep', str(bounds[k][0]), str(bounds[k][1]), ','.join(map(str, cols))], preexec_fn=vlib.limits(4), timeout=400,
                                   stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 'hang'
            if rc != 0:
                run.violation('characters %x to %x: the process ends with %s' % (bounds[k] + (rc,)), dict(sweep=bounds[k]), {})
            else:
                res[k] = json.loads(p.stdout)
    ts = [threading.Thread(target=work) for _ in range(NPROC)]
    [x.start() for x in ts]
    [x.join() for x in ts]
    path, cfile = os.path.join(WORK, 'sweep-%s.ndjson' % run.prop), os.path.join(WORK, 'cols-%s.json' % run.prop)
    json.dump(dict(cols=cols, deep=deep), open(cfile, 'w'))
    with open(path, 'w') as f:
        for k in sorted(res):
            f.write(json.dumps(dict(id=k + 1, runs=res[k])) + '\n')
    if res:
        rc, out = vlib.tlc('OverSweep', 'OverSweep.cfg', env={'CASES': path, 'COLUMNS': cfile}, tag=run.prop + 'sweep', timeout=1500)
        recs = vlib.said(out)
        if rc != 0 or sum(x['t'] == 'judged' for x in recs) != len(res):
            raise ToolError('TLC (%s) on the sweep\n%s' % (rc, '\n'.join(l for l in out.splitlines() if not l.startswith('"@'))[-3000:]))
        for x in recs:
            if x['t'] == 'bad':
                run.violation('character U+%04X (and %d more up to the next difference): expected %s, got %s (columns %s)' % (
                    x['c'], x['n'] - 1, x['exp'], x['got'], [i for i in cols if x['exp'][i - 1] != x['got'][i - 1]]), dict(char=x['c']), x)
        g, d = vlib.stats(out)
        run.cov['states'] += d
        run.cov['transitions'] += g
    n = sum(r[1] - r[0] + 1 for rs in res.values() for r in rs)
    run.cov['traces'] += len(res)
    run.cov['evals'] += n * len(cols)
    run.distinct |= {('char', i) for i in range(n)}
    run.sample(dict(stage='every-character', character=233, signature=[r[2] for rs in res.values() for r in rs if r[0] <= 233 <= r[1]]))
    os.remove(path)
    run.stage('every-character', kind='what the library does with every Unicode character, judged by TLC', characters=n, uses=len(cols), exhaustive=True, s=round(time.time() - t, 1))


def c19(run):
    sweep(run, list(range(1, 13)) + [24], deep=not run.quick)
    cmp = ['alive', 'out', 'tree', 'kind']
    run.generated('fields', ['a', '_', '1', '^', '@', ':', ': 1 ', ' ', 'é', '٣', '-', 'Obj', 'null', '$'], run.n(4, 5), cmp)
    run.generated('used', ['a', '_1', '^', '@', ': 1 ', ' x: ', 'é', '.', 'Str', 'true', '`', 'Ⅷ'], run.n(4, 5), cmp, prefix='_1: {a: 5} @é: 6 ')
    cases = []
    r = run.rng
    words = ['null', 'true', 'false', 'Obj', 'Str', 'Arr', 'Tup', 'Int', 'Any', 'nul', 'nulll', 'Null', 'True', 'obj', 'OBJ', '^', '@', 'a', '_', '__', 'é', 'ß', 'ǅ', 'Ω', '中', 'ª', 'ⅷ', '٠', '१', '²', 'a\u0301', '\u0345',
             'a1', '1a', 'a-b', 'a b', 'a.b', '', 'a_', 'x' * 300, '^a', 'a^', '@a', 'a@', '@@', '@^', '^^', '@null', '@Obj', '_0', 'ａ', '𝔞', '\U0001f600', '\u200da', 'a\u200d', 'a\u00a0']
    for w in words:
        for t in ('%s: 1', 'x: {%s: 1}', '@%s: 1', '%s : 1', '%s:1', '@%s: 1 y: @%s', '%s: {} y: %s', 'o: {%s: 1} y: o.%s', '%s', '{%s}', '%s: 1 %s: 2', '%s: %s'):
            cases.append(dict(text=t.replace('%s', w)))
    alpha = ['a', 'Z', '_', '0', '9', 'é', '٣', '^', '@', '$', '-', '.', ' ', ':', '\u0301', 'ª', '中', '\n', '#', '"', '\\', '\0', '²', 'null', 'Str']
    for _ in range(run.n(1500, 15000)):
        w = ''.join(r.choice(alpha) for _ in range(r.randint(0, 4)))
        cases.append(dict(text=r.choice(['%s: 1', '@%s: 1', '{%s: 1}', 'x: {b: 2 %s: 1}', '@q: {%s: 1}']).replace('%s', w)))
    run.docs('names', cases, cmp)
    run.api('constructor', [apigen.history(r, 'C19') for _ in range(run.n(1500, 12000))], ['res', 'graph'], ['obj', 'valid', 'q'])
    mk = lambda names: dict(o='obj', to=2, args=[1] * len(names), names=[cps(n) for n in names], parent=0, how='checked')
    pool = ['a', '_', '1', '^', '', '@g', 'é', 'null', 'a b', 'b1', '²']
    ops = [mk([a, b]) for a in pool for b in pool] + [mk([a]) for a in pool] + [mk(['ok', 'a', b, c]) for b in pool for c in pool[:4]]
    run.api_all('constructor-all', dict(n=2, prefix=[dict(o='val', to=1, v=apigen.vint(7))], ops=ops, max=1), ['res', 'graph'])


# ---------------------------------------------------------------- C01: no crash

def soup(r):
    """Text without any order."""
    k = r.randrange(4)
    if k == 0:
        a = ['a', ':', ' ', '\n', '"', '\\', '[', ']', '(', ')', '{', '}', '<', '>', '+', '-', '*', '/', '%', '.', ',', '_', '1', '0', '@', '^', '#', 'é', 'Obj', 'Str', 'null']
        return ''.join(r.choice(a) for _ in range(r.randint(0, 30)))
    if k == 1:
        return ''.join(chr(r.choice([r.randrange(128), r.randrange(0x300), r.randrange(0xd800), 0x10ffff])) for _ in range(r.randint(0, 20)))
    if k == 2:
        a = ['x:', ' y:', '1', '0', '/0', '%0', '.', '-', '"a"', '[]', '[1]', '()', '(1 2)', '{}', 'x', '.x', '.0', '<"f">', '<Str "">', '^:', ' @g:', ' @g', '+', '*', ' ', '\n', '#\n']
        return ''.join(r.choice(a) for _ in range(r.randint(1, 12)))
    return 'x: ' + ''.join(r.choice('0123456789.,_-+*/% ()') for _ in range(r.randint(1, 40)))


def hostile(n):
    """Long and deep documents; by construction each loads ('ok'), is rejected ('err'), or either ('')."""
    out = []

    def add(o, text, **kw):
        out.append(dict(text=text, expect=o, **kw))
    for o, c in (('[', ']'), ('(', ')'), ('{a:', '}'), ('{^:', '}'), ('-', ''), ('+', ''), ('<', '>'), ('<Str ', '>'), ('[[] + [', ']]'), ('((', '))'), ('[{x:(', ')}]')):
        add('err', 'x:' + o * n)
        add('err', 'x:' + o * n + '1' + c * n)
        add('err', 'x:' + o * 63 + '1' + c * 62 + ' ' + o * n)
    for c in ']})>':
        add('err', 'x: 1 ' + c * n)
    for c in '.^@:,_!\\"\'|&$~`\0':
        add('' if c in '"' else 'err', 'x: ' + c * n)
        add('' if c in '"_' else 'err', c * n)
    add('err', 'x: a' + '.a' * n)
    add('err', 'a: {} x: a' + '.a' * n)
    add('err', 'a: [0] i: 0 x: ' + 'a.' * n + 'i')
    add('ok', 'x: ' + '1+' * n + '1')
    add('ok', 'x: ' + '1-' * n + '1')
    add('ok', 'x: 1' + '*1' * n)
    add('ok', 'x: 1' + '*-1' * n)
    add('ok', 'x: 1' + '/1' * n)
    add('ok', 'x: "a"' + '+"b"' * (n // 10))
    add('ok', 'x: ' + '[1]+' * (n // 100) + '[1]')
    add('ok', 'x: [' + '1 ' * n + ']')
    add('ok', 'x: (' + '() ' * n + ')')
    add('ok', 'x: [' + '[] ' * n + ']')
    add('ok', ' ' * n + '\n' * n)
    add('ok', '#' * n)
    add('ok', '# \n' * n + 'x: 1')
    add('ok', 'x: "' + 'a' * n + '"')
    add('ok', 'x: "' + '\\n' * n + '"')
    add('err', 'x: "' + 'a' * n)
    add('ok', 'x' * n + ': 1')
    add('ok', 'x: ' + '9' * 20000)
    add('ok', 'x: 0.' + '0' * 5000 + '1')
    add('err', 'x: ' + '1' * n + 'z')
    add('ok', 'x: 1 @y: [x] ' + ' '.join('@' + name(i) + ': @y' for i in range(3000)))
    add('ok', ' '.join(name(i) + ': 1' for i in range(3000)))
    add('ok', ' '.join('@%s: {x: 1}' % name(i) for i in range(n // 20)))
    add('ok', 'x: {' + ' '.join(name(i) + ': {}' for i in range(2000)) + '}')
    # Includes.
    long_ = n // 20
    fs = [dict(dir=[], name='f%d' % i, kind='text', text='x: <"f%d">' % (i + 1)) for i in range(300)]
    add('err', 'x: <"f0">', files=fs, dirs=[])
    add('err', 'x: <"f0">', files=[dict(f, text=f['text'].replace('x: <', '<Arr ')) for f in fs], dirs=[])
    fs = [dict(dir=[], name='f', kind='text', text='x: <"f">')]
    add('err', 'x: <"f">', files=fs, dirs=[])
    add('err', 'x: <Str "f"> y: <"./f">', files=fs, dirs=[])
    add('ok', 'x: (' + '<Str "f"> ' * long_ + ')', files=fs, dirs=[])
    add('ok', 'x: (' + '<Arr "g"> ' * long_ + ')', files=[dict(dir=[], name='g', kind='text', text='1 2 3')], dirs=[])
    add('err', 'x: <"' + '../' * (n // 10) + 'f">')
    add('err', 'x: <"' + 'a/' * (n // 10) + 'f">')
    add('err', 'x: <"' + 'a' * n + '">')
    for p in ('', '.', '..', '/', '/dev', 'd', 'd/', './d/.', 'nofile', 'f/', 'f/x', '\\n', ' ', 'a\0b', '\u00e9', 'bin'):
        add('' if False else 'err', 'x: <"%s">' % p, files=fs + [dict(dir=['d'], name='g', kind='text', text=''), dict(dir=[], name='bin', kind='binary')], dirs=[['d']])
        for k in ('Str', 'Arr', 'Tup', 'Obj'):
            add('err', 'x: <%s "%s">' % (k, p), files=fs + [dict(dir=['d'], name='g', kind='text', text=''), dict(dir=[], name='bin', kind='binary')], dirs=[['d']])
    for p in ('', 'd', 'nofile', 'bin', 'f/', 'd/nofile'):
        out.append(dict(text=None, path=p, expect='err', files=[dict(dir=['d'], name='g', kind='text', text=''), dict(dir=[], name='bin', kind='binary'), dict(dir=[], name='f', kind='text', text='')], dirs=[['d']]))
    # Including one another in every way.
    fs = [dict(dir=[], name='f%d' % i, kind='text', text=' '.join('x%s: <%s "f%d">' % (name(j), k, j) for j in range(i + 1, 12) for k in ('Obj',))) for i in range(12)]
    add('ok', 'x: <"f0">', files=fs, dirs=[])
    return out


def name(i):
    s = ''
    i += 1
    while i:
        i -= 1
        s = chr(97 + i % 26) + s
        i //= 26
    return 'v' + s


def limited(gb, secs):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (int(gb * 2**30), int(gb * 2**30)))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (secs, secs))
    return f


def findings_c01(run):
    """The recorded findings, each in a process of its own."""
    deep = '@a: {} ' + ' '.join('@%s: {x: %s}' % (name(i), '@' + name(i - 1) if i else '@a') for i in range(100000)) + ' r: @' + name(99999)
    double = '@a: () ' + ' '.join('@%s: (%s %s)' % (name(i), *(['@' + name(i - 1) if i else '@a'] * 2)) for i in range(40)) + ' r: @' + name(39)
    for key, text in (('deep-drop', deep), ('type-doubling', double)):
        d = os.path.join(WORK, 'run', 'C01-' + key)
        os.makedirs(os.path.join(d, 'scratch'), exist_ok=True)
        inp, outp = os.path.join(d, 'in'), os.path.join(d, 'out')
        open(inp, 'w').write(json.dumps(dict(id=1, text=text, ops=['alive'])) + '\n')
        open(outp, 'w').close()
        try:
            p = subprocess.run([run.binary, 'docs', inp, outp, os.path.join(d, 'scratch')], preexec_fn=limited(2, 120), timeout=150,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 'hang'
        got = open(outp).read()
        subprocess.run(['rm', '-rf', d])
        fine = rc == 0 and got and json.loads(got)['obs'][0]['o'] in ('ok', 'err')
        if not fine and not run.known_finding(key, ''):
            run.violation('%s: the process ends with %s' % (key, rc), dict(text=text[:300] + '...', ops=['alive']), dict(rc=rc))
        run.stage('finding-' + key, kind='a recorded finding, tried again', ends=str(rc))


def c01(run):
    r = run.rng
    mc_live(run)
    run.generated('brackets', ['[', ']', '(', ')', '{', '}', '<', '>', 'a:', '1', '"', '-', ' '], run.n(4, 5), ['alive', 'out'], prefix='x:', ops=['use'])
    run.generated('operands', ['"a"', '[1]', '[]', '2', '.5', '+', '-', '*', '/', '%', 'v', '(1)', '{}', 'null', '.', '@g'], run.n(4, 5), ['alive', 'out'], prefix='v:9 @g:0 x:', ops=['use'])
    cases = []
    for _ in range(run.n(3000, 30000)):
        g = gen.Gen(r, bad=r.choice((0, .03, .1)))
        t = g.doc()[0]
        cases.append(dict(text=gen.mutate(r, t, r.choice([1, 2, 4, 8]))))
    cases += [dict(text=soup(r)) for _ in range(run.n(4000, 40000))]
    run.docs('mutated', cases, ['alive'], ops=['use'])
    fs = [gen.filesystem(r, bad=r.choice((0, .05, .1)), cyclic=r.choice((0, .3, .8))) for _ in range(run.n(800, 6000))]
    for c in fs:
        for f in c['files']:
            if f['kind'] == 'text' and r.random() < .2:
                f['text'] = gen.mutate(r, f['text'], r.choice([1, 3])) if r.random() < .7 else soup(r)
    run.docs('files', fs, ['alive'], ops=['use'])
    # Everything once more in threads with small stacks.
    t = time.time()
    hs = hostile(run.n(100000, 1000000))
    small = [dict({k: c[k] for k in c if k in ('text', 'path', 'abs', 'root', 'files', 'dirs')}, expect='') for c in r.sample(cases, min(len(cases), 1500)) + r.sample(fs, min(len(fs), 300))]
    small += [dict(c, expect='') for c in depth_docs(run)]
    import check as checks
    small += [dict(c, expect='') for c in checks.boundaries(run, run.n(500, 8000))]
    every = hs + small
    for i, c in enumerate(every):
        c['id'], c['ops'] = i + 1, ['alive']
    r.shuffle(every)
    vlib.run_docs(run.binary, every, 'C01-hostile')
    n = 0
    for c in every:
        if c['raw'] is None:
            continue
        n += 1
        o = c['raw']['obs'][0]
        if o['o'] not in ('ok', 'err') or c['expect'] and o['o'] != c['expect'] or len(c['raw']['obs']) > 1:
            run.violation('hostile: %r: expected %s, got %s' % (show(c) if c.get('text') is None or len(c['text']) < 3000 else c['text'][:80] + '...' + c['text'][-40:], c['expect'] or 'an answer', short(o)), public(c) if len(str(c.get('text'))) < 20000 else dict(head=c['text'][:200]), o)
        run.outcomes[o['o']] += 1
        run.saw([c['text'] if c['text'] is None or len(c['text']) < 500 else [c['text'][:60], len(c['text'])], c.get('files')])
    run.cov['evals'] += n
    run.stage('hostile', kind='long, deep and broken documents and files loaded, written, compared and dropped in threads with 2 MB of stack', cases=n, s=round(time.time() - t, 1))
    findings_c01(run)


def mc_live(run):
    """Every load comes to an end, and the machine always knows what to do: on the model."""
    t = time.time()
    lex = run.n(['a:', '1', '[', ']', '{', '}', '"', ' ', '-', '.', '<'], ['a:', '1', '[', ']', '{', '}', '"', ' ', '-', '.', '<', '(', '@', '^:'])
    for name_, prefix, m in (('ends', '', run.n(4, 5)), ('ends-deep', 'x:' + '[' * 61, run.n(3, 4))):
        recs, states = run.tlc_gen(name_, 'OverGen', dict(lexemes=[cps(x) for x in lex], max=m, rt=False, prefix=cps(prefix), names=True), 800, 'OverGenLive.cfg')
        run.stage(name_, kind='the model alone: every load ends, and no input is left unhandled', states=states, s=round(time.time() - t, 1))


PLANS = dict(C01=c01, C07=c07, C14=c14, C18=c18, C19=c19)
