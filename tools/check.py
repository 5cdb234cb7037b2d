#!/usr/bin/env python3
"""check <property>: decides one property on /repo's working tree.  See DESIGN.md."""
import json, os, random, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, gen, apigen, scale
HERE = vlib.HERE
from engine import Run, ToolError, txt, cps, public, show, untree

ALL = ['alive', 'out', 'graph', 'refs', 'kind', 'args', 'pos']


# ---------------------------------------------------------------- sources of random documents

def rdocs(run, n, mut=0.3, bad=(0, 0.01, 0.05), **w):
    out = []
    for _ in range(n):
        g = gen.Gen(run.rng, bad=run.rng.choice(bad), **w)
        t, _m = g.doc()
        if run.rng.random() < mut:
            t = gen.mutate(run.rng, t, run.rng.choice([1, 1, 2, 3]))
        out.append(dict(text=t))
    return out


def rfiles(run, n, bad=(0, 0.02), cyclic=(0, 0.1, 0.3), **w):
    return [gen.filesystem(run.rng, bad=run.rng.choice(bad), cyclic=run.rng.choice(cyclic), **w) for _ in range(n)]


def scaled(run, pick=None):
    return [dict(text=t) for t in scale.scale(run.rng, run.n(1, 4))]


def histories(run, n, focus):
    return [apigen.history(run.rng, focus) for _ in range(n)]


# ---------------------------------------------------------------- the checks

def c02(run):
    cmp = ['alive', 'out', 'tree']
    run.generated('structure', ['a:', 'b:', '1', ' ', '{', '}', '[', ']', '"s"', '#c\n', '(', ')'], run.n(5, 6), cmp, names=True)
    run.generated('literals', ['x:', 'y: ', ' null', ' true', '"', '1', '.', ' false ', '\n', '\\', 'l', '^:{}'], run.n(4, 5), cmp, names=True)
    run.generated('brackets', ['[', ']', '(', ')', '{', '}', '1', ' ', '>', '<'], run.n(6, 7), cmp, prefix='x:')
    run.docs('random', rdocs(run, run.n(2500, 20000), mut=0.5), cmp)
    run.generated('comments', ['#', '\r', '\n', ' a:', ' b:', '1', '\u2028', '\x85', '"', '}', '\x0b'], run.n(5, 6), cmp, prefix='x: 1')
    run.docs('files', rfiles(run, run.n(300, 2500)), cmp)
    run.docs('scale', scaled(run), cmp)
    run.docs('edges', edge_docs() + edge_files(), cmp)
    plans2.sweep(run, [13, 14, 15, 19])


EDGES = ['\ufeff', '\0', '\r', '\n', '\r\n', '\x85', '\u2028', '\u2029', '\xa0', '\u200b', '\u2060', '\x1a', '\x04', '\x0b', '\x0c', '\x1c', '\x1f', '\ufffe', '\ufffd', '\u3000', ' ', '\t',
         '\x7f', '#', '#!x\n', '\u180e', '\ufeff\ufeff', '\ufeff ', ' \ufeff', '\n\ufeff', '\\', '\'', '\ue000', '\n\n', ' \n', '\x1b', '\xad', '\U000e0001']


def edge_docs():
    """Characters that could be taken for something else at the edges of a text or of a file."""
    out = []
    for e in EDGES:
        for b in ('', 'a: 1', 'a: "s"', 'a: b', 'a: {}'):
            for t in {e + b, b + e, e + b + e, b[:2] + e + b[2:]}:
                out.append(dict(text=t))
                out.append(dict(text=t, asfile=True))
    return out


def edge_files():
    out = []
    for e in EDGES:
        for k, bs in (('Str', ('', 'a: 1', 'é')), ('Obj', ('', 'a: 1')), ('Arr', ('', '1 2', '"s"')), ('Tup', ('', '1 "s"', 'null'))):
            for b in bs:
                for t in {e + b, b + e, b[:1] + e + b[1:]}:
                    out.append(dict(text='x: <%s "f"> y: 1' % k, files=[dict(dir=[], name='f', kind='text', text=t)], dirs=[]))
    return out


def c03(run):
    cmp = ['alive', 'out', 'graph']
    run.generated('scopes', ['a:', 'b:', ' a ', ' b ', ' @a ', '@a:', '@b:', '{', '} ', ' 1 ', ' 2 ', '[', '] '], run.n(6, 7), cmp, names=True)
    run.generated('inner', [' a ', ' b ', '@a ', '@a:', 'a:', 'b:', 'c:', '{', '} ', ' 3 ', '(', ') '], run.n(5, 6), cmp, prefix='a:1 @g:{a:7 b:8} b:{', names=True)
    run.generated('deep', [' a ', ' @a ', ' g ', ' @g ', ' b ', ' @b ', ' h ', ' @h ', ' c ', ' d ', ') ', '] ', '} ', ' d:'], run.n(4, 5), cmp,
                  prefix='a:1 @g:2 x:{b:3 @h:4 y:[{c:5 z:(', names=True)
    run.docs('levels', levels(run, run.n(2500, 20000)), cmp)
    run.docs('random', rdocs(run, run.n(2000, 16000), mut=0.2, cross=0.03, var=9, glob=7, defglobal=4, obj=6, dot=2, expr=1), cmp)
    run.docs('files', rfiles(run, run.n(500, 4000), var=9, glob=7, defglobal=4), cmp)
    run.docs('scale', scaled(run), cmp)


def levels(run, n):
    """Objects in one another, all with names of their own, and one use of some name somewhere inside."""
    r = run.rng
    out = []
    for _ in range(n):
        depth = r.randint(1, 6)
        same = r.random() < .3
        loc = ['p' if same and r.random() < .5 else 'l%s' % 'abcdefgh'[i] for i in range(depth + 1)]
        glo = ['g%s' % 'abcdefgh'[i] for i in range(depth + 1)]
        if r.random() < .3:
            glo = [g if r.random() < .5 else l for g, l in zip(glo, loc)]
            glo = [g if g not in glo[:i] else 'g%s' % 'abcdefgh'[i] for i, g in enumerate(glo)]
        used = r.choice(loc + glo)
        use = r.choice(['', '@']) + used
        t = r.choice(['%s', '%s', '%s', '[%s]', '(1 %s)', '1+%s', '-%s', '%s*2', '{u: %s}', '{^: %s}', '[0 1].%s' if False else 'k.%s', '<Str %s>', '%s+1', '%s.a', '[%s %s]']).replace('%s', use)
        k = 'k: [5 6 7 8] '
        t = k + 'v: ' + t + r.choice(['', ' w: ' + use])
        for i in range(depth, -1, -1):
            val = r.choice(['%d' % (i % 4), '%d' % (i % 4), '{a: 1}', '"s"'])
            d = ['%s: %s' % (loc[i], val), '@%s: %s' % (glo[i], r.choice(['%d' % (i + 1), val]))]
            r.shuffle(d)
            c = r.randint(0, 2)
            before, after = ' '.join(d[:c]), ' '.join(d[c:])
            inner = t
            if i < depth:
                w = r.choice(['{%s}', '{%s}', '[{%s}]', '({%s})', '[[{%s}]]', '(1 {%s} 2)'])
                inner = '%s: %s' % (r.choice(['o', '^' if w == '{%s}' else 'o', '@o%s' % 'abcdefgh'[i]]), w % t)
            t = ' '.join(x for x in (before, inner, after) if x)
        out.append(dict(text=t))
    return out


def c04(run):
    cmp = ['alive', 'out', 'graph']
    pre = 'o:{a:[1 2] b:{c:(3 4 5) n:1 i:-1} n:1} n:0 @g:o h:{^:@g m:2 a:[7]} '
    run.generated('paths', ['x:', 'o', 'h', '@g', '.', 'a', 'b', 'c', 'n', '0', '1', ' '], run.n(5, 6), cmp, prefix=pre + 'x:')
    run.generated('elements', ['o.a.', 'o.b', 'h.', 't.', '.', 'i', 'n', '1', '2', '-', '@i', ' y:', '0.', 'o.'], run.n(4, 5), cmp,
                  prefix='o:{a:[1 2] b:{c:(3 4 5) n:1 i:-1} n:1} n:0 i:1 @i:2 t:((1 2) [3] {n:[5 6]}) @o:o h:{^:@o} x:')
    run.docs('indices', indices(run), cmp)
    run.docs('random', rdocs(run, run.n(2200, 16000), mut=0.25, dot=14, var=2, glob=3, obj=5, arr=5, tup=4, parent=2, defglobal=3), cmp)
    run.docs('files', rfiles(run, run.n(250, 2000), dot=10), cmp)
    run.docs('scale', scaled(run), cmp)


def indices(run):
    """Every container and kind of index, near every power of two at which an index could wrap."""
    out = []
    for n in range(-9, 10):
        for c in ('[5 6]', '(5 "s")', '[]', '()', '{}', '[1 2 3 4 5]', '(1 2 3 4 5)', '[[1] [2]]', '[7]', '(7)', '[1 2 3 4 5 6 7 8]', '"abc"', '5'):
            for x in ['i', '@i', '%d' % n, 'o.i', '-i', '(i)', '%d.0' % n] + ['0%d' % n, '0_%d' % n] * (n >= 0):
                out.append(dict(text='c: %s i: %d @i: %d o: {i: %d} x: c.%s y: 1' % (c, n, n, n, x)))
    for k in (0, 7, 8, 15, 16, 31, 32, 33, 62, 63, 64, 65, 96, 127, 128, 200):
        for d in (-2, -1, 0, 1, 2):
            for n in {2**k + d, -(2**k + d), 3 * 2**k + d}:
                for c in ('[5 6]', '(5 "s")', '[]', '()', '{}'):
                    out.append(dict(text='c: %s i: %d @i: %d x: c.%s' % (c, n, n, run.rng.choice(['i', '@i', '%d' % n, '%s%d' % (run.rng.choice(['', '0', '0_0']) if n >= 0 else '', n)]))))
    return out


def boundaries(run, n):
    """Every operation on numbers at the edges of the native types."""
    r = run.rng
    core = sorted({x * f for x in (0, 1, 2, 3, 10, 2**7, 2**8 - 1, 2**15, 2**16, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53, 2**62, 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 1, 2**64, 2**127, 2**128) for f in (1, -1)})
    edge = {f * (2**k + d) for k in (7, 8, 15, 16, 24, 31, 32, 33, 53, 62, 63, 64, 65, 96, 127, 128, 256) for d in (-1, 0, 1) for f in (1, -1)} | {f * (10**k + d) for k in (4, 9, 18, 19, 38) for d in (-1, 0, 1) for f in (1, -1)}
    edge = sorted(edge)
    pairs = [(a, b) for a in core for b in core] + [(r.choice(edge), r.choice(edge)) for _ in range(n)]

    def lit(x):
        return '%d' % x if r.random() < 0.85 else '%s%d.%s' % ('-' if x < 0 else '', abs(x), r.choice(['0', '', '5', '25']))
    out, fields = [], []

    def flush():
        if fields:
            out.append(dict(text='\n'.join('f%d: %s' % f for f in enumerate(fields))))
            fields.clear()
    for a, b in pairs:
        for op in '+-*/%':
            if b == 0 and op in '/%' or (op == '%' and False):
                out.append(dict(text='x: %d%s%d' % (a, op, b)))
                continue
            x, y = ('%d' % a, '%d' % b) if op == '%' else (lit(a), lit(b))
            fields.append(r.choice(['%s%s%s', '%s%s%s', '%s%s%s', '(%s%s%s 1)', '[%s%s%s]']) % (x, op, y))
            if len(fields) == 40:
                flush()
    flush()
    return out


def c05(run):
    cmp = ['alive', 'out', 'tree']
    run.generated('operators', ['2', '3', '0.5', '+', '-', '*', '/', '%', '0', ' y:'], run.n(5, 6), cmp, prefix='x:7')
    run.generated('operands', ['"a"', '[1]', '["b"]', '[]', '2', '.5', '+', '*', '-', '%', '/', 'v', '@g', '(1)', 'null', '{}'], run.n(4, 5), cmp,
                  prefix='v:9 @g:-4 x:')
    run.generated('signs', ['-', '+', '2', '3.5', 'v', '*', '/', ' ', '('], run.n(6, 7), cmp, prefix='v:9 x:')
    cases = rdocs(run, run.n(2500, 20000), mut=0.15, expr=14, unary=3, int=3, frac=3, arr=1, tup=1, obj=1, parent=0, bigint=2, deepval=1)
    run.docs('random', cases, cmp)
    run.docs('boundaries', boundaries(run, run.n(500, 8000)), cmp)
    run.docs('scale', scaled(run), cmp)


def c06(run):
    cmp = ['alive', 'out', 'tree', 'kind', 'args']
    run.generated('arrays', ['[', ']', '(', ')', ' ', '1', '1.', '"s"', '{}', 'null'], run.n(6, 7), cmp, prefix='x:[')
    run.generated('concat', ['[', ']', '+', '1 ', '"s" ', 'a', 'b', 'c', 'd', '() '], run.n(5, 6), cmp, prefix='a:[] b:[[]] c:[([] 1)] d:[[1]] x:')
    for k, lex in enumerate([['(1 [])', '([] 1)', '([2] 1)', '([] [])', '(1 1)', '("s" [])', '([] ["s"])', '([[]] [1])', ']', '['],
                             ['[]', '[[]]', '[[1]]', '[([] [])]', '[([1] [])]', '[([] [1])]', '[(["s"] [])]', '([] [] 1)', '([] [2] 1)', '([1] [] 1)', '([] [] [])', ']+[', ']']]):
        run.generated('shapes-%d' % k, [' ' + x for x in lex], run.n(4, 5), cmp, prefix='x: [')
    cases = rdocs(run, run.n(1800, 14000), mut=0.3, arr=12, tup=6, obj=1, expr=4, null=2)
    cases += [dict(text=t) for t in family_docs(run, run.n(1500, 12000))]
    # Arrays of arbitrary elements: half of them have no common type.
    for _ in range(run.n(1200, 10000)):
        cases.append(dict(text='x: [%s] y: %s' % (' '.join(shape(run.rng, 3) for _ in range(run.rng.randint(0, 4))),
                                                  '+'.join('[%s]' % shape(run.rng, 2) for _ in range(run.rng.randint(1, 3))))))
    run.docs('random', cases, cmp)
    run.docs('files', rfiles(run, run.n(400, 3000), arr=8, tup=5), cmp)
    run.docs('array-files', array_files(run, run.n(1500, 10000)), cmp)
    run.docs('scale', scaled(run), cmp)
    run.api('constructors', histories(run, run.n(400, 3000), 'C06'), ['res', 'graph'], ['arr', 'arrU', 'q', 'tup'])


def array_files(run, n):
    """The elements of an array in a file of their own (or in several, which are added)."""
    r = run.rng
    fam = [t[4:t.index('] y: ')] for t in family_docs(run, n // 2)] + [' '.join(shape(r, 3) for _ in range(r.randint(0, 4))) for _ in range(n - n // 2)]
    out = []
    for i, t in enumerate(fam):
        k = r.choice(['Arr', 'Arr', 'Arr', 'Tup'])
        u = r.choice(fam) if r.random() < .2 else t
        txt_ = r.choice(['x: <%s "f">', 'x: <%s "f"> + [%s]', 'x: [<%s "f"> [%s]]', 'x: <%s "f"> + <%s "g">', 'x: [<%s "f"> <%s "g">]', 'x: (<%s "f">).0.0 y: [<%s "f"> [%s]]'])
        n_ = txt_.count('%s')
        txt_ = txt_ % tuple([k] + [k if '<%s "g">' in txt_ or j == 1 and n_ == 3 else t for j in range(1, n_)])
        out.append(dict(text=txt_, files=[dict(dir=[], name='f', kind='text', text=t), dict(dir=[], name='g', kind='text', text=u)], dirs=[]))
    return out


def shape(r, depth):
    """A value of some type, mostly empty arrays, arrays and tuples."""
    k = r.randrange(9 if depth else 3)
    if k < 2:
        return r.choice(['1', '1', '2', '"s"', '1.5', 'null', 'true', '{}'])
    if k == 2:
        return '[]'
    if k < 6:
        e = shape(r, depth - 1)
        return '[%s]' % ' '.join([e] * r.randint(1, 2))
    return '(%s)' % ' '.join(shape(r, depth - 1) for _ in range(r.randint(0, 3)))


def family_docs(run, n):
    """Arrays whose elements are variants of one value in which arrays are emptied (and seldom another value stands)."""
    r = run.rng

    def base(d):
        k = r.randrange(6)
        if d == 0 or k == 0:
            return r.choice(['1', '"s"', '2.5', 'null', '{}'])
        if k < 3:
            return ('[', [base(d - 1)])
        return ('(', [base(d - 1) for _ in range(r.randint(1, 4))])

    def variant(b, p, q):
        if r.random() < q:
            return r.choice(['1', '"s"', '[]', '()', '[[]]'])
        if isinstance(b, str):
            return b
        if b[0] == '[':
            return '[]' if r.random() < p else '[%s]' % ' '.join(variant(b[1][0], p, q) for _ in range(r.randint(1, 2)))
        return '(%s)' % ' '.join(variant(x, p, q) for x in b[1])
    out = []
    for _ in range(n):
        b, p, q = base(3), r.choice([.2, .5, .7]), r.choice([0, 0, .03])
        xs = [variant(b, p, q) for _ in range(r.randint(2, 6))]
        i = r.randint(1, len(xs) - 1)
        out.append('x: [%s] y: [%s]+[%s]' % (' '.join(xs), ' '.join(xs[:i]), ' '.join(xs[i:])))
    return out




def v(to, val):
    return dict(o='val', to=to, v=val)


def c08(run):
    cmp = ['alive', 'out', 'graph']
    run.generated('parents', ['^:', 'a:', 'b:', ' 1 ', ' 2 ', '{', '} ', ' a ', ' b ', 'a.', '@p '], run.n(6, 7), cmp, prefix='@p:{a:5 c:6} ')
    run.docs('random', rdocs(run, run.n(1000, 8000), mut=0.2, obj=8, parent=4, fields=5, dot=4), cmp)
    a, b, c = cps('a'), cps('b'), cps('c')
    mk = lambda to, args, names, parent: dict(o='obj', to=to, args=args, names=names, parent=parent, how='checked')
    ops = [mk(2, [1], [a], 0), mk(3, [1], [b], 2), mk(2, [], [], 3), mk(3, [4], [a], 3), mk(4, [1, 2], [c, a], 2)]
    ops += [dict(o='get', s=s, name=n, to=5) for s in (2, 3) for n in (a, b)]
    ops += [dict(o='src', s=s, name=n, to=5, to2=6) for s in (3, 4) for n in (a, c)]
    ops += [dict(o='parent', s=3, to=6), dict(o='has', s=3, name=a), dict(o='q', s=3), dict(o='asf', s=3, name=a, ty='int', to=5), dict(o='drop', s=2)]
    run.api_all('histories', dict(n=6, prefix=[v(1, apigen.vint(7)), v(4, apigen.vint(8))], ops=ops, max=run.n(3, 4)), ['res', 'graph', 'refs'])
    run.api('objects', histories(run, run.n(700, 5000), 'C08'), ['res', 'graph'], ['get', 'src', 'parent', 'has', 'q', 'asf', 'obj'])


def inc_params(names, root, max_root, max_, strs, spell=0, linked=True):
    dirs = {()}
    files, links, alias = [], [], []
    if linked:
        # A second name for every file in a directory as deep as its own, and links to directories.
        for d, n, k in names:
            i = len(alias) + 1
            d2 = ['k'] * len(d)
            for j in range(len(d2) + 1):
                dirs.add(tuple(d2[:j]))
            links.append(dict(dir=d2, name='%d' % i, kind='link', target=i, to=[]))
            alias.append([d2 + ['%d' % i]])
            if d:
                links.append(dict(dir=[], name='l%d' % i, kind='dirlink', target=0, to=d))
                alias[-1].append(['l%d' % i, n])
                alias[-1].append(['l%d' % i] + ['..'] * len(d) + d + [n])
    else:
        alias = [[]] * len(names)
    for d, n, k in names:
        for i in range(len(d) + 1):
            dirs.add(tuple(d[:i]))
        files.append(dict(dir=[cps(x) for x in d], name=cps(n), kind=k))
    return dict(files=files, dirs=[[cps(x) for x in d] for d in sorted(dirs)], root=root, maxRoot=max_root, max=max_, strs=strs, spell=spell,
                links=[dict(l, dir=[cps(x) for x in l['dir']], name=cps(l['name']), to=[cps(x) for x in l['to']], text=[]) for l in links],
                alias=[[[cps(x) for x in p] for p in a] for a in alias])


THREE = [([], 'm.over', 'obj'), (['d'], 'p.over', 'arr'), (['d', 'e'], 'q.over', 'tup')]
TWO = [([], 'm.over', 'obj'), (['d'], 'p.over', 'tup')]


def c09(run):
    cmp = ['alive', 'out', 'graph']
    for k in range(run.n(1, 7)):
        run.includes('graphs' + (str(k) if k else ''), inc_params(THREE, 0, 2, 1, True, run.seed + k), cmp)
    for k in range(run.n(2, 7)):
        run.includes('graphs-file%d' % k, inc_params(TWO, 1, 2, run.n(1, 2), True, run.seed + 1 + k), cmp)
    run.docs('files', rfiles(run, run.n(1200, 10000), bad=(0, 0, 0.02), cyclic=(0, 0, 0.1), inc=14), cmp + ['kind'])
    run.docs('places', places(), cmp)
    run.docs('names', named(run), cmp + ['kind'])
    run.docs('edges', edge_files(), cmp + ['kind'])
    lex = ['<', '>', 'Obj', 'Str', ' ', '"f"', '"d/g"', '"no"', '1', '"d/../f"', 'Arr', 'Tup ', '"', 'b']
    fs = [dict(dir=[], name='f', kind='text', text='a: 1'), dict(dir=['d'], name='g', kind='text', text='1 2'), dict(dir=[], name='b', kind='text', text='')]
    cases = []
    for _ in range(run.n(900, 6000)):
        cases.append(dict(text='b: "f" x: <' + ''.join(run.rng.choice(lex) + run.rng.choice(['', ' ']) for _ in range(run.rng.randint(0, 4))) + run.rng.choice(['>', '>', '> y: <Str "f">', '']),
                          files=fs, dirs=[[], ['d']]))
    run.docs('malformed', cases, cmp + ['kind'])


def places():
    """A name that exists in some of the directories, included from each of them with every spelling."""
    ds = [[], ['d'], ['d', 'e']]
    out = []
    for sub in range(8):
        fs = [dict(dir=ds[i], name='f', kind='text', text='"%d"' % i) for i in range(3) if sub >> i & 1]
        # Through links: a directory that leads two down, one that leads back up, a file elsewhere.
        ls = [dict(dir=[], name='l', kind='dirlink', to=['d', 'e']), dict(dir=['d'], name='u', kind='dirlink', to=[])]
        ls += [dict(dir=['d'], name='g', kind='link', target=1)] if fs else []
        for inc in range(3):
            for sp in ('l/f', 'l/../f', 'l/../../f', 'l/..', 'l', 'l/g', 'u/f', 'u/u/f', 'u/l/f', 'u/d/f', 'u/d/u/d/g', '../u/f', '../l/f', '../../l/../f', 'd/u/f', 'd/u/../f',
                       'd/g', 'g', '../g', './/l//..//f', HERE + '/d/f', HERE + '/l/../f', HERE + '/../scratch/f', '/' + HERE + '/./f', '../scratch/f', '../../scratch/d/u/f', HERE, '/',
                       '/../..' + HERE + '/f', 'd/../../scratch/l/../u/f'):
                m = dict(dir=ds[inc], name='m', kind='text', text='x: <Str "%s">' % sp)
                p = '/'.join((['l'] if inc == 2 and len(sp) % 2 else ds[inc]) + ['m'])
                out.append(dict(text='a: <"%s"> b: <Tup "f">' % p, files=fs + [m] + ls, dirs=ds))
        for inc in range(3):
            for sp in ('f', './f', '../f', '../../f', 'd/f', 'e/f', 'd/e/f', './d/../f', '../d/f', 'e/../f', '../d/e/f', '../../d/e/f', '', '.', '..', 'f/', 'f/.', 'd'):
                m = dict(dir=ds[inc], name='m', kind='text', text='x: <Str "%s">' % sp)
                p = '/'.join(ds[inc] + ['m'])
                out.append(dict(text='a: <"%s"> b: <Tup "f">' % p, files=fs + [m], dirs=ds))
                if inc < 2:
                    out.append(dict(text=None, files=fs + [m], dirs=ds, root=len(fs) + 1, path=p))
    return out


NAMES = ['a', 'a ', ' a', ' a ', 'A', 'a.over', 'a.OVER', 'a.', '.a', '..a', 'a..', '...', '~', '~a', '$a', '${a}', '%61', 'a%20', '*', '?', '[a]', '{a}', '#', 'a#b', '<a>', '|', '-', '-a', '\\', 'a\\b', '"', "'", ':', 'C:', 'file:a',
         'a\nb', 'a\n', '\na', '\t', 'a\r', 'é', 'e\u0301', '漢', '\ufeffa', 'a\ufeff', '\xa0', 'a\u3000', '\u200b', 'Str', 'Obj', 'a' * 200, 'a' * 255, 'null', '1', '1.5', '@', '^', 'a,b', 'a;b', 'a+b', 'a b c']


def named(run):
    """Files of every kind of name, included by exactly that name and by ones that look like it."""
    def spelled(n):
        return '"%s"' % ''.join({'\\': '\\\\', '"': '\\"', '\n': '\\n' if run.rng.random() < 0.5 else '\n', '\t': '\\t', '\r': '\\r'}.get(c, c) for c in n)
    every = [dict(dir=[], name=n, kind='text', text='"%d"' % i) for i, n in enumerate(NAMES)]
    out = []
    for i, n in enumerate(NAMES):
        for fs in (every, [every[i]], every[:i] + every[i + 1:]):
            for k in ('Str', 'Tup'):
                out.append(dict(text='x: <%s %s>' % (k, spelled(n)), files=fs, dirs=[]))
        for m in (n.strip(), n + ' ', ' ' + n, n.upper(), n + '.over', './' + n, n + '/', n + '\n', '\ufeff' + n, n.replace('\\', '/'), n[:-1], n + '\0', n + n):
            if m != n:
                out.append(dict(text='x: <Str %s>' % spelled(m), files=[every[i]], dirs=[]))
                out.append(dict(text='x: <Str %s>' % spelled('d/' + m), files=[dict(every[i], dir=['d'])], dirs=[['d']]))
        out.append(dict(text='x: <"d/m">', files=[dict(every[i], dir=['d']), dict(dir=['d'], name='m', kind='text', text='y: <Arr %s> z: <Str %s>' % (spelled(n), spelled('../d/' + n)))], dirs=[['d']]))
        out.append(dict(text='x: <Tup %s>' % spelled(n + '/f'), files=[dict(dir=[n], name='f', kind='text', text='<Str %s>' % spelled('../' + n + '/g')), dict(dir=[n], name='g', kind='text', text='g')], dirs=[[n]]))
    return out


def c10(run):
    cmp = ['alive', 'out', 'kind', 'pos']
    for root, mr, m, st in run.n([(0, 2, 1, True), (1, 2, 1, True)], [(0, 2, 2, True), (1, 2, 1, True), (0, 1, 2, True)]):
        run.includes('graphs-%d%d%d' % (root, mr, m), inc_params(THREE, root, mr, m, st, run.seed), cmp)
    run.docs('files', rfiles(run, run.n(1200, 10000), bad=(0,), cyclic=(0, 0.1, 0.3, 0.6), inc=14), cmp)
    # Long cycles and long chains.
    cases = []
    for n in [1, 2, 3, 5, 10, 20, 40, 60, 61, 62, 63]:
        for back in {1, n, (n + 1) // 2}:
            for tok in ('', 'Obj '):
                fs = [dict(dir=['d%d' % (i % 3)], name='f%d' % i, kind='text', text='x: <%s"../d%d/f%d">' % (tok, (i + 1) % 3, i + 1)) for i in range(1, n + 1)]
                fs[-1]['text'] = 'x: <"../d%d/f%d">' % (back % 3, back)
                ok = [dict(f) for f in fs]
                ok[-1]['text'] = 'x: <Str "./f%d">' % n if False else 'x: 1 y: 2'
                for f in (fs, ok):
                    cases.append(dict(text='r: <"d1/f1"> s: <"d1/f1">', files=f, dirs=[['d0'], ['d1'], ['d2']]))
    for k in (2, 30, 80):
        cases.append(dict(text=' '.join('x%d: <"f">' % i for i in range(k)) + ' y: <Arr "g">', dirs=[],
                          files=[dict(dir=[], name='f', kind='text', text='a: <Arr "g"> b: <Str "g">'), dict(dir=[], name='g', kind='text', text='<Str "g2"> ' * k),
                                 dict(dir=[], name='g2', kind='text', text='z')]))
    run.docs('chains', cases, cmp)


def c11(run):
    run.generated('writable', ['a:', 'b:', ' 1', ' -2', ' .5', '"s', '\\\\', '\\"', '$', '\'', '\\n', '" ', '[', ']', '(', ')', '{', '} ', '^:', ' '],
                  run.n(4, 5), ['alive', 'out', 'graph'], rt=True)
    cases = rdocs(run, run.n(1500, 10000), mut=0.1, bad=(0, 0, 0.01), parent=2, null=2, esc=2, frac=4, unary=2, bigint=2)
    cases += scaled(run)
    cases += [dict(text=t) for t in char_docs(run)]
    cases += [dict(text=t) for t in deep_docs(62)]
    run.docs('written', cases, ['alive', 'out', 'tree'], ops=['write', 'tree'])
    run.round_trips('written', cases, True, False)
    files = rfiles(run, run.n(300, 2000), bad=(0,), cyclic=(0,))
    run.docs('files', files, ['alive', 'out', 'tree'], ops=['write', 'tree'])
    run.round_trips('files', files, True, False)
    api_written(run, run.n(500, 3000), 'C11')
    plans2.sweep(run, [23, 24])


def c12(run):
    run.generated('displayed', ['a:', '1', '-2', '.5', '"s', '\\\\', '\\"', '$', '" ', '[', ']', '(', ')', '{', '}', '^:{}', ' ', 'null', '/3'],
                  run.n(4, 5), ['alive', 'out', 'graph'], prefix='x:', rt=True)
    cases = rdocs(run, run.n(700, 5000), mut=0.1, bad=(0, 0, 0.01), parent=2, null=2, esc=2, frac=4, unary=2, bigint=2, fields=4)
    cases += [dict(text=t) for t in char_docs(run)]
    cases += [dict(text=t) for t in scale.scale(run.rng, 1)]
    cases += [dict(text=t) for t in deep_docs(60)]
    for c in cases:
        c['dmax'] = 25
    run.docs('displayed', cases, ['alive', 'out', 'tree'], ops=['display', 'tree'])
    run.round_trips('displayed', cases, False, True)
    api_written(run, run.n(500, 3000), 'C12')
    plans2.sweep(run, [25, 26])


def char_docs(run):
    """Strings made of every kind of character."""
    out = []
    chars = [chr(c) for c in list(range(0, 0x180)) + [0x2028, 0x2029, 0xfeff, 0xfffd, 0xd7ff, 0xe000, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x301, 0x200b]]
    chars = [c for c in chars if c not in '"\\']
    for i in range(0, len(chars), 40):
        out.append('s: "%s"' % ''.join(chars[i:i + 40]))
    for e in gen.ESCAPES:
        for f in gen.ESCAPES:
            out.append('s: "%s%s" t: "a%s" u: "%sb"' % (e, f, f, e))
    return out


def deep_docs(n):
    out = []
    for o, c in (('[', ']'), ('(', ')'), ('{a: ', '}'), ('{^: {b: 1} a: ', '}')):
        for k in (1, 2, 10, n - 2, n - 1, n):
            out.append('x: ' + o * k + '1' + c * k)
    for k in (5, n - 2, n):
        out.append('x: ' + '{^: ' * k + '{}' + '}' * k)
    return out


def api_written(run, n, focus):
    h = histories(run, n, focus)
    cases, raw = run.api('api', h, ['res', 'graph'], ['write'])
    second = []
    for c in cases:
        for k, o in enumerate(raw[c['id']]['obs']):
            for w in o.get('written') or []:
                second.append((c, k, w))
    # What was written by objects that may be written must define them, by the specification too.
    uniq = {}
    for c, k, w in second:
        if not w['eq']:
            continue
        want = [8, 0, 1, 1, 120] + w['want'] if w['ctx'] == 'display' else w['want']
        uniq.setdefault(w['text'], dict(text=w['text'], cmp=['out', 'tree'], obs=[dict(o='ok', t=want, how=w['ctx'])]))
    jobs = list(uniq.values())[:run.n(3000, 30000)]
    for i, j in enumerate(jobs):
        j['id'] = i + 1
    t = time.time()
    vd = vlib.judge(jobs, run.prop + '-apiw')
    for c, r in vd.bad:
        run.violation('api: the written text %r does not define the object written: %s' % (c['text'], json.dumps(r['exp'])[:200]), c, r)
    run.cov['states'] += vd.states
    run.cov['transitions'] += vd.transitions
    run.cov['traces'] += len(jobs)
    run.stage('api/written', kind='texts written by API histories, judged by TLC', texts=len(jobs), s=round(time.time() - t, 1))


def c13(run):
    cmp = ['alive', 'out', 'graph', 'refs']
    run.generated('sharing', ['a:', 'b:', '@g:', ' @g ', ' a ', ' b ', '[', '] ', '{', '} ', '^:', '(', ') ', '+', 'a.0 '], run.n(5, 6), cmp, prefix='a:[(1)] ')
    run.generated('results', ['e', 's', '+', '[t]', '[]', '[o]', ' c:', ' d:', '[c]', '[()]', 'd', '@g', '(t c)', '+a.s', 'p'], run.n(4, 5), cmp, prefix='@t:(1) t:@t e:[] o:{a:@t} s:[t] @s:s a:{s:@s} p:[o o] @g:[[t]] c:')
    run.docs('random', rdocs(run, run.n(1800, 14000), mut=0.1, bad=(0, 0.01), var=10, glob=6, dot=8, parent=2, arr=5, tup=4, obj=5), cmp)
    run.docs('added', added(run, run.n(1200, 10000)), cmp)
    run.docs('grown', grown(run, run.n(500, 5000)), cmp)
    run.docs('files', rfiles(run, run.n(500, 4000), inc=14, bad=(0,), cyclic=(0,)), cmp)
    ops = [dict(o='tup', to=2, args=[1, 1], how='values'), dict(o='arr', to=3, args=[2, 2], how='checked'), dict(o='obj', to=4, args=[2, 3], names=[cps('a'), cps('b')], parent=0, how='checked'),
           dict(o='obj', to=2, args=[3], names=[cps('a')], parent=4, how='checked'), dict(o='clone', s=4, to=3), dict(o='clone', s=2, to=5), dict(o='drop', s=2), dict(o='drop', s=4),
           dict(o='idx', s=3, i=apigen.limbs(0), to=5), dict(o='get', s=4, name=cps('a'), to=5), dict(o='src', s=2, name=cps('b'), to=5, to2=3), dict(o='parent', s=2, to=5),
           dict(o='cmp', s=3, s2=5), dict(o='empty', to=3, k='arr', how='empty')]
    run.api_all('histories', dict(n=5, prefix=[v(1, apigen.vint(7)), dict(o='tup', to=2, args=[1], how='values')], ops=ops, max=run.n(3, 4)), ['res', 'graph', 'refs', 'same'], resops=['cmp'])
    run.api('random-histories', histories(run, run.n(600, 5000), 'C13'), ['res', 'graph', 'refs', 'same'], ['cmp'])


def added(run, n):
    """Arrays of containers that have names, added, put into one another, and taken apart."""
    r = run.rng
    out = []
    for _ in range(n):
        k = r.choice(['tup', 'obj', 'arr'])
        base = [dict(tup='(%d "s")', obj='{a: %d}', arr='[%d]')[k] % i for i in range(2)]
        t = 'm: %s n: %s e: [] @m: m o: {e: [] m: @m l: [@m @m]} a: [m] b: [n m]' % tuple(base)
        arrs = ['e', 'a', 'b', '[]', '[m]', '[m n m]', 'o.e', 'o.l', '[o.m]', '[%s]' % base[0], '@g']
        t = t.replace(' a: [m]', ' @g: [n] a: [m]')
        names = []
        for i in range(r.randint(1, 5)):
            x = '+'.join(r.choice(arrs) for _ in range(r.randint(1, 4)))
            nm = 'x%d' % i
            t += ' %s: %s' % (nm, r.choice(['%s', '%s', '%s', '(%s m)', '{q: %s r: m}']) % x)
            if x and t.endswith(x):
                arrs.append(nm)
        out.append(dict(text=t))
    return out


def grown(run, n):
    """Arrays (and strings) of many lengths, and what is added to them."""
    r = run.rng
    out = []
    for i in range(n):
        k = r.choice(['1', '1', '"s"', '[]', '(1)', '{}'])
        def lit(m):
            return '[%s]' % ' '.join([k] * m)
        if r.random() < .15:
            def lit(m):
                return '"%s"' % ('ab' * m)
        m = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 64, 65, 100])
        t = r.choice(['a: %s', '@a: %s a: @a', 'a: ' + lit(1) + ' + %s', 'a: <Arr "f">' if lit(0) == '[]' else 'a: <Str "f">', 'q: {z: %s} a: q.z', 'q: (%s) a: q.0', 'q: %s + ' + lit(2) + ' a: q'])
        text = t.replace('%s', lit(m))
        names = ['a']
        for j in range(r.randint(1, 5)):
            x = r.choice(names)
            e = r.choice(['%s+%s' % (x, lit(r.randint(0, 3))), '%s+%s' % (x, lit(r.randint(0, 3))), '%s+%s' % (lit(1), x), '%s+%s' % (x, r.choice(names)), '%s+%s+%s' % (x, lit(1), lit(1)), '[%s %s]' % (x, x), '(%s+%s).0' % (x, x), '{k: 1}'])
            text += ' b%d: %s' % (j, e)
            if e[0] not in '({[' or e.startswith('[1') and '+' in e:
                names.append('b%d' % j)
        c = dict(text=text)
        if '"f"' in text:
            c.update(files=[dict(dir=[], name='f', kind='text', text=lit(m)[1:-1])], dirs=[])
        out.append(c)
    return out


def c15(run):
    cmp = ['alive', 'out', 'eqm']
    vals = ['1', '1.0', '2/2', '"1"', 'true', 'null', '[]', '[1]', '[[]]', '()', '(1)', '{}', '{a:1}', '{a:1 b:2}', '{b:2 a:1}', '{^:{}}', '{^:{} a:1}', '{^:{a:1}}', '[1 2]', '(1 2)', '(2 1)',
            '{^:{^:{}}}', '[()]', '({})', '{a:{}}', '{a:()}', '-0', '0', '0.0', '""', '{a:1.0}', '[1.0]', '(1 2 3)', '{^:{a:1} b:2}', '[{}]', '[{^:{}}]']
    cases = []
    for i in range(0, len(vals), 4):
        for j in range(i, len(vals), 4):
            s = vals[i:i + 4] + vals[j:j + 4]
            cases.append(dict(text=' '.join('f%d: %s' % (k, x) for k, x in enumerate(s))))
    cases += [dict(text=t) for t in twins(run, run.n(900, 8000))]
    cases += chained(run, run.n(600, 5000))
    run.docs('matrix', cases, cmp, ops=['eqm'])
    run.docs('random', rdocs(run, run.n(1000, 8000), mut=0, bad=(0,), bigint=0, var=6, fields=10), cmp, ops=['eqm', 'again'])
    mk = lambda to, args, names, parent: dict(o='obj', to=to, args=args, names=names, parent=parent, how='checked')
    a, b = cps('a'), cps('b')
    ops = [mk(2, [1], [a], 0), mk(3, [1], [a], 0), mk(3, [1], [a], 2), mk(2, [1, 4], [a, b], 0), mk(3, [4, 1], [b, a], 0), mk(2, [], [], 3),
           dict(o='tup', to=2, args=[1, 4], how='values'), dict(o='tup', to=3, args=[1, 4], how='values'), dict(o='arr', to=3, args=[1], how='checked'), dict(o='tup', to=2, args=[3], how='values'),
           dict(o='arrU', to=2, args=[1], keep=0), dict(o='arrU', to=3, args=[4], keep=0), dict(o='empty', to=2, k='arr', how='empty'), dict(o='arr', to=2, args=[2], how='checked'),
           dict(o='cmp', s=2, s2=3), dict(o='cmp', s=3, s2=2)]
    run.api_all('histories', dict(n=4, prefix=[v(1, apigen.vint(7)), v(4, apigen.vfrac(apigen.Fraction(7)))], ops=ops, max=run.n(4, 5)), ['res'], resops=['cmp'])
    run.api('random-histories', histories(run, run.n(600, 5000), 'C15'), ['res'], ['cmp', 'natc'])


def chained(run, n):
    """Chains of parents that differ at one link, or in where the chain ends."""
    r = run.rng
    out = []

    def obj(ch, wrap):
        t = ''
        for fs in ch:
            t = '{%s}' % ' '.join((['^: ' + t] if t else []) + ['%s: %s' % f for f in fs])
        return wrap % t
    for _ in range(n):
        ch = [[(f, r.choice(['1', '[]', '()', '{}', '"s"'])) for f in r.sample('abc', r.choice([0, 1, 1, 2]))] for _ in range(r.randint(1, 6))]
        wrap = r.choice(['%s', '%s', '[%s]', '(%s)', '{x: %s}', '{^: {y: %s}}'])
        vs = [ch, ch]
        for _ in range(3):
            c = [list(fs) for fs in ch]
            i, k = r.randrange(len(c)), r.randrange(6)
            if k == 0 and c[i]:
                c[i][0] = (c[i][0][0], r.choice(['2', '[]', '1', '({})']))
            elif k == 1:
                c[i].append(('z', '1'))
            elif k == 2 and c[i]:
                c[i].pop()
            elif k == 3:
                c.insert(i, [])
            elif k == 4 and len(c) > 1:
                c.pop(i)
            elif len(c) > 1:
                i = min(i, len(c) - 2)
                c[i], c[i + 1] = c[i + 1], c[i]
            vs.append(c)
        out.append(dict(text='\n'.join('f%d: %s' % (i, obj(c, wrap)) for i, c in enumerate(vs))))
    return out


def twins(run, n):
    """Fields that are equal or differ in one place."""
    out = []
    for _ in range(n):
        g = gen.Gen(run.rng, bad=0, bigint=0, var=0, glob=0, dot=0, maxdepth=3, fields=4, unary=0, expr=0, comment=0, uni=0)
        t = g.v_obj({}, {}, 1)[0] if run.rng.random() < .5 else g.value({}, {}, 1)[0]
        fs = [t, t]
        for _ in range(2):
            x = t
            k = run.rng.randrange(5)
            if k == 0 and any(ch.isdigit() for ch in x):
                ds = [i for i, ch in enumerate(x) if ch.isdigit()]
                i = run.rng.choice(ds)
                x = x[:i] + run.rng.choice('0123456789') + x[i + 1:]
            elif k == 1 and x.startswith('{'):
                x = '{z9: 1 ' + x[1:]
            elif k == 2 and x.startswith('{'):
                x = x[:-1] + ' z9: null}'
            elif k == 3 and x.startswith('{') and '^' not in x:
                x = '{^: {} ' + x[1:]
            elif k == 4 and x[0] in '([':
                x = x[:-1] + ' ' + run.rng.choice(['1', '[]', 'null']) + x[-1]
            fs.append(x)
        out.append('\n'.join('f%d: %s' % (i, x) for i, x in enumerate(fs)))
    return out


def c16(run):
    get = ['as', 'asf', 'idx']
    a = cps('a')
    scalars = [apigen.vint(3), apigen.vint(2**70), apigen.vfrac(apigen.Fraction(1, 3)), apigen.vfrac(apigen.Fraction(4)), apigen.vstr('1'), apigen.vbool(True), apigen.NULL]
    h = []
    for val in scalars + ['arr', 'tup', 'obj', 'arr1', 'tup2', 'objp']:
        for ty in apigen.GET_TYPES:
            pre = [v(1, val)] if isinstance(val, dict) else [v(2, apigen.vint(1))] + {
                'arr': [dict(o='empty', to=1, k='arr', how='empty')], 'tup': [dict(o='empty', to=1, k='tup', how='empty')], 'obj': [dict(o='empty', to=1, k='obj', how='empty')],
                'arr1': [dict(o='arr', to=1, args=[2], how='checked')], 'tup2': [dict(o='tup', to=1, args=[2, 2], how='values')],
                'objp': [dict(o='obj', to=1, args=[2], names=[a], parent=0, how='checked')]}[val]
            ops = pre + [dict(o='as', s=1, to=3, ty=ty), dict(o='obj', to=4, args=[1], names=[a], parent=0, how='checked'), dict(o='asf', s=4, to=5, ty=ty, name=a),
                         dict(o='obj', to=6, args=[], names=[], parent=4, how='checked'), dict(o='asf', s=6, to=7, ty=ty, name=a), dict(o='asf', s=6, to=7, ty=ty, name=cps('b')),
                         dict(o='asf', s=6, to=7, ty=ty, name=[])]
            if not isinstance(val, dict):
                ops += [dict(o='idx', s=1, to=8, i=apigen.limbs(i)) for i in (0, 1, 2, 3, 255, 256, 2**32, 2**63, 2**64 - 1)]
            h.append((8, ops))
    for n in (0, 1, 2, 5):
        for k in ('arr', 'tup'):
            ops = [v(1, apigen.vint(1)), dict(o=k, to=2, args=[1] * n, how='checked' if k == 'arr' else 'values')]
            ops += [dict(o='idx', s=2, to=3, i=apigen.limbs(i)) for i in list(range(n + 3)) + [2**31, 2**32, 2**32 + 1, 2**64 - 1]]
            h.append((3, ops))
    run.api('table', h, ['res', 'graph'], get)
    run.api('random-histories', histories(run, run.n(1200, 9000), 'C16'), ['res', 'graph'], get)
    mk = lambda to, args, names, parent: dict(o='obj', to=to, args=args, names=names, parent=parent, how='checked')
    ops = [mk(3, [1], [a], 0), mk(3, [2], [a], 3), dict(o='tup', to=4, args=[3, 1], how='values'), dict(o='arr', to=4, args=[3], how='checked'),
           dict(o='asf', s=3, to=5, ty='frac', name=a), dict(o='asf', s=3, to=5, ty='int', name=a), dict(o='as', s=4, to=5, ty='tup'), dict(o='as', s=4, to=5, ty='obj'),
           dict(o='idx', s=4, to=5, i=[1]), dict(o='as', s=5, to=2, ty='frac'), dict(o='as', s=1, to=2, ty='frac'), dict(o='as', s=2, to=1, ty='int')]
    run.api_all('histories', dict(n=5, prefix=[v(1, apigen.vint(7)), v(2, apigen.vfrac(apigen.Fraction(1, 2)))], ops=ops, max=run.n(3, 4)), ['res', 'graph'], resops=get)


def c17(run):
    cmp = ['alive', 'out', 'kind', 'pos']
    run.generated('positions', ['a:', 'é', ' ', '\n', '1', '{', '}', '"', '\\', '!', '#é\n', '+', '[', ']', '\r\n'], run.n(4, 5), cmp, prefix='é:"é\n" ')
    run.generated('operators', ['1', '"s"', '+', '-', '*', '/0', '\n', '[', '] ', 'x', '.0', ' '], run.n(5, 6), cmp, prefix='a:1\n ü:(1 2)\n\tb:', names=True)
    run.generated('precedence', ['1', '"s"', '+', '*', '[]', '-', '/', '%', '(1)'], run.n(5, 6), cmp, prefix='a:1\n b: ')
    run.generated('precedence2', ['1', '"s"', ' + ', '*', '[]', '- ', 'a'], run.n(6, 7), cmp, prefix='a:1\n b:1')
    cases = rdocs(run, run.n(2500, 20000), mut=0.7, bad=(0.05, 0.1, 0.02))
    cases += mixed_ops(run, run.n(800, 8000))
    cases += [dict(text=t) for t in ('a\nb: 1', 'x: "\\\n"', 'a: 1\nb\n: 2')]
    run.docs('random', cases, cmp)
    run.docs('files', rfiles(run, run.n(800, 6000), bad=(0.05, 0.1), cyclic=(0, 0.2)), cmp)
    run.docs('scale', [dict(text=t + s) for t in scale.scale(run.rng, 1) for s in ('\n!', ' é: zz')], cmp)
    plans2.sweep(run, [21, 22])


def mixed_ops(run, n):
    """Long operations with a wrong operand somewhere."""
    r = run.rng
    out = []
    for _ in range(n):
        k = r.randint(2, 9)
        xs = [r.choice(['1', '2', '0.5', '7', '-3', 'n', 'o.n']) for _ in range(k)]
        for _ in range(r.choice([1, 1, 2])):
            xs[r.randrange(k)] = r.choice(['"s"', '[]', '[1]', '()', 'null', '{}', 'o', '0', '-"s"', 'zz', 'true', '"a"+"b"'])
        t = xs[0]
        for x in xs[1:]:
            t += r.choice(['', ' ', '\n']) + r.choice('+-*/%') + r.choice(['', ' ']) + x
        out.append(dict(text='n: 4 o: {n: 5}%sx: %s y: 1' % (r.choice([' ', '\n', '\té: 1 ']), t)))
    return out


def c20(run):
    cmp = ['alive', 'out', 'tree', 'kind']
    run.generated('strings', ['\\', '"', 'n', 't', 'r', '$', "'", 'a', '\n', '#', 'é', ' ', 'y:'], run.n(5, 6), cmp, prefix='x:"')
    run.generated('context', ['"', '\\\\', '\\"', '\\n', '{', ']', 'x', ' ', '+', '#"\n', '\u2028', '\0', '\r'], run.n(4, 5), cmp, prefix='k:["')
    cases = rdocs(run, run.n(2000, 16000), mut=0.3, str=20, esc=2, fields=4, maxdepth=2)
    cases += [dict(text=t) for t in char_docs(run)]
    run.docs('random', cases, cmp)
    run.docs('files', rfiles(run, run.n(250, 2000), str=12), cmp)
    run.docs('scale', scaled(run), cmp)
    plans2.sweep(run, [16, 17, 18])


def c21(run):
    cmp = ['alive', 'out', 'tree']
    run.generated('numbers', ['0', '1', '7', '.', ',', '_', '90', ' ', 'a', 'y:'], run.n(6, 7), cmp, prefix='x:')
    run.generated('signed', ['-', '0', '5', '.', '_', '25', ']', ' ', '٣', 'e', '+', '(', '/'], run.n(4, 5), cmp, prefix='x:[')
    cases = rdocs(run, run.n(1500, 10000), mut=0.4, int=15, frac=15, bigint=3, str=0, obj=1, var=0, glob=0, dot=0, fields=5)
    for _ in range(run.n(1500, 12000)):
        a, b = number(run.rng), number(run.rng)
        cases.append(dict(text='x: %s y: %s' % (a, b)))
    run.docs('random', cases, cmp)
    run.docs('scale', scaled(run), cmp)
    plans2.sweep(run, [20])


def number(r):
    k = r.randrange(5)
    n = r.choice([1, 2, 3, 5, 9, 10, 16, 17, 18, 19, 20, 25, 40, 80])
    s = ''.join(r.choice('0123456789') for _ in range(n))
    if r.random() < .3:
        s = r.choice('019') * n
    if k >= 2:
        i = r.randint(0, len(s))
        s = s[:i] + r.choice('.,') + s[i:]
    if r.random() < .3:
        s = '0' * r.choice([1, 2, 20]) + s
    if r.random() < .3 and '.' in s:
        s = s + '0' * r.choice([1, 2, 20])
    if r.random() < .3:
        for _ in range(r.randint(1, 3)):
            i = r.randint(0, len(s))
            s = s[:i] + r.choice(['_', '_', '_', '__', '.', 'a', ',']) + s[i:]
    return r.choice(['', '', '-', '+']) + s


def c23(run):
    h = []
    # Every native type at its edges against values at and around them.
    vals = [apigen.vint(n) for n in apigen.EDGES] + [apigen.vfrac(apigen.Fraction(n)) for n in (0, 1, 255, 2**63)] + [apigen.vfrac(apigen.Fraction(1, 2)), apigen.vstr('1'), apigen.vstr(''), apigen.vbool(True), apigen.vbool(False), apigen.NULL]
    for val in vals:
        ops = [v(1, val)]
        n = None
        if val['t'] == 'int':
            n = sum(l * 10000**i for i, l in enumerate(val['i']['m'])) * (-1 if val['i']['neg'] else 1)
        for ty, (lo, hi) in apigen.INT_TYPES.items():
            xs = {lo, hi, 0, 1}
            if n is not None:
                xs.add((n - lo) % (hi - lo + 1) + lo)
            if val['t'] == 'bool':
                xs |= {0, 1}
            ops += [dict(o='nat', s=1, ty=ty, v=apigen.vint(x)) for x in sorted(xs)]
        ops += [dict(o='nat', s=1, ty='big', v=apigen.vint(x)) for x in ([n, n + 1, -n] if n is not None else [0, 1])]
        ops += [dict(o='nat', s=1, ty='frac', v=apigen.vfrac(f), **raw) for raw in ({}, dict(raw=6)) for f in ([apigen.Fraction(n)] if n is not None else []) + [apigen.Fraction(0), apigen.Fraction(1, 2), apigen.Fraction(255)]]
        ops += [dict(o='nat', s=1, ty=t, v=apigen.vstr(s)) for t in ('str', 'string') for s in ('', '1', 'true', 'null')]
        ops += [dict(o='nat', s=1, ty='bool', v=apigen.vbool(b)) for b in (True, False)]
        h.append((2, ops))
    for ty, (lo, hi) in apigen.INT_TYPES.items():
        ops = []
        for n in sorted({lo, lo + 1, -1 if lo < 0 else 1, 0, 1, hi - 1, hi, hi // 2, hi // 2 + 1}):
            ops += [dict(o='from', to=1, ty=ty, v=apigen.vint(n)), dict(o='as', s=1, to=2, ty='int'), dict(o='as', s=1, to=2, ty='frac'), dict(o='nat', s=1, ty=ty, v=apigen.vint(n)), dict(o='q', s=1)]
        h.append((2, ops))
    for ty, vs in dict(big=[apigen.vint(x) for x in apigen.EDGES], frac=[apigen.vfrac(f) for f in apigen.FRACS], str=[apigen.vstr(s) for s in apigen.STRS],
                       string=[apigen.vstr(s) for s in apigen.STRS], bool=[apigen.vbool(True), apigen.vbool(False)]).items():
        for val in vs:
            h.append((2, [dict(o='from', to=1, ty=ty, v=val), dict(o='as', s=1, to=2, ty=val['t']), dict(o='nat', s=1, ty=ty, v=val)] + [dict(o='nat', s=1, ty=ty, v=val, raw=k) for k in (2, 10) if ty == 'frac'] + [dict(o='q', s=1)]))
    run.api('table', h, ['res', 'graph'], ['from', 'nat', 'natc', 'as', 'q'])
    run.api('random-histories', histories(run, run.n(1500, 12000), 'C23'), ['res', 'graph'], ['from', 'nat', 'natc', 'as'])


def changed(r, c):
    d = json.loads(json.dumps(c))
    fs = [f for f in d['files'] if f.get('kind') == 'text' and f.get('text')]
    if not fs:
        return []
    f = r.choice(fs)
    t = list(f['text'])
    for i in r.sample(range(len(t)), min(len(t), 8)):
        if t[i].isascii() and t[i].isalnum():
            t[i] = r.choice('0123456789') if t[i].isdigit() else r.choice('abxyz')
    f['text'] = ''.join(t)
    return [d, json.loads(json.dumps(c))]


def c22(run):
    # All cases of a process run one after another in the same directory, with files of the same names.
    cases = rfiles(run, run.n(1500, 10000), cyclic=(0, 0.1, 0.4), bad=(0, 0.05)) + rdocs(run, run.n(800, 6000), mut=0.4)
    run.rng.shuffle(cases)
    # The same files again with a little other content of the same length, and once more as they were.
    more = []
    for c in cases:
        more.append(c)
        if c.get('files') and run.rng.random() < .5:
            more += changed(run.rng, c)
    cases = more
    run.docs('one-process', cases, ALL, ops=['again', 'write', 'again'], blocks=True)
    for k in range(run.n(1, 4)):
        cs = [c for c in rfiles(run, 60, cyclic=(0, 0.3), bad=(0, 0.03)) + rdocs(run, 60, mut=0.3)]
        for c in cs:
            if c.get('path'):
                f = c['files'][c['root'] - 1]
                c['path'], c['abs'] = '/'.join(f['dir'] + [f['name']]), True
        # Relative includes of a string are taken from the working directory, which threads share.
        cs = [c for c in cs if c.get('root') or not c.get('files')]
        for i, c in enumerate(cs):
            c['id'], c['ops'], c['cmp'] = i + 1, [], list(ALL)
        t = time.time()
        try:
            raw = vlib.run_docs(run.binary, cs, 'conc-%d' % k, mode='conc')
        except vlib.Died as e:
            run.violation(str(e), dict(texts=[show(c) for c in cs]), {})
            continue
        for c in cs:
            run.prepare(c)
        vd = vlib.judge(cs, 'C22-conc')
        for c, r in vd.known:
            pass
        for c, r in vd.bad:
            run.violation('concurrent loads: %r differs in %s: %s, got %s' % (show(c), r['comps'], json.dumps(r['exp'])[:300], json.dumps(c['obs'][r['n'] - 1])[:300]), public(c), r)
        for c in cs:
            if len(c['obs']) != 1:
                run.violation('concurrent loads: %r has %d different outcomes' % (show(c), len(c['obs'])), public(c), c['obs'])
        run.cov['traces'] += len(cs)
        run.cov['evals'] += len(cs) * 8 * 20
        run.cov['states'] += vd.states
        run.cov['transitions'] += vd.transitions
        run.stage('concurrent', kind='every case loaded 160 times by 8 threads; every distinct outcome judged by TLC', cases=len(cs), s=round(time.time() - t, 1))


def c24(run):
    cmp = ['alive', 'out', 'kind', 'args', 'pos']
    run.generated('defects', ['a:', '1', '"s"', '[', ']', '{', '}', ' ', '+', '.', 'x', '@', '!', '-'], run.n(4, 5), cmp, prefix='x:(1) ', names=True)
    run.generated('defects2', ['a ', 'x', '.', '0', '/', '%', '^:', ' ', '<', '>', '(', ')', 'null', '"q"'], run.n(4, 5), cmp, prefix='x:[1] a:', names=True)
    cases = rdocs(run, run.n(2500, 20000), mut=0.6, bad=(0.05, 0.1, 0.02))
    run.docs('random', cases, cmp, ops=[])
    run.docs('files', rfiles(run, run.n(500, 4000), bad=(0.05, 0.1), cyclic=(0, 0.2)), cmp, ops=[])
    # Anything that follows the offending construct (on a line of its own) changes nothing.
    rej = [c for c in cases if c['obs'][0]['o'] == 'err' and c['obs'][0]['kind'] not in ('End', '?')][:run.n(1500, 12000)]
    more = []
    for c in rej:
        # Keep everything up to the end of the line of the error; replace the rest.
        lines = c['text'].split('\n')
        o = c['obs'][0]
        for tail in run.rng.sample(['', '!', '}', 'a: 1', '"', '# x', '{{{{', 'é: ]', '\\', '<"x">'], 2):
            more.append(dict(text=c['text'] + '\n' + tail, first=o))
    run.docs('suffix', more, cmp, ops=[])


def c25(run):
    cmp = ['alive', 'out', 'graph', 'refs']
    run.docs('used', rdocs(run, run.n(1500, 12000), mut=0.1, bad=(0, 0.01), var=8, glob=5, dot=6, parent=2, expr=4, arr=5), cmp, ops=['again', 'use', 'write'])
    run.docs('files', rfiles(run, run.n(400, 3000), bad=(0,), cyclic=(0,), inc=10), cmp, ops=['again', 'use'])
    run.docs('grown', grown(run, run.n(800, 8000)), cmp, ops=['again', 'use'])
    run.generated('operands', ['a', 'b', '+', '[1]', '[] ', ' c:', ' d:', '@g', '(', ') ', '^:o ', '{', '}', 'o.a '], run.n(4, 5), cmp, prefix='a:[] b:[1 2] @g:[[]] o:{a:@g b:[3]} c:', ops=['use'])
    run.api('random-histories', histories(run, run.n(900, 7000), 'C25'), ['graph', 'ids'])
    a, b = cps('a'), cps('b')
    mk = lambda to, args, names, parent: dict(o='obj', to=to, args=args, names=names, parent=parent, how='checked')
    ops = [mk(3, [2], [a], 0), mk(4, [3, 2], [a, b], 3), dict(o='tup', to=4, args=[3, 2], how='values'), dict(o='arr', to=5, args=[3], how='checked'), dict(o='arr', to=5, args=[5, 2], how='checked'),
           dict(o='clone', s=3, to=5), dict(o='drop', s=3), dict(o='cmp', s=4, s2=5), dict(o='write', s=4), dict(o='get', s=3, name=a, to=5), dict(o='q', s=4)]
    run.api_all('histories', dict(n=5, prefix=[v(1, apigen.vint(7)), dict(o='arr', to=2, args=[1], how='checked')], ops=ops, max=run.n(3, 4)), ['graph', 'ids'])


import plans2  # noqa: E402  (the checks with machinery of their own)

PLANS = dict(C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C08=c08, C09=c09, C10=c10, C11=c11, C12=c12, C13=c13, C15=c15, C16=c16,
             C17=c17, C20=c20, C21=c21, C22=c22, C23=c23, C24=c24, C25=c25)
PLANS.update(plans2.PLANS)
LEVEL = {'C14': 'model_checking', 'C01': 'model_checking'}


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PLANS:
        print('usage: check <%s> [--replay FILE]' % '|'.join(sorted(PLANS)))
        return 2
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    run = Run(prop, 'thorough' if tier == 'thorough' else 'quick', seed)
    try:
        run.binary = vlib.build()
        run.log('built')
        if len(sys.argv) > 3 and sys.argv[2] == '--replay':
            return replay(run, sys.argv[3])
        PLANS[prop](run)
    except ToolError as e:
        print('TOOL ERROR', e, file=sys.stderr)
        if not run.violations:
            return 2
    run.finish(LEVEL.get(prop, 'model_checking'))
    return 1 if run.violations else 0


def replay(run, path):
    """Shows what the library does now on a recorded case, next to what the specification says."""
    r = json.load(open(path))
    c = r['case']
    print(r['what'])
    if 'text' not in c and 'ops' not in c:
        PLANS[run.prop](run)
        return 1 if run.violations else 0
    if 'text' in c:
        cases = [dict(c)]
        run.docs('replay', cases, ALL + ['tree'], ops=c.get('ops') or ['use'])
        print(json.dumps(cases[0]['obs'], indent=1)[:3000])
    elif 'ops' in c:
        n = c.get('n', 8)
        run.api('replay', [(n, list(c.get('prefix', [])) + list(c['ops']))], ['res', 'graph', 'refs', 'ids', 'same'])
    return 1 if run.violations else 0


if __name__ == '__main__':
    sys.exit(main())
