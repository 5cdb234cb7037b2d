"""Generators of documents.  Every random choice comes from the rng handed in."""
from fractions import Fraction
import random

SPACES = [' ', '\n', '\t', '\r\n', '  ', '\n\n', '\u00a0', '\u2003', '\u3000', '\u0085', '\u2028', '\x0b', '\x0c']
COMMENTS = ['#\n', '# c\n', '# } ] ) > "\n', '#a: 1\n', '## é漢\n', '# "\\\n']
NAME_FIRST = 'abcdefgxyzABCQ_' + 'éßΩж漢ªǅ𝒳ͅ'
NAME_REST = NAME_FIRST + '0123456789' + 'ⅷ'
RESERVED = ['null', 'true', 'false', 'Obj', 'Str', 'Arr', 'Tup']
STR_CHARS = list('abz 019_.,:;#@^$%&*()[]{}<>/|!?=+-~`') + ["'", '\n', '\t', '\r', '\u0000', '\u0001', '\x7f',
             '\u0085', 'é', '漢', '😀', '\u2028', '\ufeff', '\ufffd', '\U0010ffff', '\u0301', 'Ǆ', '\r\n']
ESCAPES = {'\\\\': '\\', '\\"': '"', "\\'": "'", '\\$': '$', '\\n': '\n', '\\r': '\r', '\\t': '\t'}


class M:
    """Rough model of a value, enough to write meaningful uses of it."""
    __slots__ = ('k', 'v', 'items', 'fields', 'parent', 'depth')

    def __init__(self, k, v=None, items=None, fields=None, parent=None):
        self.k, self.v, self.items, self.fields, self.parent = k, v, items, fields, parent
        self.depth = 1 + max([x.depth for x in (items or [])] + [x.depth for x in (fields or {}).values()]
                             + ([parent.depth] if parent else []) + [0]) if k in ('arr', 'tup', 'obj') else 0

    def sig(self):
        if self.k == 'arr':
            return ('arr', next((i.sig() for i in self.items), None))
        if self.k == 'tup':
            return ('tup',) + tuple(i.sig() for i in self.items)
        return self.k

    def all_fields(self):
        r, o = {}, self
        while o:
            for n, v in o.fields.items():
                r.setdefault(n, v)
            o = o.parent
        return r


DEFAULT = dict(ws=3, uni=1, bad=0.02, maxdepth=4, fields=6, elems=4,
               null=1, bool=1, int=4, frac=2, str=3, arr=3, tup=2, obj=3, var=4, glob=2, dot=3, unary=1,
               expr=2, inc=0, defglobal=2, parent=1, bigint=1, esc=1, comment=1, deepval=6, cross=0)


class Gen:
    def __init__(self, rng, **kw):
        self.r = rng
        self.w = dict(DEFAULT)
        self.w.update(kw)
        self.names = []         # every name given to anything so far
        self.inc_targets = []   # (path text, kind token or None, model) usable includes

    # ---------------------------------------------------------------- pieces
    def p(self, x):
        return self.r.random() < x

    def ws(self, must=True):
        r, w = self.r, self.w['ws']
        if w == 0 or self.p(0.6):
            return ' ' if must else ''
        out = '' if not must else r.choice(SPACES[:6])
        for _ in range(r.randint(0, w)):
            if self.w['comment'] and self.p(0.25):
                out += r.choice(COMMENTS) if self.p(0.6) else self.comment()
            else:
                out += r.choice(SPACES if self.w['uni'] else SPACES[:6])
        return out

    def comment(self):
        """Anything up to the end of the line."""
        return '#' + ''.join(self.r.choice(['\r', ' y:', '2'] + STR_CHARS) for _ in range(self.r.randint(0, 5))).replace('\n', '') + '\n'

    def newname(self, used):
        r = self.r
        while True:
            if self.w['uni'] and self.p(0.2):
                n = r.choice(NAME_FIRST) + ''.join(r.choice(NAME_REST) for _ in range(r.randint(0, 3)))
            else:
                n = r.choice('abcdxyz_') + r.choice(['', '', '1', '_', 'b', 'Obj', 'null'])
            if n not in used and n not in RESERVED:
                self.names.append(n)
                return n

    def digits(self, n):
        return ''.join(self.r.choice('0123456789') for _ in range(n))

    def under(self, s):
        """Single underscores between (or after) characters."""
        if not self.p(0.2):
            return s
        out = s[0]
        for c in s[1:]:
            if self.p(0.3):
                out += '_'
            out += c
        return out + ('_' if self.p(0.2) else '')

    def int_lit(self):
        r = self.r
        x = r.random()
        if x < 0.5:
            s = str(r.randint(0, 12))
        elif x < 0.8 or not self.w['bigint']:
            s = str(r.choice([100, 255, 256, 999, 10000, 65536, 99999999, 2**31 - 1, 2**31, 2**32, 123456]))
        else:
            s = r.choice([str(2**63 - 1), str(2**63), str(2**64 - 1), str(2**64), str(2**64 + 1), str(10**18),
                          self.digits(r.randint(15, 45)), '9' * r.randint(5, 40), '1' + '0' * r.randint(4, 40)])
        if self.p(0.08):
            s = '0' * r.randint(1, 6) + s
        return self.under(s), M('int', Fraction(int(s)))

    def frac_lit(self):
        r = self.r
        a = r.choice(['', '0', '1', '2', '10', '007', self.digits(r.randint(1, 25 if self.w['bigint'] else 4))])
        b = r.choice(['', '0', '5', '25', '125', '50', '10', '000', self.digits(r.randint(1, 22 if self.w['bigint'] else 4))])
        if a == '' and b == '':
            b = '5'
        v = Fraction(int((a + b) or '0'), 10 ** len(b))
        s = a + r.choice(['.', '.', '.', ',']) + b
        if s[0] not in '.,' or True:
            s = self.under(s)
        return s, M('frac', v)

    def str_lit(self):
        r = self.r
        n = r.choice([0, 1, 2, 3, 5, 8, 20])
        src, val = '', ''
        for _ in range(n):
            if self.w['esc'] and self.p(0.2):
                e = r.choice(list(ESCAPES))
                src += e
                val += ESCAPES[e]
            else:
                c = r.choice(STR_CHARS if self.w['uni'] else STR_CHARS[:28])
                src += c
                val += c
        return '"' + src + '"', M('str', val)

    # ---------------------------------------------------------------- values
    # ctx: fields of the innermost object, globals, nesting level, and a wanted type signature.
    def value(self, scope, globs, depth, want=None):
        r, w = self.r, self.w
        if self.p(w['bad']):
            return self.bad_value(scope, globs, depth)
        if w['cross'] and self.names and self.p(w['cross'] * depth):
            # A name of anything so far, whether it can be seen from here or not.
            n, t = r.choice(self.names), r.choice(['', '@'])
            return t + n, (globs if t else scope).get(n, M('null'))
        if want is not None:
            return self.of_sig(scope, globs, depth, want)
        kinds = ['null', 'bool', 'int', 'frac', 'str', 'var', 'glob', 'dot', 'unary', 'expr', 'inc']
        if depth < w['maxdepth']:
            kinds += ['arr', 'tup', 'obj']
        ws_ = [w[k] for k in kinds]
        for _ in range(20):
            k = r.choices(kinds, ws_)[0]
            x = getattr(self, 'v_' + k)(scope, globs, depth)
            if x is not None:
                return x
        return self.int_lit()

    def v_null(self, *a):
        return 'null', M('null')

    def v_bool(self, *a):
        b = self.p(0.5)
        return ('true' if b else 'false'), M('bool', b)

    def v_int(self, *a):
        return self.int_lit()

    def v_frac(self, *a):
        return self.frac_lit()

    def v_str(self, *a):
        return self.str_lit()

    def v_var(self, scope, globs, depth):
        if not scope:
            return None
        n = self.r.choice(list(scope))
        return n, scope[n]

    def v_glob(self, scope, globs, depth):
        if not globs:
            return None
        n = self.r.choice(list(globs))
        return '@' + n, globs[n]

    def v_inc(self, scope, globs, depth):
        if not self.inc_targets:
            return None
        path, tok, m = self.r.choice(self.inc_targets)
        t = '"' + path + '"'
        return '<' + self.ws(False) + (tok + self.ws() if tok else '') + t + self.ws(False) + '>', m

    def v_arr(self, scope, globs, depth):
        n = self.r.choice([0, 1, 2, 2, 3, self.w['elems']])
        items, out, sig = [], '[' + self.ws(False), None
        for i in range(n):
            t, m = self.value(scope, globs, depth + 1, sig)
            out += (self.ws() if i else '') + t
            items.append(m)
            if sig is None and m.sig() is not None:
                sig = m.sig()
        return out + self.ws(False) + ']', M('arr', items=items)

    def v_tup(self, scope, globs, depth):
        n = self.r.choice([0, 1, 2, 2, 3, self.w['elems']])
        items, out = [], '(' + self.ws(False)
        for i in range(n):
            t, m = self.value(scope, globs, depth + 1)
            out += (self.ws() if i else '') + t
            items.append(m)
        return out + self.ws(False) + ')', M('tup', items=items)

    def v_obj(self, scope, globs, depth):
        t, m = self.fields(globs, depth + 1, self.r.randint(0, max(1, self.w['fields'] - depth)))
        return '{' + self.ws(False) + t + self.ws(False) + '}', m

    def v_dot(self, scope, globs, depth):
        """A path into a container that is in scope."""
        r = self.r
        cands = [(n, m) for n, m in scope.items() if m.k in ('arr', 'tup', 'obj')]
        cands += [('@' + n, m) for n, m in globs.items() if m.k in ('arr', 'tup', 'obj')]
        if not cands:
            return None
        t, m = r.choice(cands)
        sc = scope
        for step in range(r.randint(1, 4)):
            if m.k == 'obj':
                fs = m.all_fields()
                if not fs:
                    break
                n = r.choice(list(fs))
                t, sc, m = t + '.' + n, fs, fs[n]
            elif m.k in ('arr', 'tup'):
                if not m.items:
                    break
                i = r.randrange(len(m.items))
                # An index can be a number or a variable, and ends the path.
                vars_ = [n for n, x in sc.items() if x.k == 'int' and x.v == i]
                vars_ += ['@' + n for n, x in globs.items() if x.k == 'int' and x.v == i]
                if vars_ and self.p(0.5):
                    t += '.' + r.choice(vars_)
                else:
                    t += '.' + self.under(r.choice(['', '', '', '0', '00']) + str(i))
                m = m.items[i]
                return t, m
            else:
                break
        if '.' not in t:
            return None
        return t, m

    def v_unary(self, scope, globs, depth):
        t, m = self.number(scope, globs, depth)
        s = ''.join(self.r.choice('+-') for _ in range(self.r.choice([1, 1, 1, 2, 3])))
        return s + t, M(m.k, m.v * (-1 if s.count('-') % 2 else 1))

    def number(self, scope, globs, depth, kind=None):
        """A primary that is a number."""
        r = self.r
        cands = [(n, m) for n, m in scope.items() if m.k in ('int', 'frac') and kind in (None, m.k)]
        cands += [('@' + n, m) for n, m in globs.items() if m.k in ('int', 'frac') and kind in (None, m.k)]
        if cands and self.p(0.4):
            return r.choice(cands)
        if kind == 'int' or (kind is None and self.p(0.6)):
            return self.int_lit()
        return self.frac_lit()

    def v_expr(self, scope, globs, depth):
        r = self.r
        x = r.random()
        if x < 0.75:
            return self.arith(scope, globs, depth)
        if x < 0.9:
            parts, val = [], ''
            for _ in range(r.randint(2, 4)):
                c = [(n, m) for n, m in scope.items() if m.k == 'str']
                t, m = r.choice(c) if c and self.p(0.5) else self.str_lit()
                parts.append(t)
                val += m.v
            return '+'.join(parts), M('str', val)
        parts, items, sig = [], [], None
        for _ in range(r.randint(2, 3)):
            c = [(n, m) for n, m in scope.items() if m.k == 'arr' and (sig is None or m.sig() == sig)]
            if c and self.p(0.5):
                t, m = r.choice(c)
            else:
                t, m = self.of_sig(scope, globs, depth, sig) if sig else self.v_arr(scope, globs, depth)
            parts.append(t)
            items += m.items
            if sig is None and m.items:
                sig = M('arr', items=m.items).sig()
        return '+'.join(parts), M('arr', items=items)

    def arith(self, scope, globs, depth, kind=None):
        r = self.r
        n = r.choice([2, 2, 3, 3, 4, 5, 7])
        toks, vals, ops = [], [], []
        for i in range(n):
            t, m = self.number(scope, globs, depth)
            if self.p(0.25):
                s = ''.join(r.choice('+-') for _ in range(r.choice([1, 1, 2, 3])))
                t, m = s + t, M(m.k, m.v * (-1 if s.count('-') % 2 else 1))
            toks.append(t)
            vals.append(m)
        text, stack, pend = toks[0], [vals[0]], []
        for i in range(1, n):
            b, a = vals[i], stack[-1]
            op = r.choice('+-*/%+-*/')
            if op in '/%' and b.v == 0 and not self.p(self.w['bad'] * 3):
                op = '+'
            if op == '%' and (a.k != 'int' or b.k != 'int') and not self.p(self.w['bad'] * 3):
                op = '*'
            text += op + toks[i]
            k = 'int' if a.k == b.k == 'int' and op != '/' else 'frac'
            if op in '*/%':
                if op == '*':
                    v = a.v * b.v
                elif b.v == 0:
                    v = Fraction(0)
                elif op == '/':
                    v = a.v / b.v
                else:
                    q = abs(a.v) % abs(b.v)
                    v = q if a.v >= 0 else -q
                stack[-1] = M(k, v)
            else:
                pend.append(op)
                stack.append(b)
        v, k = stack[0].v, stack[0].k
        for op, m in zip(pend, stack[1:]):
            v = v + m.v if op == '+' else v - m.v
            k = 'int' if k == m.k == 'int' else 'frac'
        return text, M(k, v)

    def of_sig(self, scope, globs, depth, sig):
        """A value with the given type signature."""
        c = [(n, m) for n, m in scope.items() if m.sig() == sig]
        c += [('@' + n, m) for n, m in globs.items() if m.sig() == sig]
        if c and self.p(0.3):
            return self.r.choice(c)
        if sig is None or sig == 'null':
            return self.v_null()
        if sig == 'bool':
            return self.v_bool()
        if sig == 'int':
            return self.int_lit()
        if sig == 'frac':
            return self.frac_lit()
        if sig == 'str':
            return self.str_lit()
        if sig == 'obj':
            if depth >= self.w['maxdepth'] + 2:
                return '{}', M('obj', fields={})
            return self.v_obj(scope, globs, depth)
        if sig[0] == 'arr':
            n = self.r.choice([0, 1, 2]) if depth < self.w['maxdepth'] + 3 else 0
            if sig[1] is None:
                n = 0
            parts = [self.of_sig(scope, globs, depth + 1, sig[1]) for _ in range(n)]
            return '[' + ' '.join(p[0] for p in parts) + ']', M('arr', items=[p[1] for p in parts])
        parts = [self.of_sig(scope, globs, depth + 1, s) for s in sig[1:]]
        return '(' + ' '.join(p[0] for p in parts) + ')', M('tup', items=[p[1] for p in parts])

    def bad_value(self, scope, globs, depth):
        r = self.r
        k = r.randrange(16)
        z = M('null')
        if k == 0:
            return 'zz9', z
        if k == 1:
            return '@zz9', z
        if k == 2:
            return r.choice(['1__0', '1.2.3', '12a', '.', ',', '1.,', '._', '1_.5_', '5..', '0x1', '1e5', '1._', '_1']), z
        if k == 3:
            return r.choice(['"a\\q"', '"\\u0041"', '"a\\', '"abc', '"\\\n"', "'a'", '"a""b"', '"a"b', '"\\0"']), z
        if k == 4:
            return r.choice(['1+"a"', '"a"-"b"', '[1]+["a"]', '(1)+(2)', '{}+{}', 'null+1', '1%2.0', '1.0%2', '"a"*2',
                             '5/0', '5%0', '1.5/0.0', '0/0', '[1]-[1]', 'true+true', '1/0.0', '-1%0']), z
        if k == 5:
            return r.choice(['-"a"', '+[]', '-null', '+', '-', '- 1', '--', '-true', '-{}', '+"', '-)']), z
        if k == 6:
            return r.choice(['[1 "a"]', '[1 1.0]', '[[1] ["a"]]', '[(1) (1 2)]', '[[] [1] [1.5]]', '[null 1]', '[{} []]']), z
        if k == 7:
            return r.choice([']', '}', ')', '>', ':', '*', '/', '%', '!', '&', '\\', '=', ';', "'", '|', '~', '\u200b']), z
        if k == 8:
            return r.choice(['[1', '(1', '{a: 1', '<"x"', '[(]', '({)', '[1}', '(1]', '{a: 1]', '[[1)', '{', '[', '(', '<']), z
        if k == 9:
            return r.choice(['1 + 2', '1+ 2', '1 +2', '1+', '1*', '1+*2', '1//2', '2+-', '1-]']), z
        if k == 10:
            return r.choice(['@', '@@', '@ ', '@1', '@^', '^', '^a', 'nul', 'True', 'nulll', 'null.a', 'true.0', 'Any', 'Int']), z
        if k == 11 and scope:
            n = r.choice(list(scope))
            return n + r.choice(['.', '.zz9', '.0', '.99', '.-1', '..', '.a', '.@', '.@zz9', '. a', '.1.5', '.null',
                                 '.18446744073709551615', '.18446744073709551616', '.1,0', '."a"', '.(1)', ':1', '!']), z
        if k == 12 and globs:
            n = '@' + r.choice(list(globs))
            return n + r.choice(['.', '.zz9', '.0', '.99', '..', '.@', '.a', 'x', '@']), z
        if k == 13:
            return r.choice(['<>', '<1>', '<null>', '<Int "a">', '<Obj>', '<Obj 1>', '<"nofile">', '<"a" "b">', '<Obj Obj "a">',
                             '<Str nofile>', '<"">', '<Arr "../">', '<Obj "nofile" >', '<[1]>', '<"nofile", >']), z
        if k == 14:
            return r.choice(['{a: 1 a: 2}', '{^: {} ^: {}}', '{^: 1}', '{@a: 1 @a: 2}', '{1: 2}', '{a 1}', '{a}', '{: 1}',
                             '{a: }', '{null: 1}', '{@: 1}', '{^a: 1}', '{@^: 1}', '{a : 1}', '{a: 1, b: 2}', '{a.b: 1}', '{Obj: 1}']), z
        return r.choice(['"a":', 'a:b', '1:2', '{}{}', '[][]', '1"a"', '"a"1', '{}1', '1{}', '[]a', '1(', '1[', '1<', 'a"', "a'"]), z

    # ---------------------------------------------------------------- objects
    def fields(self, globs, depth, n):
        """n field/value pairs; globals are added to globs."""
        r, w = self.r, self.w
        out, scope, parent = '', {}, None
        for i in range(n):
            if i:
                out += self.ws()
            x = r.random() * 10
            if x < w['defglobal'] and not (self.p(w['bad']) and globs):
                name = self.newname(globs)
                t, m = self.value(scope, globs, depth)
                globs[name] = m
                out += '@' + name + ':' + self.ws(False) + t
            elif x < w['defglobal'] + w['parent'] and parent is None:
                c = [(q, m) for q, m in list(scope.items()) + [('@' + g, m) for g, m in globs.items()] if m.k == 'obj']
                t, m = r.choice(c) if c and self.p(0.6) else \
                    (self.v_obj(scope, globs, depth) if depth < w['maxdepth'] else ('{}', M('obj', fields={})))
                if self.p(w['bad']):
                    t = '1'
                parent = m
                out += '^:' + self.ws(False) + t
            else:
                name = self.newname(scope)
                if self.p(w['bad'] / 2) and scope:
                    name = r.choice(list(scope))
                elif self.p(w['bad'] / 2):
                    name = r.choice(RESERVED + ['', '1', 'a b', 'a.b', 'a-', '^x', '@^x', 'é!', 'a@'])
                t, m = self.value(scope, globs, depth)
                out += name + ':' + self.ws(False) + t
                scope[name] = m
        return out, M('obj', fields=scope, parent=parent)

    def doc(self, n=None):
        r = self.r
        t, m = self.fields({}, 1, n if n is not None else r.randint(1, self.w['fields'] + 2))
        return (self.ws(False) if self.p(0.3) else '') + t + (self.ws(False) if self.p(0.5) else ''), m


TOKENS = ['{', '}', '[', ']', '(', ')', '<', '>', '"', '\\', '#', '\n', ' ', ':', '@', '^', '.', ',', '_', '-', '+', '*', '/',
          '%', '0', '1', 'a', 'b', 'null', 'Obj', 'Str', '"x"', 'é', '\t', '\r', '\u00a0', '@a', 'a:', '^:', '{}', '[]', '()', '!']


def mutate(rng, text, n=1):
    for _ in range(n):
        k = rng.randrange(6)
        i = rng.randrange(len(text) + 1)
        if k == 0 and text:
            j = min(len(text), i + rng.choice([1, 1, 1, 2, 4]))
            text = text[:i] + text[j:]
        elif k in (1, 2):
            text = text[:i] + rng.choice(TOKENS) + text[i:]
        elif k == 3 and text:
            text = text[:i] + rng.choice(TOKENS) + text[i + 1:]
        elif k == 4 and text:
            text = text[:i]
        elif text:
            a, b = sorted((rng.randrange(len(text) + 1), rng.randrange(len(text) + 1)))
            b = min(b, a + 12)
            text = text[:i] + text[a:b] + text[i:]
    return text


# -------------------------------------------------------------------- file systems
DIRSETS = [[[]], [[], ['d']], [[], ['d'], ['d', 'e']], [[], ['d'], ['f']], [[], ['sub dir'], ['é']], [[], ['d'], ['d', 'e'], ['d', 'e', 'd']]]
FNAMES = ['a.over', 'b.over', 'c', 'data.txt', 'é.over', 'x y.over', '.hidden', 'a', 'Obj']


HERE, ODD = '\ue123', '\uf8ff'      # see vlib


def spell(rng, src, dst, name, links=()):
    """Some path from directory src to name in directory dst; links are (directory, name, directory it leads to)."""
    x = rng.random()
    if x < 0.08:                       # from the root of the file system on
        parts, src = [HERE] + list(dst) + [name], []
        at = 1
    elif x < 0.12:                     # out of everything and back
        parts = ['..'] * len(src) + ['..', 'scratch'] + list(dst) + [name]
        at = len(src) + 2
    else:
        k = 0
        if rng.random() < 0.6:
            while k < len(src) and k < len(dst) and src[k] == dst[k]:
                k += 1
        via = [l for l in links if l[2] == list(dst) or rng.random() < .3]
        if via and rng.random() < 0.5:
            d, n, to = rng.choice(via)
            k = 0
            while k < len(to) and k < len(dst) and to[k] == dst[k]:
                k += 1
            parts = ['..'] * len(src) + list(d) + [n] + ['..'] * (len(to) - k) + list(dst[k:]) + [name]
            return '/'.join(parts)
        parts = ['..'] * (len(src) - k) + list(dst[k:]) + [name]
        at = 0
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        i = rng.randrange(at, len(parts))
        here = list(src) if not at else []
        for p in parts[at:i]:
            here = here[:-1] if p == '..' else here if p in ('', '.') else here + [p]
        x = rng.randrange(3)
        if x == 0:
            parts.insert(i, '.')
        elif x == 1 and here:
            parts[i:i] = ['..', here[-1]]
        elif x == 2 and i:
            parts.insert(i, '')
    return '/'.join(parts)


def filesystem(rng, n=None, cyclic=0.1, **kw):
    """A set of files that include each other, and a root.  Returns a case (without id and cmp)."""
    dirs = list(rng.choice(DIRSETS))
    if rng.random() < 0.06:
        dirs.append(['d' + ODD])
    n = n or rng.randint(1, 5)
    files, used = [], set()

    def place(names=FNAMES):
        for k in range(1000):
            d, nm = rng.choice(dirs), rng.choice(names) + 'x' * (k // 20)
            if (tuple(d), nm) not in used and d + [nm] not in dirs:
                break
        used.add((tuple(d), nm))
        return d, nm
    for i in range(n):
        d, nm = place(FNAMES + ['o' + ODD] if rng.random() < .04 else FNAMES)
        files.append(dict(dir=d, name=nm, kind='text', as_=rng.choice(['obj', 'obj', 'arr', 'tup', 'str']), text=''))
    while rng.random() < 0.25:
        d, nm = place()
        files.append(dict(dir=d, name=nm, kind='link', target=rng.randint(1, n)))
    links = []
    while rng.random() < 0.25:
        d, nm = place(['l', 'd', 'e', 'ln.over'])
        files.append(dict(dir=d, name=nm, kind='dirlink', to=rng.choice(dirs)))
        links.append((d, nm, files[-1]['to']))
    if rng.random() < 0.05:
        files.append(dict(dir=[], name='bin', kind='binary'))
    if rng.random() < 0.06:
        d, nm = place()
        files.append(dict(dir=d, name=nm, kind='none', how=rng.choice(['nothing', 'itself', 'device'])))
    models, names, shared = {}, [], rng.random() < .3
    if shared:
        kw = dict(dict(cross=.06), **kw)

    def targets(src, lo):
        out = []
        for j, f in enumerate(files):
            t = f['target'] if f['kind'] == 'link' else j + 1
            if f['kind'] == 'binary':
                out.append((spell(rng, src, f['dir'], f['name'], links), 'Str', M('str', '')))
                continue
            if f['kind'] in ('dirlink', 'none'):
                if rng.random() < .15:
                    out.append((spell(rng, src, f['dir'], f['name'], links), rng.choice([None, 'Str']), M('obj', fields={})))
                continue
            if t <= lo and not rng.random() < cyclic:
                continue
            for _ in range(2):
                k = files[t - 1]['as_']
                x = rng.random()
                if x < 0.2:
                    tok, m = 'Str', M('str', '')
                elif x < 0.24:
                    tok, m = rng.choice(['Arr', 'Tup', 'Obj']), M('obj', fields={})
                else:
                    tok = {'obj': rng.choice([None, 'Obj']), 'arr': 'Arr', 'tup': 'Tup', 'str': 'Str'}[k]
                    m = models.get(t, M('obj', fields={}) if k == 'obj' else M(k, '' if k == 'str' else None, items=[] if k != 'str' else None))
                out.append((spell(rng, src, f['dir'], f['name'], links), tok, m))
        if rng.random() < 0.03:
            out.append((rng.choice(['nofile', '', '.', '..', 'd', 'a.over/', 'nodir/a.over', '../../../../../../nofile\0', '/', '/..', HERE, '..', 'a.over/.', 'a.over/../a.over']), None, M('obj', fields={})))
        return [(o[0], o[1], o[2]) for o in out if o]

    def content(k, d, lo):
        g = Gen(rng, **dict(dict(inc=8, fields=4), **kw))
        if shared:
            g.names = names
        g.inc_targets = targets(d, lo)
        if k == 'obj':
            t, m = g.doc()
        elif k == 'str':
            t, m = g.str_lit()[0] + rng.choice(['', '\n', ' # é']), M('str', '')
            m.v = t
        else:
            t, m = (g.v_arr if k == 'arr' else g.v_tup)({}, {}, 1)
            t = t[1:-1]
        if rng.random() < 0.04:
            t = mutate(rng, t)
        return t, m
    for i in range(n, 0, -1):
        f = files[i - 1]
        f['text'], models[i] = content(f['as_'], f['dir'], i)
    root = 0
    roots = [i + 1 for i, f in enumerate(files) if f['kind'] in ('text', 'link') and ODD not in f['name'] + ''.join(f['dir'])]
    if roots and rng.random() < 0.5:
        root = rng.choice(roots)
        f = files[root - 1]
        t = files[f.get('target', root) - 1]
        t['text'], _ = content('obj', f['dir'], rng.choice([0, 1]))
        case = dict(root=root, text=None, path='/'.join(f['dir'] + [f['name']]), abs=rng.random() < 0.3)
        if not case['abs'] and rng.random() < .4:
            case['path'] = spell(rng, [], f['dir'], f['name'], [l for l in links if ODD not in ''.join(l[0] + l[2])])
    else:
        case = dict(root=0, text=content('obj', [], 0)[0])
    for f in files:
        f.pop('as_', None)
    case.update(files=files, dirs=dirs)
    return case
