"""Random histories of calls of the programming interface (spec/OverApi.tla)."""
from fractions import Fraction

NAMES = ['a', 'b', 'c', '_x', 'é', 'A1', 'null', 'Obj']
BADNAMES = ['', '1a', 'a b', '^', '^a', 'a^', 'a-b', '@a', '@', 'a.b', ' a', 'a ', 'a:', '²a', '٣', 'a٣', '😀', 'a\u0301', '\u0301', 'a\n', '-', '1', 'é!']
INT_TYPES = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'usize': (0, 2**64 - 1),
             'i8': (-128, 127), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1)}
GET_TYPES = ['bool', 'int', 'frac', 'str', 'arr', 'tup', 'obj']


def cps(s):
    return [ord(c) for c in s]


def limbs(n):
    out = []
    while n:
        out.append(n % 10000)
        n //= 10000
    return out


def vint(n):
    return {'t': 'int', 'i': {'neg': n < 0, 'm': limbs(abs(n))}}


def vfrac(f):
    return {'t': 'frac', 'f': {'neg': f < 0, 'n': limbs(abs(f.numerator)), 'd': limbs(f.denominator)}}


def vstr(s):
    return {'t': 'str', 's': cps(s)}


def vbool(b):
    return {'t': 'bool', 'b': b}


NULL = {'t': 'null'}
EDGES = sorted({x for lo, hi in INT_TYPES.values() for x in (lo - 1, lo, lo + 1, hi - 1, hi, hi + 1)} |
               {0, 1, -1, 2, -2, 100, 10**4, 10**19, 10**30, -10**30, 2**128, 9999, 10000, 2**64 + 5, 2**32 + 7, 300, 261,
                -2**64, -2**32, 2**8 - 2**8 * 5})
STRS = ['', 'a', 'abc', 'é', '漢字', 'a\nb', '"', '\\', "'$\t\r", '1', 'true', 'null', '#', '😀', 'a' * 40, 'e\u0301', '\0']
FRACS = [Fraction(0), Fraction(1), Fraction(-1), Fraction(1, 2), Fraction(-1, 2), Fraction(1, 3), Fraction(5, 10), Fraction(10, 4),
         Fraction(7, 1), Fraction(255), Fraction(2**70, 3), Fraction(-3, 2**70), Fraction(1, 10**20), Fraction(65535), Fraction(-128)]


def scalar(r):
    k = r.randrange(10)
    if k == 0:
        return NULL, 'null'
    if k == 1:
        return vbool(r.random() < 0.5), 'bool'
    if k < 6:
        return vint(r.choice(EDGES) if r.random() < 0.6 else r.randint(-3, 3)), 'int'
    if k < 8:
        return vfrac(r.choice(FRACS)), 'frac'
    return vstr(r.choice(STRS)), 'str'


def native(r, near=None):
    """A native type and a value of it (as a value record)."""
    t = r.choice(list(INT_TYPES) * 2 + ['big', 'big', 'bool', 'frac', 'str', 'string'])
    if t in INT_TYPES:
        lo, hi = INT_TYPES[t]
        if near is not None and r.random() < 0.7:
            n = near
            if not lo <= n <= hi:   # what it would be if it were cut off
                n = (n - lo) % (hi - lo + 1) + lo
        else:
            n = r.choice([x for x in EDGES if lo <= x <= hi])
        return t, vint(n)
    if t == 'big':
        return t, vint(near if near is not None and r.random() < 0.7 else r.choice(EDGES))
    if t == 'bool':
        return t, vbool(r.random() < 0.5)
    if t == 'frac':
        return t, vfrac(Fraction(near) if near is not None and r.random() < 0.5 else r.choice(FRACS))
    return t, vstr(r.choice(STRS))


class H:
    """Kinds of what the slots hold, so that calls are meaningful most of the time."""

    def __init__(self, r, n, w, names=NAMES[:6], bad=0.05, less=False):
        self.less = less         # whether arrays may be given a type wider than their elements
        self.r, self.n, self.w, self.bad, self.names = r, n, w, bad, names
        self.slots = [None] * n      # (kind, info)
        self.ops = []

    def pick(self, *kinds):
        c = [i + 1 for i, s in enumerate(self.slots) if s and (not kinds or s[0] in kinds)]
        return self.r.choice(c) if c else None

    def to(self):
        free = [i + 1 for i, s in enumerate(self.slots) if not s]
        return self.r.choice(free) if free and self.r.random() < 0.8 else self.r.randint(1, self.n)

    def name(self):
        return self.r.choice(BADNAMES) if self.r.random() < self.bad else self.r.choice(self.names)

    def put(self, i, s):
        self.slots[i - 1] = s

    def some_int(self):
        c = [s[1] for s in self.slots if s and s[0] == 'int' and s[1] is not None]
        return self.r.choice(c) if c else None

    def step(self):
        r = self.r
        k = r.choices(list(self.w), list(self.w.values()))[0]
        op = getattr(self, 'o_' + k)()
        if op:
            op['o'] = k
            self.ops.append(op)

    def intval(self, v):
        if v['t'] != 'int':
            return None
        n = 0
        for l in reversed(v['i']['m']):
            n = n * 10000 + l
        return -n if v['i']['neg'] else n

    def o_val(self):
        v, k = scalar(self.r)
        to = self.to()
        self.put(to, (k, self.intval(v)))
        return dict(to=to, v=v)

    def o_from(self):
        ty, v = native(self.r)
        to = self.to()
        self.put(to, (v['t'], self.intval(v)))
        return dict(to=to, ty=ty, v=v)

    def args(self, lo=0, hi=4, kinds=()):
        n = self.r.randint(lo, hi)
        out = []
        for _ in range(n):
            s = self.pick(*kinds)
            if s is None:
                return out
            out.append(s)
        return out

    def o_arr(self):
        s = self.pick()
        if s is None or self.r.random() < 0.1:
            a = []
        else:
            kinds = () if self.r.random() < 0.25 else (self.slots[s - 1][0],)
            a = self.args(1, 4, kinds)
        to = self.to()
        self.put(to, ('arr', len(a)))
        how = self.r.choice(['checked', 'checked', 'try', 'mac'])
        return dict(to=to, args=a, how=how)

    def o_arrU(self):
        op = self.o_arr()
        op.pop('how')
        op['keep'] = self.r.choice([0, 0, 0, 1, 1, 2]) if self.less and self.r.random() < .5 else -1
        return op

    def o_tup(self):
        a = self.args(0, 4)
        to = self.to()
        self.put(to, ('tup', len(a)))
        return dict(to=to, args=a, how=self.r.choice(['values', 'from', 'mac']))

    def o_obj(self):
        a = self.args(0, 4)
        names = []
        for _ in a:
            n = self.name()
            if n in names and self.r.random() < 0.9:
                n = n + str(self.r.randint(0, 9))
            names.append(n)
        how = self.r.choice(['checked', 'checked', 'checked', 'unchecked', 'mac'])
        p = 0
        if how == 'unchecked' and self.r.random() < 0.8:
            names = [n if n not in BADNAMES else 'k%d' % i for i, n in enumerate(names)]
        if how == 'mac':
            if not 1 <= len(a) <= 3:
                how = 'checked'
            elif self.r.random() < 0.5:
                names[self.r.randrange(len(names))] = '^'
                if self.r.random() < 0.8 and self.pick('obj'):
                    a[names.index('^')] = self.pick('obj')
        if how != 'mac' and self.r.random() < 0.5:
            p = self.pick('obj') or 0
        to = self.to()
        self.put(to, ('obj', None))
        return dict(to=to, args=a, names=[cps(n) for n in names], parent=p, how=how)

    def o_empty(self):
        k = self.r.choice(['arr', 'tup', 'obj'])
        to = self.to()
        self.put(to, (k, 0))
        return dict(to=to, k=k, how=self.r.choice(['empty', 'default', 'mac']))

    def o_clone(self):
        s = self.pick()
        if s is None:
            return None
        to = self.to()
        self.put(to, self.slots[s - 1])
        return dict(to=to, s=s)

    def o_drop(self):
        s = self.pick()
        if s is None:
            return None
        self.put(s, None)
        return dict(s=s)

    def o_get(self):
        s = self.pick('obj')
        if s is None:
            return None
        to = self.to()
        return dict(to=to, s=s, name=cps(self.name()))

    def o_src(self):
        op = self.o_get()
        if op:
            op['to2'] = self.r.randint(1, self.n)
        return op

    def o_parent(self):
        s = self.pick('obj')
        return dict(to=self.to(), s=s) if s else None

    def o_idx(self):
        s = self.pick('arr', 'tup')
        if s is None:
            return None
        n = self.slots[s - 1][1] or 0
        i = self.r.choice([0, 1, n - 1, n, n + 1, self.r.randint(0, 5), 2**32, 2**63, 2**64 - 1])
        return dict(to=self.to(), s=s, i=limbs(max(0, i)))

    def o_as(self):
        s = self.pick()
        if s is None:
            return None
        k = self.slots[s - 1][0]
        ty = self.r.choice(GET_TYPES) if self.r.random() < 0.5 or k not in GET_TYPES else k
        return dict(to=self.to(), s=s, ty=ty)

    def o_asf(self):
        s = self.pick('obj')
        return dict(to=self.to(), s=s, ty=self.r.choice(GET_TYPES), name=cps(self.name())) if s else None

    def o_q(self):
        s = self.pick()
        return dict(s=s) if s else None

    def o_has(self):
        s = self.pick('obj')
        return dict(s=s, name=cps(self.name())) if s else None

    def o_cmp(self):
        s = self.pick()
        if s is None:
            return None
        s2 = self.pick(self.slots[s - 1][0]) if self.r.random() < 0.7 else self.pick()
        return dict(s=s, s2=s2 or s)

    def o_nat(self):
        s = self.pick('int') if self.r.random() < 0.7 else self.pick()
        if s is None:
            s = self.pick()
        if s is None:
            return None
        ty, v = native(self.r, self.slots[s - 1][1] if self.slots[s - 1][0] == 'int' else None)
        return dict(s=s, ty=ty, v=v, **(dict(raw=self.r.choice([2, 3, 10])) if ty == 'frac' and self.r.random() < 0.4 else {}))

    def o_natc(self):
        s2 = self.pick('arr', 'tup', 'obj')
        return dict(s=self.pick(), s2=s2) if s2 else None

    def o_valid(self):
        return dict(name=cps(self.name() if self.r.random() < 0.5 else self.r.choice(BADNAMES)))

    def o_write(self):
        s = self.pick('arr', 'tup', 'obj') or self.pick()
        return dict(s=s) if s else None


WEIGHTS = dict(val=8, arr=4, arrU=1, tup=4, obj=6, empty=1, clone=3, drop=2, get=3, src=3, parent=2, idx=2, q=2, has=1, cmp=3, asf=1)
FOCUS = {
    'C06': dict(WEIGHTS, arr=14, tup=5, arrU=2, empty=3, q=4, cmp=0),
    'C08': dict(WEIGHTS, obj=12, get=9, src=9, parent=5, has=6, q=5, asf=4, cmp=1),
    'C11': dict(WEIGHTS, write=6, obj=10, val=12),
    'C12': dict(WEIGHTS, write=8, val=12),
    'C13': dict(WEIGHTS, arrU=2, clone=6, drop=6, src=5, parent=4, idx=4, cmp=4),
    'C14': dict(WEIGHTS, drop=5, empty=5, arr=8, obj=8),
    'C15': dict(WEIGHTS, cmp=25, obj=8, val=6, arrU=4, empty=2),
    'C16': {'val': 10, 'arr': 4, 'tup': 4, 'obj': 8, 'empty': 1, 'as': 12, 'asf': 14, 'idx': 10, 'q': 2, 'drop': 1},
    'C19': dict(val=3, obj=12, valid=4, q=2),
    'C23': {'val': 6, 'from': 10, 'nat': 25, 'natc': 5, 'as': 4, 'arr': 2, 'tup': 2, 'obj': 2},
    'C25': dict(WEIGHTS, write=2, drop=5, cmp=4, clone=4, asf=3, natc=2),
}


def history(r, focus, length=None, n=None):
    w = FOCUS[focus]
    names = NAMES[:3] if r.random() < 0.5 else (NAMES if focus == 'C19' else NAMES[:6])
    h = H(r, n or r.choice([4, 6, 8]), w, names, bad=0.35 if focus == 'C19' else r.choice([0, 0.05]),
          less=focus not in ('C11', 'C12'))
    # Start from something.
    for _ in range(3):
        h.ops.append(dict(h.o_val(), o='val'))
    length = length or r.choice([8, 15, 25])
    tries = 0
    while len(h.ops) < length and tries < 200:
        tries += 1
        h.step()
    return h.n, h.ops
