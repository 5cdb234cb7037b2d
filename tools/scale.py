"""Big documents: sizes at which counters, buffers and quadratic habits show."""


def scale(r, big=1):
    """A list of (text, note).  big scales the sizes."""
    n = 400 * big
    d = []

    def add(t):
        d.append(t)
    add('a: [%s]' % ' '.join(str(i) for i in range(n)))
    add('a: (%s)\nb: a.%d c: a.0' % (' '.join('%d' % i if i % 3 else '"s%d"' % i for i in range(n)), n - 1))
    add('\n'.join('f%d: %d' % (i, i) for i in range(n)) + '\nz: f0+f%d\nf%d: 0' % (n - 1, n // 2))
    add('\n'.join('f%d: %s' % (i, '[%d]' % i if i % 2 else 'f%d' % (i - 1) if i else '1') for i in range(n)))
    add('\n'.join('@g%d: {x: %d}' % (i, i) for i in range(n // 2)) + '\nz: @g0 y: @g%d.x w: {v: @g1 u: @g1}' % (n // 2 - 1))
    add('x: ' + '+'.join(str(r.randint(0, 9)) for _ in range(n)) + '-' + '*'.join('2' for _ in range(n // 4)))
    add('x: ' + '*'.join(str(r.randint(1, 10**12)) for _ in range(n // 20)) + '%' + str(10**40 + 7))
    add('x: ' + '-'.join('%d/%d' % (r.randint(0, 99), r.randint(1, 99)) for _ in range(n // 25)))
    add('x: ' + ''.join(r.choice('0123456789') for _ in range(n)) + ' y: x+1 z: x*x')
    add('x: ' + ''.join(r.choice('0123456789') for _ in range(50)) + '.' + ''.join(r.choice('0123456789') for _ in range(60)) + ' y: -x')
    add('x: 0.' + '0' * n + '1 y: ' + '0' * n + '7 z: 1' + '0' * n)
    add('x: "' + ''.join(r.choice('ab\\\\é漢 \n#{[') if r.random() < .9 else '\\n' for _ in range(3 * n)).replace('\\', '\\\\') + '" y: x+x')
    add('#' + 'c' * 5 * n + '\nx: 1 #' + 'é' * n)
    add('\n' * n + ' ' * n + 'x: 1' + '\n' * n + '\t' * n + 'y: zz')
    add('name_' + 'n' * n + ': 1 b: name_' + 'n' * n + ' c: name_' + 'n' * (n - 1))
    add('a: {x: 1}\n' + '\n'.join('a%d: {^: %s y%d: %d}' % (i, 'a' if i == 1 else '@p%d' % (i - 1), i, i) + ' @p%d: a%d' % (i, i) for i in range(1, 40)) + '\nz: a39.x w: a39.y7 v: a20.y21')
    add('a: [' + '[] ' * n + '[1] ' + '[] ' * 20 + ']  b: a+[["s"]]')
    add('a: [[]] b: [[1]]\nc: ' + '+'.join(['a', 'b', 'a'] * (n // 20)))
    add('o: {' + ' '.join('k%d: {v: [%d %d]}' % (i, i, i + 1) for i in range(n // 2)) + '} x: o.k0.v.1 y: o.k%d.v.0 z: [%s]' % (
        n // 2 - 1, ' '.join('o.k%d.v' % i for i in range(0, n // 2, 5))))
    add('t: (' * 1 + '1 ' * n + ') a: [t t t] b: ' + ' '.join(['t'] * 1) + '\nc: [' + 't.0 ' * 100 + ']')
    add(' '.join('x%d: "%s"' % (i, 'é' * (i % 7)) for i in range(n // 2)) + ' y: !')
    add('a: ' + '-' * 60 + '1 b: ' + '+-' * 30 + '2.5')
    add('a: ' + '"s"+' * (n // 4) + '"t"')
    add('a: {' + '} b%d: {' .join('' for _ in range(1)) + ' '.join('@q%d: %d' % (i, i) for i in range(n // 4)) + '} b: @q0+@q%d' % (n // 4 - 1))
    return d
