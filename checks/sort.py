import itertools

HOW = ['ins', '1', '2', '3', '8', 'def']


def shapes(r, n):
    k = r.choice([1, 2, 3, 5, 1000000])
    kind = r.choice(['rand', 'rand', 'up', 'down', 'organ', 'saw', 'const', 'near', 'two'])
    if kind == 'rand':
        return [r.randint(-k, k) for _ in range(n)]
    if kind == 'up':
        return sorted(r.randint(-k, k) for _ in range(n))
    if kind == 'down':
        return sorted((r.randint(-k, k) for _ in range(n)), reverse=True)
    if kind == 'organ':
        return [min(j, n - j) for j in range(n)]
    if kind == 'saw':
        m = r.randint(2, 9)
        return [j % m for j in range(n)]
    if kind == 'const':
        return [7] * n
    if kind == 'near':
        a = list(range(n))
        for _ in range(3):
            if n:
                i, j = r.randrange(n), r.randrange(n)
                a[i], a[j] = a[j], a[i]
        return a
    return [r.choice([-2147483648, 2147483647, 0]) for _ in range(n)]


def sort(ctx):
    ctx.mc('SortMC', emit=False, workers=4)
    exe = ctx.build('sort')
    r = ctx.sub('sort')
    scripts = []
    # every array over 1..4 up to length 5 (quick) / 6 (thorough), every algorithm
    cur = []
    for n in range(0, ctx.pick(6, 7)):
        for a in itertools.product(range(1, 5 if n < 6 else 4), repeat=n):
            for h in (HOW if n < 5 else HOW[1:4]):
                cur += [['load'] + list(a), ['sort', h]]
            if len(cur) > 200:
                scripts.append((('x',), cur))
                cur = []
    scripts.append((('x',), cur))
    for j in range(ctx.pick(700, 6000)):
        n = r.choice([0, 1, 2, 3, 7, 8, 9, 20, 40, 127, 128, 129, 130, 200, 300, 300, 700]) if j % 7 == 0 else r.randint(0, 40)
        a = shapes(r, n)
        ops = []
        for h in r.sample(HOW, 3):
            ops += [['load'] + a, [r.choice(['sort', 'sort', 'sortk']) if n < 60 else 'sort', h]]
        ops += [['sort', 'def']]
        scripts.append((('x',), ops))
    # orders made up by an adversary while the algorithm runs
    for n in [5, 40, 129, 300, 1000, 3000] + ctx.pick([20000], [20000, 40000]):
        for h in HOW[1:] if n < 20000 else ['def']:
            scripts.append((('x',), [['worst', n, h], ['sort', h], ['worst', n, h], ['sort', r.choice(HOW[1:])]]))
    for n in ctx.pick([66000 + r.randrange(99)], [65536, 65537, 66000 + r.randrange(99), 70000]):
        for h in ctx.pick(['def'], ['def', '8', '1']):
            scripts.append((('x',), [['fill', n, r.randrange(1, 2**31), r.randrange(2**31), r.choice([2**31 - 1, 1000, 65536])], ['sort', h]]))
    scripts.append((('x',), [['fill', 3000, r.randrange(1, 2**31), r.randrange(2**31), 2**31 - 1], ['sort', 'ins']]))
    ctx.validate('SortTrace', ctx.drive(exe, scripts), scripts)


def bounds(ctx):
    ctx.mc('SortMC', emit=False, workers=4)
    exe = ctx.build('sort')
    r = ctx.sub('bounds')
    scripts = []
    cur = []
    for n in range(0, ctx.pick(8, 10)):
        for a in itertools.combinations_with_replacement((2, 4, 6), n):
            cur.append(['load'] + list(a))
            for k in range(1, 8):
                cur += [['lower', k], ['upper', k]]
            if len(cur) > 200:
                scripts.append((('x',), cur))
                cur = []
    scripts.append((('x',), cur))
    for j in range(ctx.pick(400, 4000)):
        n = r.randint(0, 60) if j % 8 else r.randint(60, 300)
        k = r.choice([1, 3, 20, 2147483647])
        a = sorted(r.randint(-k, k) for _ in range(n))
        ops = [['load'] + a]
        for _ in range(12):
            x = r.choice(a + [-2147483648, 2147483647]) if r.random() < .6 else r.randint(-k, k)
            x = max(-2147483648, min(2147483647, x + r.choice([0, 0, 1, -1])))
            ops += [['lower', x], ['upper', x]]
        scripts.append((('x',), ops))
    # more than 255 items and more than 65535
    for n in [255, 256, 257, 1000, 65535, 65536, 65537] if not ctx.quick else [257, r.randint(258, 3000), 66000 + r.randrange(99)]:
        d = r.choice([1, 1, 2, 7, 300])
        f = r.choice([0, -5, -2147483648])
        ops = [['steps', n, d, f]]
        for _ in range(12 if n < 60000 else 6):
            x = f + r.choice([0, n // d, r.randrange(n) // d, r.randrange(n) // d, (n - 1 - r.randrange(40)) // d, 65535 // d])
            ops += [['lower', x], ['upper', x]]
        scripts.append((('x',), ops))
    ctx.validate('SortTrace', ctx.drive(exe, scripts), scripts)
