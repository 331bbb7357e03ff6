"""C01 - C05: ce/cdt.h"""


def pt(r, style, q, seen):
    """a point of the world, in user units"""
    u = 2 << q
    lim = 32768 << q
    if seen and r.random() < .12:
        x, y = r.choice(seen)
        return x + r.choice([0, 0, 1, -1]), y + r.choice([0, 0, 1])
    if style == 'tiny':
        return r.randint(-3, 3) * u, r.randint(-3, 3) * u
    if style == 'grid':
        return r.randint(-5, 5) * u * 1000, r.randint(-5, 5) * u * 1000
    if style == 'ring':
        import math
        k = r.randrange(24)
        a = r.choice([(5, 0), (4, 3), (3, 4), (0, 5)])
        sx, sy = r.choice([1, -1]), r.choice([1, -1])
        return sx * a[0] * u * 400, sy * a[1] * u * 400
    if style == 'line':
        k = r.randint(-40, 40) * u * 100
        return (k, k // 2 // u * u) if r.random() < .7 else (k, -k)
    if style == 'near':       # next to the boundary of the square
        e = [lim - 2 * u, lim - u, -lim + u, -lim + 2 * u]
        a, b = r.choice(e), r.randint(-lim, lim - 1)
        return (a, b) if r.random() < .5 else (b, a)
    if style == 'edgey':      # on the boundary, at the corners, outside
        e = [lim, lim - 1, lim - u, -lim, -lim - 1, -lim + u - 1, -lim - u, lim + u, (lim >> q) - 1 << q]
        a, b = r.choice(e), r.choice(e + [r.randint(-lim, lim)] * 5)
        return (a, b) if r.random() < .5 else (b, a)
    return r.randint(-lim, lim - 1), r.randint(-lim, lim - 1)


STYLES = ['tiny', 'grid', 'ring', 'line', 'near', 'edgey', 'wide', 'wide']


def session(r, kinds, weights, n, param=None):
    q, cap = param or r.choice([(0, 300), (0, 300), (0, 9), (0, 40), (3, 64), (6, 300)] if 'edge' in kinds else
                              [(0, 8192), (0, 8192), (0, 9), (0, 40), (3, 64), (6, 8192)])
    mix = r.sample(STYLES, r.choice([1, 1, 2]))
    if 'edge' in kinds and r.random() < .5:
        mix = [r.choice(['tiny', 'grid', 'wide', 'line'])]
    seen = []
    ops = []
    info = 0
    for _ in range(n):
        o = r.choices(kinds, weights)[0]
        hint = r.choice([0, 24, -1 - r.randrange(10 ** 5), -1 - r.randrange(10 ** 5), r.randrange(200), 10 ** 6])
        p = pt(r, r.choice(mix), q, seen)
        if o == 'point':
            seen.append(p)
            ops.append([o, p[0], p[1], hint])
        elif o == 'edge':
            g = pt(r, r.choice(mix), q, seen)
            if len(seen) > 1 and r.random() < .5:
                p = r.choice(seen)
                if r.random() < .6:
                    g = r.choice(seen)
            if r.random() < .04:
                p = r.choice([(-32768 << q, -32768 << q), (32767 << q, -32768 << q)])
            seen += [p, g]
            ops.append([o, p[0], p[1], g[0], g[1], hint])
        elif o == 'locate':
            if seen and r.random() < .5:
                p = r.choice(seen)
                p = ((p[0] >> q & ~1) << q, (p[1] >> q & ~1) << q) if r.random() < .6 else p
                if r.random() < .3 and len(seen) > 1:
                    g = r.choice(seen)
                    p = ((p[0] + g[0]) // 2, (p[1] + g[1]) // 2)
            ops.append([o, p[0], p[1], hint])
        elif o == 'fill':
            if r.random() < .7:
                info += 1
            ops.append([o, r.randrange(1000), r.choice([info, info, r.randint(0, 3), 65535]), r.randrange(4)])
        else:
            ops.append([o])
    return ((q, cap), ops)


def run(ctx, what, scripts, asan=True, tag='mesh'):
    from concurrent.futures import ThreadPoolExecutor
    exe = ctx.build('cdt', libs=False, asan=asan, fatal=False)
    if exe is None:     # not through the mesh's fields, then through its iterators
        exe = ctx.build('cdt', libs=False, asan=asan, defs=['-DVIEWS'])
    parts = [scripts[k::8] for k in range(8) if scripts[k::8]]
    with ThreadPoolExecutor(8) as ex:
        logs = list(ex.map(lambda a: ctx.drive(exe, a[1], tag='%s%d' % (tag, a[0]), timeout=800), enumerate(parts)))
    order = [s for p in parts for s in p]
    logs = [l for p in logs for l in p]
    ctx.validate('CdtTrace', logs, order, env=dict(WHAT=what))


POINTS = (['point', 'locate', 'fill', 'views', 'reset'], [20, 3, 1, .3, .1])
EDGES = (['point', 'edge', 'locate', 'fill', 'views', 'reset'], [6, 10, 2, 1, .3, .1])
LOOKS = (['point', 'edge', 'locate', 'fill'], [4, 4, 14, 8])


def some(ctx, tag, mix, n, lo=4, hi=40, param=None):
    r = ctx.sub(tag)
    return [session(r, mix[0], mix[1], r.randint(lo, hi), param) for _ in range(n)]


def crowds(ctx, n, most, params):
    """many points and one look at the mesh, twice"""
    r = ctx.sub('crowds')
    res = []
    for k in range(n):
        par = params[k % len(params)]
        lim = 32768 << par[0]
        kind = r.choice([0, 0, 1, 2, 3])
        rng = r.choice([lim, lim, lim * 2, lim // 100, 200 << par[0]])
        ops = [['points', r.randint(100, most), r.randrange(1 << 30), rng, kind]]
        ops.append(['points', r.randint(10, 300), r.randrange(1 << 30), rng, r.choice([0, 1, 2, 3])])
        res.append((par, ops))
    return res


def replay(ctx, tr):
    """the insertions of the small model, at real coordinates"""
    scale = ctx.sub('scale')
    res = []
    for w in ctx.walks(tr, maxlen=12):
        q = scale.choice([0, 0, 3])
        k = scale.choice([2, 4, 1000, 10920, 16380]) << q
        x = [-32768 << q] + [(j - 2) * k for j in (1, 2, 3)] + [(32767 << q)]
        ops = []
        for o in w:
            ops.append([o[0]] + [x[c] for c in o[1:]] + [scale.choice([0, -1 - scale.randrange(1000)])])
        ops.append(['views'])
        res.append(((0, 300) if q == 0 else (3, 64), ops))
    return res


def model(ctx, need=('point', 'edge')):
    ctx.mc('TriTest', emit=False)
    return ctx.mc('CdtMC', cfg=ctx.pick(None, 'CdtMCdeep'), workers=8, need=need)


def c01(ctx):
    ctx.mc('CdtAllMC', cfg=ctx.pick(None, 'CdtAllMCdeep'), workers=8, emit=False)
    run(ctx, 'C01', replay(ctx, model(ctx)), tag='walks')
    run(ctx, 'C01', some(ctx, 'edges', EDGES, ctx.pick(700, 7000)) + some(ctx, 'points', POINTS, ctx.pick(150, 1500)))
    run(ctx, 'C01', crowds(ctx, ctx.pick(6, 40), ctx.pick(2500, 8300), [(0, 8192), (6, 8192), (0, 20000), (0, 300)]), tag='crowds')


def c02(ctx):
    run(ctx, 'C02', replay(ctx, model(ctx)), tag='walks')
    run(ctx, 'C02', some(ctx, 'points', POINTS, ctx.pick(500, 5000)) + some(ctx, 'edges', EDGES, ctx.pick(300, 3000)))
    full = [((0, 20000), [['points', 8190, 77, 32768, 0], ['points', 60, 78, 32768, 0]]), ((0, 40), [['points', 300, 5, 70000, 0]])]
    run(ctx, 'C02', crowds(ctx, ctx.pick(4, 30), ctx.pick(1500, 8300), [(0, 8192), (6, 8192), (0, 20000), (0, 300)]) + full, tag='crowds')


def c03(ctx):
    tr = [t for t in model(ctx) if t[1][0] == 'point']
    run(ctx, 'C03', replay(ctx, tr), tag='walks')
    run(ctx, 'C03', some(ctx, 'points', (['point', 'reset'], [40, .2]), ctx.pick(600, 6000), 6, 60))
    run(ctx, 'C03', crowds(ctx, ctx.pick(10, 60), ctx.pick(2500, 8300), [(0, 8192), (6, 8192), (0, 300), (0, 20000)]), tag='crowds')


def c04(ctx):
    run(ctx, 'C04', replay(ctx, model(ctx)), tag='walks')
    run(ctx, 'C04', some(ctx, 'edges', (['point', 'edge'], [5, 10]), ctx.pick(900, 9000), 3, 40))


def c05(ctx):
    ctx.mc('TriTest', emit=False)
    r = ctx.sub('floods')
    big = []
    for k in range(ctx.pick(6, 40)):
        par = r.choice([(0, 8192), (6, 8192)])
        lim = 32768 << par[0]
        ops = [['points', r.randint(700, ctx.pick(1600, 6000)), r.randrange(1 << 30), lim, r.choice([0, 0, 1, 2])]]
        for _ in range(r.randrange(3)):   # a short edge or two: long ones may fill the mesh
            x, y = r.randint(-lim // 2, lim // 2), r.randint(-lim // 2, lim // 2)
            ops.append(['edge', x, y, x + r.randint(-lim, lim) // 8, y + r.randint(-lim, lim) // 8, 0])
        for v in (1, 2, r.choice([1, 3])):
            ops.append(['fill', r.randrange(10 ** 5), v, 0])
        ops += [['locate', r.randint(-lim, lim), r.randint(-lim, lim), -1 - r.randrange(10 ** 5)] for _ in range(30)]
        big.append((par, ops))
    run(ctx, 'C05', big, tag='floods')
    run(ctx, 'C05', some(ctx, 'looks', LOOKS, ctx.pick(700, 7000), 6, 60) + some(ctx, 'points', POINTS, ctx.pick(100, 1000)))
