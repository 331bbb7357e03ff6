from math import gcd, cos, sin, pi
MIN, MAX = -2**31, 2**31 - 1


def scale(r, top):
    """a number with any order of magnitude up to top"""
    m = r.random()
    if m < .15:
        return r.choice([0, 1, -1, top, -top, top - 1, 1 - top])
    if m < .5:
        return r.choice([-1, 1]) * max(0, min(top, (1 << r.randrange(top.bit_length())) + r.randint(-2, 2)))
    if m < .75:
        return r.randint(-min(8, top), min(8, top))
    return r.randint(-top, top)


def clip(v, top):
    return max(-top, min(top, v))


# ---- inside -----------------------------------------------------------------------------------
def triangulation(r, top):
    """a triangulation of a rectangle by splitting and flipping, with exact integer tests: vertices, triangles"""
    w = r.choice([2, 4, 9, 9, 1000, top])
    h = r.choice([2, 4, 9, 9, 1000, top])
    w, h = min(w, top), min(h, top)
    ox, oy = r.randint(-top, top - w), r.randint(-top, top - h)
    vs = [(ox, oy), (ox + w, oy), (ox + w, oy + h), (ox, oy + h)]
    cr = lambda o, a, b: (vs[a][0] - vs[o][0]) * (vs[b][1] - vs[o][1]) - (vs[a][1] - vs[o][1]) * (vs[b][0] - vs[o][0])
    tris = [[0, 2, 1], [0, 3, 2]]
    for _ in range(r.randrange(12)):
        k = r.random()
        if k < .6:
            t = r.choice(tris)
            m = r.random()
            a, b, c = [vs[x] for x in t]
            if m < .6:
                n = [r.randint(1, 5) for _ in range(3)]
                q = tuple((a[i] * n[0] + b[i] * n[1] + c[i] * n[2]) // sum(n) for i in (0, 1))
            else:
                d = (b[0] - a[0], b[1] - a[1])
                g = gcd(*d)
                if g < 2:
                    continue
                x = r.randrange(1, g)
                q = (a[0] + d[0] // g * x, a[1] + d[1] // g * x)
            if q in vs:
                continue
            vs.append(q)
            p = len(vs) - 1
            out, ok = [], True
            for t in tris:
                s = [cr(t[i], t[(i + 1) % 3], p) for i in range(3)]
                if max(s) > 0:
                    out.append(t)
                else:
                    out += [[t[i], t[(i + 1) % 3], p] for i in range(3) if s[i] < 0]
            tris = out
        else:
            t = r.choice(tris)
            i = r.randrange(3)
            a, b, c = t[i], t[(i + 1) % 3], t[(i + 2) % 3]
            o = [u for u in tris if a in u and b in u and u is not t]
            if not o:
                continue
            d = [x for x in o[0] if x not in (a, b)][0]
            if cr(c, a, d) < 0 and cr(d, b, c) < 0:
                tris.remove(t)
                tris.remove(o[0])
                tris += [[c, a, d], [d, b, c]]
    assert all(cr(*t) < 0 for t in tris)
    return vs, tris, (ox, oy, w, h)


def inside(ctx):
    ctx.mc('PlaneMC', cfg=ctx.pick('PlaneMC', 'PlaneMCdeep'), emit=False, workers=8)
    ctx.mc('GeoMC', cfg=ctx.pick('GeoMC', 'GeoMCdeep'), emit=False, workers=8)
    exe = ctx.build('geo')
    r = ctx.sub('inside')
    scripts = []
    for n in range(ctx.pick(120, 1500)):
        ops = []
        for _ in range(20):
            w = r.random() < .3
            top = 2**31 - 1
            a = (scale(r, top), scale(r, top))
            m = r.random()
            if m < .3:
                k = r.choice([-2, -1, 0, 1, 2, 3])
                b = tuple(clip(k * x, top) for x in a)
            elif m < .5:  # nearly parallel
                k = r.choice([-1, 1])
                b = tuple(clip(k * x + r.choice([-1, 0, 0, 1]), top) for x in a)
            elif m < .65:  # exact multiples of one direction
                u = (scale(r, 40000), scale(r, 40000))
                k, l = r.randint(-50000, 50000), r.randint(-50000, 50000)
                a, b = tuple(clip(k * x, top) for x in u), tuple(clip(l * x, top) for x in u)
            else:
                b = (r.choice([a[0], scale(r, top)]), r.choice([a[1], scale(r, top)]))
            if r.random() < .05:
                a = (r.choice([MIN, a[0]]), r.choice([MIN, a[1]]))
            if (max(map(abs, a)) == 2**31) and w is False:
                b = tuple(clip(x, 2**30) for x in b)
            ops.append(['inside64' if w else 'inside', *a, *b])
        scripts.append((('x',), ops))
    for n in range(ctx.pick(250, 2500)):
        vs, tris, (ox, oy, w, h) = triangulation(r, r.choice([9, 2**30 - 1, 2**20]))
        head = ['mesh', len(vs)] + [c for v in vs for c in v] + [len(tris)] + [x for t in tris for x in t]
        ops = []
        for _ in range(8):
            m = r.random()
            a, b = r.choice(vs), r.choice(vs)
            if m < .3:
                q = a
            elif m < .7:
                q = ((a[0] + b[0]) // 2 + r.choice([0, 0, 1, -1]), (a[1] + b[1]) // 2 + r.choice([0, 0, 1, -1]))
            else:
                q = (ox + r.randint(0, w), oy + r.randint(0, h))
            ops.append(head + [*q, 1 if ox < q[0] < ox + w and oy < q[1] < oy + h else 0])
        scripts.append((('x',), ops))
    ctx.validate('GeoTrace', ctx.drive(exe, scripts), scripts)


# ---- ranges -----------------------------------------------------------------------------------
TRIPLES = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (20, 21, 29), (1, 0, 1), (0, 1, 1)]


def ranges(ctx):
    ctx.mc('PlaneMC', cfg=ctx.pick('PlaneMC', 'PlaneMCdeep'), emit=False, workers=8)
    exe = ctx.build('geo')
    r = ctx.sub('ranges')
    top = 2**30 - 1
    scripts = []
    rr_of = lambda x: max(0, min(2**62 - 1, x))
    for n in range(ctx.pick(500, 5000)):
        ops = []
        for _ in range(12):
            m = r.random()
            if m < .4:  # a point at an exact distance e from the line, at a chosen place along it
                a, b, c = r.choice(TRIPLES)
                a, b = r.choice([(a, b), (b, a), (-a, b), (a, -b), (-b, -a)])
                k = r.choice([1, 2, 1000, 2**r.randint(0, 24)])
                k = min(k, top // 40)
                e = r.randint(-k, k)
                f = r.choice([0, k, -1, 1, k + 1, k - 1, r.randint(-k, 2 * k)])
                lim = top // max(abs(a), abs(b), 1)
                k, f, e = min(k, lim), clip(f, lim // 2), clip(e, lim // 2)
                d = (a * k, b * k)
                p = (clip(a * f - b * e, top), clip(b * f + a * e, top))
                base = (c * e) ** 2
            else:
                d = (scale(r, top), scale(r, top)) if m < .9 else (0, 0)
                p = (scale(r, top), scale(r, top)) if r.random() < .7 else tuple(clip(x // 2 + r.randint(-2, 2), top) for x in d)
                base = r.choice([p[0]**2 + p[1]**2, (p[0] - d[0])**2 + (p[1] - d[1])**2, abs(scale(r, 2**62 - 1))])
                dd = d[0]**2 + d[1]**2
                if dd and r.random() < .5:
                    base = (d[0] * p[1] - d[1] * p[0])**2 // dd
            rr = rr_of(base + r.choice([0, 0, 0, 1, 1, -1, 2]))
            k = r.choice(['near', 'line', 'edge', 'ray', 'segment', 'edge', 'segment', 'hitedge', 'hitray'])
            if k == 'near':
                ops.append([k, *p, rr])
            elif k.startswith('hit'):
                o = [r.randint(max(-2**31, -2**31 - min(0, p[i], d[i])), min(2**31 - 1, 2**31 - 1 - max(0, p[i], d[i]))) for i in (0, 1)]
                ops.append([k, p[0] + o[0], p[1] + o[1], rr, *o, d[0] + o[0], d[1] + o[1]])
            else:
                ops.append([k, *p, rr, *d])
        for _ in range(6):
            t = 2**63
            a, b = scale(r, t - 1), scale(r, t - 1)
            if r.random() < .2:
                a = -t
            if r.random() < .3:
                c, d = r.choice([(b, a), (-a, -b), (a, b)])
            elif r.random() < .5:
                c = scale(r, t - 1) or 1
                d = a * b // c
            else:
                k = r.choice([1, 2, 3, 2**r.randrange(62)])
                c, d = a // k, b * k
            d += r.choice([-1, 0, 0, 1])
            ops.append(['less', a, b, max(-t, min(t - 1, c)), max(-t, min(t - 1, d))])
        scripts.append((('x',), ops))
    ctx.validate('GeoTrace', ctx.drive(exe, scripts), scripts)


# ---- polygons ---------------------------------------------------------------------------------
def polygon(ctx):
    ctx.mc('PlaneMC', cfg=ctx.pick('PlaneMC', 'PlaneMCdeep'), emit=False, workers=8)
    exe = ctx.build('geo')
    r = ctx.sub('poly')
    scripts = []
    for n in range(ctx.pick(500, 5000)):
        ops = []
        for _ in range(10):
            t = r.choice(['32', '64', 'xy'])
            kind = r.random()
            if kind < .4:
                g = r.choice([2, 3, 5, 9])
                ps = [(r.randint(-g, g), r.randint(-g, g)) for _ in range(r.choice([0, 1, 2, 3, 3, 4, 5, 6, 8, 12, 30]))]
                p = (r.randint(-g, g), r.randint(-g, g))
            elif kind < .7:
                m, turns = r.choice([3, 4, 5, 7, 16, 60]), r.choice([-3, -2, -1, 1, 1, 2, 5])
                g = r.choice([10, 1000, 2**29])
                ph = r.random()
                ps = [(int(g * cos(2 * pi * (turns * k / m + ph))), int(g * sin(2 * pi * (turns * k / m + ph)))) for k in range(m)]
                p = (r.choice([0, g // 2, ps[0][0], g // 3]), r.choice([0, ps[0][1], ps[1][1], 1]))
            else:
                g = 2**30 - 1
                ps = [(scale(r, g), scale(r, g)) for _ in range(r.choice([3, 4, 5, 9]))]
                p = (scale(r, g), r.choice([scale(r, g), ps[0][1]]))
            if ps and r.random() < .3:
                ps.insert(r.randrange(len(ps)), r.choice(ps))
            # anywhere in the type's range
            big = 2**31 - 1 if t != '64' else 2**62
            if r.random() < .4:
                o = [r.choice([-1, 1]) * (big - max([abs(c[i]) for c in ps + [p]])) for i in (0, 1)]
                ps = [(x + o[0], y + o[1]) for x, y in ps]
                p = (p[0] + o[0], p[1] + o[1])
            ops.append(['poly', t, *p] + [c for v in ps for c in v])
        scripts.append((('x',), ops))
    ctx.validate('GeoTrace', ctx.drive(exe, scripts), scripts)


# ---- vectors ----------------------------------------------------------------------------------
def vectors(ctx):
    ctx.mc('PlaneMC', cfg=ctx.pick('PlaneMC', 'PlaneMCdeep'), emit=False, workers=8)
    exe = ctx.build('geo')
    r = ctx.sub('vec')
    scripts = []
    for n in range(ctx.pick(400, 4000)):
        ops = []
        for _ in range(25):
            ty = r.choice(['32', '32', '64', 'f', 'tag'])
            top = {'32': MAX, 'tag': MAX, '64': 2**63 - 1, 'f': 2**24}[ty]
            w = r.choice([2, 3])
            op = r.choice(['+', '-', '*', '/', '==', '!=', '==s', '!=s', 'dot', 'cross', 'sqr'])
            if op in ('dot', 'cross', 'sqr'):
                if op == 'sqr':
                    w = 2
                if op != 'cross' and r.random() < .25:
                    w = 1
                lim = {'32': MAX, 'tag': MAX, '64': 2**30, 'f': 1000}[ty]
                a, b = [scale(r, lim) for _ in range(w)], [scale(r, lim) for _ in range(w)]
                if ty in ('32', 'tag') and r.random() < .2:
                    a[r.randrange(w)] = MIN
                prods = sum(abs(x * y) for x, y in zip(a, b)) if op == 'dot' else sum(x * x for x in a) if op == 'sqr' else 2 * max(map(abs, a)) * max(map(abs, b))
                if prods >= 2**63:
                    a, b = [x // 2 for x in a], [x // 2 for x in b]
                    if w == 3 and op == 'dot':
                        a = [x // 2 for x in a]
                ops.append(['vec', op, w, ty, *a, *b])
                continue
            if op in '+-':
                a = [scale(r, top) for _ in range(w)]
                b = [scale(r, top) for _ in range(w)]
                b = [y if -top <= (x + y if op == '+' else x - y) <= top else (y >> 1) - (x >> 1) if op == '+' else (y >> 1) + (x >> 1) for x, y in zip(a, b)]
                b = [y if -top <= (x + y if op == '+' else x - y) <= top else 0 for x, y in zip(a, b)]
                ops.append(['vec', op, w, ty, *a, *b])
            elif op == '*':
                c = scale(r, r.choice([3, 1000, top]))
                a = [scale(r, top // max(1, abs(c))) for _ in range(w)]
                if ty == 'f':
                    c = clip(c, 4096)
                    a = [clip(x, 4096) for x in a]
                ops.append(['vec', op, w, ty, *a, *[c] * w])
            elif op == '/':
                c = scale(r, r.choice([3, 1000, top])) or 1
                a = [scale(r, top) for _ in range(w)]
                if ty == 'f':
                    c = r.choice([1, 2, 4, -1, -8])
                    a = [c * scale(r, 1000) for _ in range(w)]
                ops.append(['vec', op, w, ty, *a, *[c] * w])
            else:
                a = [scale(r, top) for _ in range(w)]
                if op[-1] == 's' and r.random() < .7:
                    a = [a[0]] * w
                b = list(a)
                k = r.choice([0, 0, 1, 2, 3])
                for j in r.sample(range(w), min(k, w)):
                    b[j] = clip(b[j] + r.choice([1, -1, 2**8, 2**16, 2**30]), top) if ty != 'f' else clip(b[j] + 1, top)
                if op[-1] == 's':
                    b = [r.choice([a[0], a[0], clip(a[0] + 1, top)])] * w
                    if r.random() < .5:
                        a[r.randrange(w)] = scale(r, top)
                ops.append(['vec', op, w, ty, *a, *b])
        scripts.append((('x',), ops))
    ctx.validate('GeoTrace', ctx.drive(exe, scripts), scripts)


# ---- roots and angles -------------------------------------------------------------------------
def roots(ctx):
    ctx.mc('RootMC', emit=False, workers=8)
    exe = ctx.build('geo')
    r = ctx.sub('roots')
    scripts = []
    lim = (2**31 - 1)**2 + 2**31 - 1 - 2**13  # root below 2^31 - 1/2 - 2^-19
    for n in range(ctx.pick(400, 4000)):
        ops = []
        for _ in range(12):
            k = r.choice([r.randrange(300), 2**r.randrange(31) + r.randint(-2, 2), r.randrange(2**31), 2**25 + r.randint(-99, 99), 2**31 - 1 - r.randrange(3)])
            k = max(0, min(2**31 - 1, k))
            v = r.choice([k * k, k * k + k, k * k + k + 1, k * k - k, k * k - k + 1, k * k + 1, k * k - 1, r.randint(0, lim)])
            v = max(0, min(lim, v))
            ops.append(['isqrt', v])
            if r.random() < .5:
                ops.append(['isqrt', min(lim, v + r.choice([1, 1, k]))])
        for _ in range(8):
            m = r.random()
            if m < .3:
                a, b, c = r.choice(TRIPLES)
                k = r.randint(0, MAX // c)
                x, y = r.choice([(a, b), (b, a), (-a, b), (a, -b), (-b, -a)])
                x, y = x * k, y * k
            elif m < .4:
                x, y = r.choice([(MAX, 0), (0, MAX), (-MAX, 0), (MIN, 0), (0, 0), (MIN + 1, 1), (1518500249, 1518500249), (-1518500249, 1518500250)])
            else:
                x, y = scale(r, MAX), scale(r, MAX)
            if x * x + y * y > lim:
                x, y = x // 2, y // 2
            ops.append(['hypot', x, y])
        for _ in range(4):
            ops.append(['angle', r.choice([r.randint(-360, 360), r.randint(-2000, 2000), scale(r, MAX), 45 * r.randint(-9, 9), MIN])])
        scripts.append((('x',), ops))
    scripts.append((('x',), [['angle', d] for d in range(-361, 362)]))
    scripts.append((('x',), [['isqrt', v] for v in range(ctx.pick(2000, 20000))]))
    ctx.validate('GeoTrace', ctx.drive(exe, scripts), scripts)
