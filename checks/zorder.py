MIN, MAX = -2**31, 2**31 - 1


def coord(r):
    m = r.random()
    if m < .25:
        return r.choice([MIN, MIN + 1, -1, 0, 1, MAX - 1, MAX])
    if m < .6:
        b = r.choice([1, -1]) * 2 ** r.randint(0, 31)
        return max(MIN, min(MAX, b + r.randint(-3, 3)))
    if m < .8:
        return r.randint(-70000, 70000)
    return r.randint(MIN, MAX)


def encode(ctx):
    ctx.mc('ZOrderMC', emit=False, workers=8)
    exe = ctx.build('zorder')
    r = ctx.sub('z')
    scripts = []
    for b in range(33):  # every single bit of either axis, and its complement
        v = MIN + (1 << b) if b < 32 else MIN
        v = max(MIN, min(MAX, v))
        w = MAX - (1 << b) if b < 32 else MAX
        scripts.append((('z',), [['encode', v, MIN], ['encode', MIN, v], ['encode', w, MAX], ['encode', MAX, w], ['encode', v, w], ['encode', v, v]]))
    for n in range(ctx.pick(60, 600)):
        ops = []
        for _ in range(12):
            ops.append(['encode', coord(r), coord(r)])
            x1, x2 = sorted([coord(r), coord(r)])
            y1, y2 = sorted([coord(r), coord(r)])
            for _ in range(8):
                px = r.choice([x1, x2, x1 - 1, x2 + 1, r.randint(x1, x2), coord(r)])
                py = r.choice([y1, y2, y1 - 1, y2 + 1, r.randint(y1, y2), coord(r)])
                c = lambda q: max(MIN, min(MAX, q))
                ops.append(['inside', x1, y1, x2, y2, c(px), c(py)])
        scripts.append((('z',), ops))
    ctx.validate('ZOrderTrace', ctx.drive(exe, scripts), scripts)


def query(ctx):
    ctx.mc('ZOrderMC', emit=False, workers=8)
    exe = ctx.build('zorder')
    r = ctx.sub('q')
    scripts = []
    c = lambda q: max(MIN, min(MAX, q))
    for n in range(ctx.pick(260, 2500)):
        kind = r.choice(['any', 'any', 'local', 'full', 'thin', 'edge', 'granule'])
        box = None
        if kind == 'full':
            e = r.choice([0, 1, 255, 256, 257, 65536])
            box = (MIN + r.choice([0, e]), MIN + r.choice([0, e]), MAX - r.choice([0, e]), MAX - r.choice([0, e]))
        elif kind == 'thin':
            v = coord(r)
            w = r.choice([0, 1, 100, 300])
            box = (v, MIN + r.choice([0, 256, 1000]), c(v + w), MAX - r.choice([0, 256, 1000])) if r.random() < .5 else (MIN, v, MAX, c(v + w))
        elif kind == 'edge':
            box = (coord(r), coord(r), MAX, MAX)
        elif kind == 'granule':
            ox, oy = coord(r), coord(r)
            box = (ox, oy, c(ox + r.randint(0, 1200)), c(oy + r.randint(0, 1200)))
        elif kind == 'local':
            ox, oy = r.randint(-10**6, 10**6), r.randint(-10**6, 10**6)
            box = (ox, oy, ox + r.randint(0, 10**5), oy + r.randint(0, 10**5))
        else:
            xs, ys = sorted([coord(r), coord(r)]), sorted([coord(r), coord(r)])
            box = (xs[0], ys[0], xs[1], ys[1])
        x1, y1, x2, y2 = box
        x1, x2 = min(x1, x2), max(x1, x2)
        y1, y2 = min(y1, y2), max(y1, y2)
        pts = []
        near = lambda lo, hi: c(r.choice([lo, hi, lo - 1, hi + 1, lo + r.randint(-300, 300), hi + r.randint(-300, 300), r.randint(lo, hi), r.randint(lo, hi), coord(r)]))
        for _ in range(r.choice([0, 1, 2, 5, 30, 30, 60]) if n % 26 else r.choice([300, 700, 1500])):
            p = [near(x1, x2), near(y1, y2)]
            pts += p
            if r.random() < .1:
                pts += p
        if r.random() < .3:
            pts += [x1, y1, x2, y2]
        if r.random() < .3:
            pts += ['z' + str(2**64 - 1), 'z0']
        ops = [['load'] + pts, ['query', x1, y1, x2, y2]]
        for _ in range(3):
            a, b = sorted([near(x1, x2), near(x1, x2)])
            d, e = sorted([near(y1, y2), near(y1, y2)])
            ops.append(['query', a, d, b, e])
        scripts.append((('q',), ops))
    # more points than two bytes count
    for n in range(ctx.pick(2, 12)):
        k, w = 65600 + r.randrange(900), r.choice([1, 7, 256, 300, 65540])
        dx, dy = r.choice([1, 20, 1000]), r.choice([1, 20, 1000])
        x0, y0 = r.choice([0, -100, r.randint(-10**6, 10**6)]), r.choice([0, -100, r.randint(-10**6, 10**6)])
        if n == 0:
            w, dx, dy = 256, 300, 300
        x1, y1 = x0 + (w - 1) * dx, y0 + (k - 1) // w * dy
        ops = [['grid', k, w, x0, y0, dx, dy], ['query', x0, y0, x1, y1], ['query', x1 - 5 * dx, y1 - 5 * dy, x1, y1]]
        for _ in range(ctx.pick(1, 3)):
            a, b = sorted([r.randint(x0, x1), r.randint(x0, x1)])
            d, e = sorted([r.randint(y0, y1), r.randint(y0, y1)])
            ops.append(['query', a, d, b, e])
        scripts.append((('q',), ops))
    ctx.validate('ZOrderTrace', ctx.drive(exe, scripts), scripts)
