"""N02 rotation and polar form, N03 intersection of lines, N04 unit vectors"""
import struct
from .geo import scale, MIN, MAX

TURN = 2**31


def angle(r):
    m = r.random()
    if m < .3:
        return max(MIN, min(MAX, r.randint(-16, 16) * (TURN // r.choice([8, 8, 16, 64])) + r.randint(-2, 2)))
    if m < .4:
        return r.choice([0, 1, -1, MIN, MAX, 2**29 - 1, 2**29, 2**30, -2**29])
    if m < .6:
        return scale(r, MAX)
    return r.randint(MIN, MAX)


def vector(r, top=MAX - 2):
    """a vector no longer than top"""
    while True:
        m = r.random()
        if m < .2:
            x, y = r.randint(-9, 9), r.randint(-9, 9)
        elif m < .35:
            x, y = r.choice([(top, 0), (0, top), (-top, 0), (0, -top), (1518500248, 1518500248), (-1518500248, 1518500248), (0, -1), (0, 1), (-1, 0), (1, 0)])
        elif m < .5:
            x, y = scale(r, top), r.randint(-2, 2)
            if r.random() < .5:
                x, y = y, x
        else:
            x, y = scale(r, top), scale(r, top)
        if x * x + y * y <= top * top:
            return x, y


def turns(ctx):
    ctx.mc('CordicTest', emit=False, workers=8)
    ctx.mc('CordicMC', cfg=ctx.pick('CordicMC', 'CordicMCdeep'), emit=False, workers=8)
    exe = ctx.build('turn')
    r = ctx.sub('turns')
    scripts = []
    # the situations of the model: small vectors, every 2^-7 turn
    for a in range(-6, 7):
        scripts.append((('x',), [['cart', a, b << 24] for b in range(-128, 128)]))
        scripts.append((('x',), [['polar', a, b] for b in range(-6, 7)]))
    for _ in range(ctx.pick(500, 6000)):
        ops = []
        for _ in range(6):
            ops.append(['cart', r.choice([MAX, -MAX, MAX - 1, 1, scale(r, MAX), r.randint(-MAX, MAX)]), angle(r)])
            ops.append(['polar'] + list(vector(r)))
        for _ in range(2):
            ops.append(['rot'] + list(vector(r)) + [angle(r)])
            ops.append(['vector'] + list(vector(r)) + [max(-2**29, min(2**29, angle(r)))])
            ops.append(['quarter'] + list(vector(r)) + [angle(r)])
        scripts.append((('x',), ops))
    ctx.validate('CordicTrace', ctx.drive(exe, scripts), scripts)


def fits(*v):
    return all(MIN <= x <= MAX for x in v)


def part(b, n, d):
    q = abs(b * n) // abs(d)
    return q if (b * n < 0) == (d < 0) else -q


def lines(ctx):
    exe = ctx.build('turn')
    r = ctx.sub('lines')
    scripts = []
    grid = [(x, y) for x in range(-1, 2) for y in range(-1, 2)]
    from itertools import product
    small = list(product(grid, repeat=4))
    r.shuffle(small)
    for k in range(0, ctx.pick(1600, len(small)), 20):
        scripts.append((('x',), [['cross'] + [c for p in q for c in p] for q in small[k:k + 20]]))
    want = ctx.pick(500, 5000)
    while want:
        ops = []
        while len(ops) < 16:
            top = r.choice([3, 20, 300, 40000, 2**20, 2**29])
            q = [[scale(r, top), scale(r, top)] for _ in range(4)]
            m = r.random()
            if m < .1:  # parallel
                k = r.choice([1, -1, 2])
                q[3] = [q[2][j] + k * (q[1][j] - q[0][j]) for j in (0, 1)]
            elif m < .3:  # through a common point
                k = r.randint(1, 3)
                q[1] = [q[3][j] + k * (q[3][j] - q[0][j]) for j in (0, 1)]
            elif m < .4:
                q[2] = [q[1][j] + r.randint(-2, 2) for j in (0, 1)]
            (ax, ay), (bx, by), (cx, cy), (dx, dy) = q
            px, py, qx, qy, ux, uy = bx - ax, by - ay, dx - cx, dy - cy, cx - ax, cy - ay
            d, n = px * qy - py * qx, ux * qy - uy * qx
            if not fits(ax, ay, bx, by, cx, cy, dx, dy, px, py, qx, qy, ux, uy) or abs(d) >= 2**63 or abs(n) >= 2**63:
                continue
            if d and not fits(part(px, n, d), part(py, n, d), ax + part(px, n, d), ay + part(py, n, d)):
                continue
            ops.append(['cross', ax, ay, bx, by, cx, cy, dx, dy])
        for _ in range(6):
            b = [scale(r, MAX), scale(r, MAX)]
            wide = r.random() < .5
            n, d = [r.choice([scale(r, 2**63 - 1), -2**63]) if wide and r.random() < .3 else -2**31 if not wide and r.random() < .1 else scale(r, 2**62 if wide else MAX) for _ in range(2)]
            if wide and r.random() < .05:
                d = 0
            if (wide and d == 0) or d and fits(part(b[0], n, d), part(b[1], n, d)):
                ops.append(['muldivx' if wide else 'muldiv'] + b + [n, d])
        scripts.append((('x',), ops))
        want -= 1
    ctx.validate('CordicTrace', ctx.drive(exe, scripts), scripts)


def fbits(x):
    return struct.unpack('<I', struct.pack('<f', x))[0]


def normals(ctx):
    ctx.mc('UnitMC', emit=False)
    exe = ctx.build('turn')
    r = ctx.sub('normals')
    scripts = []
    tags = lambda: ['t'] if r.random() < .2 else []
    scripts.append((('x',), [['normal'] + [fbits(float(c)) for c in (a, b, d)] for a in range(-2, 3) for b in range(-2, 3) for d in range(-2, 3) if (a, b, d) != (0, 0, 0)]))
    for _ in range(ctx.pick(300, 4000)):
        ops = []
        while len(ops) < 20:
            e = r.randint(-50, 61)
            m = r.random()
            v = [r.choice([1, -1]) * r.uniform(1, 2) * 2.0**(e + (r.randint(-3, 0) if m < .6 else r.randint(-70, 0))) for _ in range(3)]
            if m > .9:
                v[r.randrange(3)] = r.choice([0.0, -0.0, 2.0**-149, -2.0**-130])
            if m > .95:
                v = [x if r.random() < .5 else r.choice([0.0, -0.0]) for x in v]
            v = [struct.unpack('<f', struct.pack('<f', x))[0] for x in v]
            if not 2.0**-100 <= sum(x * x for x in v) <= 2.0**125:
                continue
            ops.append(['normal'] + [fbits(x) for x in v] + tags())
        scripts.append((('x',), ops))
    ctx.validate('UnitTrace', ctx.drive(exe, scripts), scripts)
