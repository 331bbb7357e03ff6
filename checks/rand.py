def word(r, w):
    return r.choice([0, 1, 2**w - 1, 2**(w - 1), 1 << r.randrange(w), 2**w - 1 - (1 << r.randrange(w)), r.getrandbits(w), r.getrandbits(w), r.getrandbits(w)])


def generators(ctx):
    ctx.mc('XoroMC', emit=False)
    exe = ctx.build('random')
    r = ctx.sub('gen')
    scripts = []
    for n in range(ctx.pick(400, 5000)):
        kind = r.choice(['ss', 'pp', 'pcg'])
        w = 32 if kind == 'ss' else 64
        ops = [['state', word(r, w)] + ([word(r, w)] if kind != 'pcg' else [])]
        pool = ['-'] + [bytes(r.choice([0, 255, r.randrange(256)]) for _ in range(r.choice([1, 2, 3, 4, 8, 9, 33]))).hex() for _ in range(3)]
        for _ in range(r.choice([2, 4])):
            m = r.random()
            if m < .5:
                ops.append(['state', word(r, w)] + ([word(r, w)] if kind != 'pcg' else []))
            elif m < .9:
                ops.append(r.choice([['seed', r.choice(pool)], ['seed', r.choice(pool)], ['seednull']]))
            elif kind == 'pcg':
                ops.append(['seed64', word(r, 64)])
            for _ in range(r.choice([1, 5, 20])):
                ops.append([r.choice(['next'] if kind == 'pcg' else ['next', 'next32', 'next64'])])
        scripts.append(((kind,), ops))
    # seeds of every small length, and long ones
    for kind in ('ss', 'pp', 'pcg'):
        for n in list(range(1, 20)) + [31, 64, 127, 128, 129, 255, 256, 257, 511, 512, 513, 65535 + r.randrange(3)]:
            scripts.append(((kind,), [['seed', bytes(r.randrange(256) for _ in range(n)).hex()], ['next']]))
    # every rotation amount of the PCG output, and the data that gives both halves of a crc pair zero
    for a in range(32):
        scripts.append((('pcg',), [['state', (a << 59) + r.getrandbits(59)], ['next'], ['state', (a << 59) + 2**45 - 1], ['next'], ['state', a << 59], ['next']]))
    # seeds that leave the dead state: 8 bytes whose two chained crc words are both 0
    scripts.append((('ss',), [op for b in dead_seeds() for op in (['seed', b], ['next'], ['next64'], ['next'])]))
    ctx.validate('RandomTrace', ctx.drive(exe, scripts), scripts)


def dead_seeds():
    """data for which crc32c over either half can be driven to 0 (no data at all is the simplest)"""
    P = 0x82f63b78
    inv = {}
    tab = []
    for v in range(256):
        c = v
        for _ in range(8):
            c = c >> 1 ^ (P if c & 1 else 0)
        tab.append(c)
        inv[c >> 24] = v

    def force(c, want):
        """4 bytes that take crc c to crc want"""
        target = ~want & 0xffffffff
        t = target
        idx = []
        for _ in range(4):
            k = inv[t >> 24]
            idx.append(k)
            t = (t ^ tab[k]) << 8 & 0xffffffff
        v = ~c & 0xffffffff
        out = []
        for k in reversed(idx):
            out.append((v ^ k) & 255)
            v = v >> 8 ^ tab[k]
        assert v == target
        return out

    def crc(c, bs):
        v = ~c & 0xffffffff
        for b in bs:
            v = v >> 8 ^ tab[(v ^ b) & 255]
        return ~v & 0xffffffff
    res = ['-']
    for pre in ([], [1], [9, 9, 9], list(range(12))):
        a = pre + force(crc(0, pre), 0)
        assert crc(0, a) == 0
        b = pre[::-1] + force(crc(0, pre[::-1]), 0)
        res.append(bytes(a + b).hex())
        res.append(bytes(a).hex())
    return res


def bounded(ctx):
    ctx.mc('RandomMC', cfg=ctx.pick('RandomMC', 'RandomMCdeep'), emit=False, workers=8)
    exe = ctx.build('random')
    r = ctx.sub('bounded')
    scripts = []
    R = 2**32

    def bound():
        k = r.randrange(33)
        return max(1, min(R - 1, r.choice([1, 2, 3, 7, R - 1, R - 2, R // 2, R // 2 + 1, R // 2 - 1, R // 3, R // 3 + 1, (1 << k) + r.randint(-2, 2), r.randrange(1, R), r.randrange(1, 1000)])))
    for n in range(ctx.pick(400, 5000)):
        ops = []
        for _ in range(12):
            b = bound()
            k = R % b
            q = []
            # words at the edge of acceptance: fractional part just below / at / above the threshold, for some value
            for _ in range(r.choice([0, 1, 2, 4])):
                x = -(-(r.randrange(b) * R) // b) % R  # first word of a value: smallest fractional part
                q.append(r.choice([x, (x + 1) % R, (x - 1) % R, 0, 0]))
            q.append(r.choice([R - 1, r.getrandbits(32)]))
            q += [R - 1]  # accepted by every bound
            ops.append(['wunbiased', b] + q)
            ops.append(['wranged', b, r.choice([0, R - 1, R // b, r.getrandbits(32)])])
        scripts.append((('words',), ops))
    for n in range(ctx.pick(60, 600)):
        ops = [['state', r.getrandbits(64)]]
        for _ in range(20):
            ops.append([r.choice(['ranged', 'unbiased', 'unbiased']), bound()])
        scripts.append((('pcg',), ops))
    ctx.validate('RandomTrace', ctx.drive(exe, scripts), scripts)
    # the whole word space for some bounds
    fast = ctx.build('random', asan=False, opt='-O2', name='randomfast')
    hist = [3, 5, 1000, 65537, 1 << 16, 1000003, 3 * 2**20, 10]
    sc = [(('words',), [['hist'] + hist])]
    if not ctx.quick:
        for _ in range(8):
            sc.append((('words',), [['hist'] + [r.randrange(2, 2**r.randint(2, 24)) for _ in range(8)]]))
    ctx.validate('RandomTrace', ctx.drive(fast, sc, timeout=800), sc, tag='RandomHist')
