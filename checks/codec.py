from fw.fw import Violation


def build(ctx, *defs):
    """the driver with its constant evaluated parts; if only those do not compile, constant evaluation is what broke"""
    exe = ctx.build('codec', defs=['-DSTATICS'] + list(defs), fatal=False)
    if exe is None:
        ctx.build('codec', defs=list(defs))
        raise Violation('constant evaluation of the well formed static inputs is rejected by the compiler', dict(kind='constexpr', defs=list(defs)))
    return exe


def lziii(ctx):
    tr = ctx.mc('LziiiMC', cfg=ctx.pick('LziiiMC', 'LziiiMCdeep'), emit=True, workers=1, need=('lit', 'span'))
    exe = build(ctx)
    r = ctx.sub('lz')
    x = [('x',)]
    scripts = [(('x',), [o for op in w for o in ([list(op), ['check']])]) for w in ctx.walks(tr)]
    for n in range(ctx.pick(400, 3000)):
        ops = []
        out = 0
        m = r.choice([1, 7, 8, 9, 16, 17, 30, 120]) if n % 10 else r.choice([400, 900])
        p = r.choice([.1, .5, .9, 1])
        for _ in range(m):
            if out and r.random() > p or (out > 4000 and r.random() < .3):
                top = min(out, 4096)
                off = max(1, min(top, r.choice([1, 2, 3, 4, 17, 18, 19, 255, 256, 257, 511, 512, 4095, 4096, top, top - 1, r.randint(1, top)])))
                ln = r.choice([3, 4, 17, 18, r.randint(3, 18)])
                ops.append(['span', ln, off])
                out += ln
            else:
                ops.append(['lit', r.choice([0, 255, r.randrange(256)])])
                out += 1
            if r.random() < (.3 if m < 20 else .02):
                ops.append(['check'])
        ops.append(['check'])
        scripts.append((('x',), ops))
    # far offsets: long literal prefix, every high nibble of the offset
    ops = []
    for j in range(4100):
        ops.append(['lit', (j * 7 + j // 256) % 256])
    for j in range(0, 4096, 61):
        ops.append(['span', 3 + j % 16, 4096 - j])
    ops.append(['check'])
    scripts.append((('x',), ops))
    # more than 65535 bytes decoded, and more than that encoded; the groups cut anywhere
    for big in ([1, 2, 3, 4, 5] if ctx.quick else range(40)):
        ops = [['lit', r.randrange(256)] for _ in range(r.randrange(9))]
        ops.append(['lits', r.choice([1, 2, 300, 4096]), r.randrange(256), r.randrange(256)])
        n = 0
        for _ in range(r.randint(1, 6)):
            m = r.choice([1, 7, 8, 9, 255, 256, 300])
            ops.append(['spans', m, r.randint(3, 18), r.randint(1, min(4096, ops[-1][1] if ops[-1][0] == 'lits' else 1))] if r.random() < .7 else ['lits', m, r.randrange(256), r.randrange(256)])
        if big % 5 == 1:
            ops.append(['spans', r.randint(3700, 4000), 18, 1])
        elif big % 5 == 2:
            ops.append(['lits', r.randint(65000, 67000), r.randrange(256), r.randrange(256)])
            ops.append(['spans', r.randint(1, 20), r.randint(3, 18), r.choice([4096, r.randint(1, 4096)])])
        elif big % 5 == 3:
            ops.append(['lits', 4096, 5, 2 * r.randrange(128) + 1])
            ops.append(['spans', r.randint(1, 9), 18, r.choice([4096, r.randint(3000, 4096)])])
        ops.append(['check'])
        scripts.append((('x',), ops))
    scripts.append((('x',), [['lzstatic']]))
    ctx.validate('LziiiTrace', ctx.drive(exe, scripts), scripts)


def hexs(b):
    return bytes(b).hex() or '-'


def base64(ctx):
    ctx.mc('Base64MC', emit=False, workers=4)
    exe = build(ctx)
    r = ctx.sub('b64')
    scripts = [(('x',), [['b64static']])]
    ends = ['-'] + ['%02x' % c for c in range(256) if not (chr(c).isalnum() and c < 128) and chr(c) not in '+/']
    ops = []
    for a in range(256):  # every byte value in every position
        for pos in range(3):
            b = [r.randrange(256) for _ in range(r.choice([3, 4, 5]))]
            b[pos % len(b)] = a
            ops.append([r.choice(['raw', 'pad']), hexs(b), r.choice(ends)])
    for e in ends:
        ops.append(['raw', hexs([r.randrange(256) for _ in range(r.randrange(7))]), e])
    ops += [['size', max(0, min(2**64 - 1, n + d))] for n in [0, 2**32, 2**62, 2**63, 2**64 - 1, 2**64 // 3, 2**64 // 3 * 2, r.getrandbits(64)] for d in range(-5, 6)]
    scripts.append((('x',), ops))
    for n in range(ctx.pick(300, 3000)):
        ops = []
        for _ in range(10):
            ln = r.choice([0, 1, 2, 3, 4, 5, 6, r.randrange(40), r.randrange(200), r.choice([0, r.randrange(1500)])])
            k = r.choice(['any', 'any', 'hi', 'lo'])
            b = [{'any': r.randrange(256), 'hi': 255, 'lo': 0}[k] for _ in range(ln)]
            ops.append([r.choice(['raw', 'pad']), hexs(b), r.choice(ends)])
        scripts.append((('x',), ops))
    for n in (256, 257, 4097, 65535, 65536, 65537, 66000 + r.randrange(9)):
        scripts.append((('x',), [['raw', r.getrandbits(8 * n).to_bytes(n, 'big').hex(), r.choice(ends)]]))
    ctx.validate('Base64Trace', ctx.drive(exe, scripts), scripts)


POLY = [0x82f63b78, 0xedb88320, 0xeb31d82e, 0x80000001]


def crc(ctx):
    ctx.mc('CrcMC', emit=False, workers=4)
    exe = build(ctx, '-DCRC')
    r = ctx.sub('crc')
    scripts = [(('x',), [['crctext']])]
    for P in POLY:
        ops = []
        for a in range(256):  # every table entry of every slice
            ops.append(['start', r.choice([0, 2**32 - 1, r.getrandbits(32)])])
            b = [0] * 8
            b[a % 8] = a
            ops.append(['feed', P, '64', hexs(b)])
            for w, m in (('8', 1), ('32', 4), ('64', 8)):
                ops.append(['feed', P, w, hexs([a] * m)])
        scripts.append((('x',), ops))
    for n in range(ctx.pick(250, 2500)):
        ops = []
        P = r.choice(POLY)
        for _ in range(r.choice([1, 2])):
            ops.append(['start', r.choice([0, 0, 0, 1, 2**31, 2**32 - 1, r.getrandbits(32)])])
            b = [r.choice([0, 255, r.randrange(256), r.randrange(256)]) for _ in range(8 * r.choice([0, 1, 2, 3, 8]))]
            for w in ('8', '32', '64'):
                ops += [ops[0] if w != '8' else ['start', 0], ['feed', P, w, hexs(b)]]
            for _ in range(3):  # continuing in pieces
                w = r.choice(['8', '8', '32', '64'])
                m = {'8': 1, '32': 4, '64': 8}[w]
                ops.append(['feed', P, w, hexs([r.randrange(256) for _ in range(m * r.choice([0, 1, 2, 5]))])])
        scripts.append((('x',), ops))
    # more than 255 words of every width, and more than 65535
    for w, m in (('8', 1), ('32', 4), ('64', 8)):
        for n in [255, 256, 257, 300, r.randint(258, 3000), 65535 + r.randint(0, 20)]:
            if w == '8' or n < 60000 or ctx.pick(w == '64', True):
                scripts.append((('x',), [['start', r.getrandbits(32)], ['long', r.choice(POLY), w, n * m, 2 * r.randrange(128) + 1, r.randrange(256)]]))
    ctx.validate('CrcTrace', ctx.drive(exe, scripts), scripts)


def fnv(ctx):
    ctx.mc('FnvMC', emit=False, workers=4)
    exe = build(ctx)
    r = ctx.sub('fnv')
    W = {'u8': 1, 'i8': 1, 'char': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8}
    scripts = [(('x',), [['fstatic']])]
    for n in range(ctx.pick(400, 4000)):
        ops = [['fresh']]
        for _ in range(12):
            m = r.random()
            if m < .1:
                w = r.choice([32, 64])
                ops.append(['fstart', w, r.choice([0, 1, 2**w - 1, r.getrandbits(w)])])
            elif m < .2:
                b = [r.choice([255, 128, 127, r.randrange(1, 256)]) for _ in range(r.choice([0, 1, 2, 20]))]
                ops.append(['fhash', 32, 'text', hexs(b)])
            else:
                how = r.choice(list(W))
                ln = r.choice([0, 1, 1, 2, 3, 9])
                b = [r.choice([0, 255, 128, 127, r.randrange(256), r.randrange(256)]) for _ in range(W[how] * ln)]
                ops.append([r.choice(['ffeed', 'ffeed', 'fhash']), r.choice([32, 64]), how, hexs(b)])
        scripts.append((('x',), ops))
    for how in list(W) + ['text']:
        m = W.get(how, 1)
        for n in [255, 256, 257, r.randint(258, 2000)] + ([65535 + r.randint(0, 20)] if how in ('u8', 'text', 'i64', 'u16') else []):
            scripts.append((('x',), [['fresh'], ['flong', 32 if how == 'text' else r.choice([32, 64]), how, n * m, r.randrange(1, 255), r.randrange(255)]]))
    ctx.validate('FnvTrace', ctx.drive(exe, scripts), scripts)
