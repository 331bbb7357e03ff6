HUGE = 2147483647


def bulk(ctx, kinds, nrandom):
    tr = ctx.mc('BulkMC', need=['append', 'appendn', 'resize', 'remove', 'removeo', 'clear', 'set', 'assign', 'copy'])
    scripts = []
    walks = ctx.walks(tr, maxlen=150)
    for n, w in enumerate(walks):
        scripts.append(((kinds[n % len(kinds)], 3, 2), w))
    r = ctx.sub('bulk')
    for n in range(nrandom):
        kind = r.choice(kinds)
        cap = r.choice([1, 2, 3, 3, 7])
        nl = r.randint(1, 3)
        ops = []
        pos = lambda: r.choice([HUGE] + list(range(0, cap + 2)) * 2)
        for _ in range(r.randint(8, 50)):
            k = r.randint(1, nl)
            o = r.choices(['append', 'dup', 'appendn', 'resize', 'remove', 'removeo', 'clear', 'set', 'assign', 'copy'],
                          [8, 1, 2, 2, 3, 3, .3, 1, 2, 1])[0]
            ops.append({'append': [o, k, r.randint(-5, 99)], 'dup': [o, k, r.randint(0, cap)], 'appendn': [o, k, pos()],
                        'resize': [o, k, pos()], 'remove': [o, k, pos()], 'removeo': [o, k, pos()], 'clear': [o, k],
                        'set': [o, k, r.randint(0, cap - 1), r.randint(0, 99)], 'assign': [o, k, r.randint(1, nl)], 'copy': [o, k, r.randint(1, nl)]}[o])
        scripts.append(((kind, cap, nl), ops))
    # hundreds of items, and more than a 16 bit count can tell (trivial elements)
    for n in range(ctx.pick(12, 60)):
        kind = kinds[n % len(kinds)]
        ops = []
        fill = lambda k, m: [['appendn', k, m]] if kind != 11 else [['fill', k, m]]
        ops += fill(1, r.choice([255, 256, 257, 290])) + fill(2, r.choice([1, 256, 270]))
        edge = lambda: r.choice([0, 1, 254, 255, 256, 257, 298, 299, 300, 301])
        for _ in range(12):
            k = r.randint(1, 2)
            o = r.choice(['append', 'dup', 'appendn', 'resize', 'remove', 'removeo', 'set', 'assign', 'copy'])
            ops.append({'append': [o, k, r.randint(0, 99)], 'dup': [o, k, edge()], 'appendn': [o, k, r.choice([1, 10, 300])], 'resize': [o, k, edge()],
                        'remove': [o, k, edge()], 'removeo': [o, k, edge()], 'set': [o, k, min(299, edge()), r.randint(0, 99)], 'assign': [o, k, 3 - k], 'copy': [o, k, 3 - k]}[o])
        scripts.append(((kind, 300, 2), ops))
    if 0 in kinds:
        scripts.append(((0, 66000, 2), [['appendn', 1, 65530], ['see', 1], ['copy', 2, 1], ['append', 2, 5], ['appendn', 2, 20], ['removeo', 2, 65536], ['resize', 1, 65536], ['assign', 1, 2], ['remove', 1, 65537],
                                         ['appendn', 1, 465], ['resize', 1, 66001], ['resize', 1, 66000], ['set', 1, 65999, 3], ['assign', 2, 1], ['see', 2]]))
    exe = ctx.build('bulk')
    logs = ctx.drive(exe, scripts)
    ctx.validate('BulkTrace', logs, scripts)
    ctx.extra['rule'] = 'all transitions of BulkMC replayed + seeded random histories, capacities 1..7, element kinds %s' % kinds


def bulk_seq(ctx):
    bulk(ctx, [0, 1, 10], ctx.pick(500, 5000))


def bulk_life(ctx):
    bulk(ctx, [10, 10, 11], ctx.pick(500, 5000))


def pqueue(ctx):
    tr = ctx.mc('PriorityQueueMC', need=['enqueue', 'dequeue'])
    scripts = [(('pq', 5), w) for w in ctx.walks(tr, maxlen=120)]
    r = ctx.sub('pq')
    for n in range(ctx.pick(400, 4000)):
        cap = r.choice([1, 2, 5, 8, 33])
        ks = r.choice([1, 3, 10, 100000])
        mode = r.choice(['mix', 'up', 'down', 'fill'])
        ops = []
        for j in range(r.randint(10, 120)):
            k = {'mix': r.randint(-ks, ks), 'up': j, 'down': -j, 'fill': r.randint(0, ks)}[mode]
            ph = (j // (cap + 2)) % 2 == 0
            enq = r.random() < (0.9 if ph else 0.15) if mode == 'fill' else r.random() < 0.6
            ops.append(['enqueue', k] if enq else ['dequeue'])
        scripts.append((('pq', cap), ops))
    for n in range(ctx.pick(8, 40)):
        ops = [['many', r.choice([120, 130, 250, 257, 299]), r.randrange(1000), r.choice([1, 7, 999, 0]), r.choice([5, 100, 1000])]]
        for _ in range(15):
            ops.append(r.choice([['dequeue'], ['dequeue'], ['enqueue', r.randrange(1000)], ['many', r.choice([3, 60]), r.randrange(1000), r.choice([3, 997]), 1000]]))
        scripts.append((('pq', 300), ops))
    scripts.append((('pq', 66000), [['many', 65999, 7, 48271, 65537], ['dequeue'], ['many', 3, 5, 9, 100], ['dequeue']]))
    exe = ctx.build('misc', defs=['-DNO_TREE'])
    ctx.validate('PriorityQueueTrace', ctx.drive(exe, scripts), scripts)


def bitset(ctx):
    tr = ctx.mc('BitsetMC', need=['bit', 'setv', 'all'])
    scripts = [(('bitset', 9), [['all', 0]] + w) for w in ctx.walks(tr, maxlen=200)]
    r = ctx.sub('bits')
    for n in range(ctx.pick(120, 1500)):
        N = r.choice([1, 7, 8, 9, 16, 65, 65, 300])
        ops = [['all', r.randint(0, 1)]]
        for _ in range(r.randint(5, 80)):
            o = r.random()
            i = r.choice([0, N - 1, r.randrange(N), r.randrange(N)])
            ops.append(['bit', i, r.randint(0, 1)] if o < .45 else ['setv', i, r.randint(0, 1)] if o < .93 else ['all', r.randint(0, 1)] if o < .97
                       else ['outside', r.choice([N, N, N + 1, N + 7, N + 8, (N + 7) // 8 * 8, 2 * N, N + 256, N + 65536, 2**31, 2**32, 2**32 + N - 1, 2**63, 2**64 - 1, 2**64 - N])])
        scripts.append((('bitset', N), ops))
    for N in (1, 7, 8, 9, 16, 65, 300):  # every index, both forms, from both backgrounds
        for bg in (0, 1):
            ops = [['all', bg]]
            for i in range(N):
                ops += [['bit', i, 1 - bg], ['setv', i, bg], ['setv', i, 1 - bg], ['bit', i, bg]]
            scripts.append((('bitset', N), ops))
    N = 66003
    at = [0, 7, 8, 255, 256, 32767, 32768, 65535, 65536, 65537, 65543, 65544, 66000, 66002]
    scripts.append((('bitset', N), [['all', 0]] + [[r.choice(['bit', 'setv']), i, 1] for i in r.sample(at, len(at))] + [[r.choice(['bit', 'setv']), i, 0] for i in r.sample(at, len(at))]
                    + [['all', 1], ['bit', 65536, 0], ['setv', 66002, 0], ['setv', 65535, 0]]))
    exe = ctx.build('misc', defs=['-DNO_TREE'])
    ctx.validate('BitsetTrace', ctx.drive(exe, scripts), scripts)


def span(ctx):
    tr = ctx.mc('SpanMC', need=['skip', 'trim'])
    ws = ctx.walks(tr, maxlen=30)
    scripts = [((k, 6), w) for w in ws for k in ('span', 'spanc')]
    r = ctx.sub('span')
    for n in range(ctx.pick(1500, 15000)):
        N = r.randint(0, 40)
        cnt = lambda: r.choice([0, 1, 2, 3, N - 1 if N else 0, N, N + 1, r.randint(0, 45), 2147483640 + r.randint(0, 7)]) if r.random() < .5 else r.randint(0, 6)
        scripts.append(((r.choice(['span', 'spanc']), N), [[r.choice(['skip', 'trim']), cnt()] for _ in range(r.randint(1, 15))]))
    # sizes and counts around a byte
    for n in range(ctx.pick(60, 600)):
        N = r.choice([250, 256, 257, 511, 600, 3990])
        cnt = lambda: r.choice([1, 100, 254, 255, 256, 257, 258, N - 1, N, N + 1, 512, 65536, 65539, 65536 + N - 1, 2147483602, 2147483640])
        scripts.append(((r.choice(['span', 'spanc']), N), [[r.choice(['skip', 'trim']), cnt()] for _ in range(r.randint(1, 8))]))
    exe = ctx.build('misc', defs=['-DNO_TREE'])
    ctx.validate('SpanTrace', ctx.drive(exe, scripts), scripts)


def dictionary(ctx):
    tr = ctx.mc('DictionaryMC', need=['bind', 'find'])
    scripts = [(('dict', 4, 0, 1, 2, 3, 4), w) for w in ctx.walks(tr, maxlen=120)]
    r = ctx.sub('dict')
    # every search tree size over the capacity, then binds on top
    for N in (2, 4, 5, 16, 40):
        for h in range(0, N):
            for rep in range(ctx.pick(4 if N < 40 else 1, 20)):
                lo = 0 if N == 5 else -60
                ks = sorted(r.sample(range(lo, 60), h), reverse=True)
                if 0 not in ks and h and rep % 2 == 0:
                    ks = sorted(ks[1:] + [0], reverse=True)
                pool = sorted(set(ks) | set(r.sample(range(lo, 60), min(20, N + 3))) | {0})
                ops = [['pre'] + ks]
                for _ in range(r.randint(3, 12)):
                    o = r.random()
                    ops.append(['bind', r.choice(pool), r.randint(0, 99)] if o < .6 else ['put', r.choice(pool), r.randint(0, 99)] if o < .8 else ['find', r.choice(pool)])
                scripts.append((('dict', N) + tuple(pool), ops))
    for n in range(ctx.pick(250, 3000)):
        N = r.choice([1, 2, 4, 5, 6, 9, 16, 16, 40])
        lo = 0 if N == 5 else -30
        pool = sorted(set(r.sample(range(lo, 60), min(45, N + 4))) | {0})
        ops = []
        for _ in range(r.randint(5, 60)):
            o = r.random()
            ops.append(['bind', r.choice(pool), r.randint(0, 99)] if o < .6 else ['put', r.choice(pool), r.randint(0, 99)] if o < .7 else
                       ['miss', r.choice(pool)] if o < .78 else ['missp', r.randint(0, N)] if o < .86 else ['find', r.choice(pool)])
        scripts.append((('dict', N) + tuple(pool), ops))
    # many keys, one slot more than an index of one or two bytes can name
    for N in [300] * ctx.pick(4, 12) + [66000]:
        top = r.randint(N - 5, N + 3)
        pool = sorted({1, 2, 254, 255, 256, 257, 258, N - 2, N - 1, N, N + 1} | set(r.sample(range(1, N), 12)) | ({65535, 65536, 65537} if N > 65536 else set()))
        a = r.randint(1, N // 2)
        ops = [['fill', 1, a], ['fill', a + 1, top]]
        for _ in range(12):
            ops.append([r.choice(['bind', 'put']), r.choice(pool), r.randint(0, 99)] if r.random() < .7 else ['miss', r.choice(pool)])
        scripts.append((('dict', N) + tuple(pool), ops))
        if N == 300:    # a search tree that large
            ks = sorted(r.sample(range(-500, 500), r.choice([255, 256, 257, 290, 299])), reverse=True)
            pool = sorted(set(r.sample(ks, 25)) | set(r.sample(range(-500, 500), 10)))
            scripts.append((('dict', N) + tuple(pool), [['pre'] + ks] + [['bind', r.choice(pool), r.randint(0, 99)] for _ in range(8)]))
    # the search tree prefix can only be laid out through the fields; should those have changed, the rest is still checked
    exe = ctx.build('misc', fatal=False)
    if exe is None:
        exe = ctx.build('misc', defs=['-DNO_TREE'])
        scripts = [x for x in scripts if all(o[0] != 'pre' for o in x[1])]
    ctx.validate('DictionaryTrace', ctx.drive(exe, scripts), scripts)
