KINDS = {0: 0, 1: 1, 2: 2, 3: 3, 4: 4, 5: 8, 6: 255, 7: 16, 8: 300, 9: 70000}


def common(ctx, weights, nrandom):
    tr = ctx.mc('PoolMC', need=['append', 'insert', 'remove', 'alloc', 'free', 'reset'])
    scripts = []
    # the state graph of the model, every transition taken by the real pool
    for w in ctx.walks(tr, maxlen=80):
        # the model names nodes; the driver frees "the k-th oldest held", so track the order of allocation
        held = []
        out = []
        for o in w:
            if o[0] == 'free':
                out.append(['free', 0 if o[1] not in held else held.index(o[1])])
                if o[1] in held:
                    held.remove(o[1])
            elif o[0] == 'reset':
                held = []
                out.append(o)
            elif o[0] == 'alloc':
                if o[2]:
                    held.append(o[2])
                out.append(o[:2])
            else:
                out.append(o)
        scripts.append(((3, 3, 2), out))
    r = ctx.sub('pool')
    for n in range(nrandom):
        kind = r.choice([0, 1, 1, 2, 2, 3, 3, 3, 4, 4, 5, 5, 5, 6, 7, 7, 8]) if n > 8 else n % 9
        cap = KINDS[kind]
        nq = r.randint(1, 4)
        ops = []
        v = 0
        ln = r.randint(5, 60) if kind not in (6, 8) else r.randint(4, 14)
        bias = r.choice([0.2, 1, 3])
        for _ in range(ln):
            v += 1
            a, i, rm, al, fr, rs, fi, dr, f0 = weights
            o = r.choices(['append', 'insert', 'remove', 'alloc', 'free', 'reset', 'fill', 'drain', 'free0'],
                          [a * bias, i * bias, rm, al * bias, fr, rs, fi * (8 if kind in (6, 8) else 1), dr * (4 if kind in (6, 8) else 1), f0])[0]
            k = r.randint(1, nq)
            ops.append({'append': [o, k, v], 'insert': [o, k, v], 'remove': [o, k], 'alloc': [o, v], 'free': [o, r.randint(0, 5)],
                        'reset': [o], 'fill': [o, k, 1000 + v], 'drain': [o, k], 'free0': [o]}[o])
        scripts.append(((kind, cap, nq), ops))
    # a pool whose node numbers need more than 16 bits: fill and drain it in blocks of consecutive values
    for n in range(ctx.pick(2, 8)):
        ops = []
        for _ in range(ctx.pick(6, 10)):
            ops += [['alloc', 5 + k] for k in range(r.choice([0, 1, 3]))]
            ops += [['fill', r.randint(1, 2), 1000]] if r.random() < .8 else []
            ops += [['free', r.randint(0, 5)] for k in range(r.choice([0, 1, 2]))] + [['append', 1, 7], ['insert', 2, 8], ['remove', 1]][:r.choice([0, 3])]
            ops += [['drain', r.randint(1, 2)]] if r.random() < .7 else [['reset']] if r.random() < .2 else []
        # what is freed last is given out first: the highest numbers are heads, tails and in between
            for _ in range(r.choice([0, 4, 9])):
                v = r.randint(1, 99)
                ops.append(r.choice([['insert', 1, v], ['insert', 2, v], ['append', 1, v], ['append', 2, v], ['remove', 1], ['remove', 2], ['alloc', v], ['free', r.randint(0, 5)]]))
        scripts.append(((9, 70000, 2), ops))
    for n in range(ctx.pick(24, 200)):
        kind = r.choice([6, 8])
        ops = [['fill', r.randint(1, 2), 1000], ['drain', 1], ['drain', 2]] * r.choice([1, 1, 2]) if n % 4 else []
        for _ in range(r.choice([10, 30, 60])):
            v = r.randint(1, 99)
            ops.append(r.choice([['insert', 1, v], ['insert', 2, v], ['append', 1, v], ['append', 2, v], ['remove', 1], ['remove', 2], ['alloc', v], ['free', r.randint(0, 5)]]))
        scripts.append(((kind, KINDS[kind], 2), ops))
    exe = ctx.build('pool')
    logs = ctx.drive(exe, scripts)
    ctx.validate('PoolTrace', logs, scripts)
    ctx.extra['rule'] = 'all transitions of PoolMC replayed + seeded random histories over capacities 0..255'


def order(ctx):
    common(ctx, (5, 3, 5, 1, 1, .1, .2, .2, .1), ctx.pick(600, 6000))


def conserve(ctx):
    common(ctx, (3, 1, 3, 4, 4, .2, .3, .3, .2), ctx.pick(600, 6000))
