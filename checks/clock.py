from .osfile import WIN

RATES = [(1, 1), (60, 1), (1000, 1), (60000, 1001), (1, 60), (3, 7), (1000000, 1), (1000000000, 1), (30, 1), (65536, 3), (999999937, 1000003)]


def ticks(ctx):
    ctx.mc('ClockMC', emit=False, workers=4)
    exe = ctx.build('clock', exclude=['os_posix.cpp'])
    r = ctx.sub('ticks')
    scripts = []
    for n in range(ctx.pick(500, 6000)):
        fn, fd = r.choice(RATES)
        ops = []
        for _ in range(r.choice([1, 1, 2])):
            f = r.choice([1, 2, 3, 7, 60, 1000, 1000000, 3579545, 10000000, 1000000000, 2**31 - 1, 2**32, 2**32 + 3, 10**10, 2**40 + 1])
            # 64 bit range of the products: (timestamps in a period) * fn + residual, and the tick count itself
            if f * fd * (fn + 1) >= 2**64:
                f = r.choice([1, 2, 3, 7])
            ts = r.choice([0, 1, 10**9, 2**63, 2**64 - 5, 2**64 - 10**10, r.getrandbits(64)])
            ops.append(['reset', f, ts])
            per = f * fd
            tot = 0
            lim = (2**64 - 1) // fn * per
            for _ in range(r.choice([5, 40, 120])):
                d = r.choice([0, 1, 1, 2, per - 1, per, per + 1, per // fn, per // fn + 1, max(0, per // fn - 1), r.randint(0, 3 * per), r.randint(0, max(1, per // 5)),
                              r.randint(0, per * 100000), per * 3 - 1])
                if r.random() < .02:
                    d = r.randint(0, 2**62)
                d = min(d, 2**63)
                if tot + d >= lim:
                    d = 0
                tot += d
                ts = (ts + d) % 2**64
                ops.append([r.choice(['elapsed', 'elapsed', 'current']), ts])
        scripts.append(((fn, fd), ops))
    # single unit polls across many ticks
    for fn, fd in RATES:
        ts = r.getrandbits(64)
        ops = [['reset', 7, ts]]
        for _ in range(300):
            ts = (ts + 1) % 2**64
            ops.append(['elapsed', ts])
        scripts.append(((fn, fd), ops))
    ctx.validate('ClockTrace', ctx.drive(exe, scripts), scripts)


def ostime(ctx):
    exe = ctx.build('ostime', asan=False, ldflags=['-Wl,--wrap=clock_gettime,--wrap=nanosleep,--wrap=clock_nanosleep'])
    r = ctx.sub('os')
    G = 10**9
    scripts = []
    for n in range(ctx.pick(150, 1500)):
        ops = []
        for _ in range(20):
            sec = r.choice([0, 1, 2, 4, 5, 2**31 - 1, 2**31, 2**32, 2**32 + 1, 2**33, 18446744072, r.randint(0, 10**6), r.randint(0, 2**33)])
            ns = r.choice([0, 1, G - 1, G // 2, 999999, 1000000, r.randrange(G), r.randrange(G)])
            ops.append(['stamp', 1 if r.random() < .9 else 0, sec, ns])
            v = r.choice([0, 1, 999, G - 1, G, G + 1, 2 * G - 1, 2 * G, 4294967295, 4294967296, 4294967297, 2**63 - 1, 2**63, 2**64 - 1, r.randrange(3 * G), r.getrandbits(64), r.getrandbits(40)])
            ops.append(['sleep', v])
        scripts.append((('x',), ops))
    ops = [['real'] for _ in range(50)]
    for _ in range(ctx.pick(6, 30)):
        ops += [['nap', r.choice([0, 1, 1000, 1000000, 3000000, 20000000])], ['real']]
    ops += [['nap', G + 5000000]]
    scripts.append((('x',), ops))
    ctx.validate('OsTimeTrace', ctx.drive(exe, scripts), scripts)
    exe = ctx.build('winos', fatal=False, **WIN)
    if exe is None:
        ctx.assumptions.append('the Windows layer uses more of Windows than the stand-ins have: not covered')
        return
    scripts = []
    for n in range(ctx.pick(150, 1500)):
        ops = []
        for _ in range(20):
            ops.append(['wstamp', r.choice([0, 1, 2**32 - 1, 2**32, 2**63 - 1, r.getrandbits(40), r.getrandbits(63)]), r.choice([1, 3579545, 10**7, 10**9, 2**32, 2**33 + 1, r.getrandbits(40)])])
            m = r.random()
            if m < .5:
                v = r.choice([0, 1, 999999, 10**6, 10**6 + 1, 2 * 10**6 - 1, 10**9, (2**32 - 2) * 10**6, (2**32 - 1) * 10**6, 2**32 * 10**6, (2**32 + 1) * 10**6, 2**32, 2**63, 2**64 - 1])
            else:
                v = r.getrandbits(r.choice([8, 21, 33, 40, 54, 64]))
            ops.append(['wsleep', v])
        scripts.append((('x',), ops))
    ctx.validate('OsTimeTrace', ctx.drive(exe, scripts), scripts, tag='win')
