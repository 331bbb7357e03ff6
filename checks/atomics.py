"""A01, A02: ce/atomic.h"""
INTS = {'i8': (8, 1), 'u8': (8, 0), 'c8': (8, 1), 'i16': (16, 1), 'u16': (16, 0), 'i32': (32, 1), 'u32': (32, 0), 'l64': (64, 1),
        'ul64': (64, 0), 'i64': (64, 1), 'u64': (64, 0), 'w32': (32, 1)}
SUMS = ['f32', 'f64', 'pc', 'pi', 'pp', 'cpi', 'pair', 'wide', 'money']
PTR = ('pc', 'pi', 'pp', 'cpi')
OPAQUE = {'byte3': 3, 'bool': 1, 'color': 1, 'hue': 1}


def int_value(r, t):
    bits, sg = INTS[t]
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if sg else (0, (1 << bits) - 1)
    c = r.random()
    if c < .35:
        v = r.choice([lo, lo + 1, hi, hi - 1, 0, 1, hi // 2, hi // 2 + 1, 2])
    elif c < .6:
        v = (1 << r.randrange(bits)) + r.choice([-1, 0, 0, 1])
    else:
        v = r.getrandbits(bits)
    v &= (1 << bits) - 1
    return v - (1 << bits) if sg and v >> (bits - 1) else v


def history(r, t, n):
    ops = []
    if t in INTS:
        val = lambda: [int_value(r, t)]
        names = ['load', 'store', 'exch', 'add', 'sub', 'xor', 'and', 'or', 'cas', 'cas']
        cur = val()
        ops.append(['new'] + cur) if r.random() < .8 else ops.append(['zero'])
        bits, sg = INTS[t]
        norm = lambda v: (v & (1 << bits) - 1) - ((1 << bits) if sg and (v >> bits - 1) & 1 else 0)
        if ops[0][0] == 'zero':
            cur = [0]
        for _ in range(n):
            o = r.choice(names)
            x = val()
            c = cur[0]
            if o == 'cas':
                e = [c] if r.random() < .6 else [norm(c ^ (1 << r.randrange(bits)))] if r.random() < .7 else val()
                ops.append(['cas'] + e + x)
                cur = x if e == cur else cur
                continue
            ops.append([o] + (x if o != 'load' else []))
            cur = [norm({'load': c, 'store': x[0], 'exch': x[0], 'add': c + x[0], 'sub': c - x[0], 'xor': c ^ x[0], 'and': c & x[0], 'or': c | x[0]}[o])]
        return ops
    k = {'pair': 2, 'wide': 2, 'byte3': 3}.get(t, 1)
    lim = {'f32': 3000, 'f64': 10 ** 9, 'pc': 900, 'pi': 200, 'pp': 60, 'cpi': 200, 'pair': 10 ** 6, 'wide': 10 ** 14, 'money': 10 ** 14,
           'byte3': 120, 'bool': 1, 'color': 77, 'hue': 200}[t]
    arith = t in SUMS
    lo = 0 if t in ('bool', 'color', 'hue') else -lim

    def val():
        if t == 'color':
            return [r.choice([0, 1, 77])]
        if t == 'hue':
            return [r.choice([0, 1, 200])]
        return [r.choice([r.randint(lo, lim), r.choice([lo, lim, 0, 1])]) for _ in range(k)]
    names = ['load', 'store', 'exch', 'cas', 'cas'] + ['add', 'sub'] * (2 if arith else 0)
    cur = val()
    ops.append(['new'] + cur)
    if r.random() < .2:
        ops = [['zero'], ['load'], ['store'] + cur] if t in PTR else [['zero']]
        cur = cur if t in PTR else [0] * k
    # sums drift: keep the number of them small enough for the exact range (|value| <= 30 * lim)
    for _ in range(min(n, 25)):
        o = r.choice(names)
        x = val()
        if o == 'cas':
            e = list(cur) if r.random() < .6 else val()
            if r.random() < .3 and k > 1:  # equal in all but one component
                e = list(cur)
                q = r.randrange(k)
                e[q] += 1 if e[q] < lim else -1
            ops.append(['cas'] + e + x)
            cur = x if e == cur else cur
            continue
        ops.append([o] + (x if o != 'load' else []))
        cur = {'load': cur, 'store': x, 'exch': x, 'add': [a + b for a, b in zip(cur, x)], 'sub': [a - b for a, b in zip(cur, x)]}[o]
    return ops


def sequential(ctx):
    need = ['load', 'store', 'exch', 'add', 'sub', 'xor', 'and', 'or', 'cas']
    scripts = []
    for cfg, types in (('AtomicMC', ['i8', 'c8']), ('AtomicMCu', ['u8'])):
        tr = ctx.mc('AtomicMC', cfg=cfg, need=need)
        ws = ctx.walks(tr, maxlen=200)
        for t in types if not ctx.quick else types[:1]:
            scripts += [((t,), [['new', 0]] + [o for o in w]) for w in ws]
    r = ctx.sub('atomics')
    types = list(INTS) + SUMS + list(OPAQUE)
    for n in range(ctx.pick(40, 500)):
        for t in types:
            scripts.append(((t,), history(r, t, r.randint(4, 30))))
    exe = ctx.build('atomics', libs=False, ldflags=['-latomic'])
    logs = ctx.drive(exe, scripts)
    ctx.validate('AtomicTrace', logs, scripts)
    # compiled as C++20 floating point has its own fetch_add and the polyfill is not taken
    some = [s for s in scripts if s[0][0] in ('f32', 'f64', 'pair', 'money', 'pi')]
    exe = ctx.build('atomics', libs=False, ldflags=['-latomic'], name='atomics20', std='-std=c++20', opt='-O2', asan=False)
    ctx.validate('AtomicTrace', ctx.drive(exe, some), some, tag='AtomicTrace20')
    # the MSVC form, over stand-ins for its intrinsics; it has no bit operations and no 16 byte or odd sized compare exchange
    some = []
    for (t,), ops in scripts:
        if t in ('wide',):
            continue
        ops = [o for o in ops if o[0] not in ('xor', 'and', 'or') and not (t == 'byte3' and o[0] == 'cas')]
        if ops[0] == ['zero']:  # which leaves it as it is there
            ops = [['new'] + ops[2][1:]] + ops[3:] if t in PTR else [['new'] + [0] * {'pair': 2, 'byte3': 3}.get(t, 1)] + ops[1:]
        some.append(((t,), ops))
    exe = ctx.build('atomics', libs=False, name='atomics_msvc', defs=['-DKIT_MSVC_ATOMIC'], cxxflags=['-Wno-c++11-narrowing'], fatal=False)
    if exe is None:
        ctx.assumptions.append('the MSVC form uses more intrinsics than the stand-ins have: not covered')
    else:
        ctx.validate('AtomicTrace', ctx.drive(exe, some), some, tag='AtomicTraceMsvc')
    ctx.extra['rule'] = 'every transition of the 8 bit models (signed and unsigned) replayed + seeded random histories over %d types' % len(types)


# ---- A02 ------------------------------------------------------------------------------------------------------
NUM = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64']
POLY = ['f32', 'f64', 'pair', 'wide']
ALL = NUM + POLY + ['ptr', 'bool', 'color']


def family(t):
    """named programs for type t: (init, threads)"""
    st, ld, ex = (lambda l, v: ['store', l, v]), (lambda l: ['load', l]), (lambda l, v: ['exch', l, v])
    P = [
        ((0, 0), [[st(1, 1), ld(2)], [st(2, 1), ld(1)]]),                                # store buffering
        ((0, 0), [[['pw', 1, 7], st(1, 1)], [ld(1), ['prif', 1, 1]]]),                   # message passing
        ((0, 0), [[['pw', 1, 7], ex(1, 1)], [ex(1, 0), ['prif', 1, 1]]]),
        ((0, 0), [[['pw', 1, 7], ['cas', 1, 0, 1]], [['cas', 1, 1, 0], ['prif', 1, 1001]]]),
        ((0, 0), [[['pw', 1, 7], st(1, 1)], [['cas', 1, 0, 0], ['prif', 1, 1]]]),        # a failed compare exchange is a read
        ((0, 0), [[st(1, 1)], [st(2, 1)], [ld(1), ld(2)], [ld(2), ld(1)]]),              # IRIW
        ((0, 0), [[st(1, 1), ld(1), ld(1)], [ld(1), ld(1)]]),
        ((0, 0), [[ex(1, 1), ld(2)], [ex(2, 1), ld(1)]]),
        ((0, 0), [[['cas', 1, 0, 1], ld(1)], [['cas', 1, 0, 0], ['cas', 1, 1, 0]], [['cas', 1, 0, 1]]]),
        ((0, 0), [[['pw', 1, 7], st(1, 1)], [ld(1), ['pw', 2, 5], st(2, 1)], [ld(2), ['prif', 2, 1]]]),
        ((1, 0), [[ex(1, 0)], [ex(1, 1)], [['cas', 1, 1, 0], ld(1)]]),
    ]
    if t in ('bool', 'color'):
        return P
    A = [
        ((5, 0), [[['add', 1, 1]], [['add', 1, 2]], [['add', 1, 4]]]),
        ((9, 0), [[['sub', 1, 1]], [['add', 1, 2]], [['sub', 1, 4]]]),
        ((9, 0), [[['sub', 1, 1], ['sub', 1, 2]], [['sub', 1, 4], ['add', 1, 1]]]),
        ((7, 0), [[['add', 1, 1]], [st(1, 3), st(1, 7)]]),                               # back to the same value in between
        ((7, 0), [[['sub', 1, 1]], [['add', 1, 3], ['sub', 1, 3]]]),
        ((7, 0), [[['add', 1, 1]], [ex(1, 30)], [['cas', 1, 8, 50]]]),
        ((7, 0), [[['sub', 1, 1]], [ex(1, 30)], [['cas', 1, 6, 50]]]),
        ((0, 0), [[['pw', 1, 7], ['add', 1, 1]], [['sub', 1, 0], ['prif', 1, 1]]]),
        ((1, 0), [[['pw', 1, 7], ['sub', 1, 1]], [['add', 1, 0], ['prif', 1, 0]]]),
        ((0, 0), [[['add', 1, 1], ld(2)], [['add', 2, 1], ld(1)]]),
        ((2, 2), [[['sub', 1, 1], ld(2)], [['sub', 2, 1], ld(1)]]),
        ((0, 0), [[['pw', 1, 7], ['add', 1, 1]], [['add', 1, 2]], [ld(1), ['prif', 1, 3]]]),
        ((0, 0), [[['pw', 1, 7], st(1, 1)], [['add', 1, 1]], [ld(1), ['prif', 1, 2]]]),
    ]
    if t == 'wide':
        A = A[:11]
    if t in NUM:
        for o in ('xor', 'and', 'or'):
            A += [((12, 0), [[[o, 1, 6]], [[o, 1, 9]], [['xor', 1, 3]]]),
                  ((12, 0), [[[o, 1, 5], ld(1)], [st(1, 6), ['or', 1, 8]]]),
                  ((1, 0), [[['pw', 1, 7], [o, 1, {'xor': 1, 'and': 0, 'or': 2}[o]]], [[o, 1, {'xor': 0, 'and': 127, 'or': 0}[o]], ['prif', 1, {'xor': 0, 'and': 0, 'or': 3}[o]]]]),
                  ((1, 1), [[[o, 1, 2], ld(2)], [[o, 2, 2], ld(1)]])]
    return P + A


def random_program(r, t):
    v = (lambda: r.randint(0, 1)) if t in ('bool', 'color') else (lambda: r.randint(0, 12))
    names = ['load', 'store', 'exch', 'cas', 'cas'] + (['add', 'sub', 'add', 'sub'] if t not in ('bool', 'color') else []) + (['xor', 'and', 'or'] if t in NUM else [])
    init = (v(), v()) if t in ('bool', 'color') else (r.randint(40, 44), r.randint(40, 44))
    shape = r.choice([[2, 2], [1, 1, 1], [3, 1], [1, 1, 2], [2, 3]] if t not in POLY else [[2, 2], [1, 1, 1], [2, 1], [1, 1]])
    one_loc = r.random() < .6
    prog = []
    for n in shape:
        th = []
        for _ in range(n):
            o = r.choice(names)
            l = 1 if one_loc else r.randint(1, 2)
            if o == 'load':
                th.append([o, l])
            elif o == 'cas':
                th.append([o, l, r.choice([init[l - 1], init[l - 1], v()]), v()])
            elif o == 'sub' and t.startswith('u'):
                th.append([o, l, r.randint(0, 6)] if init[l - 1] > 30 and not any(x[0] in ('store', 'exch', 'cas', 'and', 'xor') for q in prog + [th] for x in q) else ['load', l])
            elif o in ('store', 'exch', 'and', 'xor') and any(x[0] == 'sub' for q in prog + [th] for x in q) and t.startswith('u'):
                th.append(['load', l])
            elif o == 'cas' and t.startswith('u'):
                th.append(['load', l])
            elif o in ('xor', 'and', 'or'):
                # bit operations of negative numbers do not arise: nothing is subtracted from small values beside them
                th.append([o, l, r.randint(0, 63)] if not any(x[0] == 'sub' for q in prog + [th] for x in q) else ['load', l])
            elif o == 'sub' and any(x[0] in ('xor', 'and', 'or') for q in prog + [th] for x in q):
                th.append(['load', l])
            else:
                th.append([o, l, v()])
        prog.append(th)
    if t.startswith('u') and any(x[0] == 'sub' for q in prog for x in q) and any(x[0] == 'cas' for q in prog for x in q):
        return random_program(r, t)
    return init, prog


def script(t, init, prog, full, rnd, nlog, seed):
    ops = [['init'] + list(init)]
    for k, th in enumerate(prog):
        if k:
            ops.append(['t'])
        ops += th
    return ((t,), ops + [['go', full, rnd, nlog, seed]])


def concurrent(ctx):
    import json, os
    ctx.mc('LitmusMC', emit=False, workers=8)
    # the machine is weak enough: with weaker orders what Conc forbids does happen
    for cfg, need in (('LitmusMCra', ['SB', 'IRIW']), ('LitmusMCrlx', ['SB', 'IRIW', 'MP', 'MPadd', 'MPpadd']), ('LitmusMCld', ['SB', 'IRIW']), ('LitmusMCst', ['SB', 'IRIW'])):
        ctx.mc('LitmusMC', cfg=cfg, workers=8, need=need)
    full, rnd = ctx.pick(20000, 400000), ctx.pick(3000, 40000)
    scripts = []
    r = ctx.sub('conc')
    for t in ALL:
        for init, prog in family(t):
            scripts.append(script(t, init, prog, full, rnd, 2, r.randint(1, 10 ** 6)))
        for _ in range(ctx.pick(12, 150)):
            init, prog = random_program(r, t)
            scripts.append(script(t, init, prog, full, rnd, 1, r.randint(1, 10 ** 6)))
    exe = ctx.build('conc', libs=False, asan=False, opt='-O1')
    # eight processes
    from concurrent.futures import ThreadPoolExecutor
    parts = [scripts[k::8] for k in range(8)]
    with ThreadPoolExecutor(8) as ex:
        logs = list(ex.map(lambda a: ctx.drive(exe, a[1], tag='conc%d' % a[0], timeout=ctx.pick(800, 14000), env={'KIT_SECONDS': str(ctx.pick(120, 1200))}), enumerate(parts)))
    order = [s for p in parts for s in p]
    logs = [l for p in logs for l in p]
    ctx.validate('ConcTrace', logs, order)
    mem = []
    n = dict(executions=0, outcomes=0, cut=0, exhaustive=0)
    for l in logs:
        o = json.loads(l)
        for e in o['ev']:
            if e[0] == 'mem' and e[1]:
                mem.append(json.dumps(dict(p=[], ev=e[1])))
            elif e[0] == 'done':
                n['executions'] += e[2]
                n['outcomes'] += e[1]
                n['cut'] += e[3]
                n['exhaustive'] += bool(e[4])
    ctx.validate('MemTrace', mem)
    ctx.extra.update(n, programs=len(logs))
    ctx.extra['rule'] = '%d concurrent programs over %d types, each run on the memory machine in all interleavings and reads (up to %d executions, then %d random ones), three models of plain access to an atomic object' % (len(logs), len(ALL), full, rnd)
