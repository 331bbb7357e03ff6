"""O01 files of the OS layer: histories over a stand-in operating system, and paths in every code point"""
import os
from fw.fw import DRV

WIN = dict(asan=True, defs=['-DKIT_WIN32', '-I', os.path.join(DRV, 'win32os')], cxxflags=['-fshort-wchar'], exclude=['os_posix.cpp', 'os_win32.cpp'], name='winos')
FAULTS = {'open': ['none', 'none', 'create'], 'close': ['none', 'none', 'close'], 'map': ['none', 'none', 'none', 'size', 'mapping', 'view'],
          'mapp': ['none', 'none', 'none', 'create', 'size', 'mapping', 'view', 'close'], 'unmap': ['none']}
FAULTS['typed'] = FAULTS['mapp']
POINTS = [0x2f, 0x41, 0x7e, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x3042, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0xfffff, 0x100000, 0x10ffff]


def point(r):
    m = r.random()
    if m < .4:
        return r.choice(POINTS)
    c = r.randint(1, r.choice([0x7f, 0x7ff, 0xffff, 0x10ffff]))
    return c if not 0xd800 <= c <= 0xdfff else 0x61


def history(r, windows):
    n = r.randint(1, 6)
    ops = []
    have = []
    for k in range(n):
        q = [point(r) for _ in range(r.choice([0, 1, 1, 3, 9, 40]))] + [0x30 + k]
        if k and r.random() < .3:           # two paths that differ in little
            q = list(last)
            q[-1] = 0x30 + k
            if r.random() < .5:
                q[0:0] = [q[0] ^ 1 if q[0] ^ 1 else 2]
        last = q
        have.append(r.random() < .75)
        size = r.choice([0, 1, 3, 4, 5, 7, 8, 64, 300])
        ops.append(['file'] + q + ['/'] + ([size, r.randrange(256)] if have[-1] else ['none']))
    h, v, sz = {}, {}, [o[-2] if e else None for o, e in zip(ops, have)]
    for _ in range(r.choice([10, 40])):
        o = r.choice(['open', 'open', 'close', 'map', 'map', 'mapp', 'typed', 'unmap'])
        no = r.choice(FAULTS[o])
        k = r.randint(1, 3)
        f = r.randint(1, n)
        if o == 'open':
            if h.get(k):
                continue
            if windows and have[f - 1] and no != 'create':
                h[k] = f
            ops.append([o, k, f, no])
        elif o == 'close':
            h[k] = 0
            ops.append([o, k, no])
        elif o == 'unmap':
            v[k] = 0
            ops.append([o, k])
        else:
            if v.get(k):
                continue
            g = r.randint(1, 3)
            src = h.get(g, 0) if o == 'map' else (f if have[f - 1] and no != 'create' else 0)
            if windows and src and sz[src - 1] and no not in ('size', 'mapping', 'view'):
                v[k] = src
            ops.append([o, k, g if o == 'map' else f, no])
    return ops


SIZES = ['1', '4096', '100000', '1048577']


def files(ctx):
    tr = ctx.mc('OsFileMC', need=('open', 'close', 'map', 'mapp', 'typed', 'unmap'))
    ctx.mc('UtfMC', cfg=ctx.pick('UtfMC', 'UtfMCdeep'), emit=False, workers=4)
    setup = [['file', 0x61, 0x10348, '/', 5, 1], ['file', 0x62, '/', 0, 0], ['file', 0x63, 0x20ac, '/', 'none']]
    exe = ctx.build('winos', fatal=False, **WIN)
    pos = ctx.build('winos', name='posixos')
    r = ctx.sub('files')
    scripts = [(('x',), setup + w) for w in ctx.walks(tr, maxlen=120)]
    for _ in range(ctx.pick(300, 4000)):
        scripts.append((('x',), history(r, True)))
    # every code point, in runs of one byte length; a run ends wherever it may
    c, size = 1, 60
    while c < 0x110000:
        n = size
        if ctx.tier == 'thorough' or r.random() < .1 or any(c <= p < c + n + 2048 for p in (0x80, 0x800, 0xd800, 0x10000, 0x10ffff)):
            scripts.append((('x',), [['path', 'run', c, n]]))
        c += n
        size = 60 if c < 0x1000 else ctx.pick(300, 120)
    for _ in range(ctx.pick(60, 600)):
        scripts.append((('x',), [['path'] + [point(r) for _ in range(r.choice([0, 1, 2, 30]))] for _ in range(6)]))
    ops = [['alloc', n, no] for n in SIZES for no in ('none', 'alloc')]
    ops += [['debug', ''.join('%02x' % r.randint(1, 255) for _ in range(m)) or '-'] for m in (0, 1, 5, 300)]
    scripts.append((('x',), ops))
    # files of 4 GiB and more; paths of more than 65535 bytes and units
    for n in [1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, (3 << 32) + 1, r.randrange(1 << 33, 1 << 35)]:
        scripts.append((('x',), [['huge', how, n // 4 + 1 if how == 'typed' else n] for how in ('path', 'file', 'typed')]))
    scripts.append((('x',), [['path', 'run', 0x10000, 40000]]))
    scripts.append((('x',), [['path', 'run', 0x41, 70000]]))
    if exe is None:
        ctx.assumptions.append('the Windows layer uses more of Windows than the stand-ins have: not covered')
    else:
        ctx.validate('OsFileTrace', ctx.drive(exe, scripts), scripts)
    # the POSIX layer has no files: everything is refused
    scripts = [(('x',), history(r, False)) for _ in range(ctx.pick(60, 400))] + [(('x',), [['alloc', n, 'none'] for n in SIZES] + [['path', 'run', 0x41, 20], ['huge', 'path', '5000000000'], ['huge', 'file', '5000000000'], ['huge', 'typed', '5000000000']])]
    ctx.validate('OsFileTrace', ctx.drive(pos, scripts), scripts, cfg='OsFileTracePosix', tag='posix')
