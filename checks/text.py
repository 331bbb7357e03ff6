import json, os
from fw.fw import CheckError

TYPES = {'schar': (1, 8), 'uchar': (0, 8), 'short': (1, 16), 'ushort_': (0, 16), 'int': (1, 32), 'uint_': (0, 32), 'long': (1, 64), 'ulong_': (0, 64), 'llong': (1, 64), 'ullong': (0, 64)}
CXX = {'schar': 'signed char', 'uchar': 'unsigned char', 'short': 'short', 'ushort_': 'unsigned short', 'int': 'int', 'uint_': 'unsigned', 'long': 'long', 'ulong_': 'unsigned long', 'llong': 'long long', 'ullong': 'unsigned long long'}


def value(r, t):
    sg, w = TYPES[t]
    lo, hi = (-2**(w - 1), 2**(w - 1) - 1) if sg else (0, 2**w - 1)
    m = r.random()
    if m < .2:
        v = r.choice([lo, lo + 1, -1, 0, 1, hi - 1, hi])
    elif m < .6:
        v = r.choice([1, -1]) * (10 ** r.randint(0, 19) * r.choice([1, 1, r.randint(1, 99)]) + r.randint(-2, 2))
    elif m < .8:
        v = r.choice([1, -1]) * (2 ** r.randint(0, 63) + r.randint(-1, 1))
    else:
        v = r.choice([1, -1]) * r.getrandbits(r.randint(1, 64))
    return v if lo <= v <= hi else r.randint(lo, hi)


def ints(ctx):
    ctx.mc('DecimalMC', emit=False)
    ctx.mc('DecimalMC', cfg='DecimalMC2', emit=False)
    ctx.mc('FixedMC', emit=False)
    exe = ctx.build('text', opt='-O2')
    r = ctx.sub('int')
    scripts = []
    for n in range(ctx.pick(300, 3000)):
        ops = []
        for _ in range(40):
            t = r.choice(list(TYPES))
            ops.append(['int', t, value(r, t)])
        scripts.append((('x',), ops))
    # number of digits: first and last number of every length, and every two digit boundary of it
    for t in TYPES:
        sg, w = TYPES[t]
        hi = 2**(w - 1) - 1 if sg else 2**w - 1
        ops = []
        for k in range(20):
            for d in range(0, k + 1):
                for v in (10**k - 1, 10**k, 10**k + 10**d, 10**k - 10**d, 10**k + 10**d - 1, 10**k * 9 + 10**d * 9):
                    if 0 <= v <= hi:
                        ops.append(['int', t, v])
                        if sg:
                            ops.append(['int', t, -v])
        scripts.append((('x',), ops))
    ctx.validate('TextTrace', ctx.drive(exe, scripts), scripts)
    # long ranges, compared with the odometer in the driver
    fast = ctx.build('text', asan=False, opt='-O2', name='textfast')
    ops = []
    for t in TYPES:
        sg, w = TYPES[t]
        hi = 2**(w - 1) - 1 if sg else 2**w - 1
        if w <= 16:
            ops.append(['sweep', t, 0, hi])
        else:
            for k in range(2, 20):
                a = 10**k
                if a <= hi:
                    ops.append(['sweep', t, a - a // 100 if a < 10**6 else a - 20000, min(hi, a + 20000)])
            ops.append(['sweep', t, hi - 100000, hi])
            for _ in range(ctx.pick(20, 400)):
                a = r.getrandbits(r.randint(17, w)) % hi
                ops.append(['sweep', t, a, min(hi, a + 200000)])
    # every number of 32 bits; of the longer ones every eight digits they can have at each place (steps of 10^8)
    ops += [['sweep', 'uint_', 0, 2**32 - 1], ['sweep', 'int', 0, 2**31 - 1]]
    for t in ('ullong', 'llong'):
        head = r.choice([10**9, 10**10, 10**13, 10**16, 10**17]) * r.randint(1, 9)
        ops += [['sweep', t, head, head + 10**8], ['sweep', t, 10**16 + r.randrange(10**8), 2 * 10**16, 8], ['sweep', t, 2**32 - 10**7, 2**32 + 10**7], ['sweep', t, 10**16 - 10**7, 10**16 + 10**7]]
        # one to nine digits before the last eight, three and more before the last sixteen
        for k in range(8):
            a = 10**(8 + k) + r.randrange(10**8)
            ops.append(['sweep', t, a, min(10**(9 + k) - 1, a + ctx.pick(10**6, 4 * 10**7) * 10**8), 8])
        a = 10**8 * r.randint(10**9, 2**32) + r.randrange(10**8)
        ops.append(['sweep', t, a, a + ctx.pick(10**6, 10**9) * 10**8, 8])
    ops.append(['sweep', 'ullong', 10**16 * 100, 18446744073709551615 - 10**10, 16])
    ops.append(['sweep', 'llong', 10**16, 9223372036854775807 - 10**10, 16])
    if not ctx.quick:
        ops += [['sweep', 'ullong', 10**16 - 10**8, 10**16 + 10**8], ['sweep', 'llong', 2**32 - 10**8, 2**32 + 10**8], ['sweep', 'ullong', 10**8 * 429496729, 2**32 * 10**8 - 1, 8]]
    sc = [(('x',), ops)]
    ctx.validate('TextTrace', ctx.drive(fast, sc, timeout=800), sc, tag='TextSweep')


# ---- composite: generated programs -------------------------------------------------------------
def lit(t, v):
    sg, w = TYPES[t]
    if w == 64:
        return '%s(%s)' % ({'long': 'long', 'ulong_': 'unsigned long', 'llong': 'ce::int64_t', 'ullong': 'ce::uint64_t'}[t] if False else '(' + CXX[t] + ')', ('%dull' % (v % 2**64)))
    return '(%s)(%dll)' % (CXX[t], v)


def le(t, v):
    w = TYPES[t][1]
    return list((v % 2**w).to_bytes(w // 8, 'little'))


def dec(q):
    return str(q)


class Gen:
    def __init__(self, r):
        self.r, self.n, self.decl = r, 0, []

    def var(self, decl):
        """declare a variable; decl has %s for its name"""
        self.n += 1
        v = 'v%d' % self.n
        self.decl.append(decl % v)
        return v

    def cstr(self, codes):
        return '"' + ''.join('\\%03o' % c for c in codes) + '"'

    def scalar(self, ok=('int', 'int', 'bool', 'char', 'enum', 'nil', 'cstr', 'ncstr', 'ptr')):
        """(C++ type, initialiser, part, text length)"""
        r = self.r
        k = r.choice(ok)
        if k == 'int':
            t = r.choice(list(TYPES))
            v = value(r, t)
            return CXX[t], lit(t, v), ['int', bool(TYPES[t][0]), le(t, v)], len(str(v))
        if k == 'bool':
            b = r.random() < .5
            return 'bool', 'true' if b else 'false', ['bool', b], 4
        if k == 'char':
            c = r.choice([32, 65, 126, 34, 92, 10, 1, 127, 200, 255])
            return 'char', 'char(%d)' % c, ['char', c], 1
        if k == 'enum':
            m = r.random()
            if m < .1:
                c = r.choice([32, 65, 62, 35])
                return 'E_char', 'E_char(%d)' % c, ['enumof', ['char', c]], 9
            if m < .2:
                b = r.random() < .5
                return 'E_bool', 'E_bool(%s)' % ('true' if b else 'false'), ['enumof', ['bool', b]], 12
            t = r.choice(list(TYPES))
            v = value(r, t)
            return 'E_' + t, 'E_%s(%s)' % (t, lit(t, v)), ['enum', bool(TYPES[t][0]), le(t, v)], 8 + len(str(v))
        if k == 'nil':
            return r.choice([('decltype(nullptr)', 'nullptr'), ('int*', 'nullptr'), ('Unknown*', 'nullptr')]) + (['nil'], 6)
        if k == 'ncstr':
            return 'char const*', 'nullptr', ['nil'], 6
        if k == 'ptr':
            a = r.getrandbits(r.choice([3, 32, 47, 64])) or 1
            return 'Unknown*', '(Unknown*)%dull' % a, ['ptr', str(a)], 8 + len(str(a))
        n = r.choice([0, 1, 2, 5, 20, 20, 1023, 1024, 1025, 1500])
        q = [r.choice([32, 65, 97, 44, 34, 39, 92, 195, 169, 255, 1]) for _ in range(n)]
        return r.choice(['char const*', 'char const*', 'char*']), '(char*)' + self.cstr(q), ['cstr', q], n

    def part(self, lists=True):
        """(expression, part, length)"""
        r = self.r
        k = r.choice(['scalar'] * 5 + ['carr', 'vec'] + (['arr', 'arr', 'nest', 'far'] if lists else []))
        if k == 'nest':
            # arrays of arrays, matrices, arrays of vectors, vectors of vectors
            t = r.choice(['int', 'short', 'uchar', 'ullong', 'schar'])
            h, w = r.randint(1, 4), r.randint(1, 4)
            vs = [[value(r, t) for _ in range(w)] for _ in range(h)]
            init = '{ ' + ', '.join('{ ' + ', '.join(lit(t, v) for v in q) + ' }' for q in vs) + ' }'
            how = r.choice(['%s const %%%%s[%d][%d] = %%s;' % (CXX[t], h, w), 'ce::mat<%d, %d, %s> const %%%%s = %%s;' % (h, w, CXX[t]), 'ce::vec<%d, %s> const %%%%s[%d] = %%s;' % (w, CXX[t], h),
                            'ce::vec<%d, ce::vec<%d, %s>> const %%%%s = %%s;' % (h, w, CXX[t])])
            p = ['list', [['list', [['int', bool(TYPES[t][0]), le(t, v)] for v in q]] for q in vs]]
            return self.var(how % init), p, sum(len(str(v)) + 2 for q in vs for v in q) + 4 * h + 2
        if k == 'far':
            # more items than a byte counts
            n = r.choice([255, 256, 257, 300])
            a = r.randrange(7)
            vs = [(a * j) % 10 for j in range(n)]
            return self.var('int const %%s[%d] = { %s };' % (n, ', '.join(map(str, vs)))), ['list', [['int', True, le('int', v)] for v in vs]], 3 * n + 2
        if k == 'scalar':
            t, x, p, n = self.scalar()
            return self.var('%s const %%s = %s;' % (t, x)) if r.random() < .7 else self.var('%s %%s = %s;' % (t, x)), p, n
        if k == 'carr':
            n = r.choice([1, 2, 5, 30, 1100])
            m = r.choice([n, n - 1, r.randrange(n)])
            q = [r.choice([65, 98, 32, 44, 200, 255, 34]) for _ in range(m)] + [0] * (n - m)
            if m < n - 1 and r.random() < .5:
                q[-1] = 66  # text after the NUL is not shown
            return self.var('char const %%s[%d] = {%s};' % (n, ','.join('char(%d)' % c for c in q))), ['carr', q], len(q[:q.index(0)] if 0 in q else q)
        # all items of one type
        n = r.choice([1, 2, 3, 4]) if k == 'vec' else r.choice([1, 2, 3, 7, 40])
        ok = r.choice(['int', 'int', 'bool', 'enum'] + (['cstr', 'ncstr', 'ptr'] if k == 'arr' else ['char']))
        if ok == 'cstr':
            n = min(n, 3)
        items = []
        t0 = None
        while len(items) < n:
            it = self.scalar((ok,))
            if t0 in (None, it[0]):
                t0 = it[0]
                items.append(it)
        init = ', '.join(x for _, x, _, _ in items)
        length = sum(l for _, _, _, l in items) + 2 * n
        p = ['list', [q for _, _, q, _ in items]]
        if k == 'vec':
            return self.var('ce::vec<%d, %s> const %%s{ %s };' % (n, t0, init)), p, length
        return self.var('%s const %%s[%d] = { %s };' % (t0, n, init)), p, length


def generate(r, count):
    src = ['struct Unknown;']
    src += ['enum class E_char : char { };', 'enum class E_bool : bool { };']
    src += ['enum class E_%s : %s { };' % (t, CXX[t]) for t in TYPES]
    ends = {t: [-2**(w - 1), 2**(w - 1) - 1] if sg else [2**w - 1, 0] for t, (sg, w) in TYPES.items()}
    ends['llong'].append(-10**18), ends['ullong'].append(10**19), ends['int'].append(-10**9), ends['uint_'].append(10**9)
    tight = [[('int', t, v)] for t in TYPES for v in ends[t]] + [[('int', t, ends[t][0])] * 2 for t in TYPES]
    tight += [[('char',)], [('char',), ('char',)], [('bool', True)], [('bool', False), ('bool', True)]]
    tight += [[('int', t, ends[t][0]) for t in TYPES], [('cstr', 1024), ('int', 'llong', ends['llong'][0])], [('cstr', 1024), ('cstr', 1024)]]
    for n in range(count):
        g = Gen(r)
        m = r.choice([1, 1, 2, 2, 3, 4, 6])
        # arrays other than char arrays are shown by as_string as pointers: only to_text takes them
        use_as = r.random() < .6
        parts = [g.part(not use_as) for _ in range(m)]
        if use_as and m == 1 and parts[0][1][0] == 'carr' and 0 not in parts[0][1][1]:
            use_as = False  # a lone char array is itself the string
        if use_as and m == 1 and g.decl[-1].startswith('char') and 'nullptr' in g.decl[-1]:
            use_as = False  # as is a lone C string pointer
        if n < len(tight):
            # the longest texts there are, alone and next to each other, in a string of exactly their size
            g, parts, use_as = Gen(r), [], True
            for part in tight[n]:
                if part[0] == 'int':
                    t, v = part[1:]
                    parts.append((g.var('%s const %%s = %s;' % (CXX[t], lit(t, v))), ['int', bool(TYPES[t][0]), le(t, v)], len(str(v))))
                elif part[0] == 'char':
                    parts.append((g.var("char const %s = 'q';"), ['char', 113], 1))
                elif part[0] == 'bool':
                    parts.append((g.var('bool const %%s = %s;' % ('true' if part[1] else 'false')), ['bool', part[1]], 4))
                else:
                    q = [65 + k % 26 for k in range(part[1])]
                    parts.append((g.var('char const* %%s = %s;' % g.cstr(q)), ['cstr', q], len(q)))
        spec = json.dumps([p for _, p, _ in parts], separators=(',', ':'))
        args = ', '.join(x for x, _, _ in parts)
        total = sum(l for _, _, l in parts)
        src.append('static void gen%d()\n{\n    %s' % (n, '\n    '.join(g.decl)))
        src.append('    static char const spec[] = R"~(%s)~";' % spec)
        src.append('    text(spec, %d, %s);' % (total, args))
        if use_as:
            src.append('    as(spec, new auto(ce::as_string{ %s }));' % args)
        src.append('}')
    src.append('static void generated(int n)\n{\n    static void (*const all[])() = { %s };\n    all[n]();\n}' % ', '.join('gen%d' % n for n in range(count)))
    return '\n'.join(src) + '\n'


def composite(ctx):
    n = ctx.pick(270, 750)
    with open(os.path.join(ctx.out, 'text_gen.h'), 'w') as f:
        f.write(generate(ctx.sub('gen'), n))
    exe = ctx.build('text', defs=['-DGEN', '-I', ctx.out], uses=True, opt='-O0')
    scripts = [(('x',), [['gen', k]]) for k in range(n)]
    ctx.validate('TextTrace', ctx.drive(exe, scripts), scripts)


# ---- floating point -------------------------------------------------------------------------------
import struct


def fbits(r, w):
    p, e = (24, 8) if w == 32 else (53, 11)
    m = r.random()
    pk = lambda x: struct.unpack('<I' if w == 32 else '<Q', struct.pack('<f' if w == 32 else '<d', x))[0]
    big = 38 if w == 32 else 308
    if m < .25:     # few decimal digits
        v = float('%d.%de%d' % (r.randint(0, 9), r.getrandbits(r.randint(1, 50)), r.randint(-big, big - 1) if r.random() < .5 else r.randint(-9, 22)))
        b = pk(v)
    elif m < .45:   # whole numbers
        b = pk(float(r.getrandbits(r.randint(1, 70))))
    elif m < .6:    # powers of two and their neighbours
        b = (r.randrange(2**e - 1) << (p - 1)) + r.randint(-2, 2)
    elif m < .7:    # subnormal
        b = r.getrandbits(r.randint(1, p - 1))
    elif m < .8:    # quotients
        b = pk(r.randint(1, 10**r.randint(1, 9)) / r.choice([3, 7, 8, 10, 100, 1000, 4096]))
    elif m < .85:
        b = r.choice([0, 1, 2, (1 << (p - 1)) - 1, 1 << (p - 1), ((2**e - 1) << (p - 1)) - 1, (2**e - 1) << (p - 1), ((2**e - 1) << (p - 1)) + (1 << (p - 2))])
    else:
        b = r.getrandbits(p + e - 1)
    b %= 1 << (p + e - 1)
    if r.random() < .3:
        b |= 1 << (p + e - 1)
    return b


def floats(ctx):
    ctx.mc('FloatTextMC', emit=False, workers=4)
    exe = ctx.build('floats')
    r = ctx.sub('floats')
    scripts = []
    for _ in range(ctx.pick(150, 2500)):
        ops = []
        for _ in range(20):
            w = r.choice([32, 64])
            ops.append(['float', w, fbits(r, w)])
        for _ in range(3):
            w = r.choice([32, 64])
            ops.append(['list', w] + [fbits(r, w) for _ in range(r.randint(1, 4))])
        scripts.append((('x',), ops))
    # every power of ten and of two of both formats, and the numbers next to them
    for w, f, q, big in ((32, '<f', '<I', 38), (64, '<d', '<Q', 308)):
        ops = []
        for k in range(-big - 7, big + 1):
            b = struct.unpack(q, struct.pack(f, float('1e%d' % k)))[0]
            ops += [['float', w, x] for x in ({b - 1, b, b + 1} if (w == 32 or k % 4 == 0 or abs(k) < 25 or not ctx.quick) else {b}) if x >= 0]
        p, e = (24, 8) if w == 32 else (53, 11)
        for x in range(0, 2**e - 1, 1 if w == 32 else ctx.pick(8, 1)):
            ops.append(['float', w, x << (p - 1)])
        for k in range(0, len(ops), 40):
            scripts.append((('x',), ops[k:k + 40]))
    ctx.validate('FloatTextTrace', ctx.drive(exe, scripts), scripts)
