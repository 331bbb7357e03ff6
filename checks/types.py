"""U01 compile time tools"""
import json, os, struct

BASES = ['int', 'char', 'bool', 'float', 'double', 'Enum', 'S1', 'S16', 'S17', 'Guarded']


def ctype(r, ref=True):
    """a C++ type: cv-qualified base, pointers, perhaps a reference"""
    def cv():
        return r.choice(['', '', ' const', ' volatile', ' const volatile'])
    t = r.choice(BASES) + cv()
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        t += ' *' + cv()
    return t + (r.choice(['', '', ' &', ' &&']) if ref else '')


INTS = {'int': 32, 'unsigned char': 8, 'long': 64, 'short': 16, 'bool': 1, 'float': 0, 'double': 0}


def field(r):
    t = r.choice(list(INTS))
    if t == 'bool':
        v = r.randint(0, 1)
        return t, str(v), v
    if INTS[t] == 0:
        v = r.randint(-2000, 2000)
        return t, '%s(%r)' % (t, v / 4), v
    v = r.choice([0, 1, 7, 100, 2**(min(31, INTS[t]) - 1) - 1])
    return t, '(%s)%d' % (t, v), v


PARTS = ['M0', 'M1', 'M2', 'M3']


def shape(r, k):
    """a class with constructors, or an aggregate: (declaration, <<kind, constructors or fields>>)"""
    name = 'Mk%d' % k
    if r.random() < .35:
        fs = [r.choice(PARTS) for _ in range(r.choice([0, 1, 2, 3, 4]))]
        return 'struct %s { %s };' % (name, ' '.join('%s f%d;' % (f, j) for j, f in enumerate(fs))), ['fields', fs]
    lists = []
    for _ in range(r.choice([0, 1, 2, 3])):
        l = [r.choice(PARTS) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]
        if l not in lists:
            lists.append(l)
    out, keep = [], []
    for l in lists:
        m = r.choice(['', '', '', 'explicit ', 'deleted', 'private'])
        d = '%s(%s)' % (name, ', '.join('%s %s' % (x, r.choice(['const &', '&', ''])) for x in l))
        if m == 'deleted':
            out.append(d + ' = delete;')
        elif m == 'private':
            out.append('private: ' + d + '; public:')
        else:
            out.append(m + d + ' {}')
            keep.append(l)
    copy = r.choice([True, True, False])
    out.append('%s(%s const &) = %s;' % (name, name, 'default' if copy else 'delete'))
    if copy:
        keep.append(['self'])
    return 'struct %s { private: int hidden = 0; public: %s };' % (name, ' '.join(out)), ['made', keep]


def generate(r, n):
    out, decl = [], []
    for k in range(n):
        b = []
        for _ in range(6):
            b.append('transforms<%s>();' % ctype(r))
        pool = [ctype(r) for _ in range(3)]
        near = pool + [pool[0] + ' &' if '&' not in pool[0] else pool[0], 'int', 'int const']
        b.append('lists<>();')
        for _ in range(6):
            q = [r.choice(near) for _ in range(r.randint(1, 6))]
            if r.random() < .4:
                q = [q[0]] * r.randint(1, 5) + r.choice([[], [], [r.choice(near)]])
            b.append('lists<%s>();' % ', '.join(q))
            b.append('select<%d, %s>();' % (r.randrange(len(q)), ', '.join(q)))
        for _ in range(2):
            t = r.choice(['int', 'unsigned char', 'long', 'ce::size_t'])
            b.append('items<%s%s>();' % (t, ''.join(', %d' % r.randint(0, 100) for _ in range(r.choice([0, 1, 1, 2, 3, 9])))))
        for form in range(3):
            m = r.randint(1, 4)
            fs = [field(r) for _ in range(m)]
            vals = '[%s]' % ','.join(str(f[2]) for f in fs)
            init = '{ %s }' % ', '.join(f[1] for f in fs)
            if form == 0:
                decl.append('struct Agg%d { %s };' % (k, ' '.join('%s f%d;' % (f[0], j) for j, f in enumerate(fs))))
                ty = 'Agg%d' % k
            elif form == 1:
                ty = 'ce::tuple<%s>' % ', '.join(f[0] for f in fs)
                b.append('count(%d, %s::count);' % (m, ty))
            else:
                fs = fs[:2] if m > 1 else fs[:1]
                m = len(fs)
                vals = '[%s]' % ','.join(str(f[2]) for f in fs)
                init = '{ %s }' % ', '.join(f[1] for f in fs)
                ty = ('ce::pair<%s>' if m == 2 else 'ce::box<%s>') % ', '.join(f[0] for f in fs)
            b.append('get<%d>("%s", %s%s);' % (m, vals, ty, init))
        c = r.randint(1, 300)
        b.append('{ static %s a[%d]; count(%d, CE_COUNTOF(a)); }' % (r.choice(['int', 'char', 'S17', 'char const*']), c, c))
        c = r.randint(0, 9)
        args = [r.choice(['1', '2.5', '"x"', "'c'", 'E_0', 'S1{}', '(1, 2)', 'nullptr']) for _ in range(c)]
        if c:
            b.append('count(%d, CE_COUNTOF_ARGS(%s));' % (c, ', '.join(args)))
        names = ['n%d' % j for j in range(8)]
        r.shuffle(names)
        g = r.randint(0, 7)
        b.append('pp("%s", STR(CE_PP_GET_%d(%s, more)));' % (names[g], g, ', '.join(names)))
        b.append('pp("%s", STR(CE_PP_WHEN(0)(%s)(%s)));' % (names[1], names[0], names[1]))
        b.append('pp("%s", STR(CE_PP_WHEN(1)(%s)(%s)));' % (names[0], names[0], names[1]))
        b.append('pp("%s", STR(CE_PP_MAP(PPM, %s)));' % (' '.join('<%s>' % x for x in names), ', '.join(names)))
        b.append('pp("%s%s", STR(CE_PP_JOIN(%s, %s)));' % (names[0], names[1], names[0], names[1]))
        f = struct.unpack('<f', struct.pack('<f', r.uniform(-1000, 1000)))[0]
        b.append('bits("%d", std::to_string(ce::as_cast<unsigned, float>{ %s }.as));' % (struct.unpack('<I', struct.pack('<f', f))[0], '%rf' % f))
        d, sh = shape(r, k)
        decl.append(d)
        asks = [[], ['self']] + [list(x) for x in (sh[1] if sh[0] == 'made' else [sh[1][:j] for j in range(len(sh[1]) + 1)])]
        asks += [[r.choice(PARTS) for _ in range(r.choice([1, 1, 2, 3, 5]))] for _ in range(4)]
        for a in asks:
            b.append("made(%s, %s, ce::is_constructible_with<%s>::value);" % (cstr(sh), cstr(a), ', '.join(['Mk%d' % k] + ['Mk%d' % k if x == 'self' else x for x in a])))
        v = r.getrandbits(8)
        b.append('bits("%d", std::to_string((int)ce::as_cast{ Enum(%d) }.as));' % (v, v))
        out.append('case %d: { %s } break;' % (k, '\n  '.join(b)))
    return ('#define PPM(X) <X>\n%s\nstatic void generated(int n) {\n switch (n) {\n%s\n }\n}\n' % ('\n'.join(decl), '\n'.join(out)))


def cstr(x):
    return '"' + json.dumps(x).replace('"', '\\"') + '"'


def types(ctx):
    ctx.mc('TypesMC', emit=False)
    r = ctx.sub('types')
    n, ns = ctx.pick(60, 300), ctx.pick(30, 120)
    lens = sorted(set(list(range(0, 18)) + [31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257] + [r.randint(18, 600) for _ in range(ns)]))
    with open(os.path.join(ctx.out, 'types_gen.h'), 'w') as f:
        g = generate(r, n)
        f.write(g.replace(' switch (n) {\n', ' switch (n) {\n' + ''.join('case %d: sequences<%d>(); break;\n' % (10000 + m, m) for m in lens)))
    exe = ctx.build('types', defs=['-I', ctx.out], uses=True, opt='-O0', asan=False)
    scripts = [(('x',), [['gen', k]]) for k in range(n)] + [(('x',), [['gen', 10000 + m]]) for m in lens]
    scripts.append((('x',), [['ascii', c] for c in range(256)]))
    scripts.append((('x',), [['rgba'] + [r.getrandbits(16) for _ in range(4)] for _ in range(20)]))
    ctx.validate('TypesTrace', ctx.drive(exe, scripts), scripts)
