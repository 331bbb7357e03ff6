import json, os
NAMES = ['a', 'b', 'x', 'y', 'size', 'data', 'time', 'p0', '_q', '_n', 'IO', 'ce', 'T', 'steps', 'a1', 'aa', '\u00e9t\u00e9', 'aVeryLongFieldNameThatGoesOnAndOn', 'Z', 'n', 'names', 'io', '\u0394x']
SIZES = [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 20, 28, 40, 64, 100, 200, 300, 700]
ATOMS = ['int', 'unsigned', 'signed char', 'unsigned char', 'char', 'short', 'long long', 'unsigned long', 'bool', 'float', 'double', 'En', 'Eb', 'Raw', 'ce::bitset<24>', 'char const*', 'wchar_t']


def b(t):
    return list(t.encode('utf-8'))


class Gen:
    def __init__(self, r):
        self.r, self.n, self.types, self.done, self.classes = r, 0, [], [], []

    def type(self, depth):
        """(C++ declaration with %s for the name, spec type)"""
        r = self.r
        k = r.choice(['atom', 'atom', 'class', 'array', 'vec', 'list', 'known', 'as'] if depth < 3 else ['atom', 'atom', 'vec'])
        if k == 'known' and self.classes:
            n, t = r.choice(self.classes)
            return n + ' %s', t
        if k == 'class':
            return self.cls(depth)
        if k == 'as':
            return self.as_(depth)
        if k == 'array':
            d, t = self.type(depth + 1)
            return d % ('%%s[%d]' % (300 if t == ['atom'] and r.random() < .06 else r.choice([1, 2, 3]))), ['array', t]
        if k == 'list':
            d, t = self.named(depth + 1)
            return 'ce::list<%s, %d> %%s' % (d, 400 if t == ['atom'] and r.random() < .06 else r.choice([1, 2, 3, 5])), ['list', t]
        if k == 'vec':
            n = r.choice([1, 2, 2, 3, 4])
            a = r.choice(['int', 'float', 'unsigned char', 'short'])
            w = r.choice(['ce::vec<%d, %s> %%s', 'ce::vec<%d, %s, Tag> %%s']) % (n, a)
            return w, (['class', [[b('x'), 1, ['atom']], [b('y'), 2, ['atom']]]] if n == 2 else ['array', ['atom']])
        return r.choice(ATOMS) + ' %s', ['atom']

    def named(self, depth):
        """a type that is one name (no declarator)"""
        while True:
            d, t = self.type(depth)
            if d.endswith(' %s'):
                return d[:-3], t

    def name(self):
        self.n += 1
        return 'C%d' % self.n

    def cls(self, depth):
        r = self.r
        base = r.choice(self.classes) if self.classes and r.random() < .15 else None
        if base and base[0] not in self.plain:
            base = None
        fields = []
        for k in range(r.choice([1, 1, 2, 3, 4, 6])):
            d, t = self.type(depth + 1)
            fields.append((d, t))
        n = self.name()
        ns = r.choice(['', '', 'ns', 'n1::n2', 'outer'])
        names = r.sample(NAMES, len(fields))
        body = []
        if r.random() < .2:
            body.append('static int unrelated() { return 1; }')
        for (d, t), f in zip(fields, names):
            body.append(d % f + ';')
        all_fields = [(f, t) for (d, t), f in zip(fields, names)]
        up = ''
        if base:
            up = ' : ' + base[0]
            old = self.plain[base[0]]
            body = [x for x in body]
            all_fields = [(f, t) for f, t in old if True] + all_fields
            if len(set(f for f, _ in all_fields)) < len(all_fields):  # a name twice: no base
                up, all_fields = '', all_fields[len(old):]
        full = n if not ns else 'Outer%s::%s' % (n, n) if ns == 'outer' else ns + '::' + n
        decl = 'struct %s%s { %s };' % (n, up, ' '.join(body))
        if ns == 'outer':
            decl = 'struct Outer%s { %s };' % (n, decl)
        elif ns:
            decl = 'namespace %s { %s }' % (ns, decl)
        # a non-empty selection in any order
        order = list(range(len(all_fields)))
        if r.random() < .4:
            r.shuffle(order)
        if r.random() < .3:
            order = order[:r.randint(1, len(order))]
        sep = lambda: r.choice([', ', ',', ' , ', ' ,', ',\n   '])
        txt = ''
        for j, o in enumerate(order):
            txt += (sep() if j else r.choice(['', ' '])) + all_fields[o][0]
        self.types.append(decl)
        self.types.append('CE_IO_BIND(%s,%s%s);' % (full, txt, r.choice(['', ' '])))
        self.types.append('static str tree(%s const& v) { return join({ %s }); }' % (full, ', '.join('tree(v.%s)' % f for f, _ in all_fields)))
        t = ['class', [[b(all_fields[o][0]), o + 1, all_fields[o][1]] for o in order]]
        self.classes.append((full, t))
        self.plain[full] = all_fields
        return full + ' %s', t

    plain = {}

    def alias(self, d):
        """macro arguments hold no commas"""
        if ',' not in d:
            return d
        self.types.append('using U%s = %s;' % (self.name(), d))
        return 'UC%d' % self.n

    def as_(self, depth):
        r = self.r
        n = self.name()
        m = r.randrange(4)
        if m == 0:  # wrapper of one field
            d, t = self.named(depth + 1)
            d = self.alias(d)
            self.types += ['struct %s { %s v; };' % (n, d), 'CE_IO_AS(%s, %s);' % (n, d), 'static str tree(%s const& v) { return join({ tree(v.v) }); }' % n]
            return n + ' %s', ['as', 1, t]
        if m == 1:  # two equal fields as an array
            a = r.choice(['int', 'char', 'double', 'Eb'])
            self.types += ['struct %s { %s a, b; };' % (n, a), 'CE_IO_AS(%s, %s[2]);' % (n, a), 'static str tree(%s const& v) { return join({ tree(v.a), tree(v.b) }); }' % n]
            return n + ' %s', ['as', 0, ['array', ['atom']]]
        if m == 2:  # a 2-vector as an array
            self.types += ['struct T%s; using %s = ce::vec2<short, T%s>;' % (n, n, n), 'CE_IO_AS(%s, short[2]);' % n]
            return n + ' %s', ['as', 0, ['array', ['atom']]]
        d, t = self.named(depth + 1)  # an array field
        k = r.choice([1, 2, 3])
        d = self.alias(d)
        self.types += ['struct %s { %s v[%d]; int rest; };' % (n, d, k), 'CE_IO_AS(%s, %s[%d]);' % (n, d, k),
                       'static str tree(%s const& v) { return join({ tree(v.v), tree(v.rest) }); }' % n]
        return n + ' %s', ['as', 1, ['array', t]]


def generate(r, count):
    g = Gen(r)
    g.plain = {}
    g.types = ['enum class En : int { };', 'enum Eb : unsigned char { };', 'struct Raw { unsigned char b[5]; };', 'struct Tag;']
    runs = []
    for n in range(count):
        d, t = g.cls(0) if r.random() < .7 else g.type(0)
        if n < 4:  # more elements than 8 bits count, and than 16 bits do
            d, t = [('unsigned char %s[300]', ['array', ['atom']]), ('ce::list<short, 400> %s', ['list', ['atom']]),
                    ('unsigned char %s[66000]', ['array', ['atom']]), ('ce::list<unsigned char, 250000> %s', ['list', ['atom']])][n]
        runs.append('{ using T = std::remove_reference<decltype((*(Box%d*)nullptr).v)>::type; run_type<T>(R"~(%s)~", rounds, "%s"); }' % (n, json.dumps(t, separators=(',', ':')), r.choice(NAMES)))
        g.types.append('struct Box%d { %s; };' % (n, d % 'v'))
        if len(g.classes) > 12:
            g.classes = g.classes[-8:]
    out = ['#ifdef GEN_TYPES'] + g.types + ['#endif', '#ifdef GEN_RUN', 'static void generated(int n, int rounds)', '{', 'switch (n) {']
    out += ['case %d: %s break;' % (k, x) for k, x in enumerate(runs)]
    return '\n'.join(out) + '\n} }\n#endif\n'


def visits(ctx):
    ctx.mc('ReflectMC', cfg=ctx.pick('ReflectMC', 'ReflectMCdeep'), emit=False, workers=8)
    n = ctx.pick(80, 250)
    with open(os.path.join(ctx.out, 'io_gen.h'), 'w', encoding='utf-8') as f:
        f.write(generate(ctx.sub('gen'), n))
    r = ctx.sub('visits')
    exe = ctx.build('io', defs=['-DGEN', '-DNO_NAMES', '-I', ctx.out], uses=True, opt='-O0')
    scripts = [(('x',), [['gen', k, seed, 5]]) for k in range(n) for seed in range(ctx.pick(2, 8)) if k not in (2, 3)]
    scripts += [(('x',), [['gen', k, r.randrange(1000), 3]]) for k in (2, 3) for _ in range(ctx.pick(1, 3))]
    ctx.validate('ReflectTrace', ctx.drive(exe, scripts), scripts)


def names(ctx):
    ctx.mc('FieldsMC', cfg=ctx.pick('FieldsMC', 'FieldsMCdeep'), emit=False, workers=8)
    n = ctx.pick(24, 100)
    with open(os.path.join(ctx.out, 'io_gen.h'), 'w', encoding='utf-8') as f:
        f.write(generate(ctx.sub('gen'), n))
    exe = ctx.build('io', defs=['-DGEN', '-I', ctx.out], fatal=False, uses=True, opt='-O0')
    direct = exe is not None
    if not direct:
        exe = ctx.build('io', defs=['-DGEN', '-DNO_NAMES', '-I', ctx.out], uses=True, opt='-O0')
    scripts = [(('x',), [['gen', k, 1, 3]]) for k in range(n) if k > 3]
    ctx.validate('ReflectTrace', ctx.drive(exe, scripts, tag='macros'), scripts)
    if not direct:
        return
    r = ctx.sub('names')
    scripts = []
    for _ in range(ctx.pick(500, 5000)):
        ops = []
        while len(ops) < 10:
            c = r.choice([1, 1, 2, 2, 3, 4, 5, 6] * 4 + [12, 40])
            bl = lambda: ''.join(r.choice([' ', ' ', '\t', '\n', '\r']) for _ in range(r.choice([0, 0, 0, 1, 1, 2, 4])))
            ids = [r.choice(NAMES) if r.random() < .5 else r.choice('abz_\u00e9\u20ac') for _ in range(c)]
            if r.random() < .03:
                ids = [x + 'n' * r.choice([0, 20, 60, 100]) for x in ids]
            t = ','.join(bl() + x + bl() for x in ids).encode('utf-8')
            fit = [s for s in SIZES if s >= len(t) + 1]
            if not fit:
                continue
            pad = fit[0] - 1 - len(t)
            k = r.choice([0, 1, 2])
            t = t + b' ' * pad if k == 0 else b'q' * pad + t.lstrip() + b' ' * (len(t) - len(t.lstrip())) if k == 1 else b' ' * pad + t
            ops.append(['names', c, t.hex()])
        scripts.append((('x',), ops))
    ctx.validate('ReflectTrace', ctx.drive(exe, scripts), scripts)


# ---- enums ------------------------------------------------------------------------------------
UNDER = {'int': (1, 32), 'unsigned': (0, 32), 'signed char': (1, 8), 'unsigned char': (0, 8), 'short': (1, 16), 'unsigned short': (0, 16), 'long long': (1, 64), 'unsigned long': (0, 64), 'char': (1, 8)}
WORDS = ['a', 'b', 'A', 'B', 'x', '_', '_1', 'a1', 'e1', 'red', 'green', 'Red', 'none', 'None', 'unknown', 'value', 'k', 'zero', 'E', 'e', 'is_known', 'text', 'N', 'T', '\u00e9', '\u00e9t\u00e9', 'operator_', 'L', 'H', 'data', 'good', 'c0', 'Z9']


LONG = 'Long' * 80


def enum_names(r, n):
    out = []
    while len(out) < n:
        m = r.random()
        w = r.choice(WORDS) if m < .5 or not out else r.choice(out) + r.choice(['_', '1', 'a', '_' + r.choice(WORDS)]) if m < .8 else r.choice(WORDS) + r.choice(WORDS) + str(r.randrange(100))
        if m > .97:
            w = w * 12
        if m > .99 or m > .93 and n > 60:  # names longer than 8 bits count
            w = w * 280
        if w not in out and not w[0].isdigit():
            out.append(w)
    return out


def gen_enums(r, count):
    decl, cases, info = [], [], []
    for n in range(count):
        u = r.choice(list(UNDER))
        sg, w = UNDER[u]
        lo, hi = (-2**(w - 1), 2**(w - 1) - 1) if sg else (0, 2**w - 1)
        k = r.choice([0, 1, 2, 3, 5, 8, 20, 60]) if n else 120
        vals = set()
        while len(vals) < k:
            m = r.random()
            v = r.choice([0, 1, 63, 64, 65, 127, 128, 129, 191, 192, 254, 255, 256, -1, 300, 2**31 - 1, 2**32, 2**32 + 1, 2**32 + 255, 2**40 + 3, -256, -255, 65536]) if m < .4 else r.randrange(256) if m < .8 else r.randrange(12)
            if lo <= v <= hi:
                vals.add(v)
            elif len(vals) > min(hi, 120):
                break
        vals = list(vals)
        r.shuffle(vals)
        names = enum_names(r, len(vals))
        scoped = r.random() < .6
        lit = lambda v: '(%s)%s' % (u, '%dull' % v if v >= 0 else '(%dll)' % v if v > -2**63 else '(-9223372036854775807ll-1)')
        body = ', '.join('%s = %s' % (a, lit(v)) for a, v in zip(names, vals))
        fixed = ' : ' + u
        e = 'En%d' % n
        # an unscoped enum without a fixed type has no values beyond the bits of its largest one
        loose = not scoped and all(0 <= v < 2**31 for v in vals) and vals and max(vals) > 254 and r.random() < .5
        d = 'enum %s%s%s { %s };' % ('class ' if scoped else '', e, '' if loose else fixed, body)
        ty = e
        at = r.choice(['', 'ns', 'ns2', 'anon', 'class', 'nsclass', 'template', 'deep', 'anon2', 'neg', 'local'])
        pre = ''
        if at == 'ns':
            d, ty = 'namespace o%d { %s }' % (n, d), 'o%d::%s' % (n, e)
        elif at == 'ns2':
            d, ty = 'namespace o%d::p { %s }' % (n, d), 'o%d::p::%s' % (n, e)
        elif at == 'anon':
            d, ty = 'namespace { namespace q%d { %s } }' % (n, d), 'q%d::%s' % (n, e)
        elif at == 'anon2':
            d, ty = 'namespace r%d { namespace { %s } }' % (n, d), 'r%d::%s' % (n, e)
        elif at == 'class':
            d, ty = 'struct K%d { %s };' % (n, d), 'K%d::%s' % (n, e)
        elif at == 'nsclass':
            d, ty = 'namespace outer { class K%d { public: struct In { %s }; }; }' % (n, d), 'outer::K%d::In::%s' % (n, e)
        elif at == 'template':
            d, ty = 'template<class Tp0, int Tp1> struct K%d { %s };' % (n, d), 'K%d<outer::X, 3>::%s' % (n, e)
        elif at == 'neg':
            d, ty = 'template<int Tp1> struct K%d { %s };' % (n, d), 'K%d<-1>::%s' % (n, e)
        elif at == 'deep':
            d, ty = 'namespace d%d { inline namespace v1 { struct A { struct B { struct C { %s }; }; }; } }' % (n, d), 'd%d::A::B::C::%s' % (n, e)
        elif at == 'local':
            pre, d = d, ''
        elif not scoped:
            d, ty = 'namespace only%d { %s }' % (n, d), 'only%d::%s' % (n, e)
        if at in ('template', 'neg') and names:  # a scoped enum of a template has no enumerators before it is instantiated
            d += ' static auto const use%d = %s::%s;' % (n, ty, names[0])
        decl.append(d)
        spec = [[str(v), b(a)] for a, v in zip(names, vals)]
        # types whose qualified name is plain: nothing anonymous, inline, local or templated on the way
        plain = [ty] + ([ty.rsplit('::', 1)[0]] if at in ('class', 'nsclass') else []) if at in ('', 'ns', 'ns2', 'class', 'nsclass') else []
        if not n:
            plain += ['int', 'char', 'bool', 'float', 'double', 'short', 'long', 'void', 'outer::X', 'outer::' + LONG]
        types = ' '.join('type_name<%s>(%s);' % (x, json.dumps(json.dumps([b(y) for y in x.split('::')]))) for x in plain)
        cases.append('case %d: { %s if (t[2] == "type") { %s break; } run_enum<%s>(R"~(%s)~", t); break; }' % (n, pre, types, ty, json.dumps(spec, separators=(',', ':'))))
        info.append((names, vals, (0, 2**31 - 1) if loose else (lo, hi), (0, (1 << max(vals).bit_length()) - 1) if loose else (lo, hi)))
    return 'namespace outer { struct X { }; struct %s { }; }\n' % LONG + '\n'.join(decl) + '\nstatic void generated(int n, toks const& t)\n{\nswitch (n) {\n' + '\n'.join(cases) + '\n}\n}\n', info


def enums(ctx):
    ctx.mc('EnumMC', emit=False, workers=8)
    n = ctx.pick(24, 80)
    src, info = gen_enums(ctx.sub('gen'), n)
    with open(os.path.join(ctx.out, 'enum_gen.h'), 'w', encoding='utf-8') as f:
        f.write(src)
    exe = ctx.build('enums', defs=['-Wno-enum-constexpr-conversion', '-I', ctx.out], uses=True, opt='-O0')
    r = ctx.sub('enums')
    scripts = []
    for k, (names, vals, _, (lo, hi)) in enumerate(info):
        g = lambda *a: ['gen', k, *a]
        ops = [g('type'), g('enum')]
        ops.append(g('nameof', 0, min(256, hi + 1)))
        if hi > 300:
            ops.append(g('nameof', 256, 40))
        for _ in range(25):
            v = r.choice([lo, hi, -1, -256, -255, 2**32, 2**32 + r.choice(vals or [5]), 2**33 + r.choice(vals or [1]), 65536 + r.choice(vals or [3]), r.randint(lo, hi), -r.choice(vals or [1]), 256 + r.choice(vals or [7])])
            if lo <= v <= hi:
                ops.append(g('nameof', v, 1))
        top = [v for v in vals if 192 <= v < 256]  # the last of the halves every larger value falls into
        for v in r.sample(top, min(4, len(top))) + r.sample(vals, min(3, len(vals))):
            for d in (2**8, 2**16, 2**32, 2**63, -2**8, -2**16, -2**32):
                if lo <= v + d <= hi:
                    ops.append(g('nameof', v + d, 1))
        fall = lambda: r.choice([v for v in (lo, hi, 0, 1, 254, 77, r.choice(vals or [3])) if lo <= v <= hi])
        for a in names:
            ops.append(g('as', a.encode().hex(), fall()))
        for _ in range(60):
            a = r.choice(names or ['q'])
            t = r.choice([a + r.choice(['_', 'a', ' ', '\u00e9', '1']), a[:-1], a[1:], ' ' + a, a.swapcase(), a + '\x01', '', '???', '0', str(r.choice(vals or [3])), '(En%d)%d' % (k, r.choice([0, 5, 200])), 'En%d::%s' % (k, a), '::' + a, r.choice(WORDS), a + ']', a + ';'])
            ops.append(g('as', t.encode().hex() or '-', fall()))
        scripts.append((('x',), ops))
    ctx.validate('EnumTrace', ctx.drive(exe, scripts), scripts)
