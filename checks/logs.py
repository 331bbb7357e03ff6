import json, os
from checks.text import TYPES, CXX, value, lit, le

SIZES = [1, 2, 4, 8, 12, 16, 24, 40, 64, 128, 300, 700]
LEVELS = ['fatal', 'error', 'warn', 'note', 'info', 'debug', 'spam', 'more']


def expr(r, depth=0):
    """balanced argument text without a top level comma"""
    a = r.choice(['x', 'foo', 'a.b', '1', 'x + y', 'p->q', '\xe9\xe8', '\u20ac', 'a  b', '\xff', 'x-- > 0'])
    if depth > 2:
        return a
    k = r.randrange(9)
    if k < 2:
        return a
    if k == 2:
        o, c = r.choice(['()', '[]', '{}'])
        return r.choice(['', 'f']) + o + r.choice([', ', ',', ' , ']).join(expr(r, depth + 1) for _ in range(r.randrange(3))) + c
    if k == 3:
        return '"' + ''.join(r.choice(['a', ',', ' ', '(', ')', '}', "'", '\\"', '\\\\', '\xe9', ', ']) for _ in range(r.randrange(6))) + '"'
    if k == 4:
        return "'" + r.choice([',', '(', ')', '"', "\\'", '\\\\', 'a', '[', '\\n']) + "'"
    if k == 5:
        return expr(r, depth + 1) + r.choice([' ', '', ' + ']) + expr(r, depth + 1)
    if k == 6:
        return r.choice('fg') + '<' + expr(r, depth + 1) + '>'
    if k == 7:
        o, c = r.choice(['()', '{}'])
        return o + expr(r, depth + 1) + c
    return a


def names(ctx):
    ctx.mc('NamesMC', cfg=ctx.pick('NamesMC', 'NamesMCdeep'), emit=False, workers=8)
    n = ctx.pick(24, 100)
    with open(os.path.join(ctx.out, 'logs_gen.h'), 'w', encoding='utf-8') as f:
        f.write(generate(ctx.sub('gen'), n, 8))
    # the splitter directly, on any text; should it have been renamed or reshaped, the macros still are what is promised
    opts = dict(uses=True, ldflags=['-Wl,--wrap=write'], opt='-O0')
    exe = ctx.build('logs', defs=['-DGEN', '-I', ctx.out], fatal=False, **opts)
    direct = exe is not None
    if not direct:
        exe = ctx.build('logs', defs=['-DGEN', '-DNO_NAMES', '-I', ctx.out], **opts)
    scripts = [((1, 1), [['gen', k]]) for k in range(n)]
    ctx.validate('LogsTrace', ctx.drive(exe, scripts, tag='macros'), scripts)
    if not direct:
        return
    r = ctx.sub('names')
    scripts = []
    for n in range(ctx.pick(500, 5000)):
        ops = []
        for _ in range(8):
            m = r.choice([0, 1, 1, 2, 3, 4, 6])
            t = r.choice(['', '$,', '']) + ''.join((r.choice([', ', ',', ' ,', '  ,  ', ',\t']) if k else r.choice(['', '', ' ', '\t '])) + r.choice(['', expr(r), expr(r), expr(r)]) for k in range(m))
            t += r.choice(['', '', ' ', ',', ', ', ',,'])
            b = t.encode('utf-8') if r.random() < .8 else t.encode('utf-8', 'replace') + bytes([r.randrange(128, 256)])
            # the buffer is exactly as long as the text: grow to the next size with blanks or letters
            fit = [s for s in SIZES if s > len(b)]
            if not fit:
                continue
            pad = fit[0] - 1 - len(b)
            b = r.choice([b + b' ' * pad, b' ' * pad + b, b + b'z' * pad])
            cnt = r.choice([1, 2, 3, 4, 5, 7, max(1, min(5, m))])
            ops.append(['names', cnt, b.hex() or '-'])
        if n % 4 == 0:
            # long texts: names longer than a byte counts, and names far in
            t = r.choice(['', '$,']) + ', '.join(r.choice(['a' * r.choice([1, 100, 253, 254, 255, 256, 257]), expr(r)]) for _ in range(r.choice([2, 3, 5])))
            b = t.encode('utf-8')[:699]
            if b.count(b'"') % 2 == 0 and b.count(b"'") % 2 == 0 and 127 < len(b):
                b = b.ljust(299 if len(b) < 300 else 699)
                if all(x in b'a, $' for x in b):
                    ops.append(['names', r.choice([1, 2, 3, 5, 7]), b.hex()])
        # short texts over the structural characters
        for _ in range(8):
            st, depth, q = [], [], None
            while len(st) < 11:
                c = r.choice(',, aa()[]{}\'"\\\t')
                if q:
                    if c == '\\':
                        if len(st) + 2 >= 11:
                            continue
                        st += ['\\', r.choice('\\\'"a,')]
                        continue
                    if c == q:
                        q = None
                elif c in '([{':
                    depth.append({'(': ')', '[': ']', '{': '}'}[c])
                elif c in ')]}':
                    if not depth:
                        continue
                    c = depth.pop()
                elif c in '\'"':
                    q = c
                elif c == '\\':
                    continue
                st.append(c)
            s = ''.join(st)[:11]
            s = s + (q or '') + ''.join(reversed(depth))
            s = s.ljust(15) if len(s) <= 15 else s.ljust(23)
            if len(s) in (15, 23):
                ops.append(['names', r.choice([1, 2, 3, 4, 7]), s.encode().hex()])
        scripts.append(((1, 1), ops))
    ctx.validate('LogsTrace', ctx.drive(exe, scripts), scripts)


# ---- generated statements ---------------------------------------------------------------------
def cq(codes):
    return ''.join({34: '\\"', 92: '\\\\', 10: '\\n', 39: "'"}.get(c, chr(c)) for c in codes)


def arg(r, k, last):
    """an argument expression that counts its evaluation in slot k: (source text, value)"""
    m = r.randrange(13)
    if m < 4:
        t = r.choice(list(TYPES))
        v = value(r, t)
        w = r.choice(['A<%s>(%d, %s)', 'A<%s>(%d, (0, %s))', '(A<%s>(%d, %s))', 'A<%s>(%d, %s)'])
        return w % (CXX[t], k, lit(t, v)), ['int', bool(TYPES[t][0]), le(t, v)]
    if m == 4:
        q = [r.choice([97, 44, 40, 41, 34, 92, 32, 91, 39, 123]) for _ in range(r.randrange(8))]
        return 'A<char const*>(%d, "%s")' % (k, cq(q)), ['cstr', q]
    if m == 5:
        c = r.choice([97, 44, 40, 41, 91, 123, 125])
        return "A(%d, '%s')" % (k, chr(c)), ['char', c]
    if m == 6:
        return r.choice([("A(%d, '\\'')" % k, ['char', 39]), ("A(%d, '\\\\')" % k, ['char', 92]), ("A(%d, '\"')" % k, ['char', 34])])
    if m == 7:
        return r.choice([('A(%d, true)' % k, ['bool', True]), ('!A(%d, true)' % k, ['bool', False])])
    if m == 8:
        v = r.randrange(100)
        return r.choice(['Num{}[A(%d, %d)]', 'S3{ ",", A(%d, %d) }.n', 'int{ A(%d, %d) }']) % (k, v), ['int', True, le('int', v)]
    if m == 9:
        return 'Idx{}[%d]' % k, ['int', True, le('int', k * 3)]
    if m == 10:
        return 'ce::vec2<int>{ A(%d, 7), -8 }' % k, ['list', [['int', True, le('int', 7)], ['int', True, le('int', -8)]]]
    if m == 11:
        return 'A(%d, \u00e9)' % k, ['int', True, le('int', 41)]
    if last and r.random() < .7:
        return 'tmpl<6, 7>(%d)' % k, ['int', True, le('int', 42)]
    return 'A(%d, nullptr)' % k, ['nil']


def args(r, n):
    a = [arg(r, k, k == n - 1) for k in range(n)]
    sep = r.choice([', ', ',', ' , '])
    return sep.join(x for x, _ in a), [v for _, v in a]


def cstr(t):
    return '"' + ''.join('\\%03o' % c for c in t.encode('utf-8')) + '"'


def generate(r, count, per):
    out = []
    for n in range(count):
        b = []
        for q in range(per):
            kind = r.choice(['LOG', 'LOG', 'MSG', 'CE_ASSERT', 'CE_VERIFY', 'CE_REJECT', 'CE_VERIFY', 'CE_REJECT', 'CE_ASSERT', 'CE_ERROR'])
            m = r.choice([0, 1, 1, 2, 3, 5])
            if kind == 'MSG':
                m = max(m, 1)
            ta, va = args(r, m)
            spec = 'R"~(%s)~"' % json.dumps(va, separators=(',', ':'))
            b.append('begin(); answer = %s;' % r.choice(['true', 'false', 'false']))
            if kind in ('LOG', 'MSG'):
                lv = r.randrange(8)
                mac = 'CE_LOG' if kind == 'LOG' else 'CE_LOG_MSG'
                b.append('%s(%s%s);' % (mac, LEVELS[lv], ', ' + ta if m else ''))
                b.append('log_done("%s", %d, "%s", %s, %s, %d);' % (kind, lv, LEVELS[lv], cstr(ta), spec, m))
                continue
            line = r.randrange(1, 99999)
            fn = r.choice(['a.cpp', 'dir/b c.h', 'x(1).cpp', '\u00e9.cpp'])
            fl = '%s(%d)' % (fn, line)
            if kind == 'CE_ERROR':
                b.append('#line %d "%s"\n    CE_ERROR(%s);' % (line, fn, ta))
                b.append('check_done("ERROR", false, "", %s, %s, %d, "CE_ERROR", %s);' % (cstr(ta), spec, m, cstr(fl)))
                continue
            val = r.random() < .5
            tf = 'true' if val else 'false'
            cond = r.choice(['C(%s)' % tf, '!C(%s)' % ('false' if val else 'true'), 'C(%s) && (1 < 2)' % tf, '(0, C(%s))' % tf, 'C(%s) || false' % tf,
                             'C(%s) == ("a,b" != nullptr)' % tf, 'C(%s) ? true : false' % tf])
            st = '%s(%s%s)' % (kind, cond, ', ' + ta if m else '')
            b.append('#line %d "%s"\n    %s%s;' % (line, fn, '' if kind == 'CE_ASSERT' else 'yield = ', st))
            b.append('check_done("CHECK", %s, %s, %s, %s, %d, "%s", %s);' % (tf, cstr(cond), cstr(ta), spec, m, kind, cstr(fl)))
        out.append('static void gen%d()\n{\n    %s\n}' % (n, '\n    '.join(b)))
    out.append('static void generated(int n)\n{\n    static void (*const all[])() = { %s };\n    all[n]();\n}' % ', '.join('gen%d' % n for n in range(count)))
    return '\n'.join(out) + '\n'


def reports(ctx):
    n = ctx.pick(60, 200)
    with open(os.path.join(ctx.out, 'logs_gen.h'), 'w', encoding='utf-8') as f:
        f.write(generate(ctx.sub('gen'), n, 8))
    exe = ctx.build('logs', defs=['-DGEN', '-DNO_NAMES', '-I', ctx.out], uses=True, ldflags=['-Wl,--wrap=write'], opt='-O0')
    r = ctx.sub('os')
    scripts = [((1, 1), [['gen', k]]) for k in range(n)]
    for _ in range(ctx.pick(150, 1500)):
        ops = []
        for _ in range(6):
            m = r.choice([0, 1, 2, 3, 4, 9])
            t = lambda: bytes(r.choice([97, 98, 34, 44, 92, 32, 37, 10, 200, 255, 58]) for _ in range(r.choice([0, 1, 3, 8, 200]))).hex() or '-'
            ops.append([r.choice(['oslog', 'oserror']), r.choice([-128, -1, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 127])] + [t() for _ in range(2 * m)])
        scripts.append(((1, 1), ops))
    ctx.validate('LogsTrace', ctx.drive(exe, scripts), scripts)


def disabled(ctx):
    ctx.mc('LogsMC', cfg=ctx.pick('LogsMC', 'LogsMCdeep'), emit=False, workers=8)
    n = ctx.pick(30, 120)
    with open(os.path.join(ctx.out, 'logs_gen.h'), 'w', encoding='utf-8') as f:
        f.write(generate(ctx.sub('gen'), n, 8))
    for e, l in ((0, 0), (1, 0), (0, 1)):
        exe = ctx.build('logs', defs=['-DGEN', '-DNO_NAMES', '-I', ctx.out, '-DCE_USER_ERROR_LEVEL=%d' % e, '-DCE_USER_LOG_LEVEL=%d' % l], uses=True, ldflags=['-Wl,--wrap=write'], opt='-O0', name='logs%d%d' % (e, l))
        scripts = [((e, l), [['gen', k]]) for k in range(n)]
        ctx.validate('LogsTrace', ctx.drive(exe, scripts, tag='logs%d%d' % (e, l)), scripts)
