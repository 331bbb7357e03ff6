"""M01, M02: ce/mutex.h"""


def common(ctx, shared):
    kind = 'shared' if shared else 'plain'
    need = ['acq', 'try', 'rel', 'renew'] + (['acqs', 'trys', 'rels'] if shared else [])
    tr = ctx.mc('MutexMC', cfg='MutexMC' if shared else 'MutexMCx', need=need)
    scripts = []
    for w in ctx.walks(tr, maxlen=60):
        scripts.append(((kind, 1 if shared else 2), w))
    r = ctx.sub('mutex')
    ops = ['acq', 'acq', 'try', 'rel', 'rel', 'renew'] + (['acqs', 'acqs', 'trys', 'rels', 'acqs'] if shared else [])
    for _ in range(ctx.pick(150, 3000)):
        nl = r.randint(1, 3)
        s = []
        for _ in range(r.randint(10, 60)):
            o = r.choice(ops)
            s.append([o, r.randint(1, nl)] if o == 'renew' else [o, r.randint(1, 3), r.randint(1, nl)])
        scripts.append(((kind, nl), s))
    for _ in range(ctx.pick(4, 40)):
        scripts.append(((kind, r.randint(1, 3)), [['stress', ctx.pick(20000, 50000), r.randint(1, 10 ** 6)]]))
    exe = ctx.build('mutexes', asan=False)
    ctx.validate('MutexTrace', ctx.drive(exe, scripts), scripts)
    # the Windows implementation, over a stand-in for its slim reader/writer locks
    import os
    from fw.fw import DRV, REPO
    if os.path.exists(os.path.join(REPO, 'lib', 'mutex_win32.cpp')):
        exe = ctx.build('mutexes', asan=False, libs=False, name='mutexes_win32', defs=['-DKIT_WIN32', '-I', os.path.join(DRV, 'win32')], fatal=False)
        if exe is None:
            ctx.assumptions.append('the Windows implementation uses more of Windows than the stand-ins have: not covered')
        else:
            ctx.validate('MutexTrace', ctx.drive(exe, scripts), scripts, tag='MutexTraceWin32')
    ctx.assumptions.append('the Windows implementation is run over a stand-in for SRWLOCK written from its documentation')
    ctx.extra['rule'] = 'every model transition replayed on stepped real threads + seeded random call sequences over up to 3 locks + free running threads'


def plain(ctx):
    common(ctx, False)


def shared(ctx):
    common(ctx, True)
