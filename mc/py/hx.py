"""Python twin of h/hx.h."""
import sys, os, itertools, faulthandler
watch = 120  # a case (or execution) that takes this long does not end
case = -1; shard = 0; nshard = 1; only = -1; thorough = False
opts = {}; stats = {}; cur = ''; _prog = None; _ns = 0
def init():
    global shard, nshard, only, thorough, _prog
    a = sys.argv[1:]; i = 0
    while i < len(a):
        if a[i] == '--shard': shard, nshard = int(a[i+1]), int(a[i+2]); i += 3
        elif a[i] == '--only': only = int(a[i+1]); i += 2
        elif a[i] == '--thorough': thorough = True; i += 1
        elif a[i] == '--progress': _prog = open(a[i+1], 'wb', buffering=0); i += 2
        else: opts[a[i][2:]] = a[i+1]; i += 2
    sys.argv = sys.argv[:1]
def take():
    global case
    case += 1
    return case == only if only >= 0 else case % nshard == shard
def kick(): faulthandler.dump_traceback_later(watch, exit=True, file=sys.__stderr__)
def progress(s):
    global cur
    cur = s
    kick()
    if _prog:
        _prog.seek(0); _prog.write(('%d %s' % (case, s)).encode() + b'\0')
def stat(k, n=1): stats[k] = stats.get(k, 0) + n
def sample(s):
    global _ns
    if _ns < 2: print('MCSAMPLE ' + s)
    _ns += 1
def _fin():
    for k, v in stats.items(): print('MCSTAT %s %d' % (k, v))
    sys.stdout.flush()
def violation(what):
    sys.stdout = sys.__stdout__
    print(('MCVIOLATION case=%d [%s] %s' % (case, cur, what)).replace('\n', '|'))
    _fin()
    os._exit(10)
def done():
    faulthandler.cancel_dump_traceback_later()
    print('MCDONE cases=%d' % (case + 1)); _fin()
