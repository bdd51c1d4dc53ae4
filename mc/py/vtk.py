"""Strict reader for the legacy VTK files the programs write."""
class VtkError(Exception): pass
def near(a, b, rel): return a == b or abs(a - b) <= rel * max(abs(a), abs(b)) + 1e-305
class Vtk: pass
STALE = 'a line of an older file\n' * 800
def stale(fn):
    """A file of an earlier run that is in the way."""
    with open(fn, 'w') as f: f.write(STALE)
def written(fn):
    try: return open(fn).read() != STALE
    except (OSError, UnicodeDecodeError): return True
def read(fn):
    try: text = open(fn).read()
    except OSError: raise VtkError('no file ' + fn)
    lines = text.split('\n', 2)
    if len(lines) < 3 or not lines[0].startswith('# vtk DataFile Version'): raise VtkError('first line')
    tok = lines[2].split(); pos = [0]
    def word():
        if pos[0] >= len(tok): raise VtkError('file ends early')
        pos[0] += 1
        return tok[pos[0] - 1]
    def expect(w):
        s = word()
        if s != w: raise VtkError("expected %s but found '%s'" % (w, s))
    def num():
        s = word()
        try: return float(s)
        except ValueError: raise VtkError("'%s' is not a number" % s)
    def count():
        s = word()
        if not s.isdigit(): raise VtkError("'%s' is not a count" % s)
        return int(s)
    r = Vtk()
    expect('ASCII'); expect('DATASET'); r.kind = word(); expect('DIMENSIONS')
    r.dims = [count(), count(), count()]
    if min(r.dims) < 1: raise VtkError('dimension below 1')
    if r.kind == 'RECTILINEAR_GRID':
        r.ax = []
        for i, n in enumerate(['X_COORDINATES', 'Y_COORDINATES', 'Z_COORDINATES']):
            expect(n); k = count()
            if word() not in ('double', 'float'): raise VtkError('coordinate type')
            if k != r.dims[i]: raise VtkError('%s has %d values but the declared dimension is %d' % (n, k, r.dims[i]))
            r.ax.append([num() for _ in range(k)])
    elif r.kind == 'STRUCTURED_GRID':
        expect('POINTS'); k = count(); word()
        if k != r.dims[0] * r.dims[1] * r.dims[2]: raise VtkError('POINTS do not match the dimensions')
        r.pts = [[num(), num(), num()] for _ in range(k)]
    else: raise VtkError('dataset ' + r.kind)
    expect('CELL_DATA'); k = count()
    want = 1
    for d in r.dims: want *= max(1, d - 1)
    if k != want: raise VtkError('CELL_DATA %d but the grid has %d cells' % (k, want))
    expect('SCALARS'); r.name = word()
    if word() not in ('double', 'float'): raise VtkError('value type')
    if pos[0] < len(tok) and tok[pos[0]] == '1': pos[0] += 1
    expect('LOOKUP_TABLE'); expect('default')
    r.val = [num() for _ in range(k)]
    if pos[0] != len(tok): raise VtkError("'%s' after the last value" % tok[pos[0]])
    return r
