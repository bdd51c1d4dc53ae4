"""Restates OpenACC directives as OpenMP directives with the same meaning, so that the
iterations of a parallel loop run as threads of the controlled runtime.  Only directive
lines are touched.  Raises Unknown for a directive it does not know."""
import re, sys

class Unknown(Exception):
    pass

MAPS = {'copy': 'tofrom', 'copyin': 'to', 'copyout': 'from', 'create': 'alloc', 'present': 'alloc'}
for _k in list(MAPS):
    for _p in ('present_or_', 'pcopy' if _k == 'copy' else 'p'):
        MAPS[(_p + _k) if _p != 'pcopy' else 'pcopy'] = MAPS[_k]
MAPS['no_create'] = 'alloc'
DROP = {'gang', 'worker', 'vector', 'independent', 'auto', 'num_gangs', 'num_workers', 'vector_length', 'tile', 'device_type', 'default', 'wait', 'deviceptr'}

def clauses(s):
    """[(name, argument or None)]"""
    res, i = [], 0
    while i < len(s):
        m = re.compile(r'[\s,]*').match(s, i)
        i = m.end()
        if i >= len(s):
            break
        m = re.compile(r'[A-Za-z_]+').match(s, i)
        if not m:
            raise Unknown(s)
        name = m.group(0).lower()
        i = m.end()
        m = re.compile(r'\s*\(').match(s, i)
        arg = None
        if m:
            d, j = 1, m.end()
            while d and j < len(s):
                d += s[j] == '('
                d -= s[j] == ')'
                j += 1
            arg = s[m.end():j - 1]
            i = j
        res.append((name, arg))
    return res

def names(arg):
    """the variables of a list, without array sections"""
    out, d, cur = [], 0, ''
    for ch in arg:
        if ch in '[(':
            d += 1
        if ch == ',' and not d:
            out.append(cur); cur = ''
        elif not d:
            cur += ch
        if ch in '])':
            d -= 1
    return ', '.join(x.strip() for x in out + [cur])

def conv(cl, allow, fortran):
    o, extra = [], {}
    for n, a in cl:
        if n in MAPS and 'map' in allow:
            o.append('map(%s: %s)' % (MAPS[n], a))
        elif n == 'private' and 'private' in allow:
            o.append('private(%s)' % names(a))
        elif n == 'firstprivate' and 'private' in allow:
            o.append('firstprivate(%s)' % names(a))
        elif n == 'reduction' and 'private' in allow:
            o.append('reduction(%s)' % a)
        elif n == 'collapse':
            o.append('collapse(%s)' % a)
        elif n == 'if':
            o.append('if(%s)' % a)
        elif n == 'async':
            extra['async'] = True
        elif n == 'seq':
            extra['seq'] = True
        elif n in DROP:
            pass
        else:
            raise Unknown(n)
    return ' '.join(o), extra

def directive(text, fortran, st):
    """text: what follows 'acc'; returns what follows 'omp', or None for nothing"""
    t = ' '.join(text.split())
    do = 'do' if fortran else 'for'
    m = re.match(r'(end )?(parallel loop|kernels loop|serial loop|enter data|exit data|host_data|parallel|kernels|data|loop|routine|update|wait|atomic|declare|serial)\b(.*)$', t, re.I)
    if not m:
        raise Unknown(t)
    end, kind, rest = bool(m.group(1)), m.group(2).lower(), m.group(3).strip()
    comb = 'target teams distribute parallel ' + do
    if end:
        if kind in ('parallel loop', 'kernels loop'):
            return 'end ' + comb
        if kind in ('parallel', 'kernels', 'serial'):
            return 'end target'
        if kind == 'data':
            return 'end target data'
        if kind == 'loop':
            return 'end parallel do'
        if kind == 'atomic':
            return 'end atomic'
        raise Unknown(t)
    if kind in ('parallel loop', 'kernels loop'):
        o, ex = conv(clauses(rest), {'map', 'private'}, fortran)
        if ex.get('seq'):
            raise Unknown('seq on a combined directive')
        return comb + ' ' + o + (' nowait' if ex.get('async') else '')
    if kind in ('parallel', 'kernels', 'serial'):
        o, ex = conv(clauses(rest), {'map', 'private'}, fortran)
        return 'target ' + o + (' nowait' if ex.get('async') else '')
    if kind == 'loop':
        o, ex = conv(clauses(rest), {'private'}, fortran)
        return None if ex.get('seq') else 'parallel %s %s' % (do, o)
    if kind == 'data':
        o, ex = conv(clauses(rest), {'map'}, fortran)
        return 'target data ' + o
    if kind in ('enter data', 'exit data'):
        o = []
        for n, a in clauses(rest):
            if n == 'delete':
                o.append('map(delete: %s)' % a)
            elif n in MAPS:
                o.append('map(%s: %s)' % (MAPS[n], a))
            elif n not in ('async', 'wait', 'finalize'):
                raise Unknown(n)
        return 'target %s %s' % (kind, ' '.join(o))
    if kind == 'update':
        o = []
        for n, a in clauses(rest):
            if n in ('self', 'host'):
                o.append('from(%s)' % a)
            elif n == 'device':
                o.append('to(%s)' % a)
            elif n not in ('async', 'wait', 'if_present'):
                raise Unknown(n)
        return 'target update ' + ' '.join(o)
    if kind == 'wait':
        return 'taskwait'
    if kind == 'atomic':
        return 'atomic ' + rest
    if kind == 'routine':
        return None
    raise Unknown(t)

def cxx(src):
    out = []
    lines = src.split('\n')
    i = 0
    while i < len(lines):
        m = re.match(r'\s*#\s*pragma\s+(acc|omp)\b(.*)$', lines[i])
        if not m:
            out.append(lines[i]); i += 1
            continue
        t, n = m.group(2), 1
        while t.rstrip().endswith('\\'):
            t = t.rstrip()[:-1] + ' ' + lines[i + n]
            n += 1
        d = directive(t, False, None) if m.group(1) == 'acc' else None
        out.append('#pragma omp ' + d if d else '')
        out += [''] * (n - 1)
        i += n
    return '\n'.join(out)

def fortran(src):
    """src: preprocessed free-form source"""
    out = []
    lines = src.split('\n')
    i = 0
    while i < len(lines):
        m = re.match(r'\s*!\$(acc|omp)\b(.*)$', lines[i], re.I)
        if not m:
            out.append(lines[i]); i += 1
            continue
        t, n = m.group(2), 1
        while t.rstrip().endswith('&'):
            t = t.rstrip()[:-1] + ' ' + re.sub(r'^\s*!\$(acc|omp)\s*&?', '', lines[i + n], flags=re.I)
            n += 1
        d = directive(t, True, None) if m.group(1).lower() == 'acc' else None
        out.append('!$omp ' + d if d else '')
        out += [''] * (n - 1)
        i += n
    return '\n'.join(out)

def plain_cxx(src):
    """OpenACC as gcc accepts it: no array sections in private clauses"""
    return re.sub(r'(private\s*\()((?:[^()]|\([^()]*\))*)\)', lambda m: m.group(1) + names(m.group(2)) + ')', src)

def plain_fortran(src):
    """conditional lines start in the first column, as the traditional preprocessor wants"""
    return re.sub(r'^[ \t]+#[ \t]*(if|ifdef|ifndef|else|elif|endif|define|undef)\b', r'#\1', re.sub(r'^[ \t]*#[ \t]*warning.*$', '', src, flags=re.M), flags=re.M)
