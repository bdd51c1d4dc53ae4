"""Restates Fortran do concurrent loops as ordinary loops whose order of iterations comes
from the harness (function mc_order_at of module mc_order, which also marks the iterations; mc_order_end
marks the end of the loop).  Everything else is unchanged.  The source is preprocessed.
Raises Unknown for a form it does not know."""
import re

class Unknown(Exception):
    pass

ORDER = '''module mc_order
  use iso_c_binding
  implicit none
  %s
  interface
    function mc_order_at(k, n) bind(C) result(r)
      import
      integer(c_int), value :: k, n
      integer(c_int) :: r
    end function
    subroutine mc_order_end() bind(C)
    end subroutine
  end interface
contains
  pure integer function mc_len(lo, hi, st)
    integer, intent(in) :: lo, hi, st
    mc_len = max(0, (hi - lo + st) / st)
  end function
end module
'''

def split(s, ch):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '([':
            d += 1
        if c in ')]':
            d -= 1
        if c == ch and not d:
            out.append(cur); cur = ''
        else:
            cur += c
    return out + [cur]

def assigned(lines, skip):
    """Names of the variables assigned in the loop that starts here, except those declared in it."""
    r, d, skip = [], 1, {x.lower() for x in skip}
    for l in lines:
        if re.match(r'^\s*(\w+\s*:\s*)?do\b(?!\s*=)', l, re.I):
            d += 1
        if re.match(r'^\s*end\s*do\b', l, re.I):
            d -= 1
            if not d:
                break
        if '::' in l:
            skip |= {x.lower() for x in re.findall(r'\w+', l.split('::', 1)[1])}
        for m in re.finditer(r'(?:^|[;)])\s*(\w+)\s*=(?![=>])', re.sub(r'!.*$', '', l)):
            if m.group(1).lower() not in r:
                r.append(m.group(1).lower())
    return [x for x in r if x not in skip]

def restate(src):
    """Returns (source, number of loops)."""
    lines, out, n, i, depth = src.split('\n'), [], 0, 0, []
    while i < len(lines):
        l = lines[i]
        m = re.match(r'^(\s*)(?:(\w+)\s*:\s*)?do\s+concurrent\b\s*(.*)$', l, re.I)
        if not m:
            out.append(l)
            if re.match(r'^\s*(module(?!\s+procedure\b)|program)\s+\w+\s*$', l, re.I):
                out.append('use mc_order')
            if re.match(r'^\s*(\w+\s*:\s*)?do\b(?!\s*=)', l, re.I) and depth:
                if re.match(r'^\s*(\w+\s*:\s*)?do\s+\d', l, re.I):
                    raise Unknown(l)    # labelled loop
                depth[-1] += 1
            if re.match(r'^\s*end\s*do\b', l, re.I) and depth:
                depth[-1] -= 1
                if depth[-1] == 0:
                    out.append('call mc_order_end()')
                    depth.pop()
                    if depth:
                        depth[-1] -= 1
            i += 1
            continue
        t = re.sub(r'!.*$', '', m.group(3)).rstrip()
        while t.endswith('&'):
            i += 1
            t = t[:-1] + ' ' + re.sub(r'!.*$', '', re.sub(r'^\s*&?', '', lines[i])).rstrip()
        i += 1
        if not (t.startswith('(') and t.endswith(')')):
            raise Unknown(l)        # locality clauses and the like
        parts, idx, mask = split(t[1:-1], ','), [], None
        for p in parts:
            a = re.match(r'^\s*(\w+)\s*=(?!=)\s*(.*)$', p, re.S)
            if a and mask is None:
                b = split(a.group(2), ':')
                if len(b) not in (2, 3):
                    raise Unknown(l)
                idx.append((a.group(1), b[0], b[1], b[2] if len(b) == 3 else '1'))
            elif mask is None and idx:
                mask = p
            else:
                raise Unknown(l)
        n += 1
        for v in assigned(lines[i:], [x[0] for x in idx]):      # gives it an address: accesses to it are observed
            out.append('call mc_addr(%s)' % v)
        if depth:
            depth[-1] += 1
        depth.append(1)
        name = (m.group(2) + ': ') if m.group(2) else ''
        lens = ['mc_len(%s, %s, %s)' % x[1:] for x in idx]
        out.append('mc_n%d = %s' % (n, ' * &\n '.join(lens)))
        out.append('%sdo mc_k%d = 0, mc_n%d - 1' % (name, n, n))
        out.append('mc_r%d = mc_order_at(mc_k%d, mc_n%d)' % (n, n, n))
        for (v, lo, hi, st), ln in zip(idx, lens):
            out.append('%s = %s + (%s) * mod(mc_r%d, %s)' % (v, lo, st, n, ln))
            out.append('mc_r%d = mc_r%d / %s' % (n, n, ln))
        if mask:
            out.append('if (.not. (%s)) cycle' % mask)
    if depth:
        raise Unknown('end of a loop not found')
    names = ', '.join('mc_%s%d' % (c, k) for k in range(1, n + 1) for c in 'nkr')
    return (ORDER % ('integer :: ' + names if n else '')) + '\n'.join(out), n
