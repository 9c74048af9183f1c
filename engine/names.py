"""Normalised names for resolved callees."""
import re
_cache = {}
def norm(p):
    """`std::vec::Vec::<T, A>::push` -> `Vec::push`; `<A as B>::m` -> `A as B::m`."""
    if p is None:
        return ''
    r = _cache.get(p)
    if r is not None:
        return r
    s = p.replace('failure::core::', 'core::')
    # drop generic argument lists except leading `<X as Y>`
    def strip_generics(s):
        out = ''
        i = 0
        depth = 0
        while i < len(s):
            c = s[i]
            if c == '<':
                prev = out[-2:] if depth == 0 else ''
                if depth == 0 and (out == '' or out.endswith('::<impl ') ):
                    pass
                depth += 1
            if depth == 0:
                out += c
            if c == '>' and not (i and s[i-1] in '-='):
                depth -= 1
            i += 1
        return out
    m = None
    if s.startswith('<'):
        # <A as B>::rest
        depth = 0
        for i, c in enumerate(s):
            if c == '<': depth += 1
            if c == '>' and s[i-1] not in '-=':
                depth -= 1
                if depth == 0:
                    break
        inner, rest = s[1:i], s[i+1:]
        # split on top-level ' as '
        d = 0; cut = None
        for j in range(len(inner)):
            if inner[j] == '<': d += 1
            elif inner[j] == '>' and inner[j-1] not in '-=': d -= 1
            elif d == 0 and inner.startswith(' as ', j):
                cut = j; break
        if cut is not None:
            a, b = inner[:cut], inner[cut+4:]
        else:
            a, b = inner, ''
        r = short(strip(a)) + ('.' + short(strip(b)) if b else '') + strip(rest)
    else:
        m = re.match(r'^(.*?)<impl (.*)>(::[^<>]*)$', s)
        if m:
            inner = m.group(2)
            if ' for ' in inner:
                inner = inner.split(' for ', 1)[1]
            r = short(strip(inner)) + m.group(3)
        else:
            t = strip(s)
            parts = t.split('::')
            r = '::'.join(parts[-2:]) if len(parts) > 1 else t
    _cache[p] = r
    return r

def strip(s):
    """remove <...> generic argument lists"""
    out = []
    d = 0
    for i, c in enumerate(s):
        if c == '<':
            d += 1
        elif c == '>' and i and s[i-1] not in '-=':
            d -= 1
        elif d == 0:
            out.append(c)
    return ''.join(out).replace('::::', '::').rstrip(':')

def short(s):
    s = s.replace('&mut ', '').replace('&', '').strip()
    if s.startswith('['):
        return '[T]'
    return s.split('::')[-1] if '::' in s else s
