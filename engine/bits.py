from terms import *
def bitop(o, a, b, ty):
    """bit operations: commutative ones ordered, a few identities"""
    k = ty['k']
    w = ty.get('w', 64)
    if o in ('BitOr', 'BitAnd', 'BitXor') and a.id > b.id: a, b = b, a
    for x, y in ((a, b), (b, a)):
        if is_int(x):
            if o == 'BitOr' and x.a[0] == 0: return y
            if o == 'BitXor' and x.a[0] == 0: return y
            if o == 'BitAnd' and x.a[0] == 0: return I(0)
            if o == 'BitAnd' and k == 'uint' and x.a[0] == (1 << w) - 1: return y
    if o in ('Shl', 'Shr') and b is I(0): return a
    if o == 'Div' and b is I(1): return a
    if o == 'Rem' and b is I(1): return I(0)
    if o == 'BitOr' and a is b: return a
    if o == 'BitAnd' and a is b: return a
    return mk('bit', o, w, k[0], a, b)
