"""Which programs (dv/progs.py) establish which property."""
B = (True, False)
K = ('interior', 'boundary')


def k0(p):
    return [('k0', dict(kind=k, nodemode=n, want={p})) for k in K for n in B]


def kG(p):
    return [('kG', dict(kind=k, nodemode=n, want={p})) for k in K for n in B]


def tria(p, areas=(True, False)):
    return [('add', dict(kind='tria', nodemode=n, method=m, area=a, want={p})) for n in B for m in ('cell-based', 'cell-based-no-smoothing') for a in areas]


def edge(p, areas=(True, False), zplane=False, plain=True):
    out = []
    for k in K:
        for n in B:
            for a in areas:
                if k == 'interior':
                    if plain:
                        out.append(('add', dict(kind=k, nodemode=n, method='edge-based', area=a, want={p})))
                    if zplane:
                        out.append(('add', dict(kind=k, nodemode=n, method='edge-based', area=a, zplane=True, want={p})))
                else:
                    out.append(('add', dict(kind=k, nodemode=n, method='edge-based', area=a, want={p})))
    return out


def weights():
    return [('weights', dict(kind=k, nodemode=n)) for k in K + ('tria',) for n in B]


def defaults(p):
    return [('add', dict(kind='tria', nodemode=n, method='cell-based', area=False, defaults=True, want={p})) for n in B]


def errs():
    out = []
    for n in B:
        for k in ('many', 'none'):
            out.append(('err_trias', dict(nodemode=n, kind=k)))
        out.append(('err_edge', dict(nodemode=n)))
        for k in K + ('tria',):
            out.append(('err_method', dict(kind=k, nodemode=n)))
    for k, ws in (('interior', ('n1', 'n2', 'o1', 'o2')), ('boundary', ('n1', 'n2', 'o1'))):
        out += [('err_prop', dict(kind=k, nodemode=True, where=w)) for w in ws]
    for k, ws in (('interior', ('0', '1')), ('boundary', ('0',))):
        out += [('err_prop', dict(kind=k, nodemode=False, where=w)) for w in ws]
    return out


def lib(p):
    return [('pynastran', dict(tag=p)), ('logger', dict(tag=p))]


def twice():
    return [('k0', dict(kind=k, nodemode=n, twice=True)) for k in K for n in B]


def jobs(p, thorough=False):
    a1 = (True, False) if thorough else (False,)
    return {
        'C01': [('area', {})],
        'C02': [('lagrange', dict(dim=2, array=a)) for a in B[::-1]],
        'C03': [('lagrange', dict(dim=3, same=True, array=a)) for a in B[::-1]] + [('lagrange', dict(dim=3, shared=True, array=a)) for a in B[::-1]],
        'C04': [('delaunay', dict(dim=2)), ('delaunay', dict(dim=3))], 'C05': [('deck', {})],
        'C06': lib('C06') + k0('C06'), 'C07': lib('C07') + kG('C07') + k0('C07') + edge('C07', a1) + tria('C07', a1),
        'C08': lib('C08') + k0('C08'), 'C09': lib('C09') + k0('C09'),
        'C10': lib('C10') + kG('C10') + edge('C10', a1) + k0('C10') + tria('C10', a1) + weights(),
        'C11': lib('C11') + kG('C11'),
        'C12': lib('C12') + edge('C12', a1) + tria('C12', a1) + [('psd', {})],
        'C13': lib('C13') + tria('C13'),
        'C14': lib('C14') + edge('C14', a1, zplane=True, plain=True),
        'C15': lib('C15') + edge('C15') + tria('C15') + defaults('C15') + [('psd', {})],
        'C16': lib('C16')[1:] + errs(),
        'C18': [('pow2mul', {})],
        'C19': [('printer', dict(kind=k)) for k in ('sparse', 'dense', 'array')],
        'C17': lib('C17') + kG('C17') + twice() + k0('C17') + edge('C17', a1) + tria('C17', a1),
    }.get(p, [])
