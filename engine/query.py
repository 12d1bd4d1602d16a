"""Questions asked of an analysed instruction: guard entailment, value equality, write sets, effects."""
import itertools
from dd import *
import interp
from interp import *
from models import tyshort


# ---------------------------------------------------------------- state access
def ty_fields(I, tyid):
    t = I.ty(tyid)
    return t['vs'][0]['fs'] if t['k'] == 'struct' else None


def flat_leaves(I, v, ty, path=()):
    """yield (path, ty, value) for the scalar leaves of a structured value (arrays: every store)"""
    t = I.ty(ty)
    if isinstance(v, Sym) and t['leaf']:
        v = I.expand(v)
    if isinstance(v, (int, Sym)) or v is UNDEF or isinstance(v, (Raw, Enum, VecV, Obj)):
        yield path, ty, v
        return
    if isinstance(v, Agg):
        if t['k'] == 'struct':
            for (n, ft), x in zip(t['vs'][0]['fs'], v.f):
                yield from flat_leaves(I, x, ft, path + (n,))
            return
        if t['k'] == 'tuple':
            for i, (ft, x) in enumerate(zip(t['fs'], v.f)):
                yield from flat_leaves(I, x, ft, path + (str(i),))
            return
    yield path, ty, v


def initial_leaf(I, name, path, ty):
    return I.expand(Sym(name + path, ty))


def changes(R):
    """{(object name, field path): (initial node, final node, ty)} of everything the instruction may store into account state.
    Array elements are reported with the symbolic index in the path."""
    I = R.I
    out = {}
    inits = {o for o, _ in I.inits}
    for o, v in R.ok.mem.items():
        if o[0] != 'st':
            continue
        walk(I, R, o[2], v, o[1], (), out, o in inits)
    return out


def walk(I, R, name, v, ty, path, out, isinit):
    t = I.ty(ty)
    if isinstance(v, Sym):
        if v.path == name + path:
            return
        v = I.expand(v)
    if isinstance(v, Agg) and t['k'] == 'struct' and not t['leaf']:
        for (n, ft), x in zip(t['vs'][0]['fs'], v.f):
            walk(I, R, name, x, ft, path + (n,), out, isinit)
        return
    if isinstance(v, Arr):
        for k, x in v.stores:
            walk(I, R, name, x, v.ety, path + ('[%s]' % pstr(k),), out, isinit)
        if v.base[0] == 'val':
            out[(name[0], '.'.join(path) + '.[*]')] = (None, v.base[1], v.ety)
        elif v.base[1] != name + path:
            out[(name[0], '.'.join(path) + '.[*]')] = (None, TOP, v.ety)
        return
    if isinstance(v, Raw):
        for (off, w), x in v.w.items():
            out[(name[0], '.'.join(path) + '.@%d' % off)] = (None, x, None)
        if v.zero or v.path != name + path:
            out[(name[0], '.'.join(path) + '.@*')] = (None, 'zero' if v.zero else TOP, None)
        return
    if isinstance(v, int):
        ini = I.expand(Sym(name + path, ty))
        if v == ini:
            return
        out[(name[0], '.'.join(path))] = (ini, restrict(v, R.g), ty)
        if restrict(v, R.g) == ini and not isinit:
            del out[(name[0], '.'.join(path))]
        return
    out[(name[0], '.'.join(path))] = (None, v, ty)


def nodestr(n, limit=6):
    if not isinstance(n, int):
        return repr(n)
    ls = leafset(n)
    s = ' | '.join(vstr(x) for x in ls[:limit])
    if len(ls) > limit:
        s += ' | ...(%d)' % len(ls)
    return s


if __name__ == '__main__':
    import sys
    import entry
    prog = Program(sys.argv[1])
    for n in sys.argv[2:]:
        R = entry.analyse(prog, n)
        print('=====', n)
        print(gstr(R.g, 300).replace(' and ', '\n     & '))
        for k, (a, b, t) in changes(R).items():
            print('  ', '.'.join(k), ':=', nodestr(b)[:1500])
        for e in R.I.effects:
            print('  EFF', e['kind'], {k: ([vstr(x) for x in leafset(v)] if isinstance(v, int) else {a: [vstr(x) for x in leafset(b)] if isinstance(b,int) else b for a, b in v.items()} if isinstance(v, dict) else v) for k, v in e.items() if k not in ('g', 'seq', 'site', 'kind')})
        print('  ACCTS', R.I.accts, R.I.stidx)

