"""Run the analysis for instruction entry points."""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dd import *
import interp
from interp import *
import models
from models import M, ai_value

Interp.ai_value = lambda self, idx: ai_value(self, idx)


class Result:
    pass


def program_id(prog):
    r = getattr(prog, '_pid', None)
    if r is None:
        r = prog._pid = _program_id(prog)
    return r


def _program_id(prog):
    I = Interp(prog, M)
    for f in prog.F:
        if f['def'] in ('id', 'presale::id') or f['name'] == 'presale::id':
            I.dty = None
            r = I.call(State({}, TR), f['id'], [])
            v = r[0][1]
            if isinstance(v, int) and isleaf(v):
                return VAL[v]
    return T('self_program')


def instructions(prog):
    out = {}
    for f in prog.F:
        if '__private::__global::' in f['def'] and '{closure' not in f['def']:
            out[f['def'].split('::')[-1]] = f['id']
    return out


def analyse(prog, name, fid=None):
    try:
        return analyse1(prog, name, fid, False)
    except NeedErrors:
        return analyse1(prog, name, fid, True)


def analyse1(prog, name, fid, precise):
    fid = instructions(prog)[name] if fid is None else fid
    import dd
    dd._apply.clear()
    pid = program_id(prog)
    I = Interp(prog, M)
    I.precise = precise
    st = State({}, TR)
    nacc = pterm(T('sym', 'naccounts', lo=0, hi=2**16))
    a0 = leaf(Ref(('val', leaf(pid)), (), None))
    a1 = leaf(Ref(('accts',), (), ('w', P0, nacc)))
    a2 = leaf(Ref(('ixdata',), (), ('w', P0, pterm(T('sym', 'ixlen', lo=0, hi=2**16)))))
    I.dty = None
    outs = I.call(st, fid, [a0, a1, a2])
    R = Result()
    R.I = I
    R.name = name
    R.ok = None
    R.err = F
    for s, v in outs:
        v = I.expand(v)
        if errkey(v) or (isinstance(v, Enum) and isleaf(v.d) and VAL[v.d] is P1):
            R.err = OR(R.err, s.g)
        else:
            if isinstance(v, Enum) and not isleaf(v.d):
                okc = apply1('is0', lambda p: EQP(p, P0) if isinstance(p, Poly) else UNKB('ret'), v.d)
                s = I.assume(s, okc)
                if s is None:
                    continue
            R.ok = s if R.ok is None else I.join(R.ok, s)
    R.g = R.ok.g if R.ok is not None else F
    return R


if __name__ == '__main__':
    import time
    t0 = time.time()
    prog = Program(sys.argv[1])
    print('load', time.time() - t0)
    names = sys.argv[2:] or list(instructions(prog))
    for n in names:
        t0 = time.time()
        R = analyse(prog, n)
        print('==', n, '%.1fs' % (time.time() - t0), dict(R.I.stats), 'atoms', len(ATOMS), 'nodes', len(VAR), 'ok' if R.ok else 'NO OK')
        print('  gaps', R.I.gaps)
        print('  unknown', R.I.unknown)
        print('  cuts', len(R.I.loopcuts), 'panics', len(R.I.panics))
        if '-v' in sys.argv[0:1] or os.environ.get('V'):
            print('  guard size', size(R.g), gstr(R.g, 200).replace(' and ', '\n     & '))
            for o, v in R.ok.mem.items():
                if o[0] == 'st':
                    print('  STATE', o[2], v)
            for e in R.I.effects:
                print('  EFF', {k: ([vstr(x) for x in leafset(v)] if isinstance(v, int) and k not in ('seq', 'g') else v) for k, v in e.items() if k != 'g'})
