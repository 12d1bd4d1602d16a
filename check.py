#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]  -- decide one property of /repo's current working tree.

Builds the MIR driver (once per .build directory), dumps the monomorphised MIR of the presale program and the
merkle-tree crate from /repo's working tree, analyses the instructions and applies the rules of the property.
exit 0: every obligation discharged.  exit 1: VIOLATION line(s).
"""
import fcntl
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PRESALE_REPO', '/repo')
BUILD = os.path.join(HERE, '.build')
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(100000)
INSTRUCTION_FLOOR = 21


def sh(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def toolchain_env():
    env = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_BUILD_TARGET', 'RUSTUP_TOOLCHAIN'):
        env.pop(k, None)
    env['CARGO_NET_OFFLINE'] = 'true'
    env['CARGO_TERM_COLOR'] = 'never'
    env['CARGO_INCREMENTAL'] = '0'
    return env


def build_driver():
    env = toolchain_env()
    env['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'driver')
    rc, out = sh(['cargo', '+nightly', 'build', '--offline', '--quiet'], env, os.path.join(HERE, 'driver'))
    if rc:
        raise RuntimeError('building the MIR driver failed:\n' + out[-3000:])
    return os.path.join(BUILD, 'driver', 'debug', 'mirdump')


def dump():
    """MIR of the current tree; always rebuilt from the working tree"""
    drv = build_driver()
    out = os.path.join(BUILD, 'dump')
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(out):
        os.unlink(os.path.join(out, f))
    env = toolchain_env()
    sysroot = sh(['rustc', '+nightly', '--print', 'sysroot'], env)[1].strip()
    tgt = os.path.join(BUILD, 'target')
    env.update(LD_LIBRARY_PATH=sysroot + '/lib', CARGO_TARGET_DIR=tgt, RUSTC_WORKSPACE_WRAPPER=drv, MIRDUMP_OUT=out,
               MIRDUMP_CRATES='presale,merkle_tree', MIRDUMP_STOP='')
    # cargo must not consider the two crates fresh (both target directory layouts)
    for sub in ('.fingerprint', 'build', 'incremental', 'deps'):
        fp = os.path.join(tgt, 'debug', sub)
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d in ('presale', 'merkle-tree') or d.startswith(('presale-', 'merkle-tree-', 'merkle_tree-', 'libpresale', 'libmerkle_tree')):
                    x = os.path.join(fp, d)
                    shutil.rmtree(x) if os.path.isdir(x) else os.unlink(x)
    rc, o = sh(['cargo', '+nightly', 'check', '-p', 'presale', '-p', 'merkle-tree', '--offline', '--locked'], env, REPO)
    if rc:
        raise RuntimeError('compiling /repo for analysis failed:\n' + o[-4000:])
    a, b = os.path.join(out, 'presale.json'), os.path.join(out, 'merkle_tree.json')
    for f in (a, b):
        if not os.path.exists(f):
            raise RuntimeError('the compiler produced no MIR dump ' + f)
    return a, b


def known_findings(pid):
    p = os.path.join(HERE, 'known-findings.txt')
    out = {}
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def vkey(v):
    return re.sub(r'\s+', '_', '%s/%s' % (v['instruction'], v['rule']))


LIMIT = (600, 840)      # s; quick checks only


class OutOfTime(BaseException):
    pass


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        a, b = dump()
        import rules
        from interp import Program
        prog, merkle = Program(a), Program(b)
    t1 = time.time()
    verbose = '-v' in sys.argv
    c = rules.Ctx(prog, merkle, log=print if verbose else None, repo=REPO)
    import spec
    import theory
    if tier == 'thorough':
        theory.BUDGET = (40000, 200)
    def late(*_):
        # answer within the time a quick check has: with the violations found so far, or as undecided
        if c.viol or time.time() - t0 > LIMIT[1]:
            raise OutOfTime()
        signal.alarm(20)
    if tier != 'thorough':
        signal.signal(signal.SIGALRM, late)
        signal.alarm(LIMIT[0])
    try:
        missing = [n for n in rules.ALL if n not in c.names()]
        if missing or len(c.names()) < INSTRUCTION_FLOOR:
            raise spec.Anchor('instructions not found: %s' % missing)
        getattr(rules, pid.lower())(c)
        if tier == 'thorough':
            rules.soundness(c)
    except OutOfTime:
        if not c.viol:
            c.record(None, 'analysis', 'the analysis finishes', False, 'undecided within %d s' % LIMIT[1], '')
    except spec.Anchor as e:
        c.record(None, 'anchor', 'everything the rules refer to exists', False, str(e), '')
    except Exception as e:                       # fail closed: nothing is established if the analysis breaks down
        c.record(None, 'analysis', 'the analysis covers the program', False, '%r\n%s' % (e, traceback.format_exc()[-2500:]), '')
    signal.alarm(0)
    known = known_findings(pid)
    viol = [v for v in c.viol if vkey(v) not in known]
    kn = [v for v in c.viol if vkey(v) in known]
    replay = os.path.join(HERE, 'evidence', pid + '.violations.txt')
    if os.path.exists(replay):
        os.unlink(replay)
    for v in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, known[vkey(v)]))
    st = c.coverage()
    ev = dict(property=pid, tier=tier, seed=seed, level='other',
              coverage=dict(explanation=rules.EXPLAIN.get(pid, rules.EXPLANATION), obligations=len(c.obl), discharged=sum(1 for o in c.obl if o['ok']),
                            checker_cmd='python3 check.py %s %s' % (pid, tier),
                            trusted_base=rules.TRUSTED, rule='; '.join(dict.fromkeys(o['text'] for o in c.obl))[:6000],
                            samples=[dict(instruction=o['instruction'], rule=o['rule'], obligation=o['text'], discharged=o['ok']) for o in sample(c.obl)], **st),
              assumptions=rules.ASSUMED, wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged; %d instructions, %d functions analysed; build %.1fs, analysis %.1fs' % (
        pid, len(c.obl), ev['coverage']['discharged'], len(st['instructions']), st['functions'], t1 - t0, time.time() - t1))
    if viol:
        with open(replay, 'w') as f:
            f.write('re-run: cd /verif && %s\n\n' % ev['coverage']['checker_cmd'])
            for v in viol:
                f.write('property %s broken: %s\n  instruction: %s\n  rule: %s\n  where: %s\n  why: %s\n\n' % (pid, v['text'], v['instruction'], v['rule'], v['where'], v['why'][:4000]))
        for v in viol[:20]:
            print('  %s: %s [%s] at %s: %s' % (v['instruction'], v['text'], v['rule'], v['where'], v['why'][:700]))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        sys.exit(1)


def sample(obl, n=12):
    if len(obl) <= n:
        return obl
    return [obl[i * len(obl) // n] for i in range(n)]


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == 'setup':
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, 'lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            dump()
        sys.exit(0)
    main()
