"""main.py CHECK [--tier quick|thorough] [--seed N] [--replay FILE]
           [--scenario NAME] [--cases N] [--procs N] [--only I]

Runs one check: builds the extension from /repo's working tree, runs the
scenarios of the property in worker processes under the monitors of core.py,
writes evidence/<CHECK>.json and prints the verdict.
Exit 0: held on everything observed; 1: VIOLATION; 2: no answer.
"""
from __future__ import division, print_function
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import bootstrap
import engines

UNION = ('C01', 'C03', 'C29')      # decided over the workload of all other checks
CHECKS = ['C%02d' % i for i in range(1, 31)]
DEADLINE = (3000, 500)       # seconds: thorough, quick
# Properties about structure, for which every dtype does, and those among them
# of which no operation turns integers into floats
STRUCTURAL = ('C01', 'C02', 'C03', 'C04', 'C06', 'C08', 'C09', 'C10', 'C11',
              'C12', 'C13', 'C14', 'C15', 'C21', 'C22', 'C24', 'C27')
HUGE = ('C01', 'C02', 'C03', 'C04', 'C13', 'C14', 'C15', 'C21', 'C24',
        'C25', 'C27')
# Those of which no operation computes with floats
EXTREME = ('C01', 'C02', 'C03', 'C04', 'C08', 'C10', 'C11', 'C13', 'C14',
           'C15', 'C18', 'C21', 'C24', 'C25')
# Those without changes of labels in place
SHARED = ('C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C16', 'C17',
          'C18', 'C19', 'C20', 'C21', 'C22', 'C24')
# Those about sums, which must not depend on the unit of the data
ZOOM = ('C16', 'C17', 'C19')
# Operations on files, servers or references
UNSHADED = ('C04', 'C05', 'C23', 'C24', 'C25', 'C26', 'C27', 'C28')
ODD = 0.04
CASE_TIMEOUT = 120          # seconds, generous: a case takes milliseconds


def parse(argv):
    o = dict(check=None, tier=os.environ.get('VERIF_TIER', 'quick'),
             seed=int(os.environ.get('VERIF_SEED', '1') or '1'), replay=None,
             scenario=None, cases=None, procs=8, only=None, worker=None,
             scratch=None, variant=None)
    it = iter(argv)
    for a in it:
        if a.startswith('--'):
            v = next(it)
            k = a[2:]
            o[k] = int(v) if k in ('seed', 'cases', 'procs', 'only',
                                   'worker') else v
        else:
            o['check'] = a
    return o


def plan(check, tier, opts):
    "[(prop, scenario name, function, number of cases)]"
    import importlib
    out = []
    mods = CHECKS if check in UNION else [check]
    for m in mods:
        if not os.path.exists(os.path.join(HERE, 'checks', m.lower() + '.py')):
            continue
        mod = importlib.import_module('checks.' + m.lower())
        for name, fn, n in mod.R.scenarios:
            if check in UNION and m != check and \
               (getattr(fn, 'no_union', False) or
                check == 'C29' and m in UNSHADED):
                continue
            if opts['scenario'] and opts['scenario'] != name:
                continue
            factor = getattr(mod, 'QUICK', 20)
            if check in UNION and m != check:
                factor = min(factor, 1.5)
            if tier != 'quick':
                factor *= getattr(mod, 'THOROUGH', 10)
            k = opts['cases'] or max(1, int(n * factor))
            out.append((m, name, fn, k))
    return out


# Worker ---------------------------------------------------------------------

def alarm(signum, frame):
    from core import Watchdog
    raise Watchdog('case took more than %d s' % CASE_TIMEOUT)


def run_case(prop, decide, name, fn, seed, i, stats, scratch):
    """(violation or None, case). Never raises for what la does."""
    from core import Case, Violation, LaRaised, Skip, Watchdog
    import gen
    gen.ODD = ODD if prop in STRUCTURAL else 0
    gen.HUGE = prop in HUGE
    gen.ZOOM = ODD if prop in ZOOM else 0
    gen.SHARED = ODD if prop in SHARED else 0
    gen.EXTREME = ODD if prop in EXTREME else 0
    gen.INF = 2 * ODD if prop in STRUCTURAL and prop != 'C12' else 0
    case = Case(prop, decide, '%s:%s:%s:%d' % (seed, prop, name, i), stats,
                scratch)
    case.index = i
    if decide == 'C29' and prop not in UNSHADED + (decide,):
        from checks.c29 import Shadow
        case.shadow = Shadow(case, .5)
    try:
        fn(case)
        if case.shadow is not None:
            case.shadow.finish()
        return None, case
    except Violation as v:
        return (v.prop, v.msg, ''), case
    except Skip:
        case.substance = 0
        return None, case
    except LaRaised as e:
        return (prop, 'unexpected exception %s' % e, e.tb), case
    except (Watchdog, MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        # The oracle could not make sense of what la returned
        return (prop, 'result could not be interpreted: %s: %s' %
                (type(e).__name__, e), traceback.format_exc()), case


def worker(o):
    from core import Stats, Watchdog
    signal.signal(signal.SIGALRM, alarm)
    bootstrap.install(engines.extension(o['variant'], o['scratch']))
    import la
    wdir = os.path.join(o['scratch'], 'w%d' % o['worker'])
    os.makedirs(wdir)
    os.chdir(wdir)
    stats = Stats()
    res = dict(evaluations=0, signatures=[], samples=[], violations=[],
               scenarios={}, foreign={}, watchdog=[], skipped=0)
    now = open(os.path.join(wdir, 'current'), 'w', 0)
    sigs = set()
    deadline = time.time() + DEADLINE[o['tier'] == 'quick']
    known = {}
    for prop, name, fn, n in plan(o['check'], o['tier'], o):
        if o['only'] is not None:
            idx = [o['only']] if o['worker'] == 0 else []
        else:
            idx = range(o['worker'], n, o['procs'])
        stop = False
        for i in idx:
            if time.time() > deadline:
                res['deadline'] = True
                break
            now.seek(0)
            now.write('%s %s %d          \n' % (prop, name, i))
            signal.alarm(CASE_TIMEOUT)
            try:
                bad, case = run_case(prop, o['check'], name, fn, o['seed'], i,
                                     stats, wdir)
            except Watchdog as e:
                # Cases take milliseconds; C26 counts thousands of operations
                if prop != o['check']:
                    res['watchdog'].append('%s %s %d: %s' % (prop, name, i,
                                                             e))
                    if len(res['watchdog']) > 2:
                        break
                    continue
                bad = (prop, 'no result: %s' % e, traceback.format_exc())
                case = None
            finally:
                signal.alarm(0)
            res['evaluations'] += 1
            res['scenarios'][name] = res['scenarios'].get(name, 0) + 1
            if case is None:
                res['violations'].append(dict(
                    property=prop, prop=prop, scenario=name, index=i,
                    seed=o['seed'], tier=o['tier'], message=bad[1],
                    detail=bad[2], trace=[], variant=o['variant']))
                stop = True
                break
            if case.substance:
                sigs.add(case.sig.hexdigest()[:16])
            else:
                res['skipped'] += 1
            if i == o['worker'] and len(res['samples']) < 40:
                res['samples'].append('%s/%s/%d: %s' % (
                    prop, name, i, '; '.join(case.trace[:3])[:400]))
            if bad is not None:
                if bad[0] == o['check']:
                    res['violations'].append(dict(
                        property=bad[0], prop=prop, scenario=name, index=i,
                        seed=o['seed'], tier=o['tier'], message=bad[1],
                        detail=bad[2],
                        trace=case.trace[-12:], variant=o['variant']))
                    stop = len(res['violations']) >= 3
                else:
                    res['foreign'][bad[0]] = res['foreign'].get(bad[0], 0) + 1
            if prop == o['check']:
                for key, text in getattr(case, 'known', {}).items():
                    known[key] = text
            if stop:
                break
        if stop:
            break
    res['known'] = known
    res['signatures'] = sorted(sigs)
    res['stats'] = stats.todict()
    with open(os.path.join(o['scratch'], 'result%d.json' % o['worker']),
              'w') as f:
        json.dump(res, f)


# Parent ---------------------------------------------------------------------

def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif isinstance(v, bool):
            a[k] = a.get(k, False) or v
        elif isinstance(v, (int, float, long)):
            a[k] = a.get(k, 0) + v
        elif isinstance(v, list):
            a.setdefault(k, []).extend(v)
        else:
            a[k] = v


def write_replay(v, n):
    d = os.path.join(VERIF, 'replays')
    if not os.path.isdir(d):
        os.makedirs(d)
    path = os.path.join(d, '%s-%s-%s-%d.json' % (
        v['property'], v['scenario'], v['seed'], v['index']))
    with open(path, 'w') as f:
        json.dump(v, f, indent=1)
    return path


def finish(o, t0, coverage, violations, known, inconclusive, level,
           assumptions):
    ev = dict(property=o['check'], tier=o['tier'], seed=o['seed'],
              level=level, coverage=coverage, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    d = os.path.join(VERIF, 'evidence')
    if not os.path.isdir(d):
        os.makedirs(d)
    with open(os.path.join(d, o['check'] + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for key in sorted(known):
        print('KNOWN-FINDING: property=%s %s' % (o['check'], known[key]))
    if violations:
        v = violations[0]
        path = write_replay(v, 0)
        print('%s [%s case %d]: %s' % (v['property'], v['scenario'],
                                       v['index'], v['message']))
        for t in v['trace']:
            print('    ' + t)
        if v['detail']:
            print(v['detail'])
        print('VIOLATION property=%s replay=%s' % (o['check'], path))
        return 1
    if inconclusive:
        print('INCONCLUSIVE property=%s: %s' % (o['check'], inconclusive))
        return 2
    print('OK property=%s: %d executions, %d distinct, %.1f s' % (
        o['check'], coverage['evaluations'], coverage['distinct_nontrivial'],
        ev['wall_s']))
    return 0


def parent(o):
    t0 = time.time()
    if o['replay']:
        with open(o['replay']) as f:
            r = json.load(f)
        o.update(check=str(r['property']), tier=str(r['tier']),
                 seed=r['seed'], scenario=str(r['scenario']), only=r['index'],
                 variant=r['variant'] and str(r['variant']), procs=1)
    scratch = tempfile.mkdtemp(prefix='laverif-')
    try:
        return parent2(o, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def parent2(o, t0, scratch):
    check = o['check']
    try:
        bootstrap.build_ext(scratch)
        engines.prepare(check, scratch)
    except subprocess.CalledProcessError:
        print('INCONCLUSIVE property=%s: the extension does not build' % check)
        return 2
    total = {}
    violations = []
    inconclusive = []
    known = {}
    procs = []
    env = dict(os.environ, TMPDIR=scratch, HOME=scratch)
    for w in range(o['procs']):
        variant = o['variant'] or engines.variant(check, w)
        cmd = [sys.executable, '-s', '-B', os.path.abspath(__file__), check,
               '--tier', o['tier'], '--seed', str(o['seed']),
               '--worker', str(w), '--procs', str(o['procs']),
               '--scratch', scratch, '--variant', variant]
        for k in ('scenario', 'cases', 'only'):
            if o[k] is not None:
                cmd += ['--' + k, str(o[k])]
        log = open(os.path.join(scratch, 'log%d' % w), 'w')
        procs.append((w, variant, subprocess.Popen(
            cmd, env=engines.environ(env, variant, check, scratch),
            stdout=log, stderr=log)))
    limit = t0 + DEADLINE[o['tier'] == 'quick'] + 120
    for w, variant, p in procs:
        while p.poll() is None and time.time() < limit:
            time.sleep(.05)
        if p.poll() is None:
            p.kill()
        rc = p.wait()
        out = os.path.join(scratch, 'result%d.json' % w)
        if rc == 0 and os.path.exists(out):
            with open(out) as f:
                r = json.load(f)
            known.update(r.pop('known'))
            for x in r['watchdog']:
                inconclusive.append('watchdog: ' + x)
            violations += r.pop('violations')
            merge(total, r)
            continue
        with open(os.path.join(scratch, 'log%d' % w)) as f:
            text = f.read()[-4000:]
        cur = os.path.join(scratch, 'w%d' % w, 'current')
        cur = open(cur).read().split() if os.path.exists(cur) else []
        if rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS,
                  -signal.SIGFPE, -signal.SIGILL) and len(cur) == 3 and \
           (cur[0] == check):
            violations.append(dict(
                property=check, prop=cur[0], scenario=cur[1],
                index=int(cur[2]), seed=o['seed'], tier=o['tier'],
                message='the interpreter died with signal %d' % -rc,
                detail=text, trace=[], variant=variant))
        else:
            inconclusive.append('worker %d ended with %d: %s %s' %
                                (w, rc, cur, text))
    # Extra engines (sanitizer builds, subprocess based checks)
    level = 'fault_enumeration' if check == 'C26' else 'exploration'
    assumptions = ['NumPy, bottleneck, h5py and the Python interpreter behave '
                   'as documented; the reference models in /verif/harness are '
                   'right']
    sigs = set(total.get('signatures', []))
    samples = total.get('samples', [])
    k = max(1, len(samples) // 12)
    coverage = dict(
        evaluations=total.get('evaluations', 0),
        distinct_nontrivial=len(sigs),
        rule='A case is a seeded random execution of one scenario: generated '
             'operands, one or more monitored calls into la, results compared '
             'with an independent reference. Cases are distinct if the '
             'sequence of calls and operand snapshots (data bytes, dtype, '
             'labels) differs, and non-trivial if at least one value, label '
             'or exception was compared with the reference.',
        samples=samples[::k][:14],
        scenarios=total.get('scenarios', {}),
        monitors=total.get('stats', {}),
        deadline_reached=bool(total.get('deadline', False)),
        cases_without_comparison=total.get('skipped', 0),
        deviations_left_to_other_checks=total.get('foreign', {}))
    if not violations and coverage['evaluations'] == 0:
        inconclusive.append('nothing was executed')
    for v in violations:
        if v['property'] != check:
            v['property'] = check
    return finish(o, t0, coverage, violations, known,
                  '\n'.join(inconclusive[:5]), level, assumptions)


if __name__ == '__main__':
    opts = parse(sys.argv[1:])
    if opts['worker'] is not None:
        worker(opts)
        sys.exit(0)
    sys.exit(parent(opts))
