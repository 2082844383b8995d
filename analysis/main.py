"""Entry point of every check:  bin/check <property id>"""
import os, sys, json, time, traceback, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'corpus'))
import build
import absint
from report import Report, Reports

REGISTRY = {}       # property id -> list of (module, function)


def reg(mod, fn, *props):
    for p in props:
        REGISTRY.setdefault(p, []).append((mod, fn))


reg('engine_a', 'analyse', 'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13',
    'C21', 'C22', 'C23', 'C26', 'C27', 'C28', 'C29', 'C32')
reg('wit', 'interface', 'C15', 'C19')
reg('whole_a', 'interface', 'C15', 'C19')
reg('whole_a', 'construction', 'C28')
reg('wit', 'visibility', 'C16')
reg('wit', 'modules', 'C27')
reg('send_a', 'sendness', 'C14')
reg('reject_a', 'rejects', 'C20')
reg('attrs_a', 'attributes', 'C17')
reg('attrs_a', 'recorded', 'C17')
reg('warn_a', 'warnings', 'C30')
reg('double_a', 'doubles', 'C24')
reg('owned_a', 'owneds', 'C29')
reg('det_a', 'determinism', 'C18')
reg('reexp_a', 'reexports', 'C34')
reg('unsafe_a', 'nounsafe', 'C25')


def known():
    f = os.path.join(build.VERIF, 'known-findings.json')
    out = {}
    if os.path.exists(f):
        for e in json.load(open(f))['findings']:
            out[(e['property'], e['key'])] = e
    return out


def main(argv):
    if argv[:1] == ['replay']:
        prop, key = argv[1], argv[2]
    else:
        prop, key = argv[0], None
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    absint.LIMIT[0] = t0 + 600
    R = Reports()
    cmds = REGISTRY[prop]
    errors = []
    for mod, fn in cmds:
        try:
            getattr(importlib.import_module(mod), fn)(R, prop, tier)
        except build.BuildError as e:
            print('build failed: %s' % e, file=sys.stderr)
            return 2
        except Exception:
            errors.append(traceback.format_exc())
    r = R[prop]
    if errors:
        print('\n'.join(errors), file=sys.stderr)
        for e in errors:
            r.undecided('internal error: ' + e.strip().splitlines()[-1][:200])
    kf = known()
    viol, find = [], []
    for k, d in sorted(r.viol.items()):
        (find if (prop, k) in kf else viol).append((k, d))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
          'coverage': {'explanation': r.explanation or 'static analysis of the type-checked program; see DESIGN.md',
                       'obligations': r.ob, 'discharged': r.dis, 'undecided': sum(r.und.values()),
                       'undecided_reasons': dict(sorted(r.und.items())[:20]),
                       'analysed': r.analysed,
                       'violating_constructs': len(r.viol),
                       'samples': r.samples[:8]},
          'assumptions': r.assumptions,
          'wall_s': round(time.time() - t0, 3), 'violations': len(viol)}
    os.makedirs(os.path.join(build.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(build.VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    if r.ob == 0 and not r.und:
        print('no obligation was generated for %s' % prop, file=sys.stderr)
        return 2
    print('%s: %d obligations, %d discharged, %d undecided, %.1f s' % (prop, r.ob, r.dis, sum(r.und.values()), time.time() - t0))
    for why, n in sorted(r.und.items())[:8]:
        print('  undecided (%d): %s' % (n, why))
    for k, d in find:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, kf[(prop, k)].get('what', d)))
    rdir = os.path.join(build.VERIF, '.build', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for k, d in viol:
        fn = os.path.join(rdir, '%s-%s.txt' % (prop, ''.join(c if c.isalnum() or c in '-_.' else '_' for c in k)[:100]))
        with open(fn, 'w') as f:
            f.write('property: %s\nconstruct: %s\nrule violated: %s\nreproduce: /verif/bin/check %s\n' % (prop, k, d, prop))
        print('  %s: %s' % (k, d))
        print('VIOLATION property=%s replay=%s' % (prop, fn))
    return 1 if viol else 0


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    sys.exit(main(sys.argv[1:]))
