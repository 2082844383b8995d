"""Engine A: abstract interpretation of the code mockall generates and of the
mockall crate it calls, over the scenario corpus."""
import json, os, time
import build, gen, absint
from rules import *
from props3 import *

EXPL = ('Abstract interpretation of the MIR of the macro-generated code and of the mockall runtime, entered through '
        'every scenario function of a corpus of declaration shapes; expectation lists of unknown length, unknown '
        'counts, bounds, predicate outcomes and arguments. An obligation is one rule instance on one abstract '
        'outcome; it is discharged when the outcome entails the rule.')
ASSUME = ['the models of std, downcast, fragile and predicates in analysis/models.py',
          'user declarations have the shapes of corpus/gen.py',
          'call counts stay below 2^62']


def load_corpus(nightly=False):
    """(Prog, [shapes], {sid: compile error})"""
    if nightly in _cache:
        return _cache[nightly]
    _cache[nightly] = r = _load(nightly)
    return r


_cache = {}


def _load(nightly):
    vm = os.path.join(build.VERIF, 'corpus', 'vmodel.rs')
    mk = os.path.join(build.VERIF, 'corpus', 'mark.rs')
    skip = {}
    for _ in range(6):
        src, spans = gen.generate(vm, mk, skip)
        j, err = build.extract(src, 'corp-ni' if nightly else 'corp', nightly)
        if j is not None:
            return Prog(j), [s for s in gen.shapes() if s.sid not in skip], skip
        new = failing_units(err, spans)
        new = {k: v for k, v in new.items() if k not in skip}
        if not new:
            raise build.BuildError('corpus does not compile: ' + err[-3000:])
        skip.update(new)
    raise build.BuildError('corpus does not compile')


def failing_units(err, spans):
    out = {}
    for line in err.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get('level') != 'error':
            continue
        for sp in m.get('spans', []):
            if not sp['file_name'].endswith('corp.rs'):
                continue
            for a, b, sid in spans:
                if a <= sp['line_start'] <= b:
                    out.setdefault(sid, m['message'])
    return out


def guard(R, ps, f, *a):
    try:
        f(*a)
    except Undecided as e:
        for p in ps:
            R[p].undecided(str(e)[:200])


# analysis -> properties it yields obligations for
ANALYSES = [
    (a_calls, ('C01', 'C02', 'C03', 'C10', 'C22'), 'calls'),
    (a_append, ('C01', 'C08', 'C13', 'C22'), ''),
    (a_drop, ('C04', 'C07', 'C08', 'C21', 'C22'), ''),
    (a_values, ('C10', 'C11', 'C13', 'C29'), ''),
    (a_matchers, ('C10', 'C12'), ''),
    (a_times, ('C05',), ''),
    (a_sequence, ('C06',), 'S,R'),
    (a_seqconc, ('C32',), 'S,R'),
    (a_generic, ('C09',), ''),
    (a_fresh, ('C28',), ''),
    (a_reports, ('C23',), ''),
    (a_userpanic, ('C08', 'C21', 'C22'), ''),
    (a_conc, ('C03',), ''),
    (a_discard_cfg, ('C04',), ''),
    (a_foreign, ('C21',), ''),
    (a_reentrant, ('C22',), ''),
]


def analyse(R, prop, tier):
    install_markers('corp')
    deep = tier == 'thorough'
    one(R, prop, False, deep)
    if prop == 'C26' or deep:
        one(R, prop, True, deep)
    r = R[prop]
    r.explanation = EXPL
    r.assumptions = ASSUME


def one(R, prop, nightly, deep):
    P, shapes, skipped = load_corpus(nightly)
    locks = {}
    multi = prop in ('C04', 'C07', 'C21', 'C28')
    for sh in shapes:
        if time.time() > absint.LIMIT[0]:
            R[prop].undecided('time limit')
            break
        S = Scen(P, sh)
        if prop == 'C27':
            if 'corp::s_ModX__ck' in P.roots:
                guard(R, [prop], a_modck, S, R)
                R[prop].count('abstract outcomes', S.states)
            break
        pick, ways = 0, 1
        while pick < ways:
            try:
                B = Base(S, pick=pick)
            except Undecided as e:
                R[prop].undecided(str(e)[:200])
                break
            pick, ways = pick + 1, B.ways
            for f, ps, how in ANALYSES:
                if prop not in ps or sh.wide and f not in (a_calls, a_matchers, a_reports) or sh.elems and f is a_reports:
                    continue
                a = (S, R, B, deep) if how == 'calls' else (S, R) if how == 'S,R' else (S, R, B)
                guard(R, [prop], f, *a)
            if prop == 'C26':
                guard(R, [prop], a_default, S, R, B, nightly)
                if nightly:
                    # no return value is invented once the action is used up
                    guard(R, [prop], a_values, S, {'C11': R['C26'], 'C29': R['C26'], 'C10': R['C26'], 'C13': R['C26']}, B)
            if prop == 'C13' and sh.kind == 'static':
                guard(R, [prop], a_handle, S, R, B)
        if multi and any(r.startswith('corp::s_%sX__set_' % sh.sid) for r in P.roots):
            guard(R, [prop], a_multi, S, R)
        a_args(S, R)
        for e, w in S.h.locks.items():
            locks.setdefault(e, w)
        R[prop].count('declaration shapes')
        R[prop].count('abstract outcomes', S.states)
    if prop == 'C22':
        r = R[prop]
        cyc = lock_cycles(locks)
        r.count('lock-order edges', len(locks))
        for p in cyc:
            r.ok(False, 'lock-order:' + '->'.join(p), 'locks acquired in a cyclic order: %s (first acquisition in %s)' % (' -> '.join(p), locks.get((p[0], p[1]))))
        for e in locks:
            r.ok(True, '', '', 'lock order %s before %s' % e)
    for sid in skipped:
        R[prop].undecided('shape %s does not compile: %s' % (sid, skipped[sid]))
    R[prop].count('program functions', len(P.insts))
