"""C25: no unsafe code in the library or in what it generates."""
import re
import build
import raw
import units
import whole_a
import wit


def generated(r, tag, source, nightly, label, text):
    items, bad, warns, errs = wit.scan(source, nightly)
    for e in errs:
        r.undecided(e)
    for n in bad:
        r.undecided('%s %s does not compile' % (tag, label(n)))
    for n, its in items.items():
        mine = [i for i in its if i['exp']]
        written = [i for i in its if not i['exp']]
        okfns = {i['name'] for i in its if i['kind'] in ('AssocFn', 'Fn') and not i['exp'] and (i.get('unsafe') or i.get('foreign'))}
        if re.search(r'\bunsafe fn\b', text(n)):
            okfns |= set(re.findall(r'\bunsafe (?:extern "[^"]*" )?fn (\w+)', text(n)))
        if 'extern' in text(n):
            okfns |= {m for b in re.findall(r'extern (?:"[^"]*" )?\{([^}]*)\}', text(n)) for m in re.findall(r'fn (\w+)', b)}
        utraits = set(re.findall(r'unsafe trait (\w+)', text(n)))
        r.count('declarations')
        for i in its:
            key = '%s%s:%s' % (tag, label(n), i.get('name') or i['kind'])
            where = i['path'].replace('corp::u%d::' % n, '')
            for u in i.get('uns', ()):
                if i['exp'] or 'unsafe {' not in text(n):
                    r.ok(False, key + ':unsafe', '%s: generated %s contains an %s' % (label(n), where, u))
            if not i['exp']:
                continue
            r.count('generated items')
            if i['kind'] in ('AssocFn', 'Fn'):
                if i.get('unsafe'):
                    r.ok(i['name'] in okfns, key + ':unsafe-fn', '%s: generated function %s is unsafe, the mocked declaration is not' % (label(n), where), '%s: %s is unsafe like the original' % (label(n), where))
                else:
                    r.ok(True, key)
            elif i['kind'].startswith('Impl'):
                tr = (i.get('of') or '').split('<')[0].split('::')[-1]
                if i.get('unsafe') and tr != 'TrivialClone':  # written by derive(Clone)
                    r.ok(tr in utraits, key + ':unsafe-impl', '%s: generated `unsafe impl %s for %s`' % (label(n), i.get('of'), i.get('impl')), '%s: unsafe implementation of an unsafe trait' % label(n))
                else:
                    r.ok(True, key)
            elif i['kind'].startswith('Static'):
                nm = i.get('name')
                r.ok(not i.get('mut') or 'static mut %s' % nm in text(n), key + ':static-mut', '%s: generated mutable static %s' % (label(n), where), '%s: static %s is immutable' % (label(n), where))
            elif i['kind'] in ('Union', 'ForeignMod', 'ForeignTy'):
                r.ok(False, key + ':' + i['kind'], '%s: generated %s %s' % (label(n), i['kind'], where))


def nounsafe(R, prop, tier):
    r = R[prop]
    r.explanation = ('The compiler resolves every item and body of the library crates and of the expansions of all declaration tables; none may hold unsafe blocks, '
                     'unsafe implementations, mutable statics, raw dereferences, calls of unsafe functions or unsafe functions beyond those of the mocked declaration.')
    for crate in build.CRATES:
        for ni in (False, True):
            for i in build.crate(crate, 'items', ni):
                key = '%s%s:%s' % (crate, '-nightly' if ni else '', i['path'])
                r.count('library items')
                r.ok(not i.get('uns'), key + ':unsafe', '%s contains an %s' % (i['path'], (i.get('uns') or [''])[0]))
                # procedural macro crates hold compiler-generated declarations
                r.ok(not (i['kind'].startswith(('AssocFn', 'Fn', 'Impl')) and i.get('unsafe') and not (i.get('of') or '').endswith('TrivialClone')), key + ':unsafe-item', '%s is unsafe' % i['path'])
                r.ok(not i.get('mut') and i['kind'] not in ('Union', 'ForeignMod'), key + ':kind', '%s: %s' % (i['path'], 'mutable static' if i.get('mut') else i['kind']))
    us = units.all_units()
    generated(r, '', units.source, False, lambda n: '%s.%s' % (us[n][0], us[n][1].label), lambda n: us[n][1].text)
    import whole
    generated(r, 'whole.', whole_a.source, False, lambda n: whole.WHOLE[n][0], lambda n: whole.WHOLE[n][2])
    generated(r, 'whole-nightly.', whole_a.source, True, lambda n: whole.WHOLE[n][0], lambda n: whole.WHOLE[n][2])
    for p in ('C16', 'C27'):
        rs = raw.raw_units(p)
        generated(r, p + '.', raw.source_for(p), False, lambda n: rs[n][0], lambda n: rs[n][2])
    kept = lambda sel=None: (units.HEAD + '#[allow(static_mut_refs)] pub mod u0 { use mockall::*; %s }\n' % raw.KEPT.replace('\n', ' '), {units.HEAD.count('\n') + 1: 0}, ['kept'])
    generated(r, 'C27.', kept, False, lambda n: 'kept', lambda n: raw.KEPT)
