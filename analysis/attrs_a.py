"""C17: attributes."""
import re
import wits
import wit
import raw
import attrs

EXPL = ('Conditional items are declared with conditions that hold and conditions that do not (naming missing types), on every kind of mocked item; '
        'the compiler decides that the mock compiles, that the item can be expected and called exactly when its condition holds, which lints fire on '
        'uses of the mock, and which attributes and documentation the generated functions have.')


def attributes(R, prop, tier):
    for ni in (False, True):
        t = 'nightly' if ni else ''
        ds, ws = attrs.conditions(ni)
        a = ['--cfg', 'c17flag'] if ni else []
        wits.run(R, prop, attrs.HEAD, ds, ws, 'c17c%d' % ni, nightly=ni, explain=EXPL, args=a, tag=t, shards=8)
        ds, ws = attrs.impls(ni)
        wits.run(R, prop, attrs.HEAD, ds, ws, 'c17i%d' % ni, nightly=ni, args=a, tag=t, shards=8)
        ds, ws = attrs.lints(ni)
        wits.run(R, prop, attrs.HEAD, ds, ws, 'c17l%d' % ni, nightly=ni, tag=t, shards=8)
        wits.run(R, prop, attrs.DOCHEAD, attrs.docs(), [], 'c17d%d' % ni, nightly=ni, tag=t, shards=8)


MARKS = {'Inline': 'inline', 'Cold': 'cold', 'LinkName': 'link_name', 'MustUse': 'must_use', 'Deprecat': 'deprecated', 'TrackCaller': 'track_caller'}


def marks(i):
    out = set()
    for a in i['attrs']:
        for m, n in MARKS.items():
            if re.match(r'Parsed\(%s' % m, a):
                out.add(n)
        if re.match(r'Parsed\(Doc\(', a) and 'hidden: Some' in a:
            out.add('doc(hidden)')
    return out


def recorded(R, prop, tier):
    """attributes and documentation of the generated items, as recorded by the compiler"""
    r = R[prop]
    items, bad, warns, errs = wit.scan(raw.source_for(prop))
    us = raw.raw_units(prop)
    for e in errs:
        r.undecided(e)
    for n, (label, k, text) in enumerate(us):
        r.count('declarations')
        key = 'recorded.' + label
        if n in bad:
            r.ok(False, key + ':compile', '%s: does not compile: %s' % (label, bad[n][0]))
            continue
        its = items.get(n, [])
        U = 'corp::u%d::' % n
        fns = [i for i in its if i['kind'] in ('AssocFn', 'Fn')]
        ps = wit.pairs(k, n, its)
        if k == 'F':
            ps += [(o, q) for o in fns if o.get('foreign') for q in fns if q.get('parent') == U + 'mock_md' and q['name'] == o['name']]
        r.ok(bool(ps), key + ':none', '%s: no original found' % label)
        for o, q in ps:
            f = o['name']
            if q is None:
                r.ok(False, '%s.%s:missing' % (key, f), '%s: no mock of %s' % (label, f))
                continue
            mo, mq = marks(o), marks(q)
            for a in ('inline', 'cold', 'link_name'):
                r.ok(a not in mq, '%s.%s:%s' % (key, f, a), '%s: the mock of %s has the attribute %s' % (label, f, a), '%s: mock of %s has no %s' % (label, f, a))
            if k in 'BDF':
                for a in ('must_use', 'deprecated', 'track_caller', 'doc(hidden)'):
                    r.ok((a in mo) == (a in mq), '%s.%s:%s' % (key, f, a), '%s: %s has the attribute %s, %s does not' % (label, 'the mock' if a in mq else f, a, f if a in mq else 'its mock'),
                         '%s: %s on both or neither' % (label, a))
                r.ok(q['doc'].startswith(o['doc']), '%s.%s:doc' % (key, f), '%s: %s is documented as %r, the mock as %r' % (label, f, o['doc'], q['doc']), '%s: documentation of %s kept' % (label, f))
