"""Whole declarations: C15 (pairing, associated items), C28 (construction)."""
import re
import units
import whole
import wit
import wits


def source(sel=None):
    txt = units.HEAD
    index = {}
    ln = txt.count('\n') + 1
    for n, (l, k, t, new) in enumerate(whole.WHOLE):
        if sel is not None and n not in sel:
            continue
        s = 'pub mod u%d { // %s\n%s    %s\n}\n' % (n, l, units.PRE, t)
        for i in range(s.count('\n')):
            index[ln + i] = n
        ln += s.count('\n')
        txt += s
    return txt, index, whole.WHOLE


def pairs(k, t, n, its):
    U = 'corp::u%d::' % n
    fn = [i for i in its if i['kind'] in ('AssocFn', 'Fn')]
    mock = [i for i in fn if wit.owner_type(i) == U + 'MockS']
    if k in 'ACE':
        trs = [U + x for x in re.findall(r'\btrait (\w+)', t)] if k != 'A' else [U + 'S']
        impls = set(wit.owner_type(i) for i in mock)
        out = []
        for o in fn:
            if o.get('trait') in trs:
                cand = [i for i in mock if i.get('titem') == o['trait'] + '::' + o['name']]
                out += [(o, q) for q in cand] or [(o, None)]
        if k == 'E':
            return out
        return out
    if k in 'BD':
        ot = U + ('S' if k == 'B' else 'twin::MockS')
        m = {i['name']: i for i in mock if 'of' not in i}
        return [(o, m.get(o['name'])) for o in fn if wit.owner_type(o) == ot and 'of' not in o]
    m = {i['name']: i for i in fn if i.get('parent') == U + 'mock_md'}
    return [(o, m.get(o['name'])) for o in fn if o['path'].startswith(U + 'md::')]


def interface(R, prop, tier):
    r = R[prop]
    items, bad, warns, errs = wit.scan(source)
    for e in errs:
        r.undecided(e)
    for n, (l, k, t, new) in enumerate(whole.WHOLE):
        key = 'whole.' + l
        what = '%s: `%s`' % (l, t)
        r.count('whole declarations')
        if n in bad:
            r.ok(False, key + ':compile', '%s: does not compile: %s' % (what, '; '.join('%s %s' % (c or '', x) for c, x in bad[n][:2])))
            continue
        r.ok(True, key + ':compile')
        vals = {a: v.strip() for a, v in re.findall(r'\btype (\w+)\s*=\s*([^;]+);', t)}

        def proj(x):
            return re.sub(r'<S(?:<T>)? as [\w:]+(?:<T>)?>::(\w+)', lambda m: vals.get(m.group(1), m.group(0)).replace('P', 'env::P'), x)
        for o, q in pairs(k, t, n, items.get(n, [])):
            f = o['name']
            if not r.ok(q is not None, '%s.%s:missing' % (key, f), '%s: the mock has no %s' % (what, f), '%s: the mock has %s' % (l, f)):
                continue
            wit.same(r, '%s.%s' % (key, f), what, o, q, prop == 'C15', proj)
    if prop == 'C15':
        ds = {l: 'pub mod %s { use mockall::*; use crate::env::*; use crate::Is; #[derive(Debug, Clone, Default)] pub struct Loc; pub mod here { #[derive(Debug, Clone)] pub struct H; } %s %s }' %
              (l.replace('-', '_'), t, '') for l, k, t, new in whole.WHOLE if l in whole.ITEMS}
        ws = []
        for l, its in whole.ITEMS.items():
            for i, (x, w) in enumerate(its):
                ws.append(wits.W('%s.%d' % (l, i), 'mod w_%s_%d { use crate::%s::*; use crate::Is; %s }' % (l.replace('-', '_'), i, l.replace('-', '_'), x), '%s: %s' % (l, w), (), '', (l,)))
        wits.run(R, prop, units.HEAD + 'pub trait Is<T> {} impl<T> Is<T> for T {}\npub fn same<A: Is<B>, B>() {}\n', ds, ws, 'c15w')


def construction(R, prop, tier):
    r = R[prop]
    items, bad, warns, errs = wit.scan(source)
    for e in errs:
        r.undecided(e)
    for n, (l, k, t, new) in enumerate(whole.WHOLE):
        if k == 'F':
            continue
        if n in bad:
            dup = [x for x in bad[n] if x[0] in ('E0592', 'E0034', 'E0119', 'E0201')]
            if dup:
                r.ok(False, 'whole.%s:duplicate' % l, '%s: `%s`: %s' % (l, t, dup[0][1]))
            else:
                r.undecided('%s does not compile' % l)
            continue
        if n not in items:
            continue
        r.count('declarations')
        U = 'corp::u%d::MockS' % n
        its = items[n]
        fns = [i for i in its if i['kind'] == 'AssocFn' and wit.owner_type(i) == U]
        news = [i for i in fns if i['name'] == 'new' and 'of' not in i]
        st = [i for i in its if i['path'] == U and i['kind'] == 'Struct']
        if not st:
            r.undecided('no mock struct found for ' + l)
            continue
        gens = [g for g in st[0].get('generics', [])]
        key = 'whole.' + l
        if new == 'gen':
            if r.ok(len(news) == 1, key + ':new', '%s: `%s`: the mock has %d inherent `new`' % (l, t, len(news)), '%s: has new()' % l):
                w = news[0]
                r.ok(not w['in'] and wit.bare(w['out']) == U.replace('corp::', 'crate::'), key + ':new-signature', '%s: new takes (%s) and returns %s' % (l, ', '.join(w['in']), w['out']),
                     '%s: new() returns the mock' % l)
                r.ok(w['vis'] == 'pub', key + ':new-vis', '%s: new is visible only %s' % (l, w['vis']))
                r.ok(wit.bounds(w) == wit.bounds(st[0]) if 'preds' in st[0] else True, key + ':new-bounds', '%s: new requires %s, the mock %s' % (l, wit.bounds(w), wit.bounds(st[0])))
        else:
            own = [i for i in fns if i['name'] == 'new']
            r.ok(len(own) == 1, key + ':new', '%s: `%s`: the mock has %d methods called new, expected only the declared one' % (l, t, len(own)), '%s: only the declared new' % l)
        dbg = k in 'ABC' or 'automock' in t or re.search(r'#\[derive\([^)]*\bDebug\b', t) is not None
        for tr, name, want in (('core::default::Default', 'default', True), ('core::fmt::Debug', 'fmt', dbg)):
            im = [i for i in fns if i.get('of') == tr]
            if want:
                if r.ok(len(im) == 1, '%s:%s' % (key, name), '%s: `%s`: the mock does not implement %s' % (l, t, tr), '%s: implements %s' % (l, tr)):
                    r.ok(wit.bounds(im[0]) == wit.bounds(st[0]) if 'preds' in st[0] else True, '%s:%s-bounds' % (key, name),
                         '%s: `%s`: %s requires %s, more than the mock itself (%s)' % (l, t, tr, wit.bounds(im[0]), wit.bounds(st[0])), '%s: %s requires nothing of the mocked types' % (l, tr))
            else:
                r.ok(not im, '%s:%s' % (key, name), '%s: `%s`: the mock implements %s though it was not requested' % (l, t, tr), '%s: does not implement %s' % (l, tr))
    r.explanation = ('Every method of every shape is interpreted on a mock made by new and default, and must panic for want of an expectation. The compiler '
                     'resolves which constructors, Default and Debug implementations every declaration of the table has, with which bounds.')
