"""Interface analyses: the macros are applied to a table of declarations, the
compiler type-checks the result, and the rules compare what it says about the
generated items with what it says about the originals."""
import re
import concurrent.futures as cf
import build
import units
import raw

SHARDS = 8


def scan(sources, nightly=False):
    """sources(selection) -> (text, line index, names).  Runs the item driver
    over the shards; returns (items per unit, failures per unit)"""
    _, _, names = sources(set())
    N = len(names)
    build.base(build.TC, nightly)
    build.driver('items')

    def shard(i):
        sel = set(range(i, N, SHARDS))
        bad, warn = {}, {}
        for _ in range(12):
            txt, ix, _n = sources(sel)
            it, dg = build.items(txt, 'wit%d' % i, nightly)
            if it is not None:
                for l, c, ln, m in dg:
                    if ln in ix and l == 'warning':
                        warn.setdefault(ix[ln], []).append((c, m))
                return it, bad, warn, None
            new = {}
            for l, c, ln, m in dg:
                if l.startswith('error') and ln in ix:
                    new.setdefault(ix[ln], []).append((c, m))
            if not new:
                return [], bad, warn, 'shard does not compile: %s' % (dg[:1],)
            bad.update(new)
            sel -= set(new)
        return [], bad, warn, 'shard does not compile'
    items, bad, warns, errs = {}, {}, {}, []
    with cf.ThreadPoolExecutor(SHARDS) as ex:
        for it, b, w, e in ex.map(shard, range(SHARDS)):
            bad.update(b)
            warns.update(w)
            if e:
                errs.append(e)
            for x in it:
                m = re.match(r'corp::u(\d+)(::|$)', x['path'])
                if m:
                    items.setdefault(int(m.group(1)), []).append(x)
    return items, bad, warns, errs


def norm(t):
    t = re.sub(r'\b(?:super::)+', '', t)
    t = re.sub(r'\bcrate::', '', t)
    t = re.sub(r'\bu\d+::', '', t)
    t = t.replace('twin::', '')
    t = re.sub(r'\bmock_md::', 'md::', t)
    t = re.sub(r'\bMockS\b', 'S', t)
    t = re.sub(r"'\^\w+|'\?\w+|'_|\bBrAnon\(\d+\)", "'_", t)
    return t


def life(ts):
    """rename lifetimes in order of appearance"""
    m = {}

    def r(x):
        k = x.group(0)
        if k == "'static":
            return k
        return m.setdefault(k, "'l%d" % len(m))
    return [re.sub(r"'[A-Za-z_?^][\w?]*", r, t) for t in ts]


HELPERS = re.compile(r'^(expect_|checkpoint$|.*_context$)')


def pairs(k, n, its):
    """(original, mock or None) pairs of a unit"""
    U = 'corp::u%d::' % n
    fn = [i for i in its if i['kind'] in ('AssocFn', 'Fn')]
    if k in 'ACE':
        tr = 'S' if k == 'A' else 'T'
        orig = [i for i in fn if i.get('trait') == U + tr]
        mock = {i['name']: i for i in fn if i.get('impl') == 'crate::u%d::MockS' % n and i.get('titem', '').startswith(U + tr + '::')}
    elif k in 'BD':
        o = 'crate::u%d::S' % n if k == 'B' else 'crate::u%d::twin::MockS' % n
        orig = [i for i in fn if i.get('impl') == o and 'of' not in i]
        mock = {i['name']: i for i in fn if i.get('impl') == 'crate::u%d::MockS' % n and 'of' not in i}
    else:
        orig = [i for i in fn if i.get('parent') == U + 'md']
        mock = {i['name']: i for i in fn if i.get('parent') == U + 'mock_md'}
    return [(o, mock.get(o['name'])) for o in orig]


def sig(i, ins='in', out='out'):
    return life([norm(t) for t in i[ins]] + [norm(i[out])])


def bounds(i):
    drop = re.compile(r'^([\w:]+: core::marker::(Sized|MetaSized)|Self: .*)$')
    return sorted(set(norm(p) for p in i['preds'] if not drop.match(p)))


C19LABELS = re.compile(r'^(s?arg|s?ret|self|s?gen)-')


def owned(t):
    """the return type t with every borrow but that of t itself 'static"""
    t = re.sub(r"(?<!&)'\w+", "'static", t)
    return t[:1] + re.sub(r"&(?:'\w+ )?", "&'static ", t[1:])


def interface(R, prop, tier):
    want15, want19 = prop == 'C15', prop == 'C19'
    r = R[prop]
    items, bad, warns, errs = scan(units.source)
    us = units.all_units()
    r.explanation = ('Every declaration of the table is expanded by the macros and type-checked by the compiler; the resolved '
                     'signatures of originals and mocks are compared item by item.')
    for e in errs:
        r.undecided(e)
    for n, (k, m) in enumerate(us):
        key = '%s.%s' % (k, m.label)
        what = '%s: %s' % (units.KINDS[k], m.text.replace('%%', 'f'))
        if want19 and not C19LABELS.match(m.label):
            continue
        r.count('declarations')
        if n in bad:
            r.ok(False, key + ':compile', '%s: the mock does not compile: %s' % (what, '; '.join('%s %s' % (c or '', x) for c, x in bad[n][:2])))
            continue
        if n not in items:
            continue
        ps = pairs(k, n, items[n])
        if not ps:
            r.undecided('no original found for ' + key)
            continue
        for o, q in ps:
            if want15:
                if not r.ok(q is not None, key + ':missing', '%s: the mock has no %s' % (what, o['name']),
                            '%s: the mock has the function' % what):
                    continue
            elif q is None:
                continue
            same(r, key, what, o, q, want15)


def same(r, key, what, o, q, want15, proj=lambda t: t):
    """the mock q is declared like the original o"""
    r.count('functions compared')
    trait = 'tin' in q
    opaque = re.search(r'impl |\{opaque|Opaque', o['out'] + q['out'] + q.get('tout', ''))
    if trait:
        so, sq = sig(q, 'tin', 'tout'), sig(q)
    else:
        so, sq = sig(o), sig(q)
    if opaque:
        so, sq = so[:-1], sq[:-1]
    so, sq = [proj(t) for t in so], [proj(t) for t in sq]
    # a borrowed parameter of the return type may have become 'static: every
    # caller of the original can still use the mock
    loose = so == sq or (so[:-1] == sq[:-1] and not opaque and owned(so[-1]) == sq[-1])
    r.ok(loose, key + ':signature', '%s: the mock is declared with (%s), the original with (%s)' % (what, ', '.join(sq), ', '.join(so)),
         '%s: resolved signatures agree: %s' % (what, ', '.join(so)))
    if not want15:
        return
    for a, t in (('unsafe', 'unsafety'), ('async', 'asyncness'), ('abi', 'ABI'), ('self', 'receiver'), ('variadic', 'variadic arguments')):
        if a in ('abi', 'unsafe') and o.get('foreign'):
            continue        # C27
        r.ok(o[a] == q[a], key + ':' + a, '%s: %s of the mock is %s, of the original %s' % (what, t, q[a], o[a]))
    if not trait:
        go, gq = life([g for g in o['generics']]), life([g for g in q['generics']])
        r.ok(go == gq, key + ':generics', '%s: the mock has type parameters %s, the original %s' % (what, gq, go))
        r.ok(bounds(o) == bounds(q), key + ':bounds', '%s: the mock has bounds %s, the original %s' % (what, bounds(q), bounds(o)))


# ---------------------------------------------------------------- C16
def within(a, b):
    """visibility region a is contained in region b"""
    if b == 'pub':
        return True
    return a != 'pub' and (a[3:] + '::').startswith(b[3:] + '::')


def bare(t):
    return re.sub(r'<.*', '', t)


def owner_type(i):
    return (i.get('impl') or '').replace('crate::', 'corp::', 1).split('<')[0]


def visibility(R, prop, tier):
    r = R[prop]
    items, bad, warns, errs = scan(raw.source_for(prop))
    us = raw.raw_units(prop)
    r.explanation = ('Mocked declarations of every visibility, two modules deep, are expanded and type-checked; the visibility '
                     'regions the compiler resolves for the mock, its expect and context methods, and the expectation types are '
                     'compared with that of the original.')
    for e in errs:
        r.undecided(e)
    for n, (label, k, text) in enumerate(us):
        r.count('declarations')
        key = 'C16.' + label
        if n in bad:
            r.ok(False, key + ':compile', '%s: does not compile: %s' % (label, bad[n][0]))
            continue
        its = items.get(n, [])
        by = {}
        for i in its:
            by.setdefault(i['path'], i)
        U = 'corp::u%d::a::b::' % n
        fns = [i for i in its if i['kind'] in ('AssocFn', 'Fn')]
        if k == 'F':
            orig = {i['name']: i['vis'].replace('::md', '::mock_md') for i in fns if i['path'].startswith(U + 'md::')}
            mine = {i['name']: i for i in fns if i.get('parent') == U + 'mock_md'}
            md = [by[U + x]['vis'] for x in ('md', 'mock_md') if U + x in by]
            r.ok(len(md) == 2 and md[0] == md[1], key + ':module', '%s: module is visible %s, its mock %s' % (label, md[:1], md[1:]), '%s: module visibilities agree' % label)
        elif k in 'BD':
            o = U + ('S' if k == 'B' else 'twin::MockS')
            orig = {i['name']: i['vis'] for i in fns if owner_type(i) == o and 'of' not in i and i['name'] != 'zz'}
            mine = {i['name']: i for i in fns if owner_type(i) == U + 'MockS' and 'of' not in i}
        else:
            v = by[U + ('S' if k == 'A' else 'MockS')]['vis']
            r.ok(by[U + 'MockS']['vis'] == v, key + ':mock', '%s: the trait is visible %s, the mock %s' % (label, v, by[U + 'MockS']['vis']))
            tr = U + ('S' if k == 'A' else 'T')
            orig = {i['name']: v for i in fns if i.get('trait') == tr}
            mine = {i['name']: i for i in fns if owner_type(i) == U + 'MockS' and 'of' not in i}
        r.ok(bool(orig), key + ':none', '%s: no original found' % label)
        for f, v in sorted(orig.items()):
            d = '%s: %s, visible %s,' % (label, f, v)
            if k in 'FBD':
                r.ok(f in mine and mine[f]['vis'] == v, '%s.%s:mock' % (key, f), '%s is mocked by a function visible %s' % (d, mine[f]['vis'] if f in mine else 'nowhere'),
                     '%s: mock has the same visibility' % d)
            hs = [x for x in ('expect_' + f, f + '_context') if x in mine]
            if not r.ok(len(hs) == 1, '%s.%s:helper' % (key, f), '%s has %d expect or context methods' % (d, len(hs))):
                continue
            h = mine[hs[0]]
            r.ok(h['vis'] == v, '%s.%s:helper-vis' % (key, f), '%s has %s visible %s' % (d, hs[0], h['vis']), '%s: %s has the same visibility' % (d, hs[0]))
            # the types it hands out
            ty = re.sub(r"^&('\w+ )?(mut )?", '', h['out']).replace('crate::', 'corp::', 1)
            ty = re.sub(r'<.*', '', ty)
            t = by.get(ty)
            if t is None:
                r.undecided('type %s not found' % ty)
                continue
            todo, seen = [t], set()
            while todo:
                t = todo.pop()
                if t['path'] in seen:
                    continue
                seen.add(t['path'])
                nm = t['path'].split('::')[-1]
                r.ok(t['vis'] == v, '%s.%s:%s' % (key, f, nm), '%s hands out %s, visible %s' % (d, nm, t['vis']), '%s: %s has the same visibility' % (d, nm))
                mod = t['path'].rsplit('::', 1)[0]
                while mod.startswith(U[:-2] + '::'):
                    m = by.get(mod)
                    # the modules of the original's own path do not matter
                    if m and not mod.endswith('mock_md') and not within(v, m['vis']):
                        r.ok(False, '%s.%s:%s-path' % (key, f, nm), '%s hands out %s, whose module %s is visible only %s' % (d, nm, mod, m['vis']))
                    mod = mod.rsplit('::', 1)[0]
                for i in fns:
                    if owner_type(i) == t['path'] and 'of' not in i and i['name'] in API:
                        r.ok(within(v, i['vis']), '%s.%s:%s.%s' % (key, f, nm, i['name']), '%s: %s.%s is visible only %s' % (d, nm, i['name'], i['vis']))
                        if i['name'] == 'expect':
                            x = by.get(re.sub(r'<.*', '', i['out'].replace('crate::', 'corp::', 1)))
                            if x:
                                todo.append(x)


API = set('with withf withf_st returning returning_st return_once return_once_st return_const return_const_st return_var times once never '
          'in_sequence expect checkpoint'.split())


# ---------------------------------------------------------------- C27
def unwind(abi, foreign):
    """the ABI of the mock of a function: the original's, except that mocks of
    foreign functions of the C ABI may unwind"""
    if foreign and re.search(r'(C|System) \{ unwind: false \}', abi):
        return abi.replace('false', 'true')
    return abi


def modules(R, prop, tier):
    import wits
    r = R[prop]
    items, bad, warns, errs = scan(raw.source_for(prop))
    us = raw.raw_units(prop)
    for e in errs:
        r.undecided(e)
    for n, (label, k, text) in enumerate(us):
        r.count('modules')
        key = 'C27.' + label
        if n in bad:
            r.ok(False, key + ':compile', '%s: the mock of the module does not compile: %s' % (label, bad[n][0]))
            continue
        its = items.get(n, [])
        U = 'corp::u%d::' % n
        fns = [i for i in its if i['kind'] == 'Fn']
        orig = [i for i in fns if i['path'].startswith(U + 'md::')]
        mine = {i['name']: i for i in fns if i.get('parent') == U + 'mock_md'}
        mods = [i['path'] for i in its if i['kind'] == 'Mod']
        r.ok(U + 'mock_md' in mods, key + ':module', '%s: no mock module is generated' % label, '%s: mock module exists' % label)
        r.ok('checkpoint' in mine and not mine['checkpoint']['in'], key + ':checkpoint', '%s: the mock module has no checkpoint function' % label, '%s: has checkpoint' % label)
        for o in orig:
            f = o['name']
            fk = '%s.%s' % (key, f)
            d = '%s: %s function %s' % (label, 'foreign' if o.get('foreign') else 'module', f)
            r.count('functions')
            if not r.ok(f in mine, fk + ':missing', '%s has no mock' % d, '%s is mocked' % d):
                continue
            q = mine[f]
            r.ok(f + '_context' in mine, fk + ':context', '%s has no context function' % d, '%s has a context function' % d)
            r.ok(sig(o)[:-1] == sig(q)[:-1], fk + ':arguments', '%s: the mock takes (%s), the original (%s)' % (d, ', '.join(q['in']), ', '.join(o['in'])), '%s: arguments agree' % d)
            if o.get('foreign') and 'Rust' not in o['abi']:
                r.ok(any('NoMangle' in x or 'ExportName' in x for x in q['attrs']), fk + ':symbol', '%s: the mock does not keep the symbol name' % d, '%s: symbol name kept' % d)
            want = 1 if o.get('foreign') else o['unsafe']
            r.ok(q['unsafe'] == want, fk + ':unsafe', '%s: the mock is %sunsafe' % (d, '' if q['unsafe'] else 'not '), '%s: unsafety agrees' % d)
            r.ok(q['abi'] == unwind(o['abi'], o.get('foreign')), fk + ':abi', '%s: the mock has ABI %s, the original %s' % (d, q['abi'], o['abi']), '%s: ABI %s' % (d, q['abi']))
            r.ok(q['async'] == o['async'], fk + ':async', '%s: asyncness differs' % d, '%s: asyncness agrees' % d)
        extra = [x for x in mine if x not in {o['name'] for o in orig} and x != 'checkpoint' and not x.endswith('_context')]
        for x in extra:
            r.ok(False, '%s.%s:extra' % (key, x), '%s: the mock module has a function %s that the original lacks' % (label, x))
    # other items stay usable
    H = '#![allow(dead_code, unused)]\nuse mockall::*;\npub fn same<A: Is<B>, B>() {} pub trait Is<T> {} impl<T> Is<T> for T {}\n'
    decls = {'kept': raw.KEPT.replace('\n', ' ')}
    W = wits.W
    ws = []

    def w(label, text, what, codes=()):
        ws.append(W('kept-' + label, text, what, codes, '', ('kept',)))
    for a, b in (('Z', 'q::Z'), ('Y', 'q::zm::Y'), ('W3', 'q::W2'), ('W2', 'q::W2'), ('zm::Y', 'q::zm::Y'), ('late::L', 'late::L'), ('A1', 'u8'), ('A2<i8>', 'Vec<i8>'), ("A3<'static>", "&'static str")):
        w('type-%s' % a, 'fn w%d() { same::<mock_md::%s, %s>() }' % (len(ws), a, b), 'mock_md::%s is %s' % (a, b))
    for a, t in (('C1', 'u8'), ('C2', "&'static str"), ('ON', 'u8'), ('lower', 'u8')):
        w('const-%s' % a, 'const X%s: %s = mock_md::%s;' % (a.upper(), t, a), 'constant %s is kept' % a)
    w('const-value', 'const XV: [u8; 3] = [0; mock_md::C1 as usize];', 'constant C1 has its value')
    for a, t in (('S1', 'u16'), ('S2', '[u8; 3]')):
        w('static-%s' % a, "fn w%s() -> &'static %s { &mock_md::%s }" % (a, t, a), 'static %s is kept' % a)
    w('static-mut', 'fn wsm() { unsafe { mock_md::S3 = 1; } }', 'static mut S3 is kept')
    w('zf', 'fn wzf() -> u8 { mock_md::zf() }', 'imported function is kept')
    w('trait', 'fn wzt<T: mock_md::ZT>() { }', 'glob import is kept')
    w('fn', 'fn wff() -> Vec<u8> { mock_md::f(1) }', 'function with a module-local alias')
    w('off', 'const XO: u8 = mock_md::OFF;', 'item under a false condition', ('E0425',))
    w('hidden', 'use self::mock_md::hidden as zz;', 'private import stays private', ('E0603',))
    w('hidden-type', 'fn wht(x: mock_md::A4) {}', 'private alias stays private', ('E0603',))
    wits.run(R, prop, H, decls, ws, 'c27k')
    r.explanation = ('Modules of mixed items are expanded and type-checked; every function of the original, foreign ones included, must have a mock, a context '
                     'and the same parameters, and every other supported item must denote the same thing in the mock module. The module checkpoint is '
                     'interpreted abstractly with an unknown expectation in every function.')
