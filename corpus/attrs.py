"""C17: attributes on mocked items.  Conditional items with both truth values,
lints whose effect shows which items an attribute reached, and (raw units) the
attributes and documentation the compiler records."""
import re
from wits import W

HEAD = '''#![allow(dead_code, unused_variables, unused_imports, unreachable_code, non_camel_case_types, non_snake_case, unexpected_cfgs)]
#![deny(unused_attributes, unfulfilled_lint_expectations)]
use mockall::*;
#[derive(Clone, Debug, PartialEq)] pub struct P; pub trait Ob {} impl Ob for P {} #[deprecated] #[derive(Debug)] pub struct Old;
impl AsRef<P> for P { fn as_ref(&self) -> &P { self } } pub trait Is<T: ?Sized> {} impl<T: ?Sized> Is<T> for T {}
'''
# label, kinds, declaration ($P: a type that is missing when the condition is false), expect, call
FORMS = [
    ('ref', 'ABCDE', 'fn f(&self, p: $P) -> u8', '', 'm.f(P)'),
    ('unit', 'ABCDE', 'fn f(&self, p: $P)', '', 'm.f(P)'),
    ('mut', 'ABCDE', 'fn f(&mut self, p: $P) -> u8', '', 'm.f(P)'),
    ('box', 'ABCDE', 'fn f(self: Box<Self>, p: $P) -> u8', '', 'Box::new(m).f(P)'),
    ('rref', 'ABCDE', 'fn f(&self, p: $P) -> &P', '', 'm.f(P)'),
    ('rmut', 'ABCDE', 'fn f(&mut self, p: $P) -> &mut u8', '', 'm.f(P)'),
    ('gen', 'ABDE', "fn f<T: 'static>(&self, p: $P, t: T) -> u8", '::<u8>', 'm.f(P, 0u8)'),
    ('genret', 'ABDE', "fn f<T: 'static>(&self, p: $P) -> T", '::<u8>', 'm.f::<u8>(P)'),
    ('genref', 'BD', "fn f<T: Send + Sync + 'static>(&self, t: T, p: $P) -> &T", '::<u8>', 'm.f(0u8, P)'),
    ('refarg', 'ABCDE', 'fn f(&self, p: &$P) -> u8', '', 'm.f(&P)'),
    ('life', 'ABDE', "fn f<'a>(&self, p: &'a $P) -> u8", '', 'm.f(&P)'),
    ('where', 'ABDE', "fn f<T>(&self, p: $P, t: T) -> u8 where T: Clone + 'static", '::<u8>', 'm.f(P, 0u8)'),
    ('two', 'ABCDE', 'fn f(&self, p: $P, q: P) -> u8', '', 'm.f(P, P)'),
    ('retm', 'ABCDE', 'fn f(&self) -> $P', '', 'm.f()'),
    ('dyn', 'ABDE', 'fn f(&self, p: $P) -> Box<dyn Ob>', '', 'm.f(P)'),
    ('async', 'ABDE', 'async fn f(&self, p: $P) -> u8', '', 'm.f(P)'),
    ('unsafe', 'ABDE', 'unsafe fn f(&self, p: $P) -> u8', '', 'unsafe { m.f(P) }'),
    ('conc', 'ABDE', 'fn f<T: AsRef<$P> + \'static>(&self, t: T) -> u8', '', 'm.f(P)'),
    ('static', 'ABCDEF', 'fn f(p: $P) -> u8', None, '$S f(P)'),
    ('sunit', 'ABCDEF', 'fn f(p: $P)', None, '$S f(P)'),
    ('sgen', 'BDF', "fn f<T: 'static>(p: $P, t: T) -> T", '::<u8>', '$S f(P, 0u8)'),
    ('sasync', 'BDF', 'async fn f(p: $P) -> u8', None, '$S f(P)'),
    ('sunsafe', 'ABDEF', 'unsafe fn f(p: $P) -> u8', None, 'unsafe { $S f(P) }'),
    ('slife', 'BDF', "fn f<'a>(p: &'a $P) -> u8", None, '$S f(&P)'),
    ('foreign', 'X', 'fn f(p: $P, x: u8) -> u8', None, 'unsafe { $S f(P, 0) }'),
    ('foreignunit', 'X', 'fn f(p: *const $P)', None, 'unsafe { $S f(&P) }'),
]


def decl(n, k, at, d, form='mid', more=''):
    """a unit with the function d under the attributes at"""
    imp = d + ' { unimplemented!() }'
    if 'AsRef' in d:
        at += ' #[concretize]'
    # hints are not allowed on functions without a body
    prov = d + (' { unimplemented!() }' if re.search(r'inline|cold|track_caller', at) else ';')

    def place(f, z, y):
        return {'first': f + ' ' + z + ' ' + y, 'mid': z + ' ' + f + ' ' + y, 'last': z + ' ' + y + ' ' + f, 'only': f}[form]
    tr = place('%s %s' % (at, prov), 'fn z(&self) -> u8;', 'fn y() -> u8;')
    im = place('%s pub %s' % (at, imp), 'pub fn z(&self) -> u8 { 0 }', 'pub fn y() -> u8 { 0 }')
    if k == 'A':
        s = '#[automock] pub trait S: Sized { %s }' % tr
    elif k == 'B':
        s = 'pub struct S; #[automock] impl S { %s }' % im
    elif k == 'C':
        at2 = at if 'cfg' in at else ''
        s = 'pub trait S: Sized { %s } pub struct R; #[automock] impl S for R { %s }' % (
            place('%s %s' % (at, prov), 'fn z(&self) -> u8;', 'fn y() -> u8;'),
            place('%s %s' % (at2, imp), 'fn z(&self) -> u8 { 0 }', 'fn y() -> u8 { 0 }'))
    elif k == 'D':
        s = 'mock!{ pub S { %s } }' % place('%s pub %s;' % (at, d), 'pub fn z(&self) -> u8;', 'pub fn y() -> u8;')
    elif k == 'E':
        at2 = at if 'cfg' in at else ''
        tr2 = place('%s %s;' % (at2, d), 'fn z(&self) -> u8;', 'fn y() -> u8;')
        s = 'pub trait S: Sized { %s } mock!{ pub S { } impl S for S { %s } }' % (tr, tr2)
    elif k == 'F':
        s = '#[automock] pub mod md { use super::*; %s }' % im.replace('&self', '')
    elif k == 'X':
        s = '#[automock] pub mod md { use super::*; extern "C" { %s } }' % place('%s pub %s;' % (at, d), 'pub fn z() -> u8;', 'pub fn y() -> u8;')
    if k == 'C':
        s = s.replace('pub struct R;', 'pub struct R;')
    return 'pub mod n%d { use super::*; %s %s }' % (n, s, more)


def uses(n, k, tf, call):
    """(expect statement, call expression, parameter list)"""
    ty = 'MockR' if k == 'C' else 'MockS'
    if k in 'FX':
        pre, par = 'n%d::mock_md::' % n, ''
        ctx = 'let c = %sf_context(); c.expect%s();' % (pre, tf or '')
        return ctx, call.replace('$S ', pre), ''
    par = 'mut m: n%d::%s' % (n, ty)
    if '$S' in call:
        ctx = 'let c = n%d::%s::f_context(); c.expect%s();' % (n, ty, tf or '')
        return ctx, call.replace('$S ', '<n%d::%s>::' % (n, ty)), par
    return 'm.expect_f%s();' % (tf or ''), call, par


def wrap(n, k, w, body, pre=''):
    return 'pub mod w%d { use super::*; %s use super::n%d::*; %s }' % (w, pre, n, body)


CONDS = [('all', '#[cfg(all())]', True), ('any', '#[cfg(any())]', False)]
CONDS2 = [('not', '#[cfg(not(any()))]', True), ('two', '#[cfg(all())] #[cfg(not(all()))]', False), ('two2', '#[cfg(not(all()))] #[cfg(all())]', False), ('flag', '#[cfg(c17flag)]', None), ('notflag', '#[cfg(not(c17flag))]', None),
          ('doc', '/** d */ #[cfg(any())] #[inline]', False), ('doc2', '/** d */ #[cfg(all())] #[inline]', True), ('mu', '#[cfg(any())] #[must_use] #[allow(clippy::all)]', False), ('mu2', '#[allow(clippy::all)] #[cfg(all())] #[must_use]', True), ('attr', '#[cfg_attr(all(), cfg(any()))]', False), ('attr2', '#[cfg_attr(all(), cfg(all()))]', True)]
GONE = ('E0599', 'E0425', 'E0433', 'E0412', 'E0405', 'E0407', 'E0432', 'E0277', 'E0576')


def conditions(flag):
    ds, ws = {}, []
    n = 0

    def unit(label, k, at, truth, f, form):
        nonlocal n
        l, ks, d, tf, call = f
        n += 1
        key = '%s.%s' % (k, label)
        ds[key] = decl(n, k, at, d.replace('$P', 'P' if truth else 'Missing'), form)
        ex, ca, par = uses(n, k, tf, call)
        what = '%s under %s' % (d.replace('$P', 'P'), at)
        cp = '' if k in 'FX' or 'Box::new(m)' in ca else 'm.checkpoint();'
        if k in 'FX':
            cp = 'n%d::mock_md::checkpoint();' % n
        if truth:
            ws.append(W(key + ':used', wrap(n, k, n, 'pub fn w(%s) { %s let _ = %s; }' % (par, ex, ca)), what + ' can be expected and called', (), needs=(key,)))
        else:
            ws.append(W(key + ':expect', wrap(n, k, '%de' % n if False else n, 'pub fn w(%s) { %s }' % (par, ex)), what + ' can be expected', GONE, needs=(key,)))
            ws.append(W(key + ':call', wrap(n, k, n + 100000, 'pub fn w(%s) { let _ = %s; }' % (par, ca)), what + ' can be called', GONE, needs=(key,)))
        if form != 'only':
            if k in 'FX':
                z = 'let c = n%d::mock_md::z_context(); c.expect(); let c = n%d::mock_md::y_context(); c.expect(); %s' % (n, n, cp)
            else:
                ty = 'MockR' if k == 'C' else 'MockS'
                z = 'm.expect_z(); let c = n%d::%s::y_context(); c.expect(); m.checkpoint();' % (n, ty)
            ws.append(W(key + ':others', wrap(n, k, n + 200000, 'pub fn w(%s) { %s }' % (par, z)), 'functions next to one ' + what + ' can be expected', (), needs=(key,)))
    for f in FORMS:
        for k in f[1]:
            for cl, at, truth in CONDS:
                unit('%s-%s' % (f[0], cl), k, at, truth, f, 'mid')
    for f in FORMS:
        if f[0] in ('ref', 'static', 'gen', 'rref', 'rmut', 'foreign'):
            for k in f[1]:
                for form in ('first', 'last', 'only'):
                    for cl, at, truth in CONDS:
                        unit('%s-%s-%s' % (f[0], cl, form), k, at, truth, f, form)
                for cl, at, truth in CONDS2:
                    if k == 'X':
                        at = at.replace('#[inline]', '').replace('#[must_use]', '')
                    if cl == 'mu2' and k == 'C':
                        continue
                    if truth is None:
                        truth = flag == (cl == 'flag')
                    unit('%s-%s' % (f[0], cl), k, at, truth, f, 'mid')
    return ds, ws


# ---------------------------------------------------------------- trait impls in mock!
def impls(flag):
    ds, ws = {}, []
    n = 0
    BODY = [
        ('method', 'T', 'fn q(&self, p: P) -> u8;', 'm.expect_q();'),
        ('ref', 'T', 'fn q(&self, p: P) -> &P;', 'm.expect_q();'),
        ('generic', 'T', "fn q<X: 'static>(&self, p: P, x: X) -> u8;", 'm.expect_q::<u8>();'),
        ('static', 'T', 'fn q(p: P) -> u8;', 'let c = $M::q_context(); c.expect();'),
        ('mixed', 'T', 'fn q(&self, p: P) -> u8; fn r(p: P) -> u8; fn s(&mut self, p: P) -> &mut P;', 'm.expect_q(); m.expect_s();'),
        ('marker', 'T', '', ''),
        ('param', 'T<P>', 'fn q(&self, p: P) -> u8;', 'm.expect_q();'),
        ('assoc', 'T', 'type A; fn q(&self) -> Self::A;', 'm.expect_q();'),
        ('const', 'T', 'const C: u8; fn q(&self, p: P) -> u8;', 'm.expect_q();'),
        ('unsafe', 'T', 'unsafe fn q(&self, p: P) -> u8;', 'm.expect_q();'),
    ]
    SH = [
        ('only', 'mock!{ pub S$G { } $I }'),
        ('methods', 'mock!{ pub S$G { pub fn z(&self) -> u8; pub fn y() -> u8; } $I }'),
        ('before', 'mock!{ pub S$G { } $I impl$G Z for S$H { fn z(&self) -> u8; } }'),
        ('after', 'mock!{ pub S$G { pub fn y(&self); } impl$G Z for S$H { fn z(&self) -> u8; } $I }'),
    ]
    for bl, tp, body, ex in BODY:
        for sl, sh in SH:
            for gen in ('', "<G: 'static>"):
                for cl, at, truth in CONDS + ([('two', '#[cfg(all())] #[cfg(not(all()))]', False), ('flag', '#[cfg(c17flag)]', flag), ('notflag', '#[cfg(not(c17flag))]', not flag), ('doc', '/** d */ #[cfg(any())] #[allow(clippy::all)]', False), ('mu', '#[must_use] #[cfg(all())]', True)] if bl in ('method', 'static') else []):
                    n += 1
                    key = 'I.%s-%s%s-%s' % (bl, sl, '-gen' if gen else '', cl)
                    b2 = body.replace('Self::A', 'P').replace('type A;', 'type A = P;').replace('const C: u8;', 'const C: u8 = 1;')
                    tpl = tp
                    if not truth:
                        b2 = b2.replace('p: P', 'p: Missing').replace('= P', '= Missing')
                        tpl = tp.replace('T', 'Absent', 1)
                    imp = '%s %s %s for S%s { %s }' % (at, 'impl' + gen, tpl, '<G>' if gen else '', b2)
                    tr = 'pub trait %s { %s } pub trait Z { fn z(&self) -> u8; } ' % (tp.replace('<P>', '<Q>'), body.replace('p: P', 'p: Q') if '<P>' in tp else body)
                    txt = tr + sh.replace('$I', imp).replace('$G', gen).replace('$H', '<G>' if gen else '')
                    ds[key] = 'pub mod n%d { use super::*; %s }' % (n, txt)
                    M = 'n%d::MockS%s' % (n, '::<u8>' if gen else '')
                    Mt = M.replace('::<', '<')
                    what = 'mock!: impl of a trait (%s) under %s' % (bl, at)
                    tb = 'pub fn b<X: n%d::%s>() {} pub fn v() { b::<%s>() }' % (n, tp, Mt)
                    if truth:
                        ws.append(W(key + ':implemented', 'pub mod w%d { use super::*; %s }' % (n, tb), what + ': trait is implemented', (), needs=(key,)))
                        if ex:
                            ws.append(W(key + ':expect', 'pub mod v%d { use super::*; pub fn w(mut m: %s) { %s m.checkpoint(); } }' % (n, Mt, ex.replace('$M', M)), what + ' can be expected', (), needs=(key,)))
                    else:
                        ws.append(W(key + ':implemented', 'pub mod w%d { use super::*; %s }' % (n, tb), what + ': trait is implemented', ('E0277',), needs=(key,)))
                        if ex:
                            ws.append(W(key + ':expect', 'pub mod v%d { use super::*; pub fn w(mut m: %s) { %s } }' % (n, Mt, ex.replace('$M', M)), what + ' can be expected', GONE, needs=(key,)))
                    if sl != 'only':
                        ws.append(W(key + ':others', 'pub mod x%d { use super::*; pub fn w(mut m: %s) { m.expect_%s(); m.checkpoint(); let _ = <%s as Default>::default(); } }' % (n, Mt, 'z', Mt), 'methods next to ' + what, (), needs=(key,)))
    # one trait, two implementations under opposite conditions
    X = [
        ('sig', '#[cfg(all())] impl T for S { fn q(&self, p: P) -> u8; } #[cfg(any())] impl T for S { fn q(&self, p: Missing) -> u8; }'),
        ('sig-rev', '#[cfg(any())] impl T for S { fn q(&self, p: Missing) -> u8; } #[cfg(all())] impl T for S { fn q(&self, p: P) -> u8; }'),
        ('flag', '#[cfg(c17flag)] impl T for S { fn q(&self, p: P) -> u8; } #[cfg(not(c17flag))] impl T for S { fn q(&self, p: P) -> u8; }'),
        ('same-name', '#[cfg(all())] impl T for S { fn q(&self, p: P) -> u8; } #[cfg(any())] impl absent::T for S { fn q(&self, p: Missing) -> u8; }'),
        ('three', '#[cfg(any())] impl T for S { fn q(&self) -> Missing; } #[cfg(all())] impl T for S { fn q(&self, p: P) -> u8; } #[cfg(not(all()))] impl T for S { fn r(&self) -> Missing; }'),
    ]
    for l, t in X:
        for m in ('', 'pub fn z(&self) -> u8;'):
            n += 1
            key = 'J.%s%s' % (l, '-methods' if m else '')
            ds[key] = 'pub mod n%d { use super::*; pub trait T { fn q(&self, p: P) -> u8; } mock!{ pub S { %s } %s } }' % (n, m, t)
            ws.append(W(key + ':expect', 'pub mod w%d { use super::*; use super::n%d::*; pub fn w(mut m: MockS) { m.expect_q(); let _ = m.q(P); m.checkpoint(); } }' % (n, n), 'the implementation whose condition holds is mocked', (), needs=(key,)))
    # opposite conditions on methods and functions
    Y = [
        ('B', 'pub struct S; #[automock] impl S { #[cfg(all())] pub fn q(&self, p: P) -> u8 { 0 } #[cfg(any())] pub fn q(&self) -> Missing { } }', 'm.expect_q(); let _ = m.q(P);'),
        ('Bs', 'pub struct S; #[automock] impl S { #[cfg(any())] pub fn q(a: Missing) { } #[cfg(all())] pub fn q(p: P) -> u8 { 0 } }', 'let c = MockS::q_context(); c.expect(); let _ = MockS::q(P);'),
        ('A', '#[automock] pub trait S { #[cfg(all())] fn q(&self, p: P) -> u8; #[cfg(any())] fn q(&self) -> Missing; #[cfg(any())] fn r(&self, p: Missing); #[cfg(all())] fn r(&self); }', 'm.expect_q(); let _ = m.q(P); m.expect_r(); m.r();'),
        ('As', '#[automock] pub trait S { #[cfg(any())] fn q() -> Missing; #[cfg(all())] fn q(p: P) -> u8; }', 'let c = MockS::q_context(); c.expect(); let _ = MockS::q(P);'),
        ('D', 'mock!{ pub S { #[cfg(any())] pub fn q(&self) -> &Missing; #[cfg(all())] pub fn q(&self, p: P) -> u8; } }', 'm.expect_q(); let _ = m.q(P);'),
        ('Dg', "mock!{ pub S { #[cfg(any())] pub fn q(&self, p: Missing) -> u8; #[cfg(all())] pub fn q<T: 'static>(&self, p: P, t: T) -> u8; } }", 'm.expect_q::<u8>(); let _ = m.q(P, 0u8);'),
        ('E', 'pub trait T { fn q(&self, p: P) -> u8; } mock!{ pub S { } impl T for S { #[cfg(any())] fn q(&self) -> Missing; #[cfg(all())] fn q(&self, p: P) -> u8; } }', 'm.expect_q(); let _ = m.q(P);'),
        ('F', '#[automock] pub mod md { use super::*; #[cfg(any())] pub fn q(x: Missing) -> u8 { 0 } #[cfg(all())] pub fn q(p: P) -> u8 { 0 } }', 'let c = mock_md::q_context(); c.expect(); let _ = mock_md::q(P); mock_md::checkpoint();'),
        ('X', '#[automock] pub mod md { use super::*; extern "C" { #[cfg(all())] pub fn q(p: P) -> u8; #[cfg(any())] pub fn q(x: Missing) -> u8; } }', 'let c = mock_md::q_context(); c.expect(); let _ = unsafe { mock_md::q(P) }; mock_md::checkpoint();'),
        ('consts', 'pub struct S; #[automock] impl S { #[cfg(any())] pub const C: Missing = 3; #[cfg(all())] pub const C: u8 = 3; pub fn z(&self) { } }', 'let _: u8 = MockS::C; m.expect_z();'),
        ('mconsts', 'pub trait T { const C: u8; } mock!{ pub S { #[cfg(any())] pub const D: Missing = 3; #[cfg(all())] pub const D: u8 = 3; } impl T for S { #[cfg(any())] const C: Missing = 3; #[cfg(all())] const C: u8 = 3; } }', 'let _: u8 = MockS::D; let _: u8 = <MockS as T>::C;'),
        ('types', 'pub trait T { type A; fn q(&self) -> Self::A; } mock!{ pub S { } impl T for S { #[cfg(any())] type A = Missing; #[cfg(all())] type A = u8; fn q(&self) -> u8; } }', 'm.expect_q(); let _: u8 = m.q();'),
        ('moditems', '#[automock] pub mod md { use super::*; #[cfg(any())] pub const C: Missing = 0; #[cfg(all())] pub const C: u8 = 0; #[cfg(any())] pub use absent::X; #[cfg(any())] pub type A = Missing; #[cfg(all())] pub type A = u8; pub fn q(x: A) { } }', 'let c = mock_md::q_context(); c.expect(); mock_md::q(mock_md::C);'),
    ]
    for l, t, u in Y:
        n += 1
        key = 'K.' + l
        ds[key] = 'pub mod n%d { use super::*; %s }' % (n, t)
        par = '' if 'mock_md' in u else 'mut m: MockS'
        ws.append(W(key + ':used', 'pub mod w%d { use super::*; use super::n%d::*; pub fn w(%s) { %s %s } }' % (n, n, par, u, 'm.checkpoint();' if par else ''), 'the declaration whose condition holds is mocked', (), needs=(key,)))
    return ds, ws


# ---------------------------------------------------------------- effective attributes
def lints(nightly):
    ds, ws = {}, []
    n = 0
    AT = [('must', '#[must_use]', 'unused_must_use'), ('mustr', '#[must_use = "r"]', 'unused_must_use'), ('dep', '#[deprecated]', 'deprecated'), ('depn', '#[deprecated(since = "1", note = "n")]', 'deprecated')]
    for al, at, lint in AT:
        for f in FORMS:
            l, ks, d, tf, call = f
            d = d.replace('$P', 'P')
            if lint == 'unused_must_use' and ('unit' in l or 'async' in l):
                continue
            for k in ks:
                if k == 'C':
                    continue
                n += 1
                key = '%s.%s-%s' % (k, l, al)
                ds[key] = decl(n, k, at, d, 'mid')
                if lint == 'deprecated':
                    ds[key] = '#[allow(deprecated)] ' + ds[key]
                ex, ca, par = uses(n, k, tf, call)
                what = '%s %s' % (at, d)
                stmt = '%s;' % ca if lint == 'unused_must_use' else 'let _ = %s;' % ca
                if ca.startswith('unsafe') and lint == 'unused_must_use':
                    stmt = 'unsafe { %s; }' % ca[9:-2]
                ws.append(W(key + ':effective', 'pub mod w%d { use super::*; use super::n%d::*; #[deny(%s)] pub fn w(%s) { %s } }' % (n, n, lint, par, stmt), what + ': %s is effective on the mock' % lint, (lint,), needs=(key,)))
                if lint == 'unused_must_use':
                    if nightly and l != 'conc':
                        ws.append(W(key + ':expect', 'pub mod v%d { use super::*; use super::n%d::*; #[deny(%s)] pub fn w(%s) { %s } }' % (n, n, lint, par, ex), what + ': expectations need not be used', (), needs=(key,)))
                    if al == 'must':
                        n += 1
                        k2 = '%s.%s-plain' % (k, l)
                        ds[k2] = decl(n, k, '', d, 'mid')
                        ex, ca, par = uses(n, k, tf, call)
                        stmt = 'unsafe { %s; }' % ca[9:-2] if ca.startswith('unsafe') else ca + ';'
                        ws.append(W(k2 + ':free', 'pub mod w%d { use super::*; use super::n%d::*; #[deny(%s)] pub fn w(%s) { %s } }' % (n, n, lint, par, stmt), d + ' may be ignored', (), needs=(k2,)))
    # lint levels of the function
    LL = [('snake', 'non_snake_case', 'fooBar', 'xY: u8'), ('depr', 'deprecated', 'foo', 'x: Old')]
    for al, lint, fn, arg in LL:
        for form, sig in (('ref', 'fn %s(&self, %s) -> u8'), ('rref', 'fn %s(&self, %s) -> &u8'), ('rmut', 'fn %s(&mut self, %s) -> &mut u8'),
                          ('static', 'fn %s(%s) -> u8'), ('gen', 'fn %s<T: \'static>(&self, %s, t: T) -> u8'), ('gstatic', 'fn %s<T: \'static>(%s, t: T) -> u8')):
            for at in ('#[allow(%s)]' % lint, '#[allow(unused, %s)] #[doc = "d"]' % lint, '#[cfg_attr(all(), allow(%s))]' % lint):
                d = sig % (fn, arg)
                st = 'static' in form
                T = {
                    'A': '#[automock] pub trait S { fn z(&self); %s %s; }' % (at, d),
                    'B': 'pub struct S; #[automock] impl S { pub fn z(&self) {} %s pub %s { loop {} } }' % (at, d),
                    'D': 'mock!{ pub S { pub fn z(&self); %s pub %s; } }' % (at, d),
                    'E': 'pub trait T { fn z(&self); %s %s; } mock!{ pub S { } impl T for S { fn z(&self); %s %s; } }' % (at, d, at, d),
                    'F': '#[automock] pub mod md { #[allow(unused_imports)] use super::*; pub fn z() {} %s pub %s { loop {} } }' % (at, d),
                }
                for k, t in T.items():
                    if k == 'F' and not st:
                        continue
                    n += 1
                    key = '%s.%s-%s-%s' % (k, form, al, at)
                    ds[key] = '#[deny(%s)] pub mod n%d { #[allow(unused_imports)] use super::*; %s }' % (lint, n, t)
    # attributes of whole declarations
    ST = [
        ('trait', '#[automock] #[must_use] pub trait S { fn z(&self); }', 'MockS', True), ('trait-doc', '#[automock] /** d */ #[must_use = "x"] #[allow(clippy::all)] pub trait S { fn z(&self); }', 'MockS', True),
        ('struct', 'mock!{ #[must_use] pub S { pub fn z(&self); } }', 'MockS', False), ('struct-trait', 'pub trait T { fn q(&self); } mock!{ #[must_use = "r"] pub S { } impl T for S { fn q(&self); } }', 'MockS', False),
        ('impl', 'pub trait T { fn q(&self); } mock!{ pub S { pub fn z(&self); } #[must_use] impl T for S { fn q(&self); } }', 'MockS', True),
    ]
    for l, t, ty, free in ST:
        n += 1
        key = 'S.' + l
        ds[key] = 'pub mod n%d { use super::*; %s }' % (n, t)
        ws.append(W(key + ':struct', 'pub mod w%d { use super::*; #[deny(unused_must_use)] pub fn g() -> n%d::%s { loop {} } #[deny(unused_must_use)] pub fn w() { g(); } }' % (n, n, ty),
                    'must_use of a declaration on the mock struct' if not free else 'mock values may be dropped', () if free else ('unused_must_use',), needs=(key,)))
    # hints for the original
    HN = ['#[inline]', '#[inline(always)]', '#[inline(never)]', '#[cold]', '#[expect(unused_mut)]', '#[expect(clippy::all)]', '#[expect(dead_code, reason = "r")]', '#[instrument]', '#[tracing::instrument]', '#[instrument(skip(self), level = "debug")]', '#[tracing::instrument(ret)]', '#[auto_enum(Debug)]',
          '#[auto_enums::auto_enum(Debug)]', '#[link_name = "zork"]', '#[derive(Clone)]', '#[allow(unused)]', '#[track_caller]', '#[doc(hidden)]', '#[doc(alias = "x")]', '#[rustfmt::skip]', '#[clippy::msrv = "1.1"]', '/** text */', '#[warn(unused)]', '#[inline] #[cold] #[must_use]', '#[cfg_attr(all(), inline)]', '#[cfg_attr(all(), tracing::instrument(skip_all))]', '#[cfg_attr(not(any()), must_use, inline, cold)]',
          '#[cfg_attr(all(), allow(unused), auto_enum(x))]', '#[cfg_attr(feature = "x", inline)]', '#[cfg_attr(any(), absent)]', '#[cfg_attr(all(), cfg_attr(all(), inline, instrument))]', '#[cfg_attr(all(), derive(Clone))]']
    for h in HN:
        for f in FORMS:
            l, ks, d, tf, call = f
            if l not in ('ref', 'rref', 'rmut', 'gen', 'static', 'unit', 'foreign'):
                continue
            for k in ks:
                hidden = 'instrument' in h or 'auto_enum' in h or 'derive' in h or 'expect' in h
                if k not in 'DE' and hidden:
                    continue
                if k == 'C' and 'must_use' in h or l == 'unit' and 'must_use' in h or k == 'X' and re_hint(h) or (k == 'C' and 'inline' in h) or (k in 'ABCF' and 'link_name' in h):
                    continue
                n += 1
                key = '%s.%s-%s' % (k, l, h)
                if k == 'E':
                    # only on the mock
                    ds[key] = 'pub mod n%d { use super::*; pub trait T { fn z(&self); %s; } mock!{ pub S { } impl T for S { fn z(&self); %s %s; } } }' % (n, d.replace('$P', 'P'), h, d.replace('$P', 'P'))
                else:
                    ds[key] = decl(n, k, h, d.replace('$P', 'P'), 'mid')
                ex, ca, par = uses(n, k, tf, call)
                ws.append(W(key + ':used', wrap(n, k, n, 'pub fn w(%s) { %s let _ = %s; }' % (par, ex, ca), 'use super::n%d::*;' % n if k not in 'E' else ''), '%s %s can be expected and called' % (h, d), (), needs=(key,)))
    for h in ('#[derive(Clone)]', '#[derive(Clone, PartialEq, Eq)]', '#[derive(Copy, Clone)] #[allow(clippy::all)]', '#[derive(Hash)]', '#[derive(PartialOrd)]', '#[cfg_attr(all(), derive(Clone))]', '#[cfg_attr(all(), derive(Clone), allow(unused))]'):
        n += 1
        key = 'D.%s' % h
        ds[key] = 'pub mod n%d { use super::*; mock!{ %s pub S { pub fn z(&self); } } }' % (n, h)
        for b in ('Clone', 'Copy', 'PartialEq', 'std::hash::Hash', 'PartialOrd'):
            if b.split(':')[-1] in h:
                ws.append(W(key + ':' + b, 'pub mod w%d%s { use super::*; pub fn b<T: %s>() {} pub fn w() { b::<n%d::MockS>() } }' % (n, b.split(':')[-1], b, n), 'derive on a mock has no effect', ('E0277',), needs=(key,)))
    return ds, ws


def re_hint(h):
    return any(x in h for x in ('inline', 'cold', 'track_caller', 'must_use'))


DOCHEAD = '''#![deny(missing_docs)]
#![allow(dead_code, unused_imports)]
//! d
use mockall::*;
/// d
pub trait T { /// d
  fn q(&self); }
'''
DOCS = [
    ('A', '/** d */ #[automock] pub trait S { /** d */ fn f(&self); /** d */ fn s(); /** d */ fn r(&self) -> &u8; }'),
    ('B', '/** d */ pub struct S; #[automock] impl S { /** d */ pub fn f(&self) {} /** d */ pub fn s() {} /** d */ pub fn r(&self) -> &u8 { &0 } /** d */ pub fn g<X: \'static>(&self, x: X) {} /** d */ pub fn sg<X: \'static>(x: X) {} /** d */ pub const C: u8 = 0; }'),
    ('Bdoc', '/** d */ pub struct S; #[automock] impl S { #[doc = "d"] pub fn f(&self) {} /** d\n\n e */ #[inline] #[must_use] pub fn s() -> u8 { 0 } #[must_use] #[doc = concat!("a", "b")] pub fn r(&self) -> &u8 { &0 } }'),
    ('D', 'mock!{ /** d */ pub S { /** d */ pub fn f(&self); /** d */ pub fn s(); /** d */ pub fn m(&mut self) -> &mut u8; /** d */ pub fn g<X: \'static>(&self, x: X); } /** d */ impl T for S { /** d */ fn q(&self); } }'),
    ('F', '/** d */ #[automock] pub mod md { /** d */ pub fn f() {} /** d */ pub fn g<X: \'static>(x: X) {} /** d */ pub const C: u8 = 0; /** d */ pub type Al = u8; }'),
    ('X', '/** d */ #[automock] pub mod md { extern "C" { /** d */ pub fn f(); /** d */ pub fn g(x: u8) -> u8; } }'),
]


def docs():
    return {'doc-' + l: 'pub mod n%d { use super::*; %s }' % (n, t.replace('\n', '\\n')) if False else '/** d */ pub mod n%d { use super::*; %s }' % (n, t.replace('\n', ' ')) for n, (l, t) in enumerate(DOCS)}
