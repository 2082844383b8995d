"""C30: no new warnings."""
import collections
import concurrent.futures as cf
import build
import units
import whole
import wits

HEAD = '''#![warn(missing_docs)]
//! d
/** d */ pub mod env {
    /** d */ #[derive(Debug, Clone, Default, PartialEq)] pub struct P;
    /** d */ pub struct Q<T: ?Sized>(pub Box<T>);
    /** d */ pub struct L<'a>(pub &'a u8);
    /** d */ pub trait Tr { /** d */ type A; }
    impl Tr for P { type A = u16; }
    /** d */ pub trait Ob: Send { /** d */ fn ob(&self) -> u8; }
    impl Ob for P { fn ob(&self) -> u8 { 0 } }
    impl Ob for Box<dyn Ob> { fn ob(&self) -> u8 { 0 } }
    /** d */ pub trait ObT<T> { /** d */ fn obt(&self) -> T; }
    impl<T> Tr for Q<T> { type A = u32; }
    /** d */ pub trait Tr2<T> { /** d */ type A2; }
    impl Tr2<P> for P { type A2 = i16; }
    /** d */ pub const NC: usize = 3;
    /** d */ pub const fn wf(n: usize) -> usize { n }
    /** d */ #[derive(Debug)] pub struct CG<const N: usize>;
    /** d */ pub trait ObL<'a>: Send { /** d */ fn obl(&self) -> &'a u8; }
    impl<'a> Tr for L<'a> { type A = i64; }
    /** d */ pub trait Stream { /** d */ type Item; }
    impl Stream for P { type Item = u8; }
    impl<S: Stream + ?Sized> Stream for std::pin::Pin<Box<S>> { type Item = S::Item; }
    /** d */ pub mod deep { /** d */ #[derive(Debug, Clone)] pub struct D; }
}
'''
PRE = ('#[allow(unused_imports)] use mockall::*; #[allow(unused_imports)] use crate::env::*; /** d */ #[derive(Debug, Clone, Default)] pub struct Loc; '
       '/** d */ pub mod here { /** d */ #[derive(Debug, Clone)] pub struct H; } ')
EXPL = ('Every declaration of the tables is compiled, with its documentation, on the stable toolchain under the default lints and missing_docs, '
        'once as it stands and once with its mock; the mock must add no warning.')


def texts():
    out = []
    for k, m in units.all_units():
        if 'never' in m.label:
            continue    # not on the stable toolchain
        u = units.unit(0, k, m)
        body = u.split('\n', 1)[1][len(units.PRE):].rsplit('\n}', 1)[0].replace('\n', ' ').strip()
        body = body.replace('use super::{here, Loc, super::env::*};', '#[allow(unused_imports)] use super::{here, Loc, super::env::*};').replace('{ use super::*;', '{ #[allow(unused_imports)] use super::*;')
        out.append(('%s.%s' % (k, m.label), body))
    for l, k, t, _ in whole.WHOLE:
        out.append(('whole.' + l, t))
    for at in ('#[must_use]', '#[doc(hidden)]', '#[cfg(all())]', '#[cfg(any())]', '#[allow(clippy::all)]', '#[inline]', '#[cold]', '#[deprecated]', '#[track_caller]', '#[cfg_attr(all(), must_use)]', '#[cfg_attr(all(), inline)]'):
        req = '' if any(x in at for x in ('inline', 'cold')) else at
        out.append(('attr.%s' % at, "#[automock] pub trait S { %s fn f(&self) -> u8; %s fn g(&self) -> u8 { 0 } %s fn s() -> u8 where Self: Sized { 0 } %s fn r(&self) -> &u8; }" % (req, at, at, req)))
        out.append(('attr.B.%s' % at, "pub struct S; #[automock] impl S { %s pub fn f(&self) -> u8 { 0 } %s pub fn s() -> u8 { 0 } %s pub fn r(&self) -> &u8 { &0 } %s pub fn g<T: 'static>(&self, t: T) -> T { t } }" % ((at,) * 4)))
        out.append(('attr.D.%s' % at, "mock!{ pub S { %s pub fn f(&self) -> u8; %s pub fn s() -> u8; %s pub fn r(&self) -> &u8; %s pub fn g<T: 'static>(&self, t: T) -> T; } }" % ((at,) * 4)))
        out.append(('attr.F.%s' % at, "#[automock] pub mod md { %s pub fn f() -> u8 { 0 } %s pub fn g<T: 'static>(t: T) -> T { t } }" % ((at,) * 2)))
    # attributes of whole items and of the items within
    for pn, t in PLACES.items():
        for at in ITEM_ATTRS:
            if pn.startswith('manual') and any(x in at for x in ('deprecated', 'link', 'alias', 'any()', 'track_caller')):
                continue    # of the user's own choosing, there is no original
            out.append(('place.%s.%s' % (pn, at), t % at))
    # private declarations, used in part
    for n, (t, use) in USES.items():
        out.append(('use.' + n, t, use))
    # lints allowed where the original needs it
    for level in ('allow', 'expect'):
        for pn, t in LINTS.items():
            if '!' in t and level == 'expect':
                continue
            out.append(('level.%s.%s' % (level, pn), t.replace('LEVEL', level)))
    return out


PLACES = {
    'trait': '#[automock] %s pub trait S { fn f(&self) -> u8; fn s() -> u8; fn r(&self) -> &u8; }',
    'gtrait': "#[automock] %s pub trait S<T: 'static> { fn f(&self, t: T) -> u8; }",
    'inherent': 'pub struct S; #[automock] %s impl S { pub fn f(&self) -> u8 { 0 } pub fn s() -> u8 { 0 } }',
    'traitimpl': 'pub trait Im { fn f(&self) -> u8; fn s() -> u8; } pub struct S; #[automock] %s impl Im for S { fn f(&self) -> u8 { 0 } fn s() -> u8 { 0 } }',
    'module': '#[automock] %s pub mod md { pub fn f() -> u8 { 0 } }',
    'block': '#[automock] pub mod md { %s extern "C" { pub fn f() -> u8; } }',
    'foreign': '#[automock] pub mod md { extern "C" { %s pub fn f() -> u8; } }',
    'const': '#[automock] pub trait S { %s const A: u8 = 4; fn f(&self) -> u8; }',
    'iconst': 'pub struct S; #[automock] impl S { %s pub const A: u8 = 4; pub fn f(&self) -> u8 { 0 } }',
    'import': '#[automock] pub mod md { %s pub use super::Loc; pub fn f() -> u8 { 0 } }',
    'alias': '#[automock] pub mod md { %s pub type Q = u8; pub fn f() -> u8 { 0 } }',
    'manual': 'mock!{ %s pub S { pub fn f(&self) -> u8; } }',
    'manualimpl': 'pub trait Im { fn f(&self) -> u8; } mock!{ pub S { } %s impl Im for S { fn f(&self) -> u8; } }',
}
ITEM_ATTRS = ('#[deprecated]', '#[deprecated(note = "n")]', '#[doc(alias = "al")]', '#[doc(hidden)]', '#[allow(unused)]', '#[warn(unused)]', '#[deny(unused)]', '#[forbid(unsafe_code)]',
              '#[cfg_attr(all(), allow(unused))]', '#[cfg_attr(any(), allow(unused))]', '#[cfg(all())]', '#[cfg(any())]', '#[diagnostic::on_unimplemented(message = "m")]', '#[must_use]',
              '#[must_use = "m"]', '#[expect(clippy::all)]', '#[rustfmt::skip]', '#[allow(clippy::all)]', '#[automatically_derived]', '#[diagnostic::do_not_recommend]', '#[link(name = "c")]',
              '#[link_name = "q"]', '#[inline]', '#[cold]', '#[track_caller]')
LINTS = {
    'module': '#[automock] #[LEVEL(non_snake_case)] pub mod Md { pub fn f() -> u8 { 0 } }',
    'moditems': '#[automock] #[LEVEL(non_upper_case_globals, non_camel_case_types)] pub mod md { pub const foo: u8 = 4; pub type myty = u8; pub fn f(x: myty) -> u8 { x } }',
    'modinner': '#[automock] pub mod md { #![LEVEL(non_snake_case)] pub fn Fo() -> u8 { 0 } }',
    'modfn': '#[automock] #[LEVEL(non_snake_case)] pub mod md { pub fn Fo(aB: u8) -> u8 { aB } }',
    'fn': '#[automock] pub mod md { #[LEVEL(non_snake_case)] pub fn Fo(aB: u8) -> u8 { aB } }',
    'foreign': '#[automock] #[LEVEL(non_snake_case)] pub mod md { extern "C" { pub fn Fo(aB: u8) -> u8; } }',
    'traitmeth': '#[automock] pub trait S { #[LEVEL(non_snake_case)] fn Fo(&self, aB: u8) -> u8; #[LEVEL(non_snake_case)] fn Sta(aB: u8) -> u8; }',
    'trait': '#[automock] #[LEVEL(non_snake_case)] pub trait S { fn Fo(&self, aB: u8) -> u8; fn Sta(aB: u8) -> u8; fn Ref(&self) -> &u8; }',
    'inherent': 'pub struct S; #[automock] #[LEVEL(non_snake_case)] impl S { pub fn Fo(&self, aB: u8) -> u8 { aB } pub fn Sta() -> u8 { 0 } }',
    'inherentmeth': 'pub struct S; #[automock] impl S { #[LEVEL(non_snake_case)] pub fn Fo(&self, aB: u8) -> u8 { aB } #[LEVEL(non_snake_case)] pub fn Sta() -> u8 { 0 } }',
    'name': '#[automock] #[LEVEL(non_camel_case_types)] pub trait some_trait { fn f(&self) -> u8; }',
    'improper': '#[automock] #[LEVEL(improper_ctypes)] pub mod md { extern "C" { pub fn f(x: &str) -> u8; } }',
    'uncallable': '#[automock] #[LEVEL(private_interfaces)] pub trait S { fn f(&self) -> u8; }',
    'dead': '#[automock] #[LEVEL(dead_code)] trait S { fn f(&self) -> u8; }',
}


# name: (declaration with a use of the original, a use of some of the mock)
RET = ' let mut m = MockS::new(); m.expect_f().return_const(1u8); m.f() '
USES = {
    'helper': ('pub struct S; #[automock] impl S { pub fn f(&self) -> u8 { self.g() + Self::h() } fn g(&self) -> u8 { 0 } fn h() -> u8 { 1 } fn r(&self) -> &u8 { &1 } fn i<T: \'static>(&self, _t: T) -> u8 { 2 } '
               'pub fn k(&mut self) -> u8 { self.i(0u8) + *self.r() + *self.m() } fn m(&mut self) -> &mut u8 { Box::leak(Box::new(0)) } }', ''),
    'trait': ('#[automock] trait S { fn f(&self) -> u8; fn g(&self, x: u8) -> u8; fn st(x: u8) -> u8; fn r(&self) -> &u8; fn gen<T: \'static>(&self, t: T) -> u8; fn d(&self) -> u8 { 0 } } struct A; '
              'impl S for A { fn f(&self) -> u8 { 0 } fn g(&self, x: u8) -> u8 { x } fn st(x: u8) -> u8 { x } fn r(&self) -> &u8 { &0 } fn gen<T: \'static>(&self, _t: T) -> u8 { 0 } } '
              'pub fn u() -> u8 { A.f() + A.g(0) + A::st(0) + *A.r() + A.gen(0u8) + A.d() }', RET),
    'gtrait': ('#[automock] trait S<T: \'static> { fn f(&self) -> u8; fn g(&self, t: T) -> T; fn st(t: T) -> T; } struct A; impl S<u8> for A { fn f(&self) -> u8 { 0 } fn g(&self, t: u8) -> u8 { t } fn st(t: u8) -> u8 { t } } '
               'pub fn u() -> u8 { A.f() + A.g(0) + A::st(0) }', RET.replace('MockS', 'MockS::<u8>')),
    'assoc': ('#[automock(type A = u8;)] trait S { type A; const K: u8 = 1; fn f(&self) -> Self::A; fn g(&self) -> u8; } struct A; '
              'impl S for A { type A = u8; fn f(&self) -> u8 { Self::K } fn g(&self) -> u8 { 0 } } pub fn u() -> u8 { A.f() + A.g() }', RET),
    'inherent': ('struct S; #[automock] impl S { fn f(&self) -> u8 { 0 } fn g(&self) -> u8 { 0 } fn st() -> u8 { 1 } const C: u8 = 1; fn r(&self) -> &u8 { &1 } fn own(self) -> u8 { 0 } } '
                 'pub fn u() -> u8 { S.f() + S.g() + S::st() + S::C + *S.r() + S.own() }', RET),
    'new': ('struct S(u8); #[automock] impl S { fn new(x: u8) -> Self { S(x) } fn f(&self) -> u8 { self.0 } fn g(&self) -> u8 { 0 } } pub fn u() -> u8 { S::new(0).f() + S::new(0).g() }',
            ' let mut m = MockS::default(); m.expect_f().return_const(1u8); m.f() '),
    'traitimpl': ('trait Im { fn f(&self) -> u8; fn g(&self) -> u8; } struct S; #[automock] impl Im for S { fn f(&self) -> u8 { 0 } fn g(&self) -> u8 { 0 } } pub fn u() -> u8 { S.f() + S.g() }', RET),
    'module': ('#[automock] mod md { pub fn f() -> u8 { P } pub fn g() -> u8 { p() as B } fn p() -> u8 { G + nn::X } pub const K: u8 = 1; const P: u8 = 2; type B = u8; pub type C = u8; pub static G: u8 = 1; static H: u8 = 1; '
               'pub fn q() -> u8 { H } use super::nn; pub use super::nn::Y; } mod nn { pub const X: u8 = 1; pub const Y: u8 = 1; } '
               'pub fn u() -> u8 { let x: md::C = md::f() + md::g() + md::q() + md::K; x + md::Y }',
               ' let c = mock_md::f_context(); c.expect().return_const(1u8); mock_md::f() '),
    'pubmodule': ('#[automock] pub mod md { pub fn f() -> u8 { P as B + p() } fn p() -> u8 { 0 } const P: u8 = 2; type B = u8; static G: u8 = 1; pub fn g() -> u8 { G } }', ''),
    'cratemodule': ('#[automock] pub(crate) mod md { pub(crate) fn f() -> u8 { P } const P: u8 = 1; pub(crate) fn g() -> u8 { 0 } pub(super) fn h() -> u8 { 0 } } pub fn u() -> u8 { md::f() + md::g() + md::h() }',
                    ' let c = mock_md::f_context(); c.expect().return_const(1u8); mock_md::f() '),
    'foreign': ('#[automock] mod md { extern "C" { pub fn uf() -> u8; pub fn ug(x: u8) -> u8; } } pub fn u() -> u8 { unsafe { md::uf() + md::ug(0) } }',
                ' let c = mock_md::uf_context(); c.expect().return_const(1u8); unsafe { mock_md::uf() } '),
    'manual': ('trait T { fn h(&self) -> u8; fn i(&self) -> u8; } struct A; impl T for A { fn h(&self) -> u8 { 0 } fn i(&self) -> u8 { 0 } } pub fn u() -> u8 { A.h() + A.i() } '
               'mock!{ S { fn f(&self) -> u8; fn g(&self) -> u8; fn st() -> u8; } impl T for S { fn h(&self) -> u8; fn i(&self) -> u8; } impl Clone for S { fn clone(&self) -> Self; } }', RET),
    'super': ('trait T { fn h(&self) -> u8; } #[automock] trait S: Send { fn f(&self) -> u8; } struct A; impl T for A { fn h(&self) -> u8 { 0 } } impl S for A { fn f(&self) -> u8 { 0 } } pub fn u() -> u8 { A.h() + A.f() }', RET),
    'conc': ('#[automock] trait S { fn f(&self) -> u8; #[concretize] fn c<T: AsRef<str>>(&self, x: &[T]) -> u8; #[concretize] fn d<T: AsRef<str>>(&self, x: T) -> u8; } struct A; '
             'impl S for A { fn f(&self) -> u8 { 0 } fn c<T: AsRef<str>>(&self, x: &[T]) -> u8 { x.len() as u8 } fn d<T: AsRef<str>>(&self, x: T) -> u8 { x.as_ref().len() as u8 } } pub fn u() -> u8 { A.f() + A.c(&["a"]) + A.d("b") }', RET),
}


def warnings(R, prop, tier):
    r = R[prop]
    r.explanation = EXPL
    tc = build.STABLE
    build.base(tc, False)
    ts = texts()
    decl, pl = {}, {}
    for n, (l, t, *use) in enumerate(ts):
        d = whole.documented(t)
        w = '/** d */ pub fn w() -> u8 {%s}' % use[0] if use and use[0] else ''
        decl[l] = '/** d */ pub mod u%d { %s %s %s }' % (n, PRE, d, w)
        pl[l] = '/** d */ pub mod u%d { %s %s }' % (n, PRE, whole.plain(d))
    N = 8

    def part(ds, i, tag):
        ks = [k for j, k in enumerate(ds) if j % N == i]
        return wits.errors(HEAD, {k: ds[k] for k in ks}, [], 'c30%s%d' % (tag, i), tc, False)
    A, B, drop = {}, {}, {}
    with cf.ThreadPoolExecutor(8) as ex:
        fa = [ex.submit(part, decl, i, 'm') for i in range(N)]
        fb = [ex.submit(part, pl, i, 'p') for i in range(N)]
        for f in fa:
            d, _, w = f.result()
            drop.update(d)
            A.update(w)
        pdrop = {}
        for f in fb:
            d, _, w = f.result()
            pdrop.update(d)
            B.update(w)
    for l, t, *use in ts:
        r.count('declarations')
        if l in pdrop and l.startswith('place.'):
            continue    # the attribute has no place there
        if l in pdrop:
            r.undecided('%s does not compile by itself: %s' % (l, pdrop[l][0]))
            continue
        if l in drop:
            r.undecided('%s: mock does not compile: %s' % (l, drop[l][0]))
            continue
        a, b = collections.Counter(A.get(l, [])), collections.Counter(B.get(l, []))
        new = sorted((x for x in a if x not in b), key=str)
        if b:
            r.count('declarations with warnings of their own')
        r.ok(not new, l, 'the mock of `%s` adds the warning %s: %s' % (t, new[0][0] if new else '', new[0][1] if new else ''), '%s: no added warnings' % l)
