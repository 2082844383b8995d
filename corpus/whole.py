"""Whole declarations: generics, associated items, supertraits, several traits,
and so on.  (label, kind, text, new): kind says how originals and mocks pair up;
new: where `new` comes from ('gen' generated, 'own' declared, 'none')."""
import re

WHOLE = []


def add(label, kind, text, new='gen'):
    WHOLE.append((label, kind, text, new))


# automock of traits
add('A-empty', 'A', '#[automock] pub trait S {}')
add('A-gen', 'A', "#[automock] pub trait S<T: 'static> { fn f(&self, t: T) -> T; fn g(&self) -> &T; }")
add('A-gen2', 'A', "#[automock] pub trait S<T: Clone + 'static, U: 'static> where U: Default { fn f(&self, t: T, u: &U) -> (T, U); fn m(&mut self) -> &mut U; }")
add('A-genmeth', 'A', "#[automock] pub trait S<T: 'static> { fn f<X: 'static>(&self, t: T, x: X) -> T; }")
add('A-genstatic', 'A', "#[automock] pub trait S<T: 'static> { fn f(t: T) -> u8; }")
add('A-super', 'A', '#[automock] pub trait S: Send + Sync { fn f(&self) -> u8; }')
add('A-superstatic', 'A', "#[automock] pub trait S: Send + 'static { fn f(&self, x: u8) -> u8; }")
add('A-supersized', 'A', "#[automock] pub trait S: Sized { fn f(self) -> Self; fn g(x: u8) -> Self; }")
add('A-unsafe', 'A', '#[automock] pub unsafe trait S { fn f(&self); unsafe fn g(&self, p: *const u8) -> u8; }')
add('A-assoc', 'A', '#[automock(type A=u32;)] pub trait S { type A; fn f(&self) -> Self::A; fn g(&self, a: Self::A); }')
add('A-assoc2', 'A', '#[automock(type A=u32; type B=P;)] pub trait S { type A; type B: Clone; fn f(&self, b: Self::B) -> Self::A; fn g(a: Self::A) -> Option<Self::B>; }')
add('A-assocbound', 'A', '#[automock(type A=P;)] pub trait S { type A: Clone + Send; fn f(&self) -> Vec<Self::A>; fn g(&self) -> &Self::A; }')
SUBST = {'vec': 'Vec<X>', 'opt': 'Option<X>', 'ref': '&X', 'mut': '&mut X', 'arr': '[X; 2]', 'slice': '&[X]', 'tup': '(X, u8, X)', 'one': '(X,)', 'fn': 'fn(X) -> X', 'ptr': '*const X',
         'iter': 'Box<dyn Iterator<Item = X> + Send>', 'obt': 'Box<dyn ObT<X>>', 'res': 'Result<Vec<X>, Q<X>>', 'map': 'std::collections::BTreeMap<X, Option<X>>',
         'phantom': 'std::marker::PhantomData<(X, [X; 1])>', 'rc': 'std::sync::Arc<X>', 'env': 'super::env::Q<X>', 'constq': 'Option<[X; 3]>', 'iters': "Box<dyn Iterator<Item = (X, Option<X>)> + Send + 'static>"}
for _l, _x in SUBST.items():
    for _w, _a in (('self', 'Self::A'), ('qself', '<Self as S>::A')):
        add('A-subst-%s-%s' % (_l, _w), 'A', '#[automock(type A=u32;)] pub trait S { type A; fn f(&self) -> %s; fn g(&self, a: %s) -> u8; }' % (_x.replace('X', _a).replace('&mut', '&') if _l == 'mut' else _x.replace('X', _a), _x.replace('X', _a)))
    add('E-subst-' + _l, 'E', 'pub trait T { type A; fn f(&self) -> %s; fn g(&self, a: %s) -> u8; } pub struct S; #[automock] impl T for S { type A = u32; fn f(&self) -> %s { loop {} } fn g(&self, a: %s) -> u8 { 0 } }' % (
        ((_x.replace('X', 'Self::A').replace('&mut', '&') if _l == 'mut' else _x.replace('X', 'Self::A')), _x.replace('X', 'Self::A')) * 2))
add('A-assoc-names', 'A', '#[automock(type Loc=u32; type H=u8;)] pub trait S { type Loc; type H; fn f(&self, x: Loc, y: here::H) -> Self::Loc; fn g(&self, x: Vec<Loc>, h: Self::H) -> Option<here::H>; fn h(&self, x: &Loc) -> Loc; }')
add('A-assoc-bounds', 'A', "#[automock(type A=u32; type B=P;)] pub trait S { type A: Clone + Send + Sync + Into<u64> + 'static; type B: Clone + PartialEq + Default; fn f(&self, x: Self::B) -> Self::A; }")
add('A-assoc-generic', 'A', "#[automock(type A=u32; type B=P;)] pub trait S<T: 'static> { type A; type B; fn f(&self, x: Self::A) -> Self::B; fn g<U: 'static>(&self, x: Option<Self::A>, u: U) -> T; }")
add('A-const', 'A', '#[automock] pub trait S { const C: u32 = 3; fn f(&self) -> u32; }')
add('A-new', 'A', '#[automock] pub trait S { fn new() -> Self where Self: Sized; fn f(&self); }', 'own')
add('A-newargs', 'A', '#[automock] pub trait S: Sized { fn new(x: u8) -> Self; fn f(&self); }', 'own')
add('A-newref', 'A', '#[automock] pub trait S { fn new(&self) -> u8; }', 'own')
add('A-newgen', 'A', "#[automock] pub trait S: Sized { fn new<T: 'static>(t: T) -> Self; }", 'own')
add('A-newer', 'A', '#[automock] pub trait S { fn newer(&self) -> u8; fn new_(&self); fn renew(); }')
add('A-provided', 'A', '#[automock] pub trait S { fn f(&self) -> u8 { 3 } fn g(&self, x: u8) -> u8 { x } fn h() -> u8 where Self: Sized { 1 } }')
add('A-wheres', 'A', "#[automock] pub trait S<T> where T: Clone + 'static { fn f(&self, t: T) where T: Send; fn g<X>(&self, x: X) where X: 'static, T: Sync; }")
add('A-many', 'A', '#[automock] pub trait S { %s }' % ' '.join('fn f%d(&self, x: u%d) -> u8;' % (i, (8, 16, 32, 64)[i % 4]) for i in range(20)))
add('A-multi', 'A', "#[automock] pub trait S { fn a(&self) -> u8; fn b(&mut self, x: &mut P); fn c() -> P; fn d<T: 'static>(&self, t: T) -> T; fn e(&self) -> &str; fn g(self: Box<Self>) -> Box<dyn Ob>; }")
add('A-priv', 'A', '#[automock] trait S { fn f(&self, x: u8) -> u8; fn s() -> u8 where Self: Sized; fn g<T: \'static>(&self, t: T) where Self: Sized; } pub fn used() { fn q<X: S>(x: X) { x.f(0); X::s(); x.g(0u8); } q(MockS::new()) }')
add('A-crate', 'A', '#[automock] pub(crate) trait S { fn f(&self, x: u8) -> u8; fn r(&self) -> &u8; fn m(&mut self) -> &mut u8; } pub fn used() { fn q<X: S>(mut x: X) { x.f(0); x.r(); x.m(); } q(MockS::new()) }')
add('A-rpitit', 'A', "#[automock] pub trait S { fn f(&self) -> impl Ob + 'static; fn g(&self, x: u8) -> impl std::future::Future<Output = u8> + Send + 'static; }")
# automock of inherent impls
add('B-empty', 'B', 'pub struct S; #[automock] impl S { }')
add('B-gen', 'B', "pub struct S<T: 'static>(pub T); #[automock] impl<T: 'static> S<T> { pub fn f(&self, t: T) -> T { t } pub fn g(&self) -> &T { &self.0 } pub fn s(t: T) -> T { t } }")
add('B-gen2', 'B', "pub struct S<T, U>(pub T, pub U); #[automock] impl<T: Clone + 'static, U: 'static> S<T, U> where U: Default { pub fn f(&self, t: T) -> (T, U) { (t, U::default()) } pub fn m(&mut self) -> &mut U { &mut self.1 } pub fn x<X: 'static>(&self, x: X) -> X { x } }")
add('B-new', 'B', 'pub struct S(u8); #[automock] impl S { pub fn new(x: u8) -> Self { S(x) } pub fn f(&self) -> u8 { self.0 } }', 'own')
add('B-new0', 'B', 'pub struct S(u8); #[automock] impl S { #[allow(clippy::new_without_default)] pub fn new() -> Self { S(0) } pub fn f(&self) -> u8 { self.0 } }', 'own')
add('B-newopt', 'B', 'pub struct S(u8); #[automock] impl S { pub fn new(x: u8) -> Option<S> { Some(S(x)) } pub fn f(&self) -> u8 { self.0 } }', 'own')
add('B-newgen', 'B', "pub struct S<T: 'static>(pub T); #[automock] impl<T: 'static> S<T> { pub fn new(t: T) -> Self { S(t) } pub fn f(&self) {} }", 'own')
add('B-newer', 'B', "pub struct S(u8); #[automock] impl S { pub fn newer(&self) -> u8 { self.0 } pub fn new_with(x: u8) -> u8 { x } }")
add('B-newtyp', 'B', "pub struct S(u8); #[automock] impl S { pub fn new<T: Into<u8> + 'static>(t: T) -> Self { S(t.into()) } pub fn f(&self) -> u8 { self.0 } }", 'own')
add('B-newpriv', 'B', "pub struct S(u8); #[automock] impl S { fn new(x: u8) -> Self { S(x) } pub fn f(&self) -> u8 { self.0 } pub fn mk() -> Self { Self::new(0) } }", 'own')
add('B-const', 'B', 'pub struct S; #[automock] impl S { pub const C: u32 = 4; pub fn f(&self) -> u32 { Self::C } }')
add('B-mixed', 'B', "pub struct S; #[automock] impl S { pub fn f(&self) -> u8 { self.p() } fn p(&self) -> u8 { 0 } pub(crate) fn q(&self) -> u8 { Self::s() } fn s() -> u8 { 1 } pub fn all(&self) -> u8 { self.q() } }")
add('B-lt', 'B', "pub struct S<'a>(pub &'a u8); #[automock] impl<'a> S<'a> { pub fn f(&self, x: &'a P) -> u8 { let _ = x; 0 } }")
# automock of trait impls
add('C-plain', 'C', 'pub trait T { fn f(&self, x: u8) -> u8; fn s() -> u8; } pub struct S; #[automock] impl T for S { fn f(&self, x: u8) -> u8 { x } fn s() -> u8 { 0 } }')
add('C-assoc', 'C', 'pub trait T { type A; fn f(&self) -> Self::A; } pub struct S; #[automock] impl T for S { type A = u8; fn f(&self) -> Self::A { 0 } }')
add('C-gentrait', 'C', 'pub trait T<X> { fn f(&self, x: X) -> X; } pub struct S; #[automock] impl T<u8> for S { fn f(&self, x: u8) -> u8 { x } }')
add('C-genstruct', 'C', "pub trait T { fn f(&self, x: u8) -> u8; } pub struct S<Q: 'static>(pub Q); #[automock] impl<Q: 'static> T for S<Q> { fn f(&self, x: u8) -> u8 { x } }")
add('C-const', 'C', 'pub trait T { const C: u8; fn f(&self) -> u8; } pub struct S; #[automock] impl T for S { const C: u8 = 4; fn f(&self) -> u8 { 0 } }')
add('C-unsafe', 'C', 'pub unsafe trait T { fn f(&self); } pub struct S; #[automock] unsafe impl T for S { fn f(&self) {} }')
add('C-new', 'C', 'pub trait T: Sized { fn new() -> Self; } pub struct S; #[automock] impl T for S { fn new() -> Self { S } }', 'own')
# manual mocks
add('D-empty', 'D', 'mock!{ pub S { } }')
add('D-two', 'D', 'pub mod twin { pub struct MockS; impl MockS { pub fn f(&self, x: u8) -> u8 { x } pub fn g(&mut self) { } } } mock!{ pub S { pub fn f(&self, x: u8) -> u8; pub fn g(&mut self); } }')
add('D-gen', 'D', "pub mod twin { pub struct MockS<T: 'static>(pub T); impl<T: 'static> MockS<T> { pub fn f(&self, t: T) -> T { t } pub fn g(&self) -> &T { &self.0 } pub fn s(t: T) -> T { t } } } mock!{ pub S<T: 'static> { pub fn f(&self, t: T) -> T; pub fn g(&self) -> &T; pub fn s(t: T) -> T; } }")
add('D-gen2', 'D', "mock!{ pub S<T: Clone + 'static, U> where U: Default + 'static { pub fn f(&self, t: T) -> U; pub fn x<X: 'static>(&self, x: X, t: T) -> U; } }")
add('D-new', 'D', 'mock!{ pub S { pub fn new(x: u8) -> Self; pub fn f(&self) -> u8; } }', 'own')
add('D-new0', 'D', 'mock!{ pub S { pub fn new() -> Self; pub fn f(&self) -> u8; } }', 'own')
add('D-newref', 'D', 'mock!{ pub S { pub fn new(&self) -> u8; } }', 'own')
add('D-newer', 'D', 'mock!{ pub S { pub fn newer(&self) -> u8; pub fn new_s(x: u8); } impl Y for S { fn renew(&self); } } pub trait Y { fn renew(&self); }')
add('D-newtyp', 'D', "mock!{ pub S { pub fn new<T: 'static>(t: T) -> Self; } }", 'own')
add('D-const', 'D', 'mock!{ pub S { pub const C: u8 = 3; pub fn f(&self) -> u8; } }')
add('D-priv', 'D', 'mock!{ S { fn f(&self) -> u8; fn s() -> u8; } } pub fn used() { let m = MockS::new(); m.f(); MockS::s(); }')
add('D-lt', 'D', "mock!{ pub S<'a> { pub fn f(&self, x: &'a u8) -> u8; } }")
add('D-debug', 'D', 'mock!{ #[derive(Debug)] pub S { pub fn f(&self) -> u8; } }')
add('D-debuggen', 'D', "mock!{ #[derive(Debug)] pub S<T: 'static> { pub fn f(&self, t: T) -> u8; } }")
add('D-debug2', 'D', 'mock!{ #[derive(Clone, Debug)] pub S { pub fn f(&self) -> u8; } }')
add('D-debug3', 'D', 'mock!{ #[derive(Default)] #[derive(PartialEq, Debug, Eq)] #[allow(dead_code)] pub S { pub fn f(&self) -> u8; } }')
add('D-debugpath', 'D', 'mock!{ #[derive(Clone, std::fmt::Debug)] pub S { pub fn f(&self) -> u8; } }')
add('D-debugroot', 'D', 'mock!{ #[derive(::core::fmt::Debug)] pub S { pub fn f(&self) -> u8; } }')
add('D-nodebug', 'D', 'mock!{ #[derive(Clone, PartialEq)] #[doc = "derive(Debug)"] pub S { pub fn f(&self) -> u8; } }')
add('E-one', 'E', 'pub trait T { fn f(&self, x: u8) -> u8; fn s() -> u8; } mock!{ pub S { } impl T for S { fn f(&self, x: u8) -> u8; fn s() -> u8; } }')
add('E-two', 'E', 'pub trait T { fn f(&self, x: u8) -> u8; } pub trait Y { fn y(&self); } mock!{ pub S { pub fn z(&self); } impl T for S { fn f(&self, x: u8) -> u8; } impl Y for S { fn y(&self); } }')
add('E-super', 'E', 'pub trait Y { fn y(&self); } pub trait T: Y { fn f(&self, x: u8) -> u8; } mock!{ pub S { } impl T for S { fn f(&self, x: u8) -> u8; } impl Y for S { fn y(&self); } }')
add('E-gentrait', 'E', 'pub trait T<X> { fn f(&self, x: X) -> X; } mock!{ pub S { } impl T<u8> for S { fn f(&self, x: u8) -> u8; } }')
add('E-genstruct', 'E', "pub trait T { fn f(&self, x: u8) -> u8; } mock!{ pub S<Q: 'static> { pub fn z(&self, q: Q); } impl<Q: 'static> T for S<Q> { fn f(&self, x: u8) -> u8; } }")
add('E-genboth', 'E', "pub trait T<X> { fn f(&self, x: X) -> X; } mock!{ pub S<Q: Clone + 'static> { } impl<Q: Clone + 'static> T<Q> for S<Q> { fn f(&self, x: Q) -> Q; } }")
add('E-twice', 'E', 'pub trait T<X> { fn f(&self, x: X) -> u8; } mock!{ pub S<Q: \'static> { } impl T<u8> for S<u8> { fn f(&self, x: u8) -> u8; } impl T<u16> for S<u16> { fn f(&self, x: u16) -> u8; } }')
add('E-assoc', 'E', 'pub trait T { type A; fn f(&self) -> Self::A; } mock!{ pub S { } impl T for S { type A = u8; fn f(&self) -> u8; } }')
add('E-const', 'E', 'pub trait T { const C: u8; fn f(&self) -> u8; } mock!{ pub S { } impl T for S { const C: u8 = 4; fn f(&self) -> u8; } }')
add('E-unsafe', 'E', 'pub unsafe trait T { fn f(&self); } mock!{ pub S { } unsafe impl T for S { fn f(&self); } }')
add('E-new', 'E', 'pub trait T: Sized { fn new() -> Self; } mock!{ pub S { pub fn f(&self); } impl T for S { fn new() -> Self; } }', 'own')
add('E-clone', 'E', 'mock!{ pub S { pub fn f(&self); } impl Clone for S { fn clone(&self) -> Self; } }')
add('E-debug', 'E', 'pub trait T { fn f(&self, x: u8) -> u8; } mock!{ #[derive(Debug)] pub S { } impl T for S { fn f(&self, x: u8) -> u8; } }')
add('E-iter', 'E', 'mock!{ pub S { } impl Iterator for S { type Item = u8; fn next(&mut self) -> Option<u8>; } }')
add('E-fmt', 'E', "mock!{ pub S { } impl std::fmt::Display for S { fn fmt<'a>(&self, f: &mut std::fmt::Formatter<'a>) -> std::fmt::Result; } }")
add('E-marker', 'E', 'pub trait T {} mock!{ pub S { pub fn f(&self); } impl T for S { } }')
add('E-deref', 'E', 'mock!{ pub S { } impl std::ops::Deref for S { type Target = u8; fn deref(&self) -> &u8; } impl std::ops::DerefMut for S { fn deref_mut(&mut self) -> &mut u8; } }')
add('E-fromstr', 'E', 'mock!{ pub S { } impl std::str::FromStr for S { type Err = u8; fn from_str(s: &str) -> Result<Self, u8>; } }')
# modules
add('F-two', 'F', "#[automock] pub mod md { pub fn f(x: u8) -> u8 { x } pub fn g<T: 'static>(t: T) -> T { t } }")
add('F-items', 'F', '#[automock] pub mod md { pub use crate::env::P; pub const C: u8 = 1; pub type A = u8; pub fn f(x: A) -> P { let _ = x; P } pub fn g() -> u8 { C } }')
add('F-priv', 'F', '#[automock] mod md { pub fn f(x: u8) -> u8 { x } pub(super) fn g() -> u8 { h() } fn h() -> u8 { 0 } } pub fn used() { md::f(0); md::g(); }')
add('F-foreign', 'F', '#[automock] pub mod md { extern "C" { pub fn f(x: u8) -> u8; pub fn g(p: *const u8); } }')
add('F-use', 'F', '#[automock] pub mod md { use super::*; pub fn f(p: P) -> P { p } }')
add('F-unused', 'F', '#[automock] pub mod md { use std::collections::BTreeMap; pub fn f() -> usize { BTreeMap::<u8, u8>::new().len() } }')


def _news():
    """`new` declared in every position of every kind of declaration"""
    fs = ['pub fn f%d(&self) -> u8;' % i for i in range(3)]
    for n in (1, 2):
        for i in range(n + 1):
            ms = fs[:i] + ['pub fn new(x: u8) -> Self;'] + fs[i:n]
            body = lambda m: m.replace(';', ' { S(x) }' if ' new' in m else ' { 0 }')
            if i or n > 1:
                add('A-newpos%d%d' % (n, i), 'A', '#[automock] pub trait S: Sized { %s }' % ' '.join(m.replace('pub ', '') for m in ms), 'own')
                add('B-newpos%d%d' % (n, i), 'B', 'pub struct S(u8); #[automock] impl S { %s }' % ' '.join(body(m) for m in ms), 'own')
                add('C-newpos%d%d' % (n, i), 'C', 'pub trait T: Sized { %s } pub struct S(u8); #[automock] impl T for S { %s }'
                    % (' '.join(m.replace('pub ', '') for m in ms), ' '.join(body(m).replace('pub ', '') for m in ms)), 'own')
                add('D-newpos%d%d' % (n, i), 'D', 'mock!{ pub S { %s } }' % ' '.join(ms), 'own')
    for inh in (0, 1):
        for n in (1, 2, 3):
            for i in range(n + 1):
                for first in (0, 1):
                    if i == n and first:
                        continue
                    tr, im = [], []
                    for j in range(n):
                        ms = ['fn m%d(&self) -> u8;' % j]
                        if i == j:
                            ms.insert(0 if first else 1, 'fn new(x: u8) -> Self;')
                        tr.append('pub trait T%d: Sized { %s }' % (j, ' '.join(ms)))
                        im.append('impl T%d for S { %s }' % (j, ' '.join(ms)))
                    add('E-newpos%d%d%d%d' % (inh, n, i, first), 'E', '%s mock!{ pub S { %s } %s }' % (' '.join(tr), 'pub fn z(&self) -> u8;' if inh else '', ' '.join(im)),
                        'own' if i < n else 'gen')


_news()


# associated types, constants and implementations the mock must have
def const(c, t, v, tr='S'):
    return ('const X: %s = <MockS as %s>::%s; const _: () = assert!(matches!(X, %s));' % (t, tr, c, v), 'associated constant %s' % c)


def ty(a, t, tr='S'):
    return ('fn w() { crate::same::<<MockS as %s>::%s, %s>() }' % (tr, a, t), 'associated type %s' % a)


def im(tr, m='MockS', g=''):
    return ('fn q<X: %s>() {} fn w%s() { q::<%s>() }' % (tr, g, m), '%s implements %s' % (m, tr))


ITEMS = {
    'A-empty': [im('S')], 'A-gen': [im('S<u8>', 'MockS<u8>')],
    'A-super': [im('S'), im('Send + Sync')], 'A-unsafe': [im('S')], 'A-many': [im('S')],
    'A-assoc': [ty('A', 'u32')], 'A-assoc2': [ty('A', 'u32'), ty('B', 'crate::env::P')], 'A-assocbound': [ty('A', 'crate::env::P')],
    'A-const': [const('C', 'u32', '3')], 'A-provided': [im('S')], 'A-wheres': [im('S<u8>', 'MockS<u8>')],
    'B-const': [('const X: u32 = MockS::C; const _: () = assert!(X == 4);', 'inherent constant C')],
    'C-plain': [im('T')], 'C-assoc': [ty('A', 'u8', 'T')], 'C-gentrait': [im('T<u8>')], 'C-genstruct': [im('T', 'MockS<u8>')],
    'C-const': [const('C', 'u8', '4', 'T')], 'C-unsafe': [im('T')],
    'D-const': [('const X: u8 = MockS::C; const _: () = assert!(X == 3);', 'inherent constant C')],
    'E-one': [im('T')], 'E-two': [im('T'), im('Y')], 'E-super': [im('T + Y')], 'E-gentrait': [im('T<u8>')], 'E-genstruct': [im('T', 'MockS<u8>')],
    'E-genboth': [im('T<u8>', 'MockS<u8>')], 'E-twice': [im('T<u8>', 'MockS<u8>'), im('T<u16>', 'MockS<u16>')], 'E-assoc': [ty('A', 'u8', 'T')],
    'E-const': [const('C', 'u8', '4', 'T')], 'E-unsafe': [im('T')], 'E-new': [im('T')], 'E-clone': [im('Clone')], 'E-iter': [ty('Item', 'u8', 'Iterator')],
    'E-fmt': [im('std::fmt::Display')], 'E-marker': [im('T')], 'E-deref': [ty('Target', 'u8', 'std::ops::Deref'), im('std::ops::DerefMut')],
    'E-fromstr': [ty('Err', 'u8', 'std::str::FromStr')],
}


DOCABLE = re.compile(r'''(?<![\w>)&*])((?:pub(?:\([^)]*\))? )?(?:unsafe |async |extern "[^"]*" )*(?:fn|trait|struct|mod|type|const) (?!N\b)[a-zA-Z])''')


def documented(t):
    t = DOCABLE.sub(r'/** d */ \1', t)
    t = re.sub(r'((?:#\[[^\]]*\] )+)/\*\* d \*/ ', r'/** d */ \1', t)
    t = re.sub(r'mock!\{ ((?:#\[[^\]]*\] )*)(pub |S)', r'mock!{ \1/** d */ \2', t)
    return re.sub(r'(automock\([^)]*\))', lambda m: m.group(0).replace('/** d */ ', ''), t)


def plain(t):
    """the text without its mocks"""
    while 'mock!{' in t:
        a = t.index('mock!{')
        d, i = 0, a + 5
        while True:
            d += (t[i] == '{') - (t[i] == '}')
            i += 1
            if d == 0:
                break
        t = t[:a] + t[i:]
    t = re.sub(r'#\[(automock(\([^)]*\))?|concretize)\] ?', '', t)
    return re.sub(r'(/\*\* d \*/ )?pub fn used\(\) \{ let m = MockS.*', '', t).replace('q(MockS::new())', 'struct Z; let _ = Z;')
