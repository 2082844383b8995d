"""Declarations the macros are applied to, for the interface analyses.

A unit is one module `u<N>` holding one original declaration and its mock.  The
methods of METHODS are combined with every kind of declaration that can hold
them."""

HEAD = '''#![allow(dead_code, unused, non_camel_case_types, unsafe_op_in_unsafe_fn)]
#![allow(refining_impl_trait, async_fn_in_trait)]
pub mod env {
    #[derive(Debug, Clone, Default, PartialEq)] pub struct P;
    pub struct Q<T: ?Sized>(pub Box<T>);
    pub struct L<'a>(pub &'a u8);
    pub trait Tr { type A; }
    impl Tr for P { type A = u16; }
    pub trait Ob: Send { fn ob(&self) -> u8; }
    impl Ob for P { fn ob(&self) -> u8 { 0 } }
    impl Ob for Box<dyn Ob> { fn ob(&self) -> u8 { 0 } }
    pub trait ObT<T> { fn obt(&self) -> T; }
    impl<T> Tr for Q<T> { type A = u32; }
    pub trait Tr2<T> { type A2; }
    impl Tr2<P> for P { type A2 = i16; }
    pub const NC: usize = 3;
    pub const fn wf(n: usize) -> usize { n }
    pub struct CG<const N: usize>;
    pub trait ObL<'a>: Send { fn obl(&self) -> &'a u8; }
    impl<'a> Tr for L<'a> { type A = i64; }
    pub trait Stream { type Item; }
    impl Stream for P { type Item = u8; }
    impl<S: Stream + ?Sized> Stream for std::pin::Pin<Box<S>> { type Item = S::Item; }
    pub mod deep { #[derive(Debug, Clone)] pub struct D; }
}
'''

PRE = '''    use mockall::*;
    use crate::env::*;
    #[derive(Debug, Clone, Default)] pub struct Loc;
    pub mod here { #[derive(Debug, Clone)] pub struct H; }
'''


class M:
    """one method: text with %% for its name"""
    def __init__(self, label, text, kinds='ABCDEF', attrs=''):
        self.label = label
        self.text = text
        self.kinds = kinds
        self.attrs = attrs


ARGS = [
    ('u32', 'x: u32'), ('P', 'x: P'), ('refP', 'x: &P'), ('mutP', 'x: &mut P'), ('str', 'x: &str'), ('slice', 'x: &[u8]'),
    ('mutslice', 'x: &mut [P]'), ('array', 'x: [P; 3]'), ('tuple', 'x: (P, u8)'), ('ptr', 'x: *const P'), ('mutptr', 'x: *mut P'), ('barefn', 'x: fn(P, u8) -> P'),
    ('boxdyn', 'x: Box<dyn Ob>'), ('refdyn', 'x: &dyn Ob'), ('boxfn', 'x: Box<dyn Fn(P) -> u8 + Send>'), ('nested', 'x: Vec<Option<Q<P>>>'),
    ('assoc', 'x: <P as Tr>::A'), ('assocq', 'x: <Q<P> as Tr>::A'), ('path', 'x: &std::path::Path'), ('optref', "x: Option<&'static P>"),
    ('lt', "x: L<'static>"), ('reftuple', 'x: &(P, u8)'), ('refarray', 'x: &[P; 2]'), ('refref', "x: &&'static P"), ('dyngen', 'x: Box<dyn ObT<P>>'),
    ('crate', 'x: crate::env::deep::D'), ('self', 'x: self::Loc'), ('here', 'x: here::H'), ('super', 'x: super::env::P'), ('supernest', 'x: Vec<super::env::P>'),
    ('refsuper', 'x: &super::env::P'), ('slicesuper', 'x: &[super::env::P]'), ('arrsuper', 'x: [super::env::P; 2]'), ('tupsuper', 'x: (super::env::P, u8)'),
    ('ptrsuper', 'x: *const super::env::P'), ('dynsuper', 'x: Box<dyn super::env::Ob>'), ('dynsupergen', 'x: Box<dyn super::env::ObT<super::env::P>>'),
    ('superassoc', 'x: <super::env::P as super::env::Tr>::A'), ('fnsuper', 'x: fn(super::env::P) -> super::env::P'),
    ('two', 'x: u8, y: u16'), ('three', 'x: u8, y: u16, z: u32'), ('seven', 'a: u8, b: u16, c: u32, d: u64, e: i8, g: i16, h: i32'), ('mixed', 'x: &P, y: u8, z: &mut P, w: &str'),
    ('raw', 'r#type: u32'), ('fnarg', 'x: Box<dyn FnOnce(super::env::P) -> super::env::P + Send>'),
    ('superarg', 'x: <P as super::env::Tr2<super::env::P>>::A2'), ('superlen', 'x: [u8; super::env::NC]'), ('supersum', 'x: &[P; (super::env::NC) + super::env::wf(1)]'),
    ('superconst', 'x: super::env::CG<{ super::env::NC }>'), ('superfnlen', 'x: fn([u8; super::env::NC]) -> [P; -1i8 as u8 as usize * super::env::NC]'),
    ('itersuper', 'x: Box<dyn Iterator<Item = super::env::P> + Send>'), ('superassocb', 'x: Box<dyn super::env::Stream<Item = super::env::P> + Send>'),
    ('arrlen', 'x: [u8; { 1 + 2 }]'), ('impltup', 'x: (&P, u8)'),
]
RETS = [
    ('unit', ''), ('u32', 'u32'), ('P', 'P'), ('refP', '&P'), ('mutP', '&mut P'), ('str', '&str'), ('slice', '&[u8]'), ('sstr', "&'static str"), ('sP', "&'static P"),
    ('optsref', "Option<&'static P>"), ('optref', 'Option<&P>'), ('refopt', '&Option<P>'), ('result', 'Result<P, String>'), ('boxdyn', 'Box<dyn Ob>'), ('refdyn', '&dyn Ob'),
    ('path', '&std::path::Path'), ('osstr', '&std::ffi::OsStr'), ('cstr', '&std::ffi::CStr'), ('never', '!'), ('ptr', '*const P'), ('tuple', '(P, u8)'), ('array', '[P; 2]'),
    ('impl', 'impl Ob + \'static'), ('implsend', 'impl std::fmt::Debug + Send + \'static'), ('fut', 'impl std::future::Future<Output = P>'), ('super', 'super::env::P'), ('supernest', 'Option<super::env::P>'),
    ('assoc', '<P as Tr>::A'), ('anon', "L<'_>"), ('barefn', 'fn(P) -> P'), ('refslicegen', '&[Q<P>]'), ('mutslice', '&mut [P]'), ('mutstr', '&mut str'), ('refvec', '&Vec<P>'),
    ('refsuper', '&super::env::P'), ('nested', 'Vec<Option<Q<P>>>'), ('superlen', '[u8; super::env::NC]'), ('refsuperlen', '&[u8; super::env::NC]'),
    ('superarg', '<P as super::env::Tr2<super::env::P>>::A2'), ('itersuper', 'Box<dyn Iterator<Item = super::env::P>>'),
    ('fnanon', "fn(L<'_>) -> L<'_>"), ('boxfnanon', "Box<dyn Fn(L<'_>) -> u8>"), ('boxfn', 'Box<dyn Fn(super::env::P) -> u8>'), ('optanonref', "Option<&'_ P>"), ('nestanon', "Result<Vec<(L<'_>, [Q<L<'_>>; 2])>, String>"), ('assocanon', "<L<'_> as Tr>::A"), ('vecanon', "Vec<L<'_>>"), ('tupanon', "(L<'_>, u8)"), ('stream', "impl Stream<Item = u8> + 'static"),
]
SELFT = [('Self', 'Self'), ('boxSelf', 'Box<Self>'), ('optSelf', 'Option<Self>'), ('resSelf', 'Result<Self, String>'), ('tupSelf', '(u8, Self)'), ('vecSelf', 'Vec<Self>'), ('nestSelf', 'Option<Box<Self>>'),
         ('arrSelf', '[Self; 2]'), ('ptrSelf', '*const Self'), ('fnSelf', 'fn(u8) -> Self'), ('boxfnSelf', 'Box<dyn Fn(u8) -> Self>'), ('assocSelf', '<Q<Self> as Tr>::A'), ('dynSelf', 'Box<dyn ObT<Self>>'), ('iterSelf', 'Box<dyn Iterator<Item = Self>>')]
SELFA = [('Self', 'x: Self'), ('refSelf', 'x: &Self'), ('boxSelf', 'x: Box<Self>'), ('optSelf', 'x: Option<Self>'), ('tupSelf', 'x: (u8, Self)'), ('sliceSelf', 'x: &[Self]'), ('ptrSelf', 'x: *const Self'),
         ('fnSelf', 'x: fn(Self) -> u8'), ('dynSelf', 'x: Box<dyn ObT<Self>>'), ('arrSelf', 'x: [Self; 2]'), ('boxfnSelf', 'x: Box<dyn Fn(Self) -> u8 + Send>'), ('iterSelf', 'x: Box<dyn Iterator<Item = Self> + Send>')]
RECV = [('ref', '&self'), ('mut', '&mut self'), ('own', 'self'), ('box', 'self: Box<Self>'), ('rc', 'self: std::rc::Rc<Self>'), ('arc', 'self: std::sync::Arc<Self>'),
        ('pinmut', 'self: std::pin::Pin<&mut Self>'), ('pinbox', 'self: std::pin::Pin<Box<Self>>'), ('tref', 'self: &Self'), ('tmut', 'self: &mut Self'), ('lt', "&'a self"), ('static', '')]


def methods():
    out = []
    def add(label, text, kinds='ABCDEF', attrs=''):
        out.append(M(label, text, kinds, attrs))
    for l, a in ARGS:
        add('arg-' + l, 'fn %%(&self, ' + a + ') -> u8', 'BDE' if l == 'superarg' else 'ABDE')
        add('sarg-' + l, 'fn %%(' + a + ') -> u8', 'BDF')
    for l, r in RETS:
        if l in ('optref', 'anon', 'optanonref', 'nestanon', 'assocanon', 'vecanon', 'tupanon'):
            add('ret-' + l, 'fn %%(&self) -> ' + r, 'ABCDE')
            continue
        add('ret-' + l, 'fn %%(&' + ('mut ' if '&mut' in r else '') + 'self)' + (' -> ' + r if r else ''), 'BDE' if l == 'superarg' else 'ABCDE')
        if not (r.startswith('&') and 'static' not in r):
            add('sret-' + l, 'fn %%()' + (' -> ' + r if r else ''), 'BDF')
    for l, t in SELFT:
        add('self-ret-' + l, 'fn %%(&self) -> ' + t + (' where Self: Sized' if False else ''), 'ABDE')
        add('self-new-' + l, 'fn %%(x: u8) -> ' + t, 'ABDE')
    for l, a in SELFA:
        add('self-arg-' + l, 'fn %%(&self, ' + a + ') -> u8', 'ABDE')
    for l, r in RECV:
        if l == 'lt':
            add('recv-lt', "fn %%<'a>(&'a self, x: u8) -> u8", 'ABCDE')
        else:
            add('recv-' + l, 'fn %%(' + ', '.join(x for x in (r, 'x: u8') if x) + ') -> u8', 'ABCDE' + ('F' if l == 'static' else ''))
    G = [
        ('T', "fn %%%%<T: 'static>(%s, t: T) -> u8"), ('TU', "fn %%%%<T: 'static, U: Clone + 'static>(%s, t: T, u: U) -> u8"), ('where', "fn %%%%<T: 'static>(%s, t: T) -> u8 where T: Clone + Send"),
        ('ret', "fn %%%%<T: 'static>(%s) -> T"), ('TUV', "fn %%%%<T: 'static, U: 'static, V: 'static>(%s, t: T, u: U, v: V) -> V"), ('nest', "fn %%%%<T: 'static>(%s, t: Vec<Option<T>>) -> Option<T>"),
        ('life', "fn %%%%<'a>(%s, x: &'a P) -> u8"), ('life2', "fn %%%%<'a, 'b>(%s, x: &'a P, y: &'b P) -> u8"), ('lifeT', "fn %%%%<'a, T: 'static>(%s, x: &'a P, t: T) -> u8"),
        ('lifebound', "fn %%%%<'a, 'b: 'a>(%s, x: &'a P, y: &'b P) -> u8"), ('lifeL', "fn %%%%<'a>(%s, x: L<'a>) -> u8"), ('refT', "fn %%%%<T: 'static>(%s, t: &T) -> u8"), ('bound', "fn %%%%<T: std::fmt::Debug + PartialEq<P> + 'static>(%s, t: T) -> u8"),
        ('assocbound', "fn %%%%<T: Tr<A = u8> + 'static>(%s, t: T) -> u8"), ('assocarg', "fn %%%%<T: Tr + 'static>(%s, t: T::A) -> u8 where T::A: 'static"), ('hrtb', "fn %%%%<T: 'static>(%s, t: T) -> u8 where for<'c> T: PartialEq<L<'c>>"),
        ('const', "fn %%%%<const N: usize>(%s, t: [u8; N]) -> u8"), ('unsized', "fn %%%%<T: ?Sized + 'static>(%s, t: Box<T>) -> u8"), ('super', "fn %%%%<T: super::env::Tr + 'static>(%s, t: T) -> u8"),
        ('wheresuper', "fn %%%%<T: 'static>(%s, t: T) -> u8 where super::env::Q<T>: super::env::Tr"), ('wherearg', "fn %%%%<T: 'static>(%s, t: T) -> u8 where Vec<super::env::Q<T>>: Clone"),
        ('wherebound', "fn %%%%<T: 'static>(%s, t: T) -> u8 where T: super::env::Tr2<super::env::P, A2 = super::env::P>"), ('inlarg', "fn %%%%<T: super::env::Tr2<super::env::P> + 'static>(%s, t: T) -> u8"),
        ('unused', "fn %%%%<T: 'static>(%s, x: u8) -> u8"),
    ]
    for l, t in G:
        add('gen-' + l, t % '&self', 'ABDE')
        add('sgen-' + l, (t % '').replace('(, ', '(').replace('(, )', '()').replace('()', '()'), 'BDF')
    add('gen-refret', "fn %%<T: 'static>(&self, t: T) -> &T", 'BD')
    add('gen-refretmut', "fn %%<T: 'static>(&mut self, t: T) -> &mut T", 'BD')
    add('conc', 'fn %%<T: AsRef<P> + \'static>(&self, t: T) -> u8', 'ABDE', '#[concretize]')
    add('conc-ref', 'fn %%<T: AsRef<P>>(&self, t: &T) -> u8', 'ABDE', '#[concretize]')
    add('conc-fn', 'fn %%<F: Fn(P) -> u8>(&self, f: F) -> u8', 'ABDE', '#[concretize]')
    add('unsafe', 'unsafe fn %%(&self, x: u8) -> u8', 'ABDE')
    add('sunsafe', 'unsafe fn %%(x: u8) -> u8', 'ABDEF')
    add('externc', 'extern "C" fn %%(x: u8) -> u8', 'BDF')
    add('unsafeexternc', 'unsafe extern "C" fn %%(x: u8) -> u8', 'BDF')
    add('extern-system', 'extern "system" fn %%(&self, x: u8) -> u8', 'ABDE')
    add('async', 'async fn %%(&self, x: u8) -> u8', 'ABDE')
    add('async-ref', 'async fn %%(&self, x: &P) -> u8', 'ABDE')
    add('sasync', 'async fn %%(x: u8) -> u8', 'BDF')
    add('async-unit', 'async fn %%(&self)', 'ABDE')
    add('mutarg', 'fn %%(&self, mut x: u32) -> u8', 'BD')
    add('mutown', 'fn %%(mut self, x: u32) -> u8', 'BD')
    add('wherself', 'fn %%(&self, x: u8) -> u8 where Self: Sized', 'ADE')
    add('provided', 'fn %%(&self, x: u8) -> u8 { 3 }', 'A')
    add('sprovided', 'fn %%(x: u8) -> u8 where Self: Sized { 3 }', 'A')
    add('provgen', "fn %%<T: 'static>(&self, x: T) -> u8 { 3 }", 'A')
    return out


KINDS = {
    'A': 'automock of a trait', 'B': 'automock of an inherent impl', 'C': 'automock of a trait impl',
    'D': 'mock! inherent method', 'E': 'mock! trait method', 'F': 'automock of a module',
}


def unit(n, k, m, name='f', vis='pub'):
    """source of the unit, or None"""
    t = m.text.replace('%%', name)
    body = '' if '{ 3 }' in t else ';'
    imp = t if '{ 3 }' in t else t + (' { P }' if '-> impl Ob' in t or '-> impl Str' in t else ' { 0u8 }' if '-> impl std::fmt' in t else ' { std::future::ready(P) }' if '-> impl std::fut' in t else ' { unimplemented!() }')
    at = (m.attrs + ' ') if m.attrs else ''
    if k == 'A':
        s = '#[automock] pub trait S: Sized { %s%s%s }' % (at, t, body)
    elif k == 'B':
        s = 'pub struct S; #[automock] impl S { %spub %s }' % (at, imp)
    elif k == 'C':
        s = 'pub trait T: Sized { %s; } pub struct S; #[automock] impl T for S { %s%s }' % (t, at, imp.replace('impl Ob', 'impl Ob'))
    elif k == 'D':
        s = 'pub mod twin { use super::{here, Loc, super::env::*}; pub struct MockS; impl MockS { pub %s } }' % imp.replace('super::env', 'crate::env').replace('self::Loc', 'super::Loc')
        s += '\n    mock!{ pub S { %spub %s; } }' % (at, t)
    elif k == 'E':
        s = 'pub trait T: Sized { %s; }\n    mock!{ pub S {} impl T for S { %s%s; } }' % (t, at, t)
    elif k == 'F':
        s = '#[automock] pub mod md { use super::*; %spub %s }' % (at, imp.replace('self::Loc', 'super::Loc').replace('super::env', 'super::super::env'))
    lead = 'pub mod u%d { // %s %s\n' % (n, k, m.label)
    return lead + PRE + '    ' + s + '\n}\n'


# Declarations outside the supported language: the macro rejects them, or the
# expansion does not compile.  (label, kinds) -> why
UNSUPPORTED = {
    ('sarg-refdyn', 'F'): 'trait object references in free functions need an explicit lifetime',
    ('arg-boxfn', 'A'): 'Fn objects in traits: issue #139', ('arg-fnarg', 'A'): 'Fn objects in traits: issue #139',
    ('self-ret-boxfnSelf', 'A'): 'Fn objects in traits: issue #139', ('self-new-boxfnSelf', 'A'): 'Fn objects in traits: issue #139',
    ('ret-boxfn', 'AC'): 'Fn objects in traits: issue #139', ('ret-boxfnanon', 'AC'): 'Fn objects in traits: issue #139',
    ('self-arg-boxfnSelf', 'A'): 'Fn objects in traits: issue #139',
    ('arg-assoc', 'A'): 'qualified paths in traits', ('arg-assocq', 'A'): 'qualified paths in traits', ('arg-superassoc', 'A'): 'qualified paths in traits',
    ('ret-assoc', 'AC'): 'qualified paths in traits', ('ret-assocanon', 'AC'): 'qualified paths in traits', ('self-ret-assocSelf', 'A'): 'qualified paths in traits', ('self-new-assocSelf', 'A'): 'qualified paths in traits',
    ('arg-impltup', 'ABDE'): 'references inside other argument types need a named lifetime', ('sarg-impltup', 'BDF'): 'same',
    ('ret-optref', 'ABCDE'): 'non-static references inside other return types',
    ('ret-path', 'ABCDE'): 'only the bare names Path, OsStr and CStr are recognised', ('ret-osstr', 'ABCDE'): 'same', ('ret-cstr', 'ABCDE'): 'same',
    ('gen-lifeT', 'ABDE'): 'lifetime and type parameters together', ('sgen-lifeT', 'BDF'): 'same',
    ('gen-lifebound', 'ABDE'): 'lifetime bounds', ('sgen-lifebound', 'BDF'): 'same',
    ('gen-hrtb', 'ABDE'): 'higher-ranked bounds', ('sgen-hrtb', 'BDF'): 'same',
    ('gen-const', 'ABDE'): 'const generics', ('sgen-const', 'BDF'): 'same',
}


def all_units():
    out = []
    for m in methods():
        for k in m.kinds:
            if not any(m.label == l and k in ks for l, ks in UNSUPPORTED):
                out.append((k, m))
    return out


def source(sel=None):
    us = all_units()
    txt = HEAD
    index = {}     # line -> unit number
    ln = txt.count('\n') + 1
    for n, (k, m) in enumerate(us):
        if sel is not None and n not in sel:
            continue
        s = unit(n, k, m)
        for i in range(s.count('\n')):
            index[ln + i] = n
        ln += s.count('\n')
        txt += s
    return txt, index, us
