"""C29: what reference-returning methods are configured with."""
from wits import W

HEAD = '''#![allow(dead_code, unused)]
pub mod env {
    #[derive(Debug, Clone, Default, PartialEq)] pub struct P;
    pub struct Q<T: ?Sized>(pub Box<T>);
    pub trait Ob: Send + Sync { fn ob(&self) -> u8; }
    pub trait Ot<T>: Send + Sync { }
    pub mod deep { #[derive(Debug, Clone)] pub struct D; }
    #[derive(Clone)] pub struct Wrong;
}
'''
USE = 'use mockall::*; use crate::env::*; use std::path::{Path, PathBuf}; use std::ffi::{OsStr, OsString, CStr, CString}; use std::collections::HashMap;'
# label, referent, owned type
REFS = [
    ('u8', 'u8', 'u8'), ('P', 'P', 'P'), ('str', 'str', 'String'), ('slice', '[u8]', 'Vec<u8>'), ('slP', '[P]', 'Vec<P>'), ('slstring', '[String]', 'Vec<String>'),
    ('slnest', '[Vec<Option<P>>]', 'Vec<Vec<Option<P>>>'), ('sltup', '[(u8, P)]', 'Vec<(u8, P)>'), ('slarr', '[[u8; 2]]', 'Vec<[u8; 2]>'), ('slsuper', '[super::env::P]', 'Vec<P>'),
    ('array', '[P; 3]', '[P; 3]'), ('tuple', '(P, u8)', '(P, u8)'), ('opt', 'Option<P>', 'Option<P>'), ('vec', 'Vec<P>', 'Vec<P>'), ('string', 'String', 'String'),
    ('Path', 'Path', 'PathBuf'), ('OsStr', 'OsStr', 'OsString'), ('CStr', 'CStr', 'CString'), ('PathBuf', 'PathBuf', 'PathBuf'),
    ('dyn', 'dyn Ob', 'Box<dyn Ob>'), ('dyngen', 'dyn Ot<P>', 'Box<dyn Ot<P>>'), ('dynsuper', 'dyn super::env::Ob', 'Box<dyn Ob>'),
    ('boxdyn', 'Box<dyn Ob>', 'Box<dyn Ob>'), ('map', 'HashMap<u8, P>', 'HashMap<u8, P>'), ('optstr', "Option<&'static str>", "Option<&'static str>"),
    ('refs', "&'static u8", "&'static u8"), ('deep', 'deep::D', 'deep::D'), ('superdeep', 'super::env::deep::D', 'deep::D'), ('unit', '()', '()'), ('fnp', 'fn(u8) -> P', 'fn(u8) -> P'),
    ('result', 'Result<P, String>', 'Result<P, String>'), ('boxslice', 'Box<[u8]>', 'Box<[u8]>'), ('boxstr', 'Box<str>', 'Box<str>'), ('Q', 'Q<P>', 'Q<P>'), ('paren', '(P)', 'P'),
]
MUT = [x for x in REFS if x[0] not in ('CStr', 'OsStr', 'Path')] + [('Path', 'Path', 'PathBuf')]
ARGL = [('', '', []), ('1', ', x: u8', ['x']), ('r', ', x: &str, y: &mut P', ['x', 'y'])]


def decl(k, sig, ty):
    b = '{ loop {} }'
    if k == 'A':
        return '#[automock] pub trait S { %s; }' % sig
    if k == 'B':
        return 'pub struct S; #[automock] impl S { pub %s %s }' % (sig, b)
    if k == 'C':
        return 'pub trait T { %s; } pub struct S; #[automock] impl T for S { %s %s }' % (sig, sig, b)
    if k == 'D':
        return 'mock!{ pub S { pub %s; } }' % sig
    return 'pub trait T { %s; } mock!{ pub S { } impl T for S { %s; } }' % (sig, sig)


def tables():
    ds, ws = {}, []

    def add(l, text):
        ds[l] = 'pub mod m%d { %s %s }' % (len(ds), USE, text)
        return 'm%d' % (len(ds) - 1)

    def w(label, mod, text, what, need, codes=()):
        ws.append(W(label, 'mod w%d { %s use crate::%s::*; %s }' % (len(ws), USE, mod, text), what, codes, '', (need,)))
    for k in 'ABCDE':
        for l, t, o in REFS:
            for al, at, an in ARGL if l in ('P', 'str', 'slice', 'dyn') else ARGL[:1]:
                n = 'ref-%s%s-%s' % (l, al, k)
                if k in 'ADE' or l in ('P', 'str', 'slice', 'dyn', 'Path'):
                    sig = 'fn f(&self%s) -> &%s' % (at, t)
                    m = add(n, decl(k, sig, o))
                    w(n + ':owned', m, 'fn w(m: &mut MockS, o: %s) { m.expect_f().return_const(o); }' % o, '`%s` is configured with %s' % (sig, o), n)
                    w(n + ':exact', m, 'fn w(m: &mut MockS) { m.expect_f().return_const(Wrong); }', '`%s` configured with another type than %s' % (sig, o), n, ('E0308',))
                    if l != 'refs':
                        w(n + ':borrow', m, 'fn w(m: &mut MockS, o: &\'static %s) { m.expect_f().return_const(o); }' % t, '`%s` configured with a reference' % sig, n, ('E0308',))
                    w(n + ':lent', m, 'fn w<\'a>(m: &\'a MockS%s) -> &\'a %s { m.f(%s) }' % (at, t, ', '.join(an)), '`%s` lends a reference that lives as long as the borrow of the mock' % sig, n)
                    w(n + ':outlive', m, 'fn w(m: &MockS%s) -> &\'static %s { m.f(%s) }' % (at, t, ', '.join(an)), '`%s` lends a reference that outlives the mock' % sig, n, ('*',))
        for l, t, o in MUT:
            if k not in 'ADE' and l not in ('P', 'str', 'slice', 'dyn'):
                continue
            n = 'mut-%s-%s' % (l, k)
            sig = 'fn f(&mut self, x: u8) -> &mut %s' % t
            m = add(n, decl(k, sig, o))
            w(n + ':var', m, 'fn w(m: &mut MockS, o: %s) { m.expect_f().return_var(o); }' % o, '`%s` is configured with %s' % (sig, o), n)
            w(n + ':returning', m, 'fn mk() -> %s { loop {} } fn w(m: &mut MockS) { m.expect_f().returning(|_x: u8| mk()); }' % o, '`%s` is configured with a function yielding %s' % (sig, o), n)
            w(n + ':returning_st', m, 'fn mk() -> %s { loop {} } fn w(m: &mut MockS, r: std::rc::Rc<u8>) { m.expect_f().returning_st(move |_x: u8| { let _ = &r; mk() }); }' % o, '`%s` is configured with a thread-bound function yielding %s' % (sig, o), n)
            w(n + ':var-exact', m, 'fn w(m: &mut MockS) { m.expect_f().return_var(Wrong); }', '`%s` configured with another type than %s' % (sig, o), n, ('E0308',))
            w(n + ':returning-exact', m, 'fn w(m: &mut MockS) { m.expect_f().returning(|_x: u8| Wrong); }', '`%s` configured with a function not yielding %s' % (sig, o), n, ('E0308', 'E0271'))
            w(n + ':lent', m, 'fn w<\'a>(m: &\'a mut MockS) -> &\'a mut %s { m.f(0) }' % t, '`%s` lends a mutable reference that lives as long as the borrow of the mock' % sig, n)
            w(n + ':outlive', m, 'fn w(m: &mut MockS) -> &\'static mut %s { m.f(0) }' % t, '`%s` lends a reference that outlives the mock' % sig, n, ('*',))
            w(n + ':twice', m, 'fn w(m: &mut MockS) { let a = m.f(0); let b = m.f(1); let _ = (a, b); }', '`%s` lends two mutable references at once' % sig, n, ('E0499',))
    for k in 'ABCDE':
        for l, t, o in REFS:
            if k not in 'AD' and l not in ('P', 'str', 'slice', 'dyn', 'Path'):
                continue
            n = 'static-%s-%s' % (l, k)
            sig = "fn f(&self, x: u8) -> &'static %s" % t
            m = add(n, decl(k, sig, o))
            w(n + ':const', m, "fn w(m: &mut MockS, o: &'static %s) { m.expect_f().return_const(o); }" % t, '`%s` is configured with the reference itself' % sig, n)
            w(n + ':returning', m, "fn w(m: &mut MockS, o: &'static %s) { m.expect_f().returning(move |_| o); }" % t, '`%s` is configured with a function yielding the reference itself' % sig, n)
            w(n + ':once', m, "fn w(m: &mut MockS, o: &'static %s) { m.expect_f().return_once(move |_| o); }" % t, '`%s` is configured with a function yielding the reference itself' % sig, n)
            w(n + ':call', m, "fn w(m: &MockS) -> &'static %s { m.f(1) }" % t, '`%s` yields a static reference' % sig, n)
            w(n + ':owned', m, "fn mk() -> %s { loop {} } fn w(m: &mut MockS) { m.expect_f().returning(|_| mk()); }" % o, '`%s` configured with an owned value' % sig, n, ('E0308', 'E0271'))
    for k in 'BDF':
        for l, t, o in REFS:
            if l not in ('P', 'str', 'slice', 'dyn', 'Path', 'vec'):
                continue
            n = 'sstatic-%s-%s' % (l, k)
            sig = "fn f(x: u8) -> &'static %s" % t
            m = add(n, '#[automock] pub mod md { %s pub %s { loop {} } }' % (USE, sig) if k == 'F' else decl(k, sig, o))
            c, call = ('mock_md::f_context()', 'mock_md::f(0)') if k == 'F' else ('MockS::f_context()', 'MockS::f(0)')
            w(n + ':const', m, "fn w(o: &'static %s) { %s.expect().return_const(o); }" % (t, c), '`%s` is configured with the reference itself' % sig, n)
            w(n + ':returning', m, "fn w(o: &'static %s) { %s.expect().returning(move |_| o); }" % (t, c), '`%s` is configured with a function yielding the reference itself' % sig, n)
            w(n + ':call', m, "fn w() -> &'static %s { %s }" % (t, call), '`%s` yields a static reference' % sig, n)
    # generic referents
    for k, t in (('A', "#[automock] pub trait S<T: Send + Sync + 'static> { fn f(&self) -> &T; fn m(&mut self) -> &mut T; fn s(&self) -> &[T]; }"),
                 ('D', "mock!{ pub S<T: Send + Sync + 'static> { pub fn f(&self) -> &T; pub fn m(&mut self) -> &mut T; pub fn s(&self) -> &[T]; } }"),
                 ('B', "pub struct S<T: 'static>(T); #[automock] impl<T: Send + Sync + 'static> S<T> { pub fn f(&self) -> &T { loop {} } pub fn m(&mut self) -> &mut T { loop {} } pub fn s(&self) -> &[T] { loop {} } }")):
        n = 'generic-' + k
        m = add(n, t)
        G = "<T: Send + Sync + 'static>"
        w(n + ':f', m, 'fn w%s(m: &mut MockS<T>, o: T) { m.expect_f().return_const(o); }' % G, 'reference to a type parameter is configured with a value of it', n)
        w(n + ':m', m, 'fn w%s(m: &mut MockS<T>, o: T) { m.expect_m().return_var(o); }' % G, 'mutable reference to a type parameter is configured with a value of it', n)
        w(n + ':s', m, 'fn w%s(m: &mut MockS<T>, o: Vec<T>) { m.expect_s().return_const(o); }' % G, 'slice of a type parameter is configured with a vector of it', n)
        w(n + ':x', m, 'fn w%s(m: &mut MockS<T>, o: u8) { m.expect_f().return_const(o); }' % G, 'reference to a type parameter configured with another type', n, ('E0308',))
    for k, t in (('B', "pub struct S; #[automock] impl S { pub fn f<T: Send + Sync + 'static>(&self, t: T) -> &T { loop {} } pub fn m<T: Send + Sync + 'static>(&mut self, t: T) -> &mut T { loop {} } }"),
                 ('D', "mock!{ pub S { pub fn f<T: Send + Sync + 'static>(&self, t: T) -> &T; pub fn m<T: Send + Sync + 'static>(&mut self, t: T) -> &mut T; } }")):
        n = 'genmeth-' + k
        m = add(n, t)
        w(n + ':f', m, 'fn w(m: &mut MockS, o: String) { m.expect_f::<String>().return_const(o); }', 'reference to a method type parameter is configured with a value of it', n)
        w(n + ':m', m, 'fn w(m: &mut MockS, o: String) { m.expect_m::<String>().return_var(o); }', 'mutable reference to a method type parameter is configured with a value of it', n)
        w(n + ':x', m, 'fn w(m: &mut MockS, o: u8) { m.expect_f::<String>().return_const(o); }', 'reference to a method type parameter configured with another type', n, ('E0308',))
    n = 'assoc-A'
    m = add(n, '#[automock(type A=P; type B=u8;)] pub trait S { type A; type B; fn f(&self) -> &Self::A; fn m(&mut self) -> &mut Self::A; fn s(&self) -> &[Self::B]; }')
    w(n + ':f', m, 'fn w(m: &mut MockS, o: P) { m.expect_f().return_const(o); }', 'reference to an associated type is configured with a value of it', n)
    w(n + ':m', m, 'fn w(m: &mut MockS, o: P) { m.expect_m().return_var(o); }', 'mutable reference to an associated type is configured with a value of it', n)
    w(n + ':s', m, 'fn w(m: &mut MockS, o: Vec<u8>) { m.expect_s().return_const(o); }', 'slice of an associated type is configured with a vector', n)
    return ds, ws
