"""C14: witnesses that mocks are Send/Sync and that only the _st setters take
values that are not Send."""
from wits import W

HEAD = '''#![allow(dead_code, unused)]
use mockall::*; use std::rc::Rc; use std::cell::Cell;
fn send<T: Send>() {} fn sync<T: Sync>() {}
'''
METH = '''fn own(&self, x: u32) -> u32; fn orc(&self, x: Rc<u8>) -> Rc<u8>; fn unit(&self); fn r(&self, x: u32) -> &u32; fn rm(&mut self, x: u32) -> &mut u32;
 fn sr(&self, x: u32) -> &'static u32; fn g<T: 'static>(&self, x: T) -> u32; fn gr<T: 'static>(&self, x: T) -> &u32; fn grm<T: 'static>(&mut self, x: T) -> &mut u32;
 fn sta(x: u32) -> u32; fn gsta<T: 'static>(x: T) -> u32; fn strc(x: Rc<u8>) -> Rc<u8>;'''.replace('\n', ' ')
import re
METH_I = re.sub(r';', ' { todo!() }', METH)


def decls():
    return {
        'A': 'pub mod a { use super::*; #[automock] pub trait X { %s } }' % METH,
        'B': 'pub mod b { use super::*; pub struct X; #[automock] impl X { %s } }' % METH_I.replace('fn ', 'pub fn '),
        'D': 'pub mod d { use super::*; mock! { pub X { %s } } }' % METH.replace('fn ', 'pub fn '),
        'E': 'pub mod e { use super::*; pub trait T { %s } mock! { pub X {} impl T for X { %s } } }' % (METH, METH),
        'F': 'pub mod f { use super::*; #[automock] pub mod md { use super::*; pub fn sta(x: u32) -> u32 { 0 } pub fn gsta<T: \'static>(x: T) -> u32 { 0 } pub fn strc(x: Rc<u8>) -> Rc<u8> { x } } }',
        'X': 'pub mod x { use super::*; #[automock] pub mod md { extern "C" { pub fn sta(x: u32) -> u32; } } }',
    }


# method -> (turbofish, argument pattern, value, kinds of setters)
SHAPES = {
    'own': ('', '_', '0u32', 'rof'), 'orc': ('', '_', 'Rc::new(0u8)', 'rofc'), 'unit': ('', '', '()', 'rof'), 'r': ('', '_', None, 'f'), 'rm': ('', '_', '0u32', 'rf'),
    'sr': ('', '_', '&0u32', 'rof'), 'g': ('::<Rc<u8>>', '_', '0u32', 'rof'), 'gr': ('::<Rc<u8>>', '_', None, 'f'), 'grm': ('::<Rc<u8>>', '_', '0u32', 'rf'),
    'sta': ('', '_', '0u32', 'rof'), 'gsta': ('::<Rc<u8>>', '_', '0u32', 'rof'), 'strc': ('', '_', 'Rc::new(0u8)', 'rofc'),
}
STATIC = ('sta', 'gsta', 'strc')
TYPES = {'own': 'u32', 'orc': 'Rc<u8>', 'r': 'u32', 'rm': 'u32', 'sr': 'u32', 'g': 'Rc<u8>', 'gr': 'Rc<u8>', 'grm': 'Rc<u8>', 'sta': 'u32', 'gsta': 'Rc<u8>', 'strc': 'Rc<u8>'}


def witnesses():
    out = []
    n = 0
    E = ('E0277',)
    M = 'cannot be sent between threads'
    for k in 'ABDEFX':
        mod = k.lower()
        for f, (tf, pat, val, how) in SHAPES.items():
            if k == 'F' and f not in STATIC or k == 'X' and f != 'sta':
                continue
            if f in STATIC:
                ctx = '%s::mock_md::%s_context()' % (mod, f) if k in 'FX' else ('<%s::MockX>::%s_context()' % (mod, f))
                pre, ex = 'let c = %s;' % ctx, 'c.expect%s()' % tf
            else:
                pre, ex = 'let mut m = %s::MockX::new();' % mod, 'm.expect_%s%s()' % (f, tf)

            def w(lab, chain, ok, what):
                nonlocal n
                n += 1
                out.append(W('%s.%s.%s' % (k, f, lab), 'fn w%d() { %s %s%s; }' % (n, pre, ex, chain), 'kind %s, method %s: %s' % (k, f, what), () if ok else E, M, (k,)))
            cap = '{ let q = Rc::new(0u8); move |%s| { let _ = &q; %s } }'
            good = '{ let q = String::new(); move |%s| { let _ = &q; %s } }'
            if 'f' in how:
                w('withf-ns', '.withf(%s)' % (cap % (pat, 'true')), False, 'withf with a function that is not Send')
                w('withf', '.withf(%s)' % (good % (pat, 'true')), True, 'withf with a Send function')
                w('withf_st-ns', '.withf_st(%s)' % (cap % (pat, 'true')), True, 'withf_st with a function that is not Send')
                if pat:
                    t = TYPES[f]
                    w('with-ns', '.with(predicate::function({ let q = Rc::new(0u8); move |_: &%s| { let _ = &q; true } }))' % t, False, 'with with a predicate that is not Send')
                    w('with', '.with(predicate::function(move |_: &%s| true))' % t, True, 'with with a Send predicate')
            if 'r' in how:
                w('returning-ns', '.returning(%s)' % (cap % (pat, val)), False, 'returning with a function that is not Send')
                w('returning', '.returning(%s)' % (good % (pat, val)), True, 'returning with a Send function')
                w('returning_st-ns', '.returning_st(%s)' % (cap % (pat, val)), True, 'returning_st with a function that is not Send')
            if 'o' in how:
                w('return_once-ns', '.return_once(%s)' % (cap % (pat, val)), False, 'return_once with a function that is not Send')
                w('return_once', '.return_once(%s)' % (good % (pat, val)), True, 'return_once with a Send function')
                w('return_once_st-ns', '.return_once_st(%s)' % (cap % (pat, val)), True, 'return_once_st with a function that is not Send')
            if 'c' in how:
                w('return_const-ns', '.return_const(%s)' % val, False, 'return_const with a value that is not Send')
                w('return_const_st-ns', '.return_const_st(%s)' % val, True, 'return_const_st with a value that is not Send')
        if k not in 'FX':
            out.append(W('%s.send' % k, 'fn s%s() { send::<%s::MockX>() }' % (k, mod), 'kind %s: the mock is Send although argument and return types are not' % k, needs=(k,)))
            out.append(W('%s.sync' % k, 'fn y%s() { sync::<%s::MockX>() }' % (k, mod), 'kind %s: the mock is Sync' % k, needs=(k,)))
    return out


# ---- mocks of declarations with unusual types
MORE = {
    'arg-rc': 'trait X { fn f(&self, x: Rc<u8>, y: &Cell<u8>, z: *const u8, w: fn(Rc<u8>)); }',
    'ret-rc': 'trait X { fn f(&self) -> Rc<u8>; fn g(&self) -> *const u8; fn h(&self) -> Box<dyn Iterator<Item = u8>>; }',
    'ret-static': "trait X { fn f(&self) -> &'static Cell<u8>; }",
    'ret-future': 'trait X { fn f(&self) -> impl std::future::Future<Output = Rc<u8>>; }',
    'async': 'trait X { async fn f(&self, x: Rc<u8>) -> Rc<u8>; }',
    'generic-method': "trait X { fn f<T: 'static>(&self, x: T) -> T; fn g<T: 'static>(x: T) -> T; fn h<T: 'static>(&self, x: T) -> &u8; fn i<T: 'static>(&mut self, x: T) -> &mut u8; }",
    'ref': 'trait X { fn f(&self) -> &u8; fn g(&mut self) -> &mut u8; fn h(&self) -> &str; fn i(&self) -> &[u8]; fn j(&self, x: Rc<u8>) -> &u8; }',
    'static': 'trait X { fn f(x: Rc<u8>) -> Rc<u8>; }',
    'ret-ref-rc': 'trait X { fn f(&self) -> &Rc<u8>; }',
    'ret-refmut-rc': 'trait X { fn f(&mut self) -> &mut Rc<u8>; }',
    'concretize': 'trait X { #[concretize] fn f<T: AsRef<Rc<u8>> + \'static>(&self, x: T) -> Rc<u8>; }',
    'closure': 'trait X { fn f<F: Fn(Rc<u8>) -> Rc<u8> + Send + \'static>(&self, f: F); }',
}
GENERIC = {
    'gtrait': ("#[automock] pub trait X<T: 'static> { fn f(&self, x: T) -> T; fn s(x: T) -> T; }", 'MockX<Rc<u8>>'),
    'gtrait2': ("#[automock] pub trait X<T: 'static, U: 'static> { fn f(&self, x: T) -> u8; }", 'MockX<Rc<u8>, Cell<u8>>'),
    'gstruct': ("mock! { pub X<T: 'static> { fn f(&self, x: T) -> T; fn s(x: T) -> T; fn g<U: 'static>(&self, x: U, y: T) -> U; } }", 'MockX<Rc<u8>>'),
    'gstruct-unused': ("mock! { pub X<T: 'static> { fn f(&self) -> u8; } }", 'MockX<Rc<u8>>'),
    'gimpl': ("pub struct X<T>(T); #[automock] impl<T: 'static> X<T> { pub fn f(&self, x: T) -> T { x } }", 'MockX<Rc<u8>>'),
    'lifetime': ("mock! { pub X<'a> { fn f(&self, x: &'a u8) -> u8; } }", "MockX<'static>"),
    'lifetime-unused': ("mock! { pub X<'a> { fn f(&self) -> u8; } }", "MockX<'static>"),
    'lifetimes': ("mock! { pub X<'a, 'b, T: 'static> { fn f(&self) -> T; fn s(x: T) -> T; } }", "MockX<'static, 'static, Rc<u8>>"),
    'lifetime-impl': ("pub struct X<'a>(&'a u8); #[automock] impl<'a> X<'a> { pub fn f(&self) -> u8 { 0 } }", "MockX<'static>"),
    'gtraitimpl': ("pub trait Y<T> { fn f(&self, x: T) -> u8; fn s(x: T) -> u8; } mock! { pub X<T: 'static> { } impl<T: 'static> Y<T> for X<T> { fn f(&self, x: T) -> u8; fn s(x: T) -> u8; } }", 'MockX<Rc<u8>>'),
    'gtraitimpl2': ("pub trait Y<T, U> { fn f(&self, x: T) -> &u8; fn g(&mut self, y: U) -> &mut u8; } mock! { pub X<T: 'static, U: 'static> { } impl<T: 'static, U: 'static> Y<T, U> for X<T, U> { fn f(&self, x: T) -> &u8; fn g(&mut self, y: U) -> &mut u8; } }", 'MockX<Rc<u8>, Rc<u8>>'),
    'specimpl': ("pub trait Y<T> { fn f(&self, x: T) -> u8; } mock! { pub X { } impl Y<Rc<u8>> for X { fn f(&self, x: Rc<u8>) -> u8; } }", 'MockX'),
    'gref': ("mock! { pub X<T: 'static> { fn f(&self, x: T) -> &u8; fn m(&mut self, x: T) -> &mut u8; fn r(&self, x: T) -> &'static Cell<u8>; } }", 'MockX<Rc<u8>>'),
    'empty': ('mock! { pub X { } }', 'MockX'),
    'clone': ('mock! { pub X { } impl Clone for X { fn clone(&self) -> Self; } }', 'MockX'),
    'phantom': ("mock! { pub X<T: 'static> { } }", 'MockX<Rc<u8>>'),
}


def more():
    ds, ws = {}, []
    for l, t in MORE.items():
        ds['m-' + l] = 'pub mod m_%s { use super::*; #[automock] pub %s }' % (l.replace('-', '_'), t)
        ws.append(W('%s.send' % l, 'fn ms_%s() { send::<m_%s::MockX>() }' % ((l.replace('-', '_'),) * 2), 'mock of %s is Send' % t, needs=('m-' + l,)))
        if l not in NOTSYNC:
            ws.append(W('%s.sync' % l, 'fn my_%s() { sync::<m_%s::MockX>() }' % ((l.replace('-', '_'),) * 2), 'mock of %s is Sync' % t, needs=('m-' + l,)))
    for l, (t, ty) in GENERIC.items():
        i = l.replace('-', '_')
        ds['g-' + l] = 'pub mod g_%s { use super::*; %s }' % (i, t)
        ws.append(W('%s.send' % l, 'fn gs_%s() { send::<g_%s::%s>() }' % (i, i, ty), '%s of %s is Send' % (ty, t), needs=('g-' + l,)))
        if l not in NOTSYNC:
            ws.append(W('%s.sync' % l, 'fn gy_%s() { sync::<g_%s::%s>() }' % (i, i, ty), '%s of %s is Sync' % (ty, t), needs=('g-' + l,)))
    return ds, ws


NOTSYNC = {'ret-ref-rc', 'ret-refmut-rc'}
