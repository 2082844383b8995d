"""C20: declarations the macros do not support.  Each must be refused."""

HEAD = '''#![feature(negative_impls, extern_types, trait_alias)]
#![allow(dead_code, unused, unexpected_cfgs)]
use mockall::*;
pub struct Rt; pub trait Other { fn o(&self); }
'''
REJ = []


def r(label, text):
    REJ.append((label, text))


A = '#[automock] pub trait S { %s }'
B = 'pub struct S; #[automock] impl S { %s }'
D = 'mock!{ pub S { %s } }'
E = 'pub trait T { %s } mock!{ pub S { } impl T for S { %s } }'
F = '#[automock] pub mod md { %s }'


def each(label, decl, kinds='ABDEF', ret='', pre=''):
    """decl: a function without body, without visibility"""
    for k in kinds:
        d = decl
        if k in 'A':
            r('%s-A' % label, pre + A % (d + ';'))
        elif k == 'B':
            r('%s-B' % label, pre + B % ('pub ' + d + ' { loop {} }'))
        elif k == 'D':
            r('%s-D' % label, pre + D % ('pub ' + d + ';'))
        elif k == 'E':
            r('%s-E' % label, pre + E % (d + ';', d + ';'))
        elif k == 'F':
            r('%s-F' % label, pre + F % ('pub ' + d.replace('&mut self, ', '').replace('&self, ', '').replace('&self', '') + ' { loop {} }'))


# argument patterns
each('wild', 'fn f(&self, _: u8)', 'ABDEF')
each('wild-second', 'fn f(&self, a: u8, _: u8)', 'ABDEF')
each('wild-dyn', 'fn f(&self, _: &dyn Send)', 'ABDEF')
each('pat-tuple', 'fn f(&self, (a, b): (u8, u8))', 'BF')
each('pat-struct', 'fn f(&self, super::Rt2 { a }: super::Rt2)', 'BF')
each('pat-slice', 'fn f(&self, [a, b]: [u8; 2])', 'BF')
each('pat-ref', 'fn f(&self, &a: &u8)', 'BF')
each('pat-byref', 'fn f(&self, ref a: u8)', 'BF')
each('pat-byrefmut', 'fn f(&self, ref mut a: u8)', 'BF')
each('pat-sub', 'fn f(&self, a @ 0..=255: u8)', 'BF')
each('pat-byref-2', 'fn f(&self, b: u16, ref a: u8)', 'BF')
each('pat-sub-2', 'fn f(&self, b: u16, a @ _: u8)', 'BF')
# impl Trait arguments
each('impl-arg', 'fn f(&self, a: impl Send)')
each('impl-arg-static', 'fn f(a: impl Send)')
each('impl-arg-2', "fn f(&self, b: u8, a: impl Fn(u8) -> u8 + Send + 'static)")
each('impl-arg-ref', 'fn f(&self, a: &impl Send)', 'ABDE')
# static methods returning references
each('static-ref', "fn f<'a>(a: &'a u8) -> &'a u8", 'ABDEF')
each('static-ref-anon', 'fn f(a: &u8) -> &u8', 'ABDEF')
each('static-refmut', "fn f<'a>(a: &'a mut u8) -> &'a mut u8", 'ABDEF')
# returns
each('ret-fn', 'fn f(&self) -> Box<dyn Fn(&u8) -> &u8 + Undefined>', 'ABDE')
# associated items
r('assoc-type-A', A % 'type X; fn f(&self) -> Self::X;')
r('assoc-type-D', 'pub trait T { type X; fn f(&self) -> Self::X; } mock!{ pub S {} impl T for S { type X; fn f(&self) -> Self::X; } }')
r('assoc-type-sub-unknown', '#[automock(type Y=u8;)] pub trait S { type X; fn f(&self) -> Self::X; }')
r('assoc-type-sub-partial', '#[automock(type X=u8;)] pub trait S { type X; type Y; fn f(&self) -> Self::Y; }')
r('assoc-type-sub-novalue', '#[automock(type X;)] pub trait S { type X; fn f(&self) -> Self::X; }')
r('assoc-type-sub-garbage', '#[automock(type X=u8)] pub trait S { type X; fn f(&self) -> Self::X; }')
r('automock-garbage', '#[automock(nonsense)] pub trait S { fn f(&self); }')
r('automock-garbage2', '#[automock(fn x();)] pub trait S { fn f(&self); }')
r('assoc-const-A', A % 'const X: u8; fn f(&self);')
r('assoc-const-D', 'pub trait T { const X: u8; fn f(&self); } mock!{ pub S {} impl T for S { const X: u8; fn f(&self); } }')
r('qself-other', '#[automock(type X=u8;)] pub trait S { type X; fn f(&self) -> <Rt as Iterator>::X; }')
r('trait-macro', 'macro_rules! mm { () => { fn g(&self); } } ' + A % 'fn f(&self); mm!();')
r('trait-macro-default', 'macro_rules! mm { () => { fn g(&self) {} } } ' + A % 'fn f(&self); mm!();')
r('trait-macro-empty', 'macro_rules! mm { () => { } } ' + A % 'fn f(&self); mm!();')
r('impl-macro', 'macro_rules! mm { () => { fn g(&self) {} } } ' + B % 'fn f(&self) {} mm!();')
r('impl-of-trait-macro', 'macro_rules! mm { () => { fn o(&self) {} } } pub struct S; #[automock] impl Other for S { mm!(); }')
r('module-macro-def', F % 'pub fn f() {} macro_rules! mm { () => {} }')
r('module-macro-call', 'macro_rules! mm { () => { pub fn g() {} } } ' + F % 'pub fn f() {} mm!();')
r('fn-objects', '#[automock(type X=u8;)] pub trait S { type X; fn f<F: Fn(Self::X) -> Self::X + \'static>(&self, f: F); }')
# modules
for k, it in (('mod', 'pub mod inner { pub fn g() {} }'), ('struct', 'pub struct Q;'), ('enum', 'pub enum Q { A }'), ('union', 'pub union Q { a: u8 }'), ('trait', 'pub trait Q { fn g(&self); }')):
    r('module-%s' % k, F % ('pub fn f() {} ' + it))
    r('module-%s-first' % k, F % (it + ' pub fn f() {}'))
r('module-extern-static', F % 'extern "C" { pub static X: u8; pub fn f(); }')
r('module-extern-type', F % 'extern "C" { pub fn f(); pub type Z; }')
r('module-extern-macro', 'macro_rules! mm { () => { pub fn g(); } } ' + F % 'extern "C" { pub fn f(); mm!(); }')
r('module-out-of-line', '#[automock] pub mod md;')
r('foreign-bare', '#[automock] extern "C" { pub fn f(); }')
r('foreign-variadic', F % 'extern "C" { pub fn f(x: i32, ...); }')
# targets
for k, it in (('struct', 'pub struct S { a: u8 }'), ('enum', 'pub enum S { A }'), ('union', 'pub union S { a: u8 }'), ('fn', 'pub fn f() {}'), ('const', 'pub const S: u8 = 0;'), ('static', 'pub static S: u8 = 0;'),
              ('use', 'use crate::Rt as S;'), ('type', 'pub type S = Rt;'), ('extern-crate', 'extern crate std as zz;'), ('macro', 'macro_rules! mm { () => {} }'), ('trait-alias', 'pub trait S = Send;')):
    r('automock-%s' % k, '#[automock] ' + it)
r('impl-tuple', 'pub trait T { fn f(&self); } #[automock] impl T for (u8, u8) { fn f(&self) {} }')
r('impl-ref', 'pub trait T { fn f(&self); } #[automock] impl T for &Rt { fn f(&self) {} }')
r('impl-slice', 'pub trait T { fn f(&self); } #[automock] impl T for [u8] { fn f(&self) {} }')
r('impl-array', 'pub trait T { fn f(&self); } #[automock] impl T for [u8; 3] { fn f(&self) {} }')
r('impl-dyn', 'pub trait T { fn f(&self); } #[automock] impl T for dyn Other { fn f(&self) {} }')
r('impl-path', 'pub mod q { pub struct S; } #[automock] impl q::S { pub fn f(&self) {} }')
r('impl-path-trait', 'pub trait T { fn f(&self); } pub mod q { pub struct S; } #[automock] impl T for q::S { fn f(&self) {} }')
r('impl-negative', 'pub struct S; #[automock] impl !Send for S {}')
r('impl-elided', "pub struct S<'a>(&'a u8); #[automock] impl S<'_> { pub fn f(&self) {} }")
r('impl-elided-2', "pub struct S<'a, T>(&'a T); #[automock] impl<T> S<'_, T> { pub fn f(&self) {} }")
r('impl-elided-trait', "pub trait T { fn f(&self); } pub struct S<'a>(&'a u8); #[automock] impl T for S<'_> { fn f(&self) {} }")
r('const-generic-D', 'mock!{ pub S<const N: usize> { fn f(&self); } }')
# mock! syntax
for k, it in (('empty', ''), ('noname', '{ fn f(&self); }'), ('nobody', 'pub S'), ('body-type', 'pub S { type X = u8; fn f(&self); }'), ('body-garbage', 'pub S { fn f(&self); 5 }'),
              ('two-structs', 'pub S { fn f(&self); } pub Z { fn g(&self); }'), ('trailing', 'pub S { fn f(&self); } fn g(&self);'), ('trailing-trait', 'pub S { fn f(&self); } trait T { fn g(&self); }'),
              ('trailing-impl-inherent', 'pub S { fn f(&self); } impl S { fn g(&self); }'), ('impl-garbage', 'pub S { } impl Other for S { fn o(&self); 7 }'), ('impl-neg', 'pub S { } impl !Send for S { }'),
              ('struct-kw', 'pub struct S { fn f(&self); }'), ('trait-kw', 'pub trait S { fn f(&self); }'), ('macro-in', 'pub S { mm!(); }'), ('macro-in-impl', 'pub S { } impl Other for S { mm!(); }'), ('old-trait', 'pub S { } trait Other { fn o(&self); }')):
    r('mock-%s' % k, 'mock!{ %s }' % it)
# an unsupported item beside everything that is required
MM = 'macro_rules! mm { ($($t:tt)*) => { fn zz(&self) {} } } '
for k, it in (('macro', 'mm!();'), ('macro-brace', 'mm!{}'), ('macro-bracket', 'mm![1];'), ('macro-path', 'crate::mm!();'), ('macro-attr', '#[cfg(all())] mm!();'), ('macro-doc', '/** d */ mm!{ fn x(&self); }'),
              ('static', 'static K: u8 = 0;'), ('struct', 'struct Zz;'), ('use', 'use crate::Rt;'), ('mod', 'mod zz {}'), ('impl', 'impl Rt {}'), ('macro-def', 'macro_rules! zz { () => {} }'), ('number', '5'), ('extern', 'extern "C" { fn zz(); }'),
              ('extra-const', 'const K: u8 = 0;'), ('extra-type', 'type K = u8;'), ('extra-fn', 'fn zz(&self);')):
    for where, t in (('last', 'fn o(&self); %s'), ('first', '%s fn o(&self);')):
        r('beside-%s-%s-E' % (k, where), MM + 'mock!{ pub S { } impl Other for S { %s } }' % (t % it))
        r('beside-%s-%s-E2' % (k, where), MM + 'mock!{ pub S { fn g(&self); } impl Clone for S { fn clone(&self) -> Self; } impl Other for S { %s } }' % (t % it))
        if k not in ('extra-const', 'extra-fn'):
            r('beside-%s-%s-D' % (k, where), MM + 'mock!{ pub S { %s } }' % (t % it))
    if k.startswith('macro') and k != 'macro-def':
        r('beside-%s-A' % k, MM + '#[automock] pub trait S { fn o(&self); %s }' % it)
        r('beside-%s-B' % k, MM + 'pub struct S; #[automock] impl S { pub fn o(&self) {} %s }' % it)
        r('beside-%s-C' % k, MM + 'pub struct S; #[automock] impl Other for S { fn o(&self) {} %s }' % it)
r('mock-impl-other-type', 'mock!{ pub S { } impl Other for Rt { fn o(&self); } }')
r('mock-impl-ref', 'mock!{ pub S { } impl Other for &S { fn o(&self); } }')
r('mock-impl-box', 'mock!{ pub S { } impl Other for Box<S> { fn o(&self); } }')
r('mock-impl-tuple', 'mock!{ pub S { } impl Other for (S,) { fn o(&self); } }')
r('mock-impl-missing-fn', 'pub trait T { fn f(&self); fn g(&self); } mock!{ pub S { } impl T for S { fn f(&self); } }')
r('mock-impl-extra-fn', 'pub trait T { fn f(&self); } mock!{ pub S { } impl T for S { fn f(&self); fn g(&self); } }')
r('mock-impl-wrong-sig', 'pub trait T { fn f(&self, x: u8); } mock!{ pub S { } impl T for S { fn f(&self, x: u16); } }')
r('mock-impl-wrong-ret', 'pub trait T { fn f(&self) -> u8; } mock!{ pub S { } impl T for S { fn f(&self) -> u16; } }')
r('mock-impl-wrong-self', 'pub trait T { fn f(&self); } mock!{ pub S { } impl T for S { fn f(&mut self); } }')
r('mock-impl-neg-auto', 'mock!{ pub S { } impl !Unpin for S { } }')
r('mock-impl-neg-second', 'mock!{ pub S { } impl Other for S { fn o(&self); } impl !Unpin for S { } }')
r('dup-fn', 'mock!{ pub S { fn f(&self); fn f(&self, x: u8); } }')
# concretize
r('concretize-arg', '#[automock] pub trait S { #[concretize] fn f<P>(&self, x: &P) where P: AsRef<std::path::Path> + Sized + \'static + Undefined; }')
r('concretize-pat', '#[automock] pub mod md { #[mockall::concretize] pub fn f<T: std::fmt::Debug + \'static>((a, b): (T, T)) {} }')
