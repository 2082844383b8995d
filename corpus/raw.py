"""Hand-written declarations for the interface analyses.  Each entry:
properties it serves, label, kind (how originals and mocks pair up; '' for
none), text.  $U stands for the path of the unit's module."""
from units import HEAD, PRE

RAW = []


def add(props, label, kind, text):
    RAW.append((props.split(), label, kind, text))


# ---------------------------------------------------------------- C16
def vis():
    V = [('priv', ''), ('pub', 'pub '), ('crate', 'pub(crate) '), ('super', 'pub(super) '), ('in-crate', 'pub(in $U) '), ('in-super', 'pub(in super::super) '), ('self', 'pub(self) '), ('in-self', 'pub(in self::super) ')]
    # relative to the module of functions the paths have one more step
    for l, v in V:
        add('C16', 'vis-B-%s' % l, 'B', 'pub struct S; #[automock] impl S { %sfn f(&self, x: u8) -> u8 { 0 } %sfn s(x: u8) -> u8 { 0 } %sfn r(&self) -> &u8 { &0 } %sfn g<T: \'static>(&self, t: T) { } %sfn sg<T: \'static>(t: T) { } fn zz(&self) { let _ = (self.f(0), S::s(0), self.r(), self.g(0), S::sg(0)); } }' % ((v,) * 5))
        add('C16', 'vis-D-%s' % l, 'D', 'pub mod twin { pub struct MockS; } impl twin::MockS { %sfn f(&self, x: u8) -> u8 { 0 } %sfn s(x: u8) -> u8 { 0 } %sfn r(&self) -> &u8 { &0 } %sfn m(&mut self) -> &mut u8 { todo!() } %sfn g<T: \'static>(&self, t: T) { } }\n mock!{ pub S { %sfn f(&self, x: u8) -> u8; %sfn s(x: u8) -> u8; %sfn r(&self) -> &u8; %sfn m(&mut self) -> &mut u8; %sfn g<T: \'static>(&self, t: T); } }' % ((v,) * 10))
        add('C16', 'vis-F-%s' % l, 'F', '#[automock] pub mod md { %sfn f(x: u8) -> u8 { 0 } %sfn g<T: \'static>(t: T) { } extern "C" { %sfn e(x: u8) -> u8; } }' % (v, v, v))
        add('C16', 'vis-A-%s' % l, 'A', '#[automock] %strait S { fn f(&self, x: u8) -> u8; fn s(x: u8) -> u8; fn r(&self) -> &u8; fn g<T: \'static>(&self, t: T); }' % v)
        add('C16', 'vis-E-%s' % l, 'E', 'pub trait T { fn f(&self, x: u8) -> u8; fn s(x: u8) -> u8; } mock!{ %sS { } impl T for S { fn f(&self, x: u8) -> u8; fn s(x: u8) -> u8; } }' % v)
        add('C16', 'vis-M-%s' % l, 'F', '#[automock] %smod md { pub fn f(x: u8) -> u8 { 0 } pub(super) fn g(x: u8) -> u8 { 0 } }' % v)


vis()


# ---------------------------------------------------------------- C27
def modules():
    B = '{ loop {} }'
    add('C27', 'plain', 'F', '#[automock] pub mod md { use super::*; pub fn f(x: u8) -> u8 %s pub fn g() %s pub fn h<T: \'static>(t: T) -> P %s pub fn i(p: &P) -> P %s }' % (B, B, B, B))
    add('C27', 'one', 'F', '#[automock] pub mod md { pub fn f() { } }')
    add('C27', 'empty', 'F', '#[automock] pub mod md { }')
    add('C27', 'kinds', 'F', '#[automock] pub mod md { use super::*; pub fn f() %s pub unsafe fn g() %s pub async fn h(x: P) -> P %s pub extern "C" fn i(x: u8) %s pub unsafe extern "C" fn j() -> u8 %s pub extern "Rust" fn k() %s pub extern "C-unwind" fn l() %s pub extern fn m() %s }' % ((B,) * 8))
    add('C27', 'vis', 'F', '#[automock] pub mod md { pub fn f() %s fn g() %s pub(crate) fn h() %s pub(super) fn i() %s pub(self) fn j() %s }' % ((B,) * 5))
    for a, l in (('"C"', 'c'), ('"system"', 'system'), ('"C-unwind"', 'cun'), ('"Rust"', 'rust'), ('"sysv64"', 'sysv'), ('', 'none')):
        add('C27', 'foreign-%s' % l, 'F', '#[automock] pub mod md { extern %s { pub fn f(x: u8) -> u8; pub fn g(); } }' % a)
        add('C27', 'foreign-unsafe-%s' % l, 'F', '#[automock] pub mod md { unsafe extern %s { pub fn f(x: u8) -> u8; pub fn g(); pub(crate) fn h(p: *const u8, n: usize) -> i32; } }' % a)
    add('C27', 'foreign-mixed', 'F', '#[automock] pub mod md { use super::*; pub fn a() %s extern "C" { pub fn f(x: u8) -> u8; fn g(); } pub type T = u8; pub fn b() %s extern "C" { pub fn h(p: *mut P); pub fn i(); } extern "Rust" { pub fn j(); } pub fn c() %s }' % (B, B, B))
    add('C27', 'interleaved', 'F', '#[automock] pub mod md { use super::*; pub fn a() %s use std::vec::Vec as VV; pub fn b(x: VV<u8>) %s type Al = u32; pub fn c(x: Al) -> Al %s const N: usize = 3; pub fn d(x: [u8; N]) %s static ST: u8 = 1; pub fn e() %s pub fn f() %s }' % ((B,) * 6))
    add('C27', 'many', 'F', '#[automock] pub mod md { %s }' % ' '.join('pub fn f%d(x: u8) -> u8 %s' % (i, B) for i in range(24)))
    add('C27', 'cfgs', 'F', '#[automock] pub mod md { #[cfg(all())] pub fn f() %s #[cfg(any())] pub fn g(x: Missing) %s #[cfg(all())] extern "C" { pub fn h(); } extern "C" { #[cfg(any())] pub fn i(x: Missing); #[cfg(all())] pub fn j(); } }' % (B, B))
    add('C27', 'raw', 'F', '#[automock] pub mod md { pub fn r#type(x: u8) -> u8 %s pub fn r#match() %s }' % (B, B))
    add('C27', 'doc', 'F', '#[automock] pub mod md { /*! inner */ /** outer */ pub fn f() %s #[must_use] pub fn g() -> u8 %s #[inline] pub fn h() %s }' % (B, B, B))
    add('C27', 'private', 'F', '#[automock] mod md { pub fn f() %s fn g() %s }' % (B, B))
    add('C27', 'generic', 'F', '#[automock] pub mod md { use super::*; pub fn f<T: Clone + \'static>(t: T) -> T %s pub fn g<T, U>(t: T, u: U) where T: \'static, U: \'static + Send %s pub fn h<\'a>(x: &\'a P) -> u8 %s pub fn j<T: AsRef<str> + \'static>(t: T) %s }' % ((B,) * 4))


modules()
KEPT = """pub mod q { pub struct Z; pub trait ZT {} pub fn zf() -> u8 { 0 } pub mod zm { pub struct Y; } pub struct W2; }
#[automock] pub mod md {
  pub use super::q::Z; pub use super::q::{zf, zm::{self, Y}, W2 as W3}; pub use super::q::*; use super::q as hidden;
  pub type A1 = u8; pub type A2<T> = Vec<T>; pub type A3<'a> = &'a str; type A4 = (Z, u8);
  pub const C1: u8 = 3; pub const C2: &str = "x"; const C3: A4 = (Z, C1);
  pub static S1: u16 = 7; pub static S2: [u8; C1 as usize] = [0; 3]; pub static mut S3: u8 = 0;
  pub fn f(x: A1) -> A2<u8> { loop {} } pub fn late(x: late::L) {}
  pub use super::late;
  #[cfg(all())] pub const ON: u8 = 1; #[cfg(any())] pub const OFF: u8 = 1; #[allow(non_upper_case_globals)] pub const lower: u8 = 2;
}
pub mod late { pub struct L; }"""


def raw_units(prop):
    return [(l, k, t) for ps, l, k, t in RAW if prop in ps]


def source_for(prop, head=HEAD, pre=PRE):
    us = raw_units(prop)

    def source(sel=None):
        txt = head
        index = {}
        ln = txt.count('\n') + 1
        for n, (l, k, t) in enumerate(us):
            if sel is not None and n not in sel:
                continue
            deep = prop == 'C16'
            s = 'pub mod u%d { // %s\n' % (n, l) + ('pub mod a { pub mod b {\n' if deep else '') + (pre if not deep else '    use mockall::*;\n')
            s += '    ' + t.replace('$U', 'crate::u%d' % n) + '\n' + ('}}\n' if deep else '') + '}\n'
            for i in range(s.count('\n')):
                index[ln + i] = n
            ln += s.count('\n')
            txt += s
        return txt, index, us
    return source


# ---------------------------------------------------------------- C17
def attributes():
    B = '{ loop {} }'
    H = ['#[inline]', '#[inline(always)]', '#[cold]', '#[must_use = "why"]', '#[track_caller]', '#[doc(hidden)]', '#[deprecated(note = "n")]', '/** one\\n two */', '#[cfg_attr(all(), inline)]', '#[cfg_attr(all(), cold, doc(hidden))]', '#[doc = "x"] #[doc = "y"] #[inline]', '#[allow(clippy::all)] /** d */', '/** d */ #[must_use] #[cold] #[track_caller]']
    for n, h in enumerate(H):
        add('C17', 'attr-B-%s' % h, 'B', "pub struct S; #[automock] impl S { %s pub fn f(&self, x: u8) -> u8 %s %s pub fn s(x: u8) -> u8 %s %s pub fn r(&self) -> &u8 %s %s pub fn g<T: 'static>(&self, t: T) -> u8 %s %s pub fn sg<T: 'static>(t: T) -> u8 %s %s pub fn m(&mut self) -> &mut u8 %s }" % (((h, B) * 6)))
        add('C17', 'attr-F-%s' % h, 'F', "#[automock] pub mod md { %s pub fn f(x: u8) -> u8 %s %s pub fn g<T: 'static>(t: T) -> u8 %s }" % ((h, B) * 2))
        add('C17', 'attr-D-%s' % h, 'D', "pub mod twin { pub struct MockS; impl MockS { %s pub fn f(&self, x: u8) -> u8 %s %s pub fn s(x: u8) -> u8 %s %s pub fn r(&self) -> &u8 %s %s pub fn m(&mut self) -> &mut u8 %s } }\n mock!{ pub S { %s pub fn f(&self, x: u8) -> u8; %s pub fn s(x: u8) -> u8; %s pub fn r(&self) -> &u8; %s pub fn m(&mut self) -> &mut u8; } }" % ((h, B) * 4 + (h,) * 4))
        add('C17', 'attr-A-%s' % h, 'A', "#[automock] pub trait S: Sized { %s fn f(&self, x: u8) -> u8 %s %s fn s(x: u8) -> u8 %s %s fn r(&self) -> &u8 %s %s fn g<T: 'static>(&self, t: T) -> u8 %s }" % ((h, B) * 4))
        add('C17', 'attr-E-%s' % h, 'E', "pub trait T { fn f(&self, x: u8) -> u8; fn s(x: u8) -> u8; } mock!{ pub S { } impl T for S { %s fn f(&self, x: u8) -> u8; %s fn s(x: u8) -> u8; } }" % (h, h))
    add('C17', 'attr-X', 'F', '#[automock] pub mod md { extern "C" { #[link_name = "zork"] pub fn f(x: u8) -> u8; /** d */ #[must_use] pub fn g() -> u8; #[doc(hidden)] #[link_name = "y"] fn h(); } }')


attributes()
