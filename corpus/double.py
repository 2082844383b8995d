"""C24: #[double] on imports and aliases; lines that must type-check or be
refused with and without cfg(test)."""
from wits import W

HEAD = '''#![allow(dead_code, unused, non_camel_case_types, non_snake_case, uncommon_codepoints, non_upper_case_globals)]
extern crate self as corp; use mockall_double::double;
pub trait Is<T: ?Sized> {} impl<T: ?Sized> Is<T> for T {}
pub fn same<A: ?Sized + Is<B>, B: ?Sized>() {}
pub struct Top; pub struct MockTop;
pub mod inner { pub struct R; } pub mod mock_inner { pub struct M; }
pub mod foo {
  pub struct Foo; pub struct MockFoo; pub struct Baz; pub struct MockBaz; pub struct Bean; pub struct MockBean; pub struct G<T>(pub T); pub struct MockG<T>(pub T);
  pub struct L<'a>(pub &'a u8); pub struct MockL<'a>(pub &'a u8);
  pub struct Élan; pub struct MockÉlan; pub struct F00_b; pub struct MockF00_b; pub struct MockMockBaz; pub struct X; pub struct MockX;
  pub trait Tr { fn t(&self) {} } pub trait MockTr { fn mt(&self) {} } impl Tr for u8 {} impl MockTr for u16 {}
  pub mod m { pub struct R; pub mod deep { pub struct D; pub struct MockD; pub struct E; pub struct MockE; pub mod k { pub struct R; } pub mod mock_k { pub struct M; } } }
  pub mod mock_m { pub struct M; }
  pub mod r#type { pub struct R; } pub mod mock_type { pub struct M; }
  pub mod é { pub struct R; } pub mod mock_é { pub struct M; }
  pub mod x { pub struct R; } pub mod mock_x { pub struct M; }
  pub fn free() -> u8 { 0 } pub fn mock_free() -> u16 { 0 }
  pub const CONST: u8 = 0; pub const MockCONST: u16 = 0;
}
'''

# label, item, [(name as imported, original, mock)]; M types, m modules
GOOD = [
    ('name', 'use crate::foo::Baz;', [('Baz', 'Baz', 'MockBaz')]),
    ('self-path', 'use self::q::Baz; mod q { pub use crate::foo::*; }', [('Baz', 'Baz', 'MockBaz')]),
    ('super-path', 'use super::super::foo::Baz;', [('Baz', 'Baz', 'MockBaz')]),
    ('lead', 'use ::corp::foo::Baz;', [('Baz', 'Baz', 'MockBaz')]),
    ('deep', 'use crate::foo::m::deep::D;', [('D', 'm::deep::D', 'm::deep::MockD')]),
    ('group', 'use crate::foo::{Baz, Bean};', [('Baz', 'Baz', 'MockBaz'), ('Bean', 'Bean', 'MockBean')]),
    ('group3', 'use crate::foo::{Bean, Foo, Baz};', [('Baz', 'Baz', 'MockBaz'), ('Bean', 'Bean', 'MockBean'), ('Foo', 'Foo', 'MockFoo')]),
    ('group-top', 'use {crate::foo::Baz, crate::foo::m::deep::D};', [('Baz', 'Baz', 'MockBaz'), ('D', 'm::deep::D', 'm::deep::MockD')]),
    ('group-nest', 'use crate::foo::{Foo, m::{deep::{D, E}}};', [('Foo', 'Foo', 'MockFoo'), ('D', 'm::deep::D', 'm::deep::MockD'), ('E', 'm::deep::E', 'm::deep::MockE')]),
    ('group-ren', 'use crate::foo::{Foo as A, Baz, m::deep::D as B};', [('A', 'Foo', 'MockFoo'), ('Baz', 'Baz', 'MockBaz'), ('B', 'm::deep::D', 'm::deep::MockD')]),
    ('group-empty', 'use crate::foo::{};', []),
    ('group-swap', 'use crate::foo::{Foo as Baz, Baz as Foo};', [('Baz', 'Foo', 'MockFoo'), ('Foo', 'Baz', 'MockBaz')]),
    ('rename', 'use crate::foo::Baz as Q;', [('Q', 'Baz', 'MockBaz')]),
    ('rename-lower', 'use crate::foo::Baz as q;', [('q', 'Baz', 'MockBaz')]),
    ('rename-raw', 'use crate::foo::Baz as r#match;', [('r#match', 'Baz', 'MockBaz')]),
    ('rename-mock', 'use crate::foo::MockBaz as Baz;', [('Baz', 'MockBaz', 'MockMockBaz')]),
    ('generic', 'use crate::foo::G;', [('G<u8>', 'G<u8>', 'MockG<u8>')]),
    ('lifetime', "use crate::foo::L;", [("L<'static>", "L<'static>", "MockL<'static>")]),
    ('unicode', 'use crate::foo::Élan;', [('Élan', 'Élan', 'MockÉlan')]),
    ('unicode-mod', 'use crate::foo::é;', [('é', 'é', 'mock_é')]),
    ('digits', 'use crate::foo::F00_b;', [('F00_b', 'F00_b', 'MockF00_b')]),
    ('one-letter', 'use crate::foo::X;', [('X', 'X', 'MockX')]),
    ('one-letter-mod', 'use crate::foo::x;', [('x', 'x', 'mock_x')]),
    ('both-letters', 'use crate::foo::{x, X};', [('x', 'x', 'mock_x'), ('X', 'X', 'MockX')]),
    ('module', 'use crate::foo::m;', [('m', 'm', 'mock_m')]),
    ('module-deep', 'use crate::foo::m::deep::k;', [('k', 'm::deep::k', 'm::deep::mock_k')]),
    ('module-ren', 'use crate::foo::m as n;', [('n', 'm', 'mock_m')]),
    ('module-ren-up', 'use crate::foo::m as N;', [('N', 'm', 'mock_m')]),
    ('module-raw', 'use crate::foo::r#type;', [('r#type', 'r#type', 'mock_type')]),
    ('module-group', 'use crate::foo::{m, Baz, x as y};', [('m', 'm', 'mock_m'), ('Baz', 'Baz', 'MockBaz'), ('y', 'x', 'mock_x')]),
    ('alias', 'type Q = crate::foo::Baz;', [('Q', 'Baz', 'MockBaz')]),
    ('alias-deep', 'type Q = crate::foo::m::deep::D;', [('Q', 'm::deep::D', 'm::deep::MockD')]),
    ('alias-lead', 'type Q = ::corp::foo::Baz;', [('Q', 'Baz', 'MockBaz')]),
    ('alias-same', 'type Baz = crate::foo::Baz;', [('Baz', 'Baz', 'MockBaz')]),
    ('alias-inst', 'type Q = crate::foo::G<u16>;', [('Q', 'G<u16>', 'MockG<u16>')]),
    ('alias-inst-foo', 'type Q = crate::foo::G<crate::foo::Foo>;', [('Q', 'G<crate::foo::Foo>', 'MockG<crate::foo::Foo>')]),
    ('alias-gen', 'type Q<T> = crate::foo::G<T>;', [('Q<i8>', 'G<i8>', 'MockG<i8>')]),
    ('alias-gen2', 'type Q<T, const N: usize> = crate::foo::G<[T; N]>;', [('Q<i8, 3>', 'G<[i8; 3]>', 'MockG<[i8; 3]>')]),
    ('alias-life', "type Q<'a> = crate::foo::L<'a>;", [("Q<'static>", "L<'static>", "MockL<'static>")]),
]
MODS = {'m', 'x', 'é', 'r#type', 'm::deep::k'}

BAD = [
    ('glob', 'use crate::foo::*;'), ('glob-deep', 'use crate::foo::m::deep::*;'), ('glob-group', 'use crate::foo::{Baz, m::deep::*};'), ('glob-group2', 'use {crate::foo::m::*, crate::foo::Foo};'),
    ('glob-nest', 'use crate::foo::{m::{deep::{D, k::*}}};'), ('bare', 'use corp;'), ('struct', 'struct Z {}'), ('enum', 'enum Z { A }'), ('fn', 'fn z() {}'), ('const', 'const Z: u8 = 0;'),
    ('static', 'static Z: u8 = 0;'), ('mod', 'mod z {}'), ('trait', 'trait Z {}'), ('impl', 'impl crate::foo::Foo {}'), ('impl-trait', 'impl Clone for crate::foo::Foo { fn clone(&self) -> Self { todo!() } }'),
    ('extern', 'extern "C" { fn z(); }'), ('extern-crate', 'extern crate mockall as zz;'), ('union', 'union Z { a: u8 }'), ('macro', 'macro_rules! z { () => {} }'), ('type-ref', "type Z = &'static crate::foo::Foo;"),
    ('type-tuple', 'type Z = (crate::foo::Foo, u8);'), ('type-array', 'type Z = [crate::foo::Foo; 3];'), ('type-slice', 'type Z = [crate::foo::Foo];'), ('type-fn', 'type Z = fn(crate::foo::Foo);'),
    ('type-ptr', 'type Z = *const crate::foo::Foo;'), ('type-dyn', 'type Z = dyn crate::foo::Tr;'), ('type-paren', 'type Z = (crate::foo::Foo);'), ('type-never', 'type Z = !;'), ('trait-alias', 'trait Z = Copy;'),
]


# every kind of leaf in every position of an import
LEAVES = [
    ('ty', 'Baz', 'Baz', 'Baz', 'MockBaz'), ('tyren', 'Baz as Q', 'Q', 'Baz', 'MockBaz'), ('tylow', 'Baz as q', 'q', 'Baz', 'MockBaz'), ('tymock', 'Baz as MockQ', 'MockQ', 'Baz', 'MockBaz'),
    ('tysame', 'Baz as Baz', 'Baz', 'Baz', 'MockBaz'), ('tyother', 'Baz as MockBaz', 'MockBaz', 'Baz', 'MockBaz'), ('uni', 'Élan', 'Élan', 'Élan', 'MockÉlan'), ('und', 'F00_b as __', '__', 'F00_b', 'MockF00_b'),
    ('mo', 'm', 'm', 'm', 'mock_m'), ('moren', 'm as n', 'n', 'm', 'mock_m'), ('moup', 'm as N', 'N', 'm', 'mock_m'), ('raw', 'r#type', 'r#type', 'r#type', 'mock_type'), ('rawren', 'r#type as ty', 'ty', 'r#type', 'mock_type'),
    ('one', 'x as y', 'y', 'x', 'mock_x'), ('tr', 'Tr as _', None, None, None), ('trn', 'Tr', None, None, None), ('trr', 'Tr as Zz', None, None, None),
]
PLACES = [
    ('path', 'use crate::foo::%s;'), ('only', 'use crate::foo::{%s};'), ('first', 'use crate::foo::{%s, Bean, X as A1};'), ('mid', 'use crate::foo::{Bean, %s, X as A1};'), ('last', 'use crate::foo::{Bean, X as A1, %s};'),
    ('trail', 'use crate::foo::{Bean, %s,};'), ('nested', 'use crate::{foo::{Bean, {%s}}};'), ('after', 'use crate::{foo::m::deep::{D}, foo::{Foo, %s}};'), ('top', 'use {crate::foo::m::deep::D, crate::foo::%s};'), ('lead', 'use ::corp::foo::{Bean as B1, %s};'),
]


def product(test):
    ds, ws = {}, []
    for l, leaf, a, o, m in LEAVES:
        for q, pl in PLACES:
            k = 'x_%s_%s' % (l, q)
            ds[k] = mod(k, pl % leaf)
            if a is None:
                t = 'mod w_%s { use crate::d_%s::o::*; fn f() { %s } }' % (k, k, '0u16.mt()' if test else '0u8.t()')
            else:
                mo = '::' + ('M' if test else 'R') if o in MODS else ''
                t = 'fn w_%s() { same::<d_%s::o::%s%s, foo::%s%s>(); }' % (k, k, a, mo, m if test else o, mo)
            ws.append(W('%s.%s' % (l, q), t, '#[double] %s %s a test build: %s' % (pl % leaf, 'in' if test else 'outside', 'the double' if test else 'the original'), needs=(k,)))
    return ds, ws


def mod(k, item, vis='pub '):
    return 'pub mod d_%s { pub mod o { use mockall_double::double; %s #[double] %s%s } }' % (k.replace('-', '_'), '', vis, item)


def good(test):
    ds, ws = {}, []
    for k, item, names in GOOD:
        if k == 'self-path':
            a, b = item.split('; ', 1)
            ds[k] = mod(k, a + '; ' + b)
        else:
            ds[k] = mod(k, item)
        for n, (a, o, m) in enumerate(names):
            want = m if test else o
            if o in MODS:
                t = 'same::<d_%s::o::%s::%s, foo::%s::%s>()' % (k.replace('-', '_'), a, 'M' if test else 'R', want, 'M' if test else 'R')
            else:
                t = 'same::<d_%s::o::%s, foo::%s>()' % (k.replace('-', '_'), a, want)
            ws.append(W('%s.%s' % (k, a), 'fn w_%s_%d() { %s; }' % (k.replace('-', '_'), n, t),
                        '#[double] %s %s a test build: %s is foo::%s' % (item, 'in' if test else 'outside', a, want), needs=(k,)))
    # names in the other name spaces, import of the current module, traits, nested scope
    ds['fun'] = mod('fun', 'use crate::foo::free;')
    ws.append(W('fun', 'fn w_fun() { let _: %s = d_fun::o::free(); }' % ('u16' if test else 'u8'), 'function import', needs=('fun',)))
    ds['const'] = mod('const', 'use crate::foo::CONST;')
    ws.append(W('const', 'fn w_con() { let _: %s = d_const::o::CONST; }' % ('u16' if test else 'u8'), 'constant import', needs=('const',)))
    ds['tr'] = mod('tr', 'use crate::foo::Tr as _;')
    ws.append(W('anon-trait', 'mod w_tr { pub use crate::d_tr::o::*; fn f() { %s } }' % ('0u16.mt()' if test else '0u8.t()'), 'anonymous trait import', needs=('tr',)))
    ds['top'] = '#[double] use Top as TopAlias; #[double] use inner as inner_alias;'
    ws.append(W('top', 'fn w_top() { same::<TopAlias, crate::%sTop>(); same::<inner_alias::%s, crate::%sinner::%s>(); }' % (('Mock', 'M', 'mock_', 'M') if test else ('', 'R', '', 'R')), 'renamed import of the current module', needs=('top',)))
    ds['block'] = 'fn blk() { #[double] use crate::foo::Baz; #[double] type Q = crate::foo::Foo; same::<Baz, crate::foo::%s>(); same::<Q, crate::foo::%s>(); }' % (('MockBaz', 'MockFoo') if test else ('Baz', 'Foo'))
    # no counterpart on one side
    for k, item, codes in (('alone-use', 'use crate::foo::m::R;', ('E0432',)), ('alone-type', 'type R = crate::foo::m::R;', ('E0425', 'E0412')), ('alone-group', 'use crate::foo::{Foo, m::R};', ('E0432',))):
        ws.append(W(k, 'pub mod %s { use mockall_double::double; #[double] pub %s pub fn f(x: R) -> crate::foo::m::R { x } }' % (k.replace('-', '_'), item),
                    '%s without a mock %s' % (item, 'is refused in a test build' if test else 'is usable outside test builds'), codes if test else ()))
    # visibility
    for n, v in enumerate(('pub', 'pub(crate)', 'pub(super)', 'pub(in crate::d_v)', 'pub(self)', '')):
        for kind, item in (('use', 'use crate::foo::Baz;'), ('group', 'use crate::foo::{Foo as F, Baz};'), ('type', 'type Baz = crate::foo::Baz;'), ('mod', 'use crate::foo::m as Baz;')):
            k = 'v%d-%s' % (n, kind)
            t = 'mod %s { pub mod o { use mockall_double::double; #[double] %s %s pub mod i { pub use super::Baz as _; } }' % (k.replace('-', '_'), v, item)
            if n == 3:
                t = t.replace('crate::d_v', 'crate::' + k.replace('-', '_'))
            if v not in ('pub',):
                t = t.replace('pub mod i { pub use', 'pub mod i { use')
            near = 'use self::o::Baz as _; }'
            if n >= 4:
                near = '}'
            ds[k] = t + ' ' + near
            far = n in (0, 1)
            if far:
                ws.append(W('vis-%s-crate' % k, 'use self::%s::o::Baz as _;' % k.replace('-', '_'), '%s %s can be named from the crate root' % (v, item), needs=(k,)))
            else:
                ws.append(W('vis-%s-crate' % k, 'use self::%s::o::Baz as _;' % k.replace('-', '_'), '%s %s cannot be named from the crate root' % (v, item), ('E0603', 'E0364', 'E0365'), '', (k,)))
            if n == 1 or n == 2:
                ws.append(W('vis-%s-re' % k, 'pub mod x_%s { pub use crate::%s::o::Baz; }' % ((k.replace('-', '_'),) * 2), '%s %s cannot be re-exported' % (v, item), ('E0603', 'E0364', 'E0365'), '', (k,)))
    # attributes
    for kind, item in (('use', 'pub use crate::foo::Baz as N;'), ('group', 'pub use crate::foo::{Baz as N, Foo};'), ('type', 'pub type N = crate::foo::Baz;')):
        for n, (b, a) in enumerate((('#[cfg(any())] ', ''), ('', '#[cfg(any())] '), ('', '#[cfg_attr(all(), cfg(any()))] '))):
            k = 'off%d-%s' % (n, kind)
            ds[k] = 'pub mod %s { use mockall_double::double; %s#[double] %s%s }' % (k.replace('-', '_'), b, a, item.replace('Baz', 'Missing') if False else item)
            ws.append(W('cfg-' + k, 'use self::%s::N as zz%s;' % ((k.replace('-', '_'),) * 2), 'item under a false condition does not exist', ('E0432',), '', (k,)))
            k = 'on%d-%s' % (n, kind)
            ds[k] = 'pub mod %s { use mockall_double::double; %s#[double] %s%s }' % (k.replace('-', '_'), b.replace('any', 'all'), a.replace('any', 'all'), item)
            ws.append(W('cfg-' + k, 'use self::%s::N as zz%s;' % ((k.replace('-', '_'),) * 2), 'item under a true condition exists', (), '', (k,)))
        if kind == 'type':
            k = 'dep'
            ds[k] = 'pub mod dep { use mockall_double::double; #[double] #[deprecated] %s }' % item
            ws.append(W('attr-deprecated', '#[deny(deprecated)] fn w_dep(_: dep::N) {}', 'other attributes stay effective', ('deprecated',), '', (k,)))
            ds['lint'] = '#[deny(non_camel_case_types)] pub mod lint { use mockall_double::double; #[double] #[allow(non_camel_case_types)] pub type n_n = crate::foo::Baz; }'
        else:
            ds['lint-' + kind] = '#[deny(unused_imports)] mod lint_%s { use mockall_double::double; #[double] #[allow(unused_imports)] %s }' % (kind, item.replace('pub ', ''))
    return ds, ws


def bad():
    ws = []
    for k, item in BAD:
        ws.append(W('reject-' + k, 'pub mod n_%s { use mockall_double::double; #[double] %s }' % (k.replace('-', '_'), item), '#[double] %s' % item,
                    (None,), 'custom attribute panicked|Cannot double|Only |may be doubled', ()))
    return ws
