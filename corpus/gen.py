"""Generates the analysis corpus: for every mock shape a declaration and a set
of scenario functions (never executed; they are the entry points of the
abstract interpreter).  Metadata for the rules is kept in SHAPES."""

import re

HEAD = '''#![allow(dead_code, unused, non_snake_case, clippy::all)]
#![cfg_attr(nightly_feature, feature(specialization))]
use mockall::*;
#[path="%(vm)s"] pub mod vmodel;
#[path="%(mark)s"] pub mod mark;
use mark::{Tok, Val, DVal, NsVal};
use std::ops::*;
type Rg = Range<usize>;
'''


# more arguments than anything is implemented for by listing tuples
WIDE = ['p%d' % (7 * i % 18) for i in range(18)]
NAMES = ('q0', 'c1', 'm2', 'b3', 'z4', 'k5')


def links(chain):
    """the method calls of a chain, in order"""
    out, depth, cur = [], 0, ''
    for i, c in enumerate(chain):
        if c in '([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
        if c == '.' and depth == 0 and cur:
            out.append(cur)
            cur = ''
        cur += c
    return out + [cur]


def handle_variants(name, chain):
    """the same configuration made by methods of the handle one at a time (h),
    and through the expectation each of them returns (q1, q2, ...)"""
    ls = links(chain)
    yield 'h', ' '.join('g%s;' % x for x in ls)
    heads = [x.split('(')[0].replace('_st', '') for x in ls]
    if 'over' in name or len(set(heads)) < len(heads):     # later calls supersede earlier ones
        return
    for i in range(1, len(ls)):
        pre = [x for x in ls[:i] if ls[i].startswith('.in_sequence') and x.startswith('.times')]
        rest = ls[i:] + [x for x in ls[:i] if x not in pre]
        yield 'q%d' % i, ' '.join('g%s;' % x for x in pre) + ' g%s;' % ''.join(rest)


class Shape:
    def __init__(self, sid, decl, mock, meth, args, ret='Val', recv='&', kind='inst', rk='own', ctx=None,
                 tf='', wargs=None, fty=None, has_with=True, callpath=None, nightly_default=False, owned=None,
                 gens='', name=None, debug=None, cb=None, alts=(), altcall=None, calltf='', pairs=False, wide=False, elems=None):
        self.pairs = pairs
        self.elems = elems or {}      # argument -> number of elements of the slice it is
        self.wide = wide              # only the matters that depend on the number of arguments
        self.calltf = calltf
        self.alts = alts              # other type arguments: (turbofish, argument types)
        self.altcall = altcall
        self.sid = sid
        # names that are not in alphabetical order
        decl = re.sub(r'\ba([0-5])\b', lambda m: NAMES[int(m.group(1))], decl)
        args = [(re.sub(r'^a([0-5])$', lambda m: NAMES[int(m.group(1))], a[0]),) + tuple(a[1:]) for a in args]
        self.decl = decl
        self.mock = mock              # mock type (instance) or path prefix (static)
        self.meth = meth
        self.args = args              # [(name, type, how printed: 'dbg'|'?')]
        self.ret = ret
        self.recv = recv
        self.kind = kind              # inst | static
        self.rk = rk                  # own | ref | refmut | sref
        self.ctx = ctx                # context path for statics
        self.tf = tf                  # turbofish of expect
        self.has_with = has_with
        self.callpath = callpath
        self.owned = owned or ret     # owned type configured
        self.name = name              # expected name in reports
        self.cb = cb

    @property
    def n(self):
        return len(self.args)

    def names(self):
        return [a[0] for a in self.args]

    def cl(self, f, ret=True):
        """closure text calling marker f with every argument"""
        ns = ['x%d' % i for i in range(self.n)]
        vs = [v for i, x in enumerate(ns) for v in (['%s_%d' % (x, j) for j in range(self.elems[i])] if i in self.elems else [x])]
        b = 'mark::%s(k, (%s))' % (f, ''.join(x + ', ' for x in vs))
        for i, n in self.elems.items():
            b = 'match x%d { [%s] => %s, _ => mark::%s(k, ()) }' % (i, ', '.join('x%d_%d' % (i, j) for j in range(n)), b, f)
        return 'move |%s| %s' % (', '.join(ns), b)

    def expect(self):
        return 'm.expect_%s%s()' % (self.meth, self.tf) if self.kind == 'inst' else 'm.expect%s()' % self.tf

    def handle_ty(self):
        return '&mut ' + self.mock if self.kind == 'inst' else '&' + self.ctx[1]

    def retset(self, how=None):
        """the setter that installs the marked return action"""
        how = how or {'own': 'returning', 'ref': 'return_const', 'refmut': 'returning', 'sref': 'returning'}[self.rk]
        if how in ('returning', 'returning_st', 'return_once', 'return_once_st'):
            return '.%s(%s)' % (how, self.cl('rfunc'))
        return '.%s(mark::val::<%s>(k))' % (how, self.owned)

    def fns(self):
        S = self.sid
        H = self.handle_ty()
        o = []

        def setf(name, chain, extra=''):
            o.append('pub fn s_%s__%s(m: %s, k: Tok%s) { %s%s; }' % (S, name, H, extra, self.expect(), chain))
            if self.kind != 'inst':
                for v, body in handle_variants(name, chain):
                    o.append('pub fn s_%s__%s_%s(m: %s, k: Tok%s) { let mut g = %s; %s }' % (S, v, name, H, extra, self.expect(), body))
        g = '.withf(%s)' % self.cl('pred')
        setf('setG', g + '.times(r)' + self.retset(), ', r: Rg')
        # matchers
        setf('setMnone', self.retset())
        setf('setMwithfst', '.withf_st(%s)' % self.cl('pred') + self.retset())
        if self.has_with and self.n:
            pl = ', '.join('predicate::function(move |x: &%s| mark::pred(k%d, (x,)))' % (self.predty(i), i) for i in range(self.n))
            ks = ''.join(', k%d: Tok' % i for i in range(self.n))
            setf('setMwith', '.with(%s)' % pl + self.retset(), ks)
        # the latest matcher wins
        kinds = ['f', 's'] + (['w'] if self.has_with and self.n else [])

        def mat(kind, t):
            if kind != 'w':
                return '.%s(%s)' % ({'f': 'withf', 's': 'withf_st'}[kind], self.cl('pred').replace('(k,', '(%s,' % t)), ', %s: Tok' % t
            return ('.with(%s)' % ', '.join('predicate::function(move |x: &%s| mark::pred(%s%d, (x,)))' % (self.predty(i), t, i) for i in range(self.n)),
                    ''.join(', %s%d: Tok' % (t, i) for i in range(self.n)))
        for x in kinds:
            for y in kinds:
                (c1, t1), (c2, t2) = mat(x, 'j'), mat(y, 'l')
                setf('setMover_' + x + y, c1 + c2 + self.retset(), t1 + t2)
        setf('setMlast', self.retset() + g)
        # return actions
        acts = {'own': ['returning_st', 'return_once', 'return_once_st', 'return_const', 'return_const_st'],
                'sref': ['returning_st', 'return_once', 'return_once_st', 'return_const', 'return_const_st'],
                'ref': [], 'refmut': ['returning_st', 'return_var']}[self.rk]
        for a in acts:
            setf('setR' + a, g + self.retset(a))
        setf('setRdefault', g)
        # single-threaded actions with a bound, for use from other threads
        gst = '.withf_st(%s)' % self.cl('pred') + '.times(r)'
        for i, a in enumerate([x for x in acts if x.endswith('_st')] or [None]):
            setf('setF%d' % i, gst + self.retset(a), ', r: Rg')
            setf('setFr%d' % i, g + '.times(r)' + self.retset(a), ', r: Rg')
        # most recent return action wins
        if self.rk in ('own', 'sref'):
            setf('setRover', g + self.retset('return_const').replace('(k)', '(j)') + self.retset('returning'), ', j: Tok')
            setf('setRover2', g + self.retset('return_once').replace('(k,', '(j,') + self.retset('return_const'), ', j: Tok')
        elif self.rk == 'refmut':
            setf('setRover', g + self.retset('return_var').replace('(k)', '(j)') + self.retset('returning'), ', j: Tok')
        if self.pairs:
            for x in ['returning'] + acts:
                for y in ['returning'] + acts:
                    setf('setRp_%s__%s' % (x, y), g + self.retset(x).replace('(k', '(j') + self.retset(y), ', j: Tok')
            # the last count wins
            cnt = {'once': '.once()', 'never': '.never()', 'n': '.times(%s)', 'from': '.times(%s..)', 'to': '.times(..%s)', 'full': '.times(..)'}
            for x, cx in cnt.items():
                for y, cy in cnt.items():
                    setf('setTover_%s__%s' % (x, y), g + cx.replace('%s', 'a') + cy.replace('%s', 'b') + self.retset(), ', a: usize, b: usize')
        # counts, sequences
        setf('setNonce', g + '.once()' + self.retset())
        setf('setNnever', g + '.never()' + self.retset())
        setf('setNdef', g + self.retset())
        R = self.retset()
        setf('setTn', g + '.times(a)' + R, ', a: usize')
        setf('setTfull', g + '.times(r).times(..)' + R, ', r: Rg')
        setf('setTfrom', g + '.times(a..)' + R, ', a: usize')
        setf('setTincl', g + '.times(a..=b)' + R, ', a: usize, b: usize')
        setf('setTto', g + '.times(..b)' + R, ', b: usize')
        setf('setTtoincl', g + '.times(..=b)' + R, ', b: usize')
        setf('setTafter', g + R + '.times(a)', ', a: usize')
        setf('setNover', g + '.times(r).times(q)' + self.retset(), ', r: Rg, q: Rg')
        setf('setSeq', g + '.times(n).in_sequence(s)' + self.retset(), ', n: usize, s: &mut Sequence')
        setf('setSeqR', g + '.times(r).in_sequence(s)' + self.retset(), ', r: Rg, s: &mut Sequence')
        setf('setSeqD', g + '.in_sequence(s)' + self.retset(), ', s: &mut Sequence')
        # calls
        ps, av = [], []
        for i, a in enumerate(self.args):
            if i in self.elems:
                es = ['%s_%d' % (a[0], j) for j in range(self.elems[i])]
                ps += ['%s: %s' % (e, a[1]) for e in es]
                av.append('&[%s]' % ', '.join(es))
            else:
                ps.append('%s: %s' % (a[0], a[1]))
                av.append(a[0])
        ps, av = ', '.join(ps), ', '.join(av)
        lt = "<'r>"
        ret = self.ret
        if self.kind == 'inst':
            rc = {'&': "&'r %s", '&mut': "&'r mut %s", 'self': '%s', 'box': 'Box<%s>'}[self.recv] % self.mock
            if self.rk == 'ref':
                ret = "&'r " + ret
            elif self.rk == 'refmut':
                ret = "&'r mut " + ret
            elif self.rk == 'sref':
                ret = "&'static " + ret
            un = 'unsafe { %s }' if self.callpath == 'unsafe' else '%s'
            o.append('pub fn s_%s__call%s(m: %s, %s) -> %s { %s }' % (S, lt, rc, ps, ret, un % ('m.%s%s(%s)' % (self.meth, self.calltf, av))))
            o.append('pub fn s_%s__new() -> %s { <%s>::new() }' % (S, self.mock, self.mock))
            o.append('pub fn s_%s__default() -> %s { <%s>::default() }' % (S, self.mock, self.mock))
            o.append('pub fn s_%s__drop(_m: %s) {}' % (S, self.mock))
            o.append('pub fn s_%s__ck(m: &mut %s) { m.checkpoint() }' % (S, self.mock))
        else:
            if self.rk == 'sref':
                ret = "&'static " + ret
            o.append('pub fn s_%s__call(%s) -> %s { %s(%s) }' % (S, ps, ret, self.callpath, av))
            o.append('pub fn s_%s__new() -> %s { %s() }' % (S, self.ctx[1], self.ctx[0]))
            o.append('pub fn s_%s__drop(_m: %s) {}' % (S, self.ctx[1]))
            o.append('pub fn s_%s__ck(m: &%s) { m.checkpoint() }' % (S, self.ctx[1]))
        # the same method with other type arguments
        for i, (tf, tys) in enumerate(self.alts):
            ex = 'm.expect_%s%s()' % (self.meth, tf) if self.kind == 'inst' else 'm.expect%s()' % tf
            o.append('pub fn s_%s__alt%dset(m: %s, k: Tok, r: Rg) { %s%s; }' % (S, i, H, ex, g + '.times(r)' + self.retset()))
            ps = ', '.join('%s: %s' % (a[0], t) for a, t in zip(self.args, tys))
            if self.kind == 'inst':
                o.append('pub fn s_%s__alt%dcall%s(m: %s, %s) -> %s { m.%s%s(%s) }' % (S, i, lt, rc, ps, self.altret(i, ret), self.meth, tf, av))
            else:
                o.append('pub fn s_%s__alt%dcall(%s) -> %s { %s%s(%s) }' % (S, i, ps, self.altret(i, ret), self.callpath.split('::<')[0], tf, av))
        return o

    def altret(self, i, ret):
        return ret

    def predty(self, i):
        t = self.args[i][1]
        if t.startswith('&mut '):
            return t[5:]
        if t.startswith("&'r "):
            return t[4:]
        if t.startswith('&'):
            return t[1:]
        return t


def shapes():
    L = []
    A3 = [('a0', 'DVal', 'dbg'), ('a1', 'DVal', 'dbg'), ('a2', '&str', 'dbg')]
    sig3 = 'a0: DVal, a1: DVal, a2: &str'
    L.append(Shape('Own', '#[automock] pub trait TOwn { fn foo(&self, %s) -> Val; }' % sig3, 'MockTOwn', 'foo', A3, pairs=True, name='MockTOwn::foo'))
    L.append(Shape('Mut', '#[automock] pub trait TMut { fn foo(&mut self, a0: &mut DVal, a1: Val) -> DVal; }', 'MockTMut', 'foo',
                   [('a0', '&mut DVal', 'dbg'), ('a1', 'Val', '?')], ret='DVal', recv='&mut', name='MockTMut::foo'))
    L.append(Shape('Ref', '#[automock] pub trait TRef { fn foo(&self, a0: DVal, a1: DVal) -> &Val; }', 'MockTRef', 'foo',
                   A3[:2], rk='ref', name='MockTRef::foo'))
    L.append(Shape('RefMut', '#[automock] pub trait TRefMut { fn foo(&mut self, a0: DVal, a1: DVal) -> &mut Val; }', 'MockTRefMut', 'foo',
                   A3[:2], rk='refmut', recv='&mut', pairs=True, name='MockTRefMut::foo'))
    L.append(Shape('Gen', "#[automock] pub trait TGen { fn foo<T: 'static, U: 'static>(&self, a0: T, a1: U) -> Val; }", 'MockTGen', 'foo',
                   [('a0', 'DVal', '?'), ('a1', 'u32', '?')], tf='::<DVal, u32>', alts=[('::<Val, u32>', ['Val', 'u32']), ('::<DVal, u64>', ['DVal', 'u64']), ('::<u32, DVal>', ['u32', 'DVal'])], name='MockTGen::foo'))
    L.append(Shape('GenRef', "#[automock] pub trait TGenRef { fn foo<T: 'static, U: 'static>(&self, a0: T, a1: U) -> &Val; }", 'MockTGenRef', 'foo',
                   [('a0', 'DVal', '?'), ('a1', 'u32', '?')], tf='::<DVal, u32>', rk='ref', alts=[('::<Val, u32>', ['Val', 'u32']), ('::<DVal, u64>', ['DVal', 'u64']), ('::<u32, DVal>', ['u32', 'DVal'])], name='MockTGenRef::foo'))
    L.append(Shape('GenRefMut', "#[automock] pub trait TGenRefMut { fn foo<T: 'static, U: 'static>(&mut self, a0: T, a1: U) -> &mut Val; }",
                   'MockTGenRefMut', 'foo', [('a0', 'DVal', '?'), ('a1', 'u32', '?')], tf='::<DVal, u32>', rk='refmut', recv='&mut',
                   alts=[('::<Val, u32>', ['Val', 'u32']), ('::<DVal, u64>', ['DVal', 'u64']), ('::<u32, DVal>', ['u32', 'DVal'])], name='MockTGenRefMut::foo'))
    L.append(Shape('Sta', '#[automock] pub trait TSta { fn foo(a0: DVal, a1: DVal) -> Val; }', 'MockTSta', 'foo', A3[:2], kind='static',
                   ctx=('MockTSta::foo_context', '__mock_MockTSta_TSta::__foo::Context'), callpath='MockTSta::foo', name='MockTSta::foo'))
    L.append(Shape('GenSta', "#[automock] pub trait TGenSta { fn foo<T: 'static, U: 'static>(a0: T, a1: U) -> Val; }", 'MockTGenSta', 'foo',
                   [('a0', 'DVal', '?'), ('a1', 'u32', '?')], kind='static', tf='::<DVal, u32>',
                   ctx=('MockTGenSta::foo_context', '__mock_MockTGenSta_TGenSta::__foo::Context'), callpath='MockTGenSta::foo::<DVal, u32>',
                   alts=[('::<Val, u32>', ['Val', 'u32']), ('::<DVal, u64>', ['DVal', 'u64']), ('::<u32, DVal>', ['u32', 'DVal'])], name='MockTGenSta::foo'))
    L.append(Shape('Modf', '#[automock] pub mod fns { use super::*; pub fn foo(a0: DVal, a1: DVal) -> Val { loop {} } }', 'mock_fns', 'foo', A3[:2],
                   kind='static', ctx=('mock_fns::foo_context', 'mock_fns::__foo::Context'), callpath='mock_fns::foo', name='mock_fns::foo'))
    L.append(Shape('Fori', 'pub mod fori { #[super::automock] pub mod ffi { extern "C" { pub fn foo(a0: u32, a1: u32) -> i64; } } }', 'fori::mock_ffi', 'foo',
                   [('a0', 'u32', 'dbg'), ('a1', 'u32', 'dbg')], ret='i64', kind='static', ctx=('fori::mock_ffi::foo_context', 'fori::mock_ffi::__foo::Context'),
                   callpath='unsafe {fori::mock_ffi::foo', name='mock_ffi::foo'))
    L.append(Shape('Inh', 'pub struct SInh(u8); #[automock] impl SInh { pub fn foo(&self, a0: DVal, a1: Val) -> Val { loop {} } }', 'MockSInh', 'foo',
                   [('a0', 'DVal', 'dbg'), ('a1', 'Val', '?')], name='MockSInh::foo'))
    L.append(Shape('GTr', "#[automock] pub trait TGTr<T: 'static, U: 'static> { fn foo(&self, a0: T, a1: U) -> T; }", 'MockTGTr<DVal, Val>', 'foo',
                   [('a0', 'DVal', '?'), ('a1', 'Val', '?')], ret='DVal', name='MockTGTr::foo'))
    L.append(Shape('Conc', "#[automock] pub trait TConc { #[mockall::concretize] fn foo<P: AsRef<DVal> + 'static>(&self, a0: P, a1: DVal) -> Val; }\nimpl AsRef<DVal> for Val { fn as_ref(&self) -> &DVal { loop {} } }",
                   'MockTConc', 'foo', [('a0', 'Val', '?'), ('a1', 'DVal', 'dbg')], has_with=False, name='MockTConc::foo'))
    L.append(Shape('ConcS', "#[automock] pub trait TConcS { #[mockall::concretize] fn foo<P: AsRef<DVal> + 'static>(&self, a0: &[P], a1: DVal) -> Val; }",
                   'MockTConcS', 'foo', [('a0', 'Val', '?'), ('a1', 'DVal', 'dbg')], has_with=False, name='MockTConcS::foo', wide=True, elems={0: 9}))
    L.append(Shape('ConcR', "#[automock] pub trait TConcR { #[mockall::concretize] fn foo<P: AsRef<DVal> + 'static, Q: AsRef<DVal> + 'static>(&self, a0: &P, a1: &mut Q, a2: &P) -> Val; }",
                   'MockTConcR', 'foo', [('a0', '&Val', '?'), ('a1', '&mut Val', '?'), ('a2', '&Val', '?')], has_with=False, name='MockTConcR::foo', wide=True))
    L.append(Shape('Clo', "#[automock] pub trait TClo { fn foo<F: Fn(u32) -> u32 + Send + 'static>(&self, a0: F, a1: DVal) -> Val; }", 'MockTClo', 'foo',
                   [('a0', 'fn(u32) -> u32', '?'), ('a1', 'DVal', 'dbg')], has_with=False, name='MockTClo::foo'))
    L.append(Shape('ByV', '#[automock] pub trait TByV { fn foo(self, a0: DVal, a1: Val) -> Val; }', 'MockTByV', 'foo',
                   [('a0', 'DVal', 'dbg'), ('a1', 'Val', '?')], recv='self', name='MockTByV::foo'))
    L.append(Shape('SRef', "#[automock] pub trait TSRef { fn foo(&self, a0: DVal, a1: u32) -> &'static Val; }", 'MockTSRef', 'foo',
                   [('a0', 'DVal', 'dbg'), ('a1', 'u32', 'dbg')], rk='sref', owned="&'static Val", name='MockTSRef::foo'))
    L.append(Shape('Mck', 'mock! { pub Mck { fn bar(&self, b: u32) -> Val; fn baz<T: \'static>(&self, t: T) -> Val; fn sta() -> Val; '
                   'fn gr<T: \'static>(&self, t: T) -> &Val; fn grm<T: \'static>(&mut self, t: T) -> &mut Val; fn bv(self) -> Val; fn sr(&self) -> &\'static Val; } '
                   'impl TMckA for Mck { fn foo(&self, a0: DVal, a1: DVal) -> Val; fn r(&self) -> &Val; fn rm(&mut self) -> &mut Val; } '
                   'impl TMckB<u8> for Mck { fn q(&self, x: u8) -> Val; } }\n'
                   'pub trait TMckA { fn foo(&self, a0: DVal, a1: DVal) -> Val; fn r(&self) -> &Val; fn rm(&mut self) -> &mut Val; } pub trait TMckB<T> { fn q(&self, x: T) -> Val; }',
                   'MockMck', 'foo', A3[:2], name='MockMck::foo'))
    L.append(Shape('Zero', '#[automock] pub trait TZero { fn foo(&self) -> Val; }', 'MockTZero', 'foo', [], name='MockTZero::foo'))
    L.append(Shape('Four', '#[automock] pub trait TFour { fn foo(&self, a0: DVal, a1: u32, a2: Val, a3: DVal) -> Val; }', 'MockTFour', 'foo',
                   [('a0', 'DVal', 'dbg'), ('a1', 'u32', 'dbg'), ('a2', 'Val', '?'), ('a3', 'DVal', 'dbg')], name='MockTFour::foo'))
    L.append(Shape('Six', 'mock! { pub Six { pub fn foo(&mut self, a0: &DVal, a1: &mut DVal, a2: &[u32], a3: Val, a4: &str, a5: Option<DVal>) -> DVal; } }', 'MockSix', 'foo',
                   [('a0', '&DVal', 'dbg'), ('a1', '&mut DVal', 'dbg'), ('a2', '&[u32]', 'dbg'), ('a3', 'Val', '?'), ('a4', '&str', 'dbg'), ('a5', 'Option<DVal>', 'dbg')],
                   ret='DVal', recv='&mut', name='MockSix::foo'))
    L.append(Shape('Names', '#[automock] pub trait TNames { fn foo(&self, desc: DVal, no_match_msg: DVal, message: DVal, expectations: DVal, f: DVal, g: DVal) -> Val; }', 'MockTNames', 'foo',
                   [(n, 'DVal', 'dbg') for n in ('desc', 'no_match_msg', 'message', 'expectations', 'f', 'g')], name='MockTNames::foo'))
    G3 = [('a0', 'DVal', '?'), ('a1', 'u32', '?'), ('a2', 'Val', '?')]
    ALT3 = [('::<DVal, u32, u64>', ['DVal', 'u32', 'u64']), ('::<DVal, u64, Val>', ['DVal', 'u64', 'Val']), ('::<Val, u32, Val>', ['Val', 'u32', 'Val']),
            ('::<Val, u32, DVal>', ['Val', 'u32', 'DVal']), ('::<u32, DVal, Val>', ['u32', 'DVal', 'Val'])]
    P3 = "<T: 'static, U: 'static, V: 'static>"
    A3s = 'a0: T, a1: U, a2: V'
    L.append(Shape('Gen3', "#[automock] pub trait TGen3 { fn foo%s(&self, %s) -> Val; }" % (P3, A3s), 'MockTGen3', 'foo', G3, tf='::<DVal, u32, Val>', alts=ALT3, name='MockTGen3::foo'))
    L.append(Shape('Gen3Ref', "#[automock] pub trait TGen3Ref { fn foo%s(&self, %s) -> &Val; }" % (P3, A3s), 'MockTGen3Ref', 'foo', G3, tf='::<DVal, u32, Val>', rk='ref', alts=ALT3, name='MockTGen3Ref::foo'))
    L.append(Shape('Gen3RM', "mock! { pub Gen3RM { fn foo%s(&mut self, %s) -> &mut Val; } }" % (P3, A3s), 'MockGen3RM', 'foo', G3, tf='::<DVal, u32, Val>', rk='refmut', recv='&mut', alts=ALT3, name='MockGen3RM::foo'))
    L.append(Shape('Gen3Sta', "mock! { pub Gen3Sta { fn foo%s(%s) -> Val; } }" % (P3, A3s), 'MockGen3Sta', 'foo', G3, kind='static', tf='::<DVal, u32, Val>',
                   ctx=('MockGen3Sta::foo_context', '__mock_MockGen3Sta::__foo::Context'), callpath='MockGen3Sta::foo::<DVal, u32, Val>', alts=ALT3, name='MockGen3Sta::foo'))
    L.append(Shape('GenMod', "#[automock] pub mod gfns { pub fn foo<T: 'static, U: std::fmt::Debug + 'static>(a0: T, a1: U) -> u32 { loop {} } }", 'mock_gfns', 'foo',
                   [('a0', 'DVal', '?'), ('a1', 'u32', 'dbg')], ret='u32', kind='static', tf='::<DVal, u32>', ctx=('mock_gfns::foo_context', 'mock_gfns::__foo::Context'),
                   callpath='mock_gfns::foo::<DVal, u32>', alts=[('::<Val, u32>', ['Val', 'u32']), ('::<DVal, u64>', ['DVal', 'u64'])], name='mock_gfns::foo'))
    L.append(Shape('GRet', "#[automock] pub trait TGRet { fn foo<T: 'static>(&self, a0: u32) -> T; }", 'MockTGRet', 'foo', [('a0', 'u32', 'dbg')], ret='Val',
                   tf='::<Val>', calltf='::<Val>', name='MockTGRet::foo'))
    L.append(Shape('GTGen', "#[automock] pub trait TGTGen<T: 'static> { fn foo<U: 'static>(&self, a0: T, a1: U) -> T; }", 'MockTGTGen<DVal>', 'foo',
                   [('a0', 'DVal', '?'), ('a1', 'u32', '?')], ret='DVal', tf='::<u32>', alts=[('::<Val>', ['DVal', 'Val'])], name='MockTGTGen::foo'))
    L.append(Shape('GTSta', "mock! { pub TGTSta<T: 'static + Send> { fn foo(a0: T, a1: u32) -> T; } }", 'MockTGTSta<DVal>', 'foo',
                   [('a0', 'DVal', '?'), ('a1', 'u32', 'dbg')], ret='DVal', kind='static', tf='', ctx=('MockTGTSta::<DVal>::foo_context', '__mock_MockTGTSta::__foo::Context<DVal>'),
                   callpath='MockTGTSta::<DVal>::foo', name='MockTGTSta::foo'))
    L.append(Shape('Bx', '#[automock] pub trait TBx { fn foo(self: Box<Self>, a0: DVal) -> Val; }', 'MockTBx', 'foo', [('a0', 'DVal', 'dbg')], recv='box', name='MockTBx::foo'))
    L.append(Shape('StrR', '#[automock] pub trait TStrR { fn foo(&self, a0: DVal) -> &str; }', 'MockTStrR', 'foo', [('a0', 'DVal', 'dbg')], ret='str', rk='ref', owned='String', name='MockTStrR::foo'))
    L.append(Shape('SliR', '#[automock] pub trait TSliR { fn foo(&self, a0: DVal) -> &[Val]; }', 'MockTSliR', 'foo', [('a0', 'DVal', 'dbg')], ret='[Val]', rk='ref', owned='Vec<Val>', name='MockTSliR::foo'))
    L.append(Shape('StrM', '#[automock] pub trait TStrM { fn foo(&mut self, a0: DVal) -> &mut str; }', 'MockTStrM', 'foo', [('a0', 'DVal', 'dbg')], ret='str', rk='refmut', recv='&mut', owned='String', name='MockTStrM::foo'))
    L.append(Shape('Unit', '#[automock] pub trait TUnit { unsafe fn foo(&self, a0: DVal, a1: DVal); }', 'MockTUnit', 'foo', A3[:2], ret='()', callpath='unsafe', name='MockTUnit::foo'))
    L.append(Shape('Lif', "#[automock] pub trait TLif { fn foo<'b>(&self, a0: &'b DVal, a1: DVal) -> Val; }", 'MockTLif', 'foo',
                   [('a0', '&DVal', 'dbg'), ('a1', 'DVal', 'dbg')], name='MockTLif::foo'))
    L.append(Shape('GSt', "mock! { pub GSt<T: 'static + Send> { pub fn foo(&self, a0: T, a1: DVal) -> Val; } }", 'MockGSt<DVal>', 'foo', [('a0', 'DVal', '?'), ('a1', 'DVal', 'dbg')], name='MockGSt::foo'))
    L.append(Shape('Dbg', "#[automock] pub trait TDbg { fn foo<T: std::fmt::Debug + 'static>(&self, a0: T, a1: DVal) -> Val; }", 'MockTDbg', 'foo', [('a0', 'DVal', 'dbg'), ('a1', 'DVal', 'dbg')],
                   tf='::<DVal>', name='MockTDbg::foo'))
    L.append(Shape('Wide', '#[automock] pub trait TWide { fn foo(&self, %s) -> Val; }' % ', '.join('%s: DVal' % x for x in WIDE), 'MockTWide', 'foo',
                   [(x, 'DVal', 'dbg') for x in WIDE], wide=True, name='MockTWide::foo'))
    # static and instance methods side by side
    L.append(Shape('Mix', '#[automock] pub trait TMix { fn foo(&self, a0: DVal) -> Val; fn sta(x: u32) -> Val; fn bar(&mut self, x: u32) -> &mut Val; fn other() -> u32; fn rr(&self) -> &Val; }',
                   'MockTMix', 'foo', A3[:1], name='MockTMix::foo'))
    L.append(Shape('MixG', "#[automock] pub trait TMixG<T: 'static> { fn sta(x: u32) -> Val; fn foo(&self, a0: T) -> Val; fn bar<U: 'static>(&self, x: U) -> &Val; }",
                   'MockTMixG<DVal>', 'foo', [('a0', 'DVal', '?')], name='MockTMixG::foo'))
    L.append(Shape('MixI', 'pub struct SMixI(u8); #[automock] impl SMixI { pub fn sta(x: u32) -> Val { loop {} } pub fn foo(&self, a0: DVal) -> Val { loop {} } pub fn bar(&mut self, x: u32) -> Val { loop {} } }',
                   'MockSMixI', 'foo', A3[:1], name='MockSMixI::foo'))
    L.append(Shape('MixT', 'pub trait TMixT { fn foo(&self, a0: DVal) -> Val; fn sta(x: u32) -> Val; } pub struct SMixT(u8); #[automock] impl TMixT for SMixT { fn foo(&self, a0: DVal) -> Val { loop {} } fn sta(x: u32) -> Val { loop {} } }',
                   'MockSMixT', 'foo', A3[:1], name='MockSMixT::foo'))
    L.append(Shape('MixM', 'pub trait TMixM1 { fn foo(&self, a0: DVal) -> Val; fn sta(x: u32) -> Val; } pub trait TMixM2 { fn only(x: u32) -> Val; } pub trait TMixM3<T> { fn sta2(x: T) -> Val; fn bar(&self, x: T) -> Val; }\n'
                   "mock! { pub MixM<T: 'static> { } impl<T: 'static> TMixM2 for MixM<T> { fn only(x: u32) -> Val; } impl<T: 'static> TMixM1 for MixM<T> { fn foo(&self, a0: DVal) -> Val; fn sta(x: u32) -> Val; } "
                   "impl<T: 'static> TMixM3<u16> for MixM<T> { fn sta2(x: u16) -> Val; fn bar(&self, x: u16) -> Val; } }",
                   'MockMixM<DVal>', 'foo', A3[:1], name='MockMixM::foo'))
    return L


def generate(vm, mark, skip=()):
    """(source, [(first line, last line, unit id)])"""
    out = []
    spans = []
    n = 1

    def put(text, sid=None):
        nonlocal n
        k = text.count('\n') + 1
        out.append(text)
        if sid:
            spans.append((n, n + k - 1, sid))
        n += k
    put(HEAD % dict(vm=vm, mark=mark))
    for s in shapes():
        if s.sid in skip:
            continue
        put(s.decl, s.sid)
        for f in s.fns():
            if 'unsafe {' in f and s.kind != 'inst':
                f = f.replace(') }', ')} }') if '__call' in f else f
            put(f, s.sid)
    for sid, (need, t) in EXTRAS.items():
        if sid not in skip and not any(x in skip for x in need):
            put(t, sid)
    return '\n'.join(out) + '\n', spans


MODX = [('a', '', 'u32', ''), ('b', '::<DVal>', 'DVal', ''), ('b2', '::<u32>', 'u32', ''), ('c', '', 'u32', ''), ('d', '', 'u32', ''), ('e', '', '', ''), ('h', '', 'u32', ''), ('g', '', 'u32', ''), ('z', '', '', '')]


def modx():
    o = ['''#[automock] pub mod mx { use super::*; pub fn a(x: u32) -> Val { loop {} } pub fn b<T: 'static>(x: T) -> Val { loop {} } pub unsafe fn c(x: u32) -> Val { loop {} }
  extern "C" { pub fn d(x: u32) -> i64; } pub(crate) fn e() -> &'static Val { loop {} } extern "C" { pub fn h(x: u32) -> i64; pub fn g(x: u32) -> i64; } pub const K: u32 = 3; pub extern "C" fn z() { loop {} } }
pub fn s_ModX__ck() { mock_mx::checkpoint() }''']
    for n, tf, a, _ in MODX:
        f = n.rstrip('2')
        c = 'mock_mx::__%s::Context' % f
        o.append('pub fn s_ModX__ctx_%s() -> %s { mock_mx::%s_context() }' % (n, c, f))
        v = 'a' if a else ''
        o.append('pub fn s_ModX__set_%s(m: &%s, k: Tok, r: Rg) { m.expect%s().withf(move |%s| mark::pred(k, (%s))).times(r).returning(move |%s| mark::rfunc(k, (%s))); }' % (n, c, tf, v, v and 'a,', v, v and 'a,'))
    return '\n'.join(o)


def mixed(sid, mock, ctx, meths, tf=''):
    """set-ups and calls of several methods of one mock, and of one static"""
    o = []
    for n, mtf, recv, a, ret, how in meths:
        v, ps = ('a', 'a: %s' % a) if a else ('', '')
        t = v and 'a,'
        act = '.return_const(mark::val::<Val>(k))' if how == 'ref' else '.returning(move |%s| mark::rfunc(k, (%s)))' % (v, t)
        o.append('pub fn s_%sX__set_%s(m: &mut %s, k: Tok, r: Rg) { m.expect_%s%s().withf(move |%s| mark::pred(k, (%s))).times(r)%s; }' % (sid, n, mock, n, mtf, v, t, act))
        o.append("pub fn s_%sX__call_%s<'r>(m: &'r %s%s%s) -> %s { m.%s(%s) }" % (sid, n, recv, mock, ps and ', ' + ps, ret, n, v))
    if ctx is None:
        return (sid,), '\n'.join(o)
    ty, ctor = ctx
    o.append('pub fn s_%sX__ctx() -> %s { %s() }' % (sid, ty, ctor))
    o.append('pub fn s_%sX__set_sta(m: &%s, k: Tok, r: Rg) { m.expect%s().withf(move |a| mark::pred(k, (a,))).times(r).returning(move |a| mark::rfunc(k, (a,))); }' % (sid, ty, tf))
    return (sid,), '\n'.join(o)


# further entry points: unit id -> (shapes it needs, text)
EXTRAS = {
 'ModX': ((), modx()),
 'X': ((), '''
pub fn s_X__seqnew() -> Sequence { Sequence::new() }'''),
 'MixX': mixed('Mix', 'MockTMix', ('__mock_MockTMix_TMix::__sta::Context', 'MockTMix::sta_context'),
                [('foo', '', '', 'DVal', 'Val', 'own'), ('bar', '', 'mut ', 'u32', "&'r mut Val", 'own'), ('rr', '', '', '', "&'r Val", 'ref')]),
 'MixGX': mixed('MixG', 'MockTMixG<DVal>', None,
                [('foo', '', '', 'DVal', 'Val', 'own'), ('bar', '::<u32>', '', 'u32', "&'r Val", 'ref')]),
 'MixIX': mixed('MixI', 'MockSMixI', ('__mock_MockSMixI::__sta::Context', 'MockSMixI::sta_context'),
                [('foo', '', '', 'DVal', 'Val', 'own'), ('bar', '', 'mut ', 'u32', 'Val', 'own')]),
 'MixTX': mixed('MixT', 'MockSMixT', ('__mock_MockSMixT_TMixT::__sta::Context', 'MockSMixT::sta_context'),
                [('foo', '', '', 'DVal', 'Val', 'own')]),
 'MixMX': mixed('MixM', 'MockMixM<DVal>', ('__mock_MockMixM_TMixM1::__sta::Context<DVal>', 'MockMixM::<DVal>::sta_context'),
                [('foo', '', '', 'DVal', 'Val', 'own'), ('bar', '', '', 'u16', 'Val', 'own')]),
 'MckX': (('Mck',), '''pub fn s_MckX__set_bar(m: &mut MockMck, k: Tok, r: Rg) { m.expect_bar().withf(move |a| mark::pred(k, (a,))).times(r).returning(move |a| mark::rfunc(k, (a,))); }
pub fn s_MckX__set_baz(m: &mut MockMck, k: Tok, r: Rg) { m.expect_baz::<u32>().withf(move |a| mark::pred(k, (a,))).times(r).returning(move |a| mark::rfunc(k, (a,))); }
pub fn s_MckX__set_baz2(m: &mut MockMck, k: Tok, r: Rg) { m.expect_baz::<DVal>().withf(move |a| mark::pred(k, (a,))).times(r).returning(move |a| mark::rfunc(k, (a,))); }
pub fn s_MckX__set_foo(m: &mut MockMck, k: Tok, r: Rg) { m.expect_foo().withf(move |a, b| mark::pred(k, (a, b))).times(r).returning(move |a, b| mark::rfunc(k, (a, b))); }
pub fn s_MckX__set_r(m: &mut MockMck, k: Tok, r: Rg) { m.expect_r().withf(move || mark::pred(k, ())).times(r).return_const(mark::val::<Val>(k)); }
pub fn s_MckX__set_rm(m: &mut MockMck, k: Tok, r: Rg) { m.expect_rm().withf(move || mark::pred(k, ())).times(r).returning(move || mark::rfunc(k, ())); }
pub fn s_MckX__set_q(m: &mut MockMck, k: Tok, r: Rg) { m.expect_q().withf(move |a| mark::pred(k, (a,))).times(r).returning(move |a| mark::rfunc(k, (a,))); }
pub fn s_MckX__set_gr(m: &mut MockMck, k: Tok, r: Rg) { m.expect_gr::<u32>().withf(move |a| mark::pred(k, (a,))).times(r).return_const(mark::val::<Val>(k)); }
pub fn s_MckX__set_grm(m: &mut MockMck, k: Tok, r: Rg) { m.expect_grm::<u32>().withf(move |a| mark::pred(k, (a,))).times(r).returning(move |a| mark::rfunc(k, (a,))); }
pub fn s_MckX__set_bv(m: &mut MockMck, k: Tok, r: Rg) { m.expect_bv().withf(move || mark::pred(k, ())).times(r).returning(move || mark::rfunc(k, ())); }
pub fn s_MckX__set_sr(m: &mut MockMck, k: Tok, r: Rg) { m.expect_sr().withf(move || mark::pred(k, ())).times(r).returning(move || mark::rfunc(k, ())); }
pub fn s_MckX__call_bar(m: &MockMck, a: u32) -> Val { m.bar(a) }
pub fn s_MckX__call_baz(m: &MockMck, a: u32) -> Val { m.baz(a) }
pub fn s_MckX__call_baz2(m: &MockMck, a: DVal) -> Val { m.baz(a) }
pub fn s_MckX__call_foo(m: &MockMck, a: DVal, b: DVal) -> Val { m.foo(a, b) }
pub fn s_MckX__call_r(m: &MockMck) -> &Val { m.r() }
pub fn s_MckX__call_rm(m: &mut MockMck) -> &mut Val { m.rm() }
pub fn s_MckX__call_q(m: &MockMck, a: u8) -> Val { m.q(a) }
pub fn s_MckX__call_gr(m: &MockMck, a: u32) -> &Val { m.gr(a) }
pub fn s_MckX__call_grm(m: &mut MockMck, a: u32) -> &mut Val { m.grm(a) }
pub fn s_MckX__call_bv(m: MockMck) -> Val { m.bv() }
pub fn s_MckX__call_sr(m: &MockMck) -> &'static Val { m.sr() }
pub fn s_MckX__ctx() -> __mock_MockMck::__sta::Context { MockMck::sta_context() }
pub fn s_MckX__set_sta(m: &__mock_MockMck::__sta::Context, k: Tok, r: Rg) { m.expect().withf(move || mark::pred(k, ())).times(r).returning(move || mark::rfunc(k, ())); }'''),
}


if __name__ == '__main__':
    import sys
    d = sys.argv[1]
    print(generate(d + '/vmodel.rs', d + '/mark.rs')[0])
