"""Models of the std / runtime primitives used by mockall and its output."""
import re
from absint import (Outs, ForkEx, Undecided, lin_add, is_num, UMAX, L)

MODELS = {}
TMODELS = {}


def m(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def t(tm, *selfs):
    def d(f):
        for s in selfs:
            TMODELS[(tm, s)] = f
        return f
    return d


UNIT = ('tup', ())


def enum(I, ty, variant, *fields):
    return ('adt', ty, variant, tuple(fields))


def variant(I, ty, name):
    for i, v in enumerate(I.T[ty]['v']):
        if v['n'] == name:
            return i
    raise Undecided('variant ' + name)


def some(I, ty, v):
    return ('adt', ty, 1, (v,))


def none(I, ty):
    return ('adt', ty, 0, ())


def opt(I, ty, v):
    return none(I, ty) if v is None else some(I, ty, v)


def load(I, st, r):
    """value behind a reference value"""
    c = I.deref(st, r)
    return c[1] if c[0] == 'V' else I.rd(st, c[1], c[2])


def store(I, st, r, v):
    c = I.deref(st, r)
    if c[0] == 'L':
        I.wr(st, c[1], c[2], v)


def targ(inst, i=0):
    a = [x for x in inst['args'] if isinstance(x, int)]
    return a[i]


def panic(I, st, pieces):
    I.start_panic(st, pieces)
    return Outs([('panic', None, st)])


# ---------------------------------------------------------------- panics
@m('core::option::expect_failed')
def _(I, st, a, c):
    return panic(I, st, pieces_of(I, st, a[0]))


@m('core::option::unwrap_failed')
def _(I, st, a, c):
    return panic(I, st, ('called `Option::unwrap()` on a `None` value',))


@m('core::result::unwrap_failed::unwrap_failed_inner', 'core::result::unwrap_failed')
def _(I, st, a, c):
    v = a[1] if isinstance(a[1], tuple) and a[1][0] == 'adt' else load(I, st, a[1])
    kind = 'err'
    if isinstance(v, tuple) and v[0] == 'adt' and v[1] >= 0 and 'PoisonError' in I.T[v[1]].get('def', ''):
        kind = 'poison'
    return panic(I, st, pieces_of(I, st, a[0]) + (': ', (kind,)))


@m('core::panicking::panic_fmt', 'core::panicking::panic_nounwind_fmt', 'std::panicking::panic_fmt')
def _(I, st, a, c):
    return panic_fmt(I, st, a[0])


def panic_fmt(I, st, fa):
    outs = []
    for k, v, s in render_args(I, st, fa):
        if k == 'ret':
            I.start_panic(s, v)
            outs.append(('panic', None, s))
        else:
            outs.append((k, v, s))
    return Outs(outs)


@m('core::panicking::panic_display')
def _(I, st, a, c):
    return panic(I, st, pieces_of(I, st, a[0]))


@m('core::panicking::panic', 'core::panicking::panic_str_2015', 'core::panicking::panic_explicit',
   'core::panicking::unreachable_display', 'std::panicking::begin_panic', 'core::panicking::unreachable_default_msg',
   'std::rt::begin_panic', 'core::panicking::panic_nounwind', 'core::panicking::unreachable_default')
def _(I, st, a, c):
    return panic(I, st, pieces_of(I, st, a[0]) if a else ('unreachable',))


@m('core::panicking::assert_failed')
def _(I, st, a, c):
    # kind, left, right, Option<Arguments>
    l = load(I, st, a[1])
    r = load(I, st, a[2])
    o = a[3]
    if isinstance(o, tuple) and o[0] == 'adt' and o[2] == 1:
        outs = []
        for k, v, s in render_args(I, st, o[3][0]):
            if k == 'ret':
                I.start_panic(s, ('assert_failed', ('v', 'dbg', l), ('v', 'dbg', r)) + v)
                outs.append(('panic', None, s))
            else:
                outs.append((k, v, s))
        return Outs(outs)
    return panic(I, st, ('assert_failed', ('v', 'dbg', l), ('v', 'dbg', r)))


@m('core::panicking::panic_bounds_check')
def _(I, st, a, c):
    return panic(I, st, ('attempt to bounds',))


@m('std::thread::functions::panicking', 'std::thread::panicking')
def _(I, st, a, c):
    return int(st.pan > 0)


@m('std::panic::catch_unwind')
def _(I, st, a, c):
    before = st.pan
    outs = []
    for k, v, s in I.call_value(st, a[0], [], -1):
        if k == 'ret':
            outs.append(('ret', enum(I, c.retty, 0, v), s))
        elif k == 'panic':
            s.pan = before
            b = I.alloc(s, ('o', ('panicpayload', s.payload)))
            outs.append(('ret', enum(I, c.retty, 1, ('box', b, None)), s))
        else:
            outs.append((k, v, s))
    return Outs(outs)


@m('std::panic::resume_unwind')
def _(I, st, a, c):
    p = None
    try:
        v = load(I, st, a[0])
        if v[0] == 'o' and v[1][0] == 'panicpayload':
            p = v[1][1]
    except Undecided:
        pass
    return panic(I, st, p or ('resumed',))


# ---------------------------------------------------------------- text and formatting
def pieces_of(I, st, v):
    """text pieces of a value printed with Display"""
    for _ in range(8):
        if not isinstance(v, tuple) or not v:
            return (('v', 'disp', v),)
        if v[0] in ('txt', 'sref'):
            return v[1]
        if v[0] in ('ref', 'box', 'arc', 'vref'):
            v = load(I, st, v)
            continue
        if v[0] == 'fmta':
            return v[1]
        break
    return (('v', 'disp', v),)


def parse_template(bs):
    out = []
    i = 0
    nxt = 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(bs[i:i + b]).decode('utf8', 'replace'))
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bytes(bs[i:i + n]).decode('utf8', 'replace'))
            i += n
        else:
            f = b & 0x3f
            spec = []
            if f & 1:
                spec.append(tuple(bs[i:i + 4]))
                i += 4
            if f & 2:
                spec.append(('w', bs[i], bs[i + 1]))
                i += 2
            if f & 4:
                spec.append(('p', bs[i], bs[i + 1]))
                i += 2
            if f & 8:
                nxt = bs[i] | bs[i + 1] << 8
                i += 2
            out.append((nxt, tuple(spec)))
            nxt += 1
    return out


@m("core::fmt::Arguments::<'a>::new", 'core::fmt::Arguments::new')
def _(I, st, a, c):
    tpl = load(I, st, a[0])
    args = load(I, st, a[1])
    if tpl[0] != 'arr' or args[0] != 'arr':
        raise Undecided('fmt template')
    p = []
    for x in parse_template(list(tpl[1])):
        if isinstance(x, str):
            p.append(x)
        else:
            p.append(args[1][x[0]])
    return ('fmta', tuple(p))


@m("core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::from_str_nonconst", 'core::fmt::Arguments::from_str')
def _(I, st, a, c):
    return ('fmta', pieces_of(I, st, a[0]))


def _newarg(kind):
    def f(I, st, a, c):
        return ('fmtarg', kind, a[0], c.inst.get('fmt', -1), targ(c.inst))
    return f


for _k, _n in (('dbg', 'new_debug'), ('disp', 'new_display'), ('disp', 'new_lower_hex'), ('dbg', 'new_pointer'), ('disp', 'new_upper_hex')):
    MODELS["core::fmt::rt::Argument::<'_>::" + _n] = _newarg(_k)
    MODELS["core::fmt::rt::Argument::" + _n] = _newarg(_k)


def render_args(I, st, fa):
    """outcomes [(kind, pieces, st)]"""
    if not isinstance(fa, tuple) or fa[0] != 'fmta':
        return [('ret', (('v', 'disp', fa),), st)]
    cur = [((), st)]
    done = []
    for p in fa[1]:
        nxt = []
        for acc, s in cur:
            if isinstance(p, str):
                nxt.append((acc + (p,), s))
            elif isinstance(p, tuple) and p and p[0] == 'fmtarg':
                for k, v, s2 in render_arg(I, s, p):
                    if k == 'ret':
                        nxt.append((acc + v, s2))
                    else:
                        done.append((k, v, s2))
            else:
                nxt.append((acc + (p,), s))
        cur = nxt
    return done + [('ret', merge(acc), s) for acc, s in cur]


def merge(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != '':
            out.append(p)
    return tuple(out)


def render_arg(I, st, p):
    _, kind, ref, inst, ty = p
    v = None
    try:
        v = load(I, st, ref)
    except Undecided:
        pass
    # text values
    u = v
    for _ in range(6):
        if isinstance(u, tuple) and u and u[0] in ('ref', 'sref', 'vref'):
            if u[0] == 'sref':
                u = ('txt', u[1])
                break
            try:
                u = load(I, st, u)
            except Undecided:
                break
        else:
            break
    if isinstance(u, tuple) and u and u[0] == 'txt':
        if kind == 'disp':
            return [('ret', u[1], st)]
        return [('ret', (('v', 'dbg', u),), st)]
    if isinstance(u, tuple) and u and u[0] == 'fmta':
        return render_args(I, st, u)
    if inst >= 0 and 'body' in I.p.insts[inst]:
        f = I.alloc(st, ('fmtr', ()))
        outs = []
        for k, r, s in I.call_inst(st, inst, [ref, ('ref', f, (), None)]):
            if k == 'ret':
                outs.append(('ret', s.heap[f][1], s))
            else:
                outs.append((k, r, s))
        return outs
    return [('ret', (('v', kind, deep(I, st, v), ty),), st)]


def deep(I, st, v, n=4):
    """resolve references so that printed values can be compared"""
    while n and isinstance(v, tuple) and v and v[0] in ('ref', 'vref'):
        try:
            w = load(I, st, v)
        except Undecided:
            return v
        if w is None:
            return v
        v = w
        n -= 1
    return v


@m('alloc::fmt::format')
def _(I, st, a, c):
    outs = []
    for k, v, s in render_args(I, st, a[0]):
        outs.append((k, ('txt', v) if k == 'ret' else v, s))
    return Outs(outs)


MODELS['alloc::fmt::format::format_inner'] = MODELS['alloc::fmt::format']


def fmt_append(I, st, fref, pieces):
    v = load(I, st, fref)
    if isinstance(v, tuple) and v and v[0] in ('fmtr', 'txt'):
        store(I, st, fref, (v[0], merge(v[1] + pieces)))


@m("core::fmt::Formatter::<'a>::write_fmt", 'core::fmt::Formatter::write_fmt', 'core::fmt::Write::write_fmt', 'core::fmt::write')
def _(I, st, a, c):
    outs = []
    for k, v, s in render_args(I, st, a[1]):
        if k == 'ret':
            fmt_append(I, s, a[0], v)
            outs.append(('ret', enum(I, c.retty, 0, UNIT), s))
        else:
            outs.append((k, v, s))
    return Outs(outs)


@t('core::fmt::Write::write_fmt', '*')
def _(I, st, a, c):
    return MODELS['core::fmt::write'](I, st, a, c)


@m("core::fmt::Formatter::<'a>::write_str", 'core::fmt::Formatter::write_str', "core::fmt::Formatter::<'a>::pad", 'core::fmt::Formatter::pad')
def _(I, st, a, c):
    fmt_append(I, st, a[0], pieces_of(I, st, a[1]))
    return enum(I, c.retty, 0, UNIT)


@t('core::fmt::Write::write_str', '*')
def _(I, st, a, c):
    fmt_append(I, st, a[0], pieces_of(I, st, a[1]))
    return enum(I, c.retty, 0, UNIT)


MODELS['core::fmt::Formatter::alternate'] = lambda I, st, a, c: 0


def _dbgfin(I, st, a, c):
    fmt_append(I, st, a[0], (('v', 'dbg', ('struct',)),))
    return enum(I, c.retty, 0, UNIT)


for _n in ('debug_struct_field1_finish', 'debug_struct_field2_finish', 'debug_struct_field3_finish',
           'debug_struct_field4_finish', 'debug_struct_field5_finish', 'debug_struct_fields_finish',
           'debug_tuple_field1_finish', 'debug_tuple_field2_finish', 'debug_tuple_fields_finish'):
    MODELS["core::fmt::Formatter::<'a>::" + _n] = _dbgfin


def _leaf_fmt(kind, force=False):
    def f(I, st, a, c):
        if 'body' in c.inst and not force:
            return NotImplemented
        if c.inst['k'] == 'virtual':
            return NotImplemented
        v = None
        try:
            v = deep(I, st, a[0], 8)
        except Undecided:
            pass
        if isinstance(v, tuple) and v and v[0] == 'txt' and kind == 'disp':
            fmt_append(I, st, a[1], v[1])
        else:
            fmt_append(I, st, a[1], (('v', kind, v),))
        return enum(I, c.retty, 0, UNIT)
    return f


TMODELS[('core::fmt::Debug::fmt', '*')] = _leaf_fmt('dbg')
TMODELS[('core::fmt::Debug::fmt', 'core::option::Option')] = _leaf_fmt('dbg', True)
TMODELS[('core::fmt::Display::fmt', '*')] = _leaf_fmt('disp')


@t('alloc::borrow::ToOwned::to_owned', 'str')
def _(I, st, a, c):
    return ('txt', pieces_of(I, st, a[0]))


@t('core::convert::From::from', 'alloc::string::String')
def _(I, st, a, c):
    return ('txt', pieces_of(I, st, a[0]))


@t('alloc::string::ToString::to_string', '*')
def _(I, st, a, c):
    ps = pieces_of(I, st, a[0])
    if len(ps) == 1 and isinstance(ps[0], tuple) and ps[0][:2] == ('v', 'disp'):
        d = c.inst['fmt']
        if d >= 0 and 'body' in I.p.insts[d]:
            return Outs([(k, ('txt', v) if k == 'ret' else v, s)
                         for k, v, s in render_arg(I, st, ('fmtarg', 'disp', a[0], d, -1))])
    return ('txt', ps)


for _s in ('*', 'str', 'alloc::string::String'):
    TMODELS[('alloc::string::SpecToString::spec_to_string', _s)] = TMODELS[('alloc::string::ToString::to_string', '*')]


@t('core::clone::Clone::clone', '*')
def _(I, st, a, c):
    # compiler-provided clones of plain data
    if 'body' in c.inst or c.inst['k'] == 'virtual':
        return NotImplemented

    def plain(v):
        return is_num(v) or isinstance(v, tuple) and v and (v[0] in ('ref', 'sref', 'fndef', 'fn') or v[0] in ('tup', 'arr') and all(plain(x) for x in v[1]))
    v = load(I, st, a[0])
    if isinstance(v, tuple) and v and v[0] == 'o':
        return ('o', ('clone', v[1]))
    return v if plain(v) else NotImplemented


@t('core::clone::Clone::clone', 'alloc::string::String')
def _(I, st, a, c):
    return load(I, st, a[0])


@t('core::ops::deref::Deref::deref', 'alloc::string::String')
def _(I, st, a, c):
    v = load(I, st, a[0])
    if v is not None and v[0] == 'txt':
        return ('sref', v[1])
    return a[0]


TMODELS[('core::ops::deref::DerefMut::deref_mut', 'alloc::string::String')] = lambda I, st, a, c: a[0]


@m('alloc::string::String::as_str')
def _(I, st, a, c):
    return TMODELS[('core::ops::deref::Deref::deref', 'alloc::string::String')](I, st, a, c)


@m('alloc::string::String::new')
def _(I, st, a, c):
    return ('txt', ())


TMODELS[('core::default::Default::default', 'alloc::string::String')] = MODELS['alloc::string::String::new']


@m('alloc::string::String::push_str')
def _(I, st, a, c):
    v = load(I, st, a[0])
    store(I, st, a[0], ('txt', merge(v[1] + pieces_of(I, st, a[1]))))
    return UNIT


# ---------------------------------------------------------------- boxes, cells of memory
@m('alloc::boxed::Box::new', 'alloc::boxed::box_new')
def _(I, st, a, c):
    return ('box', I.alloc(st, a[0]), None)


@m('alloc::boxed::Box::pin', 'alloc::boxed::Box::into_pin')
def _(I, st, a, c):
    b = a[0] if isinstance(a[0], tuple) and a[0][0] == 'box' and 'into_pin' in c.inst['np'] else ('box', I.alloc(st, a[0]), None)
    return ('adt', c.retty, 0, (b,))


@t('core::ops::deref::Deref::deref', 'alloc::boxed::Box')
def _(I, st, a, c):
    v = load(I, st, a[0])
    if v[0] == 'box':
        return ('ref', v[1], (), v[2])
    return ('o', ('f', 'deref', v[1])) if v[0] == 'o' else NotImplemented


TMODELS[('core::ops::deref::DerefMut::deref_mut', 'alloc::boxed::Box')] = TMODELS[('core::ops::deref::Deref::deref', 'alloc::boxed::Box')]
TMODELS[('core::convert::AsRef::as_ref', 'alloc::boxed::Box')] = TMODELS[('core::ops::deref::Deref::deref', 'alloc::boxed::Box')]
TMODELS[('core::convert::AsMut::as_mut', 'alloc::boxed::Box')] = TMODELS[('core::ops::deref::Deref::deref', 'alloc::boxed::Box')]
TMODELS[('core::borrow::Borrow::borrow', 'alloc::boxed::Box')] = TMODELS[('core::ops::deref::Deref::deref', 'alloc::boxed::Box')]


def _fncall(I, st, a, c):
    if c.inst['shim'] or c.inst['clo'] or True:
        args = a[1]
        if not (isinstance(args, tuple) and args and args[0] == 'tup'):
            raise Undecided('Fn call arguments')
        return Outs(I.call_value(st, a[0], list(args[1]), c.retty))


for _tm in ('core::ops::function::Fn::call', 'core::ops::function::FnMut::call_mut', 'core::ops::function::FnOnce::call_once'):
    TMODELS[(_tm, '*')] = _fncall
    TMODELS[(_tm, 'alloc::boxed::Box')] = _fncall
    TMODELS[(_tm, '')] = _fncall
    TMODELS[(_tm, '&F')] = _fncall
    TMODELS[(_tm, '&mut F')] = _fncall


@m('core::mem::replace')
def _(I, st, a, c):
    o = load(I, st, a[0])
    store(I, st, a[0], a[1])
    return o


@m('core::mem::swap')
def _(I, st, a, c):
    x, y = load(I, st, a[0]), load(I, st, a[1])
    store(I, st, a[0], y)
    store(I, st, a[1], x)
    return UNIT


@m('core::mem::needs_drop')
def _(I, st, a, c):
    return 1


@m('core::mem::forget')
def _(I, st, a, c):
    return UNIT


@m('core::mem::size_of', 'core::mem::align_of', 'core::intrinsics::size_of', 'core::intrinsics::align_of')
def _(I, st, a, c):
    return ('o', ('size', c.inst['np'].split('::')[-1]))     # same for all types on purpose


@m('core::mem::manually_drop::ManuallyDrop::new')
def _(I, st, a, c):
    return ('adt', c.retty, 0, (a[0],))


@m('core::mem::manually_drop::ManuallyDrop::into_inner')
def _(I, st, a, c):
    return a[0][3][0]


@m('core::mem::manually_drop::ManuallyDrop::take')
def _(I, st, a, c):
    return load(I, st, a[0])[3][0]


@m('core::mem::manually_drop::ManuallyDrop::drop')
def _(I, st, a, c):
    r = a[0]
    d = I.deref(st, r)
    v = I.rd(st, d[1], d[2] + (0,))
    ty = targ(c.inst)
    return Outs(I.drop_at(st, ty, d[1], d[2] + (0,)))


for _s in ('core::mem::manually_drop::ManuallyDrop',):
    @t('core::ops::deref::Deref::deref', _s)
    def _(I, st, a, c):
        d = I.deref(st, a[0])
        return ('ref', d[1], d[2] + (0,), None)
    TMODELS[('core::ops::deref::DerefMut::deref_mut', _s)] = TMODELS[('core::ops::deref::Deref::deref', _s)]


# std::mem::drop has a body (drop elaboration inside)
@m('core::hint::must_use', 'core::hint::black_box', 'core::convert::identity')
def _(I, st, a, c):
    return a[0]


@m('core::hint::unreachable_unchecked', 'core::intrinsics::unreachable')
def _(I, st, a, c):
    return Outs([])


@m('core::intrinsics::assert_inhabited', 'core::ub_checks::check_language_ub')
def _(I, st, a, c):
    return UNIT


# ---------------------------------------------------------------- integers
def nums(*vs):
    for v in vs:
        if not is_num(v):
            raise Undecided('arithmetic on an unknown')


def _minmax(big):
    def f(I, st, a, c):
        nums(a[0], a[1])
        le = st.decide_le0(lin_add(a[0], a[1], -1))
        return (a[1] if le else a[0]) if big else (a[0] if le else a[1])
    return f


MODELS['core::intrinsics::integer_max'] = MODELS['core::cmp::Ord::max'] = _minmax(True)
MODELS['core::intrinsics::integer_min'] = MODELS['core::cmp::Ord::min'] = _minmax(False)


def _arith(op, mode):
    def f(I, st, a, c):
        nums(a[0], a[1])
        ty = targ(c.inst)
        v = I.binop(st, op, a[0], a[1], ty, wrap=False)
        lo, hi = I.range(ty)
        if not is_num(v) or mode == 'unchecked':
            return ('tup', (v, 0)) if mode == 'ovf' else v
        ab = not st.decide_le0(lin_add(v, -hi))
        be = not ab and not st.decide_le0(lin_add(lo, v, -1))
        w = v
        if ab or be:
            if mode == 'sat':
                return hi if ab else lo
            if op == 'Mul' and not isinstance(v, int):
                raise Undecided('wrapping multiplication')
            n = hi - lo + 1
            w = (v - lo) % n + lo if isinstance(v, int) else lin_add(v, -n if ab else n)
        return ('tup', (w, int(ab or be))) if mode == 'ovf' else w
    return f


for _o in ('Add', 'Sub', 'Mul'):
    _l = _o.lower()
    MODELS['core::intrinsics::saturating_' + _l] = _arith(_o, 'sat')
    MODELS['core::intrinsics::wrapping_' + _l] = _arith(_o, 'wrap')
    MODELS['core::intrinsics::unchecked_' + _l] = _arith(_o, 'unchecked')
    MODELS['core::intrinsics::%s_with_overflow' % _l] = _arith(_o, 'ovf')


@m('core::intrinsics::three_way_compare')
def _(I, st, a, c):
    nums(a[0], a[1])
    return I.binop(st, 'Cmp', a[0], a[1], -1)


@m('core::intrinsics::likely', 'core::intrinsics::unlikely')
def _(I, st, a, c):
    return a[0]


@m('core::intrinsics::cold_path', 'core::hint::spin_loop', 'core::hint::cold_path', 'std::thread::functions::yield_now', 'std::thread::yield_now')
def _(I, st, a, c):
    return UNIT


@m('core::hint::select_unpredictable', 'core::intrinsics::select_unpredictable')
def _(I, st, a, c):
    return a[1] if I.truth(st, a[0]) else a[2]


# ---------------------------------------------------------------- Arc / Rc
@m('alloc::rcs::arc::Arc::new', 'alloc::sync::Arc::new', 'alloc::rcs::rc::Rc::new', 'alloc::rc::Rc::new')
def _(I, st, a, c):
    return ('arc', I.alloc(st, a[0]), None)


for _s in ('alloc::rcs::arc::Arc', 'alloc::sync::Arc', 'alloc::rcs::rc::Rc', 'alloc::rc::Rc'):
    @t('core::clone::Clone::clone', _s)
    def _(I, st, a, c):
        return load(I, st, a[0])

    @t('core::ops::deref::Deref::deref', _s)
    def _(I, st, a, c):
        v = load(I, st, a[0])
        if v[0] == 'arc':
            return ('ref', v[1], (), v[2])
        raise Undecided('Arc deref')
    TMODELS[('core::convert::AsRef::as_ref', _s)] = TMODELS[('core::ops::deref::Deref::deref', _s)]

    @m(_s + '::strong_count', _s + '::weak_count')
    def _(I, st, a, c):
        # other owners may have come and gone
        return I.sym(st, 1 if c.inst['np'].endswith('strong_count') else 0, 2**62)

    @m(_s + '::ptr_eq')
    def _(I, st, a, c):
        return int(load(I, st, a[0]) == load(I, st, a[1]))


# ---------------------------------------------------------------- atomics
for _s in ('core::sync::atomic::Atomic', 'core::sync::atomic::AtomicUsize', 'core::sync::atomic::AtomicBool'):
    TMODELS[('core::default::Default::default', _s)] = lambda I, st, a, c: ('atom', 0)
TMODELS[('core::convert::From::from', 'core::sync::atomic::Atomic')] = lambda I, st, a, c: ('atom', a[0])


def atom(I, st, r):
    c = I.deref(st, r)
    if c[0] != 'L':
        raise Undecided('atomic behind opaque pointer')
    v = I.rd(st, c[1], c[2])
    if v is None or v[0] != 'atom':
        raise Undecided('not an atomic')
    return c, v[1]


def still(I, st, c):
    """can no other thread change this place now?"""
    return not I.conc or (I.rely is not None and I.rely.stable(I, st, c))


def conc_read(I, st, c, v):
    """under concurrency a read sees any value not older than this thread's last"""
    if still(I, st, c):
        return v
    if I.rely is not None and not I.rely.moves(I, st, c, v):
        return v
    n = I.sym(st, 0, UMAX - 2)
    n0 = v
    if is_num(v):
        st.assume_le0(lin_add(v, n, -1))
    I.wr(st, c[1], c[2], ('atom', n))
    if I.rely is not None:
        I.rely.moved(I, st, c, n0, n)
    return n


def _rmw(f):
    def g(I, st, a, c):
        cc, v = atom(I, st, a[0])
        # evaluate first (may fork)
        if still(I, st, cc):
            nv = f(I, st, v, a[1])
        old = conc_read(I, st, cc, v)
        nv = f(I, st, old, a[1])
        I.wr(st, cc[1], cc[2], ('atom', nv))
        st.log = st.log + (('rmw', ('ref', cc[1], cc[2], None), old, nv),)
        return old
    return g


def _add(I, st, v, d):
    if not is_num(v) or not is_num(d):
        raise Undecided('atomic arithmetic')
    return lin_add(v, d)


_A = 'core::sync::atomic::Atomic::%s'
for _ty in (0,):
    MODELS[_A % 'fetch_add'] = _rmw(_add)
    MODELS[_A % 'fetch_sub'] = _rmw(lambda I, st, v, d: lin_add(v, d, -1))
    MODELS[_A % 'swap'] = _rmw(lambda I, st, v, d: d)
    MODELS[_A % 'fetch_or'] = _rmw(lambda I, st, v, d: int(I.truth(st, v) or I.truth(st, d)))
    MODELS[_A % 'fetch_and'] = _rmw(lambda I, st, v, d: int(I.truth(st, v) and I.truth(st, d)))
    MODELS[_A % 'fetch_max'] = _rmw(lambda I, st, v, d: d if st.decide_le0(lin_add(v, d, -1)) else v)
    MODELS[_A % 'fetch_min'] = _rmw(lambda I, st, v, d: v if st.decide_le0(lin_add(v, d, -1)) else d)

    def _new(I, st, a, c):
        return ('atom', a[0])
    MODELS[_A % 'new'] = _new

    def _load(I, st, a, c):
        cc, v = atom(I, st, a[0])
        return conc_read(I, st, cc, v)
    MODELS[_A % 'load'] = _load

    def _store(I, st, a, c):
        cc, v = atom(I, st, a[0])
        st.log = st.log + (('store' if I.conc else 'rmw', ('ref', cc[1], cc[2], None), v, a[1]),)
        I.wr(st, cc[1], cc[2], ('atom', a[1]))
        return UNIT
    MODELS[_A % 'store'] = _store

    def _get_mut(I, st, a, c):
        return ('ref', I.deref(st, a[0])[1], I.deref(st, a[0])[2], 'atom')
    MODELS[_A % 'into_inner'] = lambda I, st, a, c: a[0][1]

    def _cas(I, st, a, c):
        cc, v = atom(I, st, a[0])
        key = None
        if not still(I, st, cc):
            # nondeterministic: either the exchange succeeds or another value is seen
            n = 0
            while ('cas', n, len(st.log)) in st.facts:
                n += 1
            key = ('cas', len(st.log), a[1], v)
            if key not in st.facts:
                x = st.fork()
                x.facts[key] = 1
                st.facts[key] = 0
                raise ForkEx([x, st])
            ok = st.facts.pop(key)
            if ok:
                I.wr(st, cc[1], cc[2], ('atom', a[2]))
                st.log = st.log + (('rmw', ('ref', cc[1], cc[2], None), a[1], a[2]),)
                return enum(I, c.retty, 0, a[1])
            return enum(I, c.retty, 1, conc_read(I, st, cc, v))
        if st.decide_eq(v, a[1]):
            I.wr(st, cc[1], cc[2], ('atom', a[2]))
            st.log = st.log + (('rmw', ('ref', cc[1], cc[2], None), v, a[2]),)
            return enum(I, c.retty, 0, v)
        return enum(I, c.retty, 1, v)
    MODELS[_A % 'compare_exchange'] = _cas
    MODELS[_A % 'compare_exchange_weak'] = _cas

    def _fupd(I, st, a, c):
        # fetch_update(&self, set, fetch, f): old read, f applied, one successful exchange
        cc, v = atom(I, st, a[0])
        old = conc_read(I, st, cc, v)
        outs = []
        for k, r, s in I.call_value(st, a[3], [old]):
            if k != 'ret':
                outs.append((k, r, s))
                continue
            if not (isinstance(r, tuple) and r[0] == 'adt'):
                raise Undecided('fetch_update result')
            if r[2] == 1:
                I.wr(s, cc[1], cc[2], ('atom', r[3][0]))
                s.log = s.log + (('rmw', ('ref', cc[1], cc[2], None), old, r[3][0]),)
                outs.append(('ret', enum(I, c.retty, 0, old), s))
            else:
                outs.append(('ret', enum(I, c.retty, 1, old), s))
        return Outs(outs)
    MODELS[_A % 'fetch_update'] = _fupd
    MODELS[_A % 'try_update'] = _fupd


@m('core::sync::atomic::fence')
def _(I, st, a, c):
    return UNIT


# ---------------------------------------------------------------- Mutex
@m('std::sync::poison::mutex::Mutex::new')
def _(I, st, a, c):
    return ('mutex', I.alloc(st, a[0]))


def lock_class(I, st, ref, c):
    s = I.T[c.argtys[0]]['s'] if c.argtys else '?'
    if ref[0] == 'ref' and isinstance(ref[1], tuple):
        return 'static ' + I.p.statics[ref[1][1]]['n']
    return s.replace('&', '').strip()


def get_mutex(I, st, r):
    v = load(I, st, r)
    if not (isinstance(v, tuple) and v and v[0] == 'mutex'):
        raise Undecided('lock of unknown mutex')
    return v[1]


def guard_of(I, st, il):
    g = ('guard', il, st.pan)
    st.held = st.held + (il,)
    return g


def poison_err(I, retty, g):
    pt = I.T[retty]['v'][1]['f'][0][1]
    return enum(I, retty, 1, mk_poison(I, pt, g))


def mk_poison(I, pt, g):
    d = I.T[pt]
    if d['k'] == 'adt' and d['def'].endswith('TryLockError'):
        return enum(I, pt, variant(I, pt, 'Poisoned'), mk_poison(I, d['v'][variant(I, pt, 'Poisoned')]['f'][0][1], g))
    return ('adt', pt, 0, tuple(g if n == 'data' else UNIT for n, _ in d['v'][0]['f']))


@m('std::sync::poison::mutex::Mutex::lock')
def _(I, st, a, c):
    il = get_mutex(I, st, a[0])
    if I.hooks:
        I.hooks.on_lock(I, st, a[0], il, c)
    if il in st.held:
        return Outs([('stop', ('deadlock', il), st)])
    g = guard_of(I, st, il)
    if il in st.poison:
        return poison_err(I, c.retty, g)
    return enum(I, c.retty, 0, g)


@m('std::sync::poison::mutex::Mutex::try_lock')
def _(I, st, a, c):
    il = get_mutex(I, st, a[0])
    pt = I.T[c.retty]['v'][1]['f'][0][1]
    busy = enum(I, c.retty, 1, enum(I, pt, variant(I, pt, 'WouldBlock')))
    if il in st.held:
        return busy
    # another thread may hold it just now
    s2 = st.fork()
    g = guard_of(I, st, il)
    v = poison_err(I, c.retty, g) if il in st.poison else enum(I, c.retty, 0, g)
    return Outs([('ret', v, st), ('ret', busy, s2)])


@m('std::sync::poison::mutex::Mutex::clear_poison')
def _(I, st, a, c):
    st.poison = st.poison - {get_mutex(I, st, a[0])}
    return UNIT


@m('std::sync::poison::mutex::Mutex::is_poisoned')
def _(I, st, a, c):
    return int(get_mutex(I, st, a[0]) in st.poison)


@m('std::sync::poison::mutex::Mutex::get_mut')
def _(I, st, a, c):
    il = get_mutex(I, st, a[0])
    r = ('ref', il, (), None)
    if il in st.poison:
        return poison_err(I, c.retty, r)
    return enum(I, c.retty, 0, r)


@m('std::sync::poison::mutex::Mutex::into_inner')
def _(I, st, a, c):
    il = a[0][1]
    v = st.heap[il]
    if il in st.poison:
        return poison_err(I, c.retty, v)
    return enum(I, c.retty, 0, v)


@t('core::ops::deref::Deref::deref', 'std::sync::poison::mutex::MutexGuard')
def _(I, st, a, c):
    g = load(I, st, a[0])
    if g[0] != 'guard':
        raise Undecided('guard deref')
    return ('ref', g[1], (), None)


TMODELS[('core::ops::deref::DerefMut::deref_mut', 'std::sync::poison::mutex::MutexGuard')] = \
    TMODELS[('core::ops::deref::Deref::deref', 'std::sync::poison::mutex::MutexGuard')]


def _perr(sel):
    def f(I, st, a, c):
        v = a[0]
        if sel != 'into':
            d = I.deref(st, v)
            names = I.T[load(I, st, v)[1]]['v'][0]['f']
            i = [n for n, _ in names].index('data')
            return ('ref', d[1], d[2] + (i,), None)
        names = I.T[v[1]]['v'][0]['f']
        i = [n for n, _ in names].index('data')
        return v[3][i]
    return f


MODELS['std::sync::poison::PoisonError::into_inner'] = _perr('into')
MODELS['std::sync::poison::PoisonError::get_ref'] = _perr('ref')
MODELS['std::sync::poison::PoisonError::get_mut'] = _perr('ref')


def release(I, st, g):
    if g[1] in st.held:
        h = list(st.held)
        h.remove(g[1])
        st.held = tuple(h)
    if st.pan > g[2]:
        st.poison = st.poison | {g[1]}


# ---------------------------------------------------------------- OnceLock
@m('std::sync::once_lock::OnceLock::new')
def _(I, st, a, c):
    return ('once', None)


@m('std::sync::once_lock::OnceLock::get_or_init')
def _(I, st, a, c):
    v = load(I, st, a[0])
    if v is not None and v[0] == 'once' and v[1] is not None:
        return ('ref', v[1], (), None)
    outs = []
    for k, r, s in I.call_value(st, a[1], []):
        if k == 'ret':
            l = I.alloc(s, r)
            store(I, s, a[0], ('once', l))
            outs.append(('ret', ('ref', l, (), None), s))
        else:
            outs.append((k, r, s))
    return Outs(outs)


@m('std::sync::once_lock::OnceLock::get')
def _(I, st, a, c):
    v = load(I, st, a[0])
    return opt(I, c.retty, None if v[1] is None else ('ref', v[1], (), None))


MODELS['std::sync::lazy_lock::LazyLock::new'] = lambda I, st, a, c: ('lazy', a[0], None)


# ---------------------------------------------------------------- TypeId / Any
def tyname(I, ty):
    return I.T[ty]['s']


@m('core::any::TypeId::of')
def _(I, st, a, c):
    return ('tid', tyname(I, targ(c.inst)))


def loose_name(I, ty):
    # type names do not identify types: types of two versions of a crate, or
    # differing in a lifetime only, may share one
    return re.sub(r'\bcorp::(\w+::)*\w+', 'corp::T', tyname(I, ty))


@m('core::any::type_name')
def _(I, st, a, c):
    return ('sref', (loose_name(I, targ(c.inst)),))


@m('core::any::type_name_of_val', 'core::intrinsics::type_name')
def _(I, st, a, c):
    return ('sref', (loose_name(I, targ(c.inst)),))


@t('core::any::Any::type_id', '*')
def _(I, st, a, c):
    if c.inst['k'] == 'virtual':
        r = a[0]
        if isinstance(r, tuple) and r[0] in ('ref', 'box') and r[-1] is not None:
            return ('tid', tyname(I, r[-1]))
        raise Undecided('type_id of unknown value')
    return ('tid', tyname(I, targ(c.inst)))


@t('core::cmp::PartialEq::eq', 'core::any::TypeId')
def _(I, st, a, c):
    x, y = load(I, st, a[0]), load(I, st, a[1])
    if x[0] != 'tid' or y[0] != 'tid':
        raise Undecided('TypeId comparison')
    return int(x == y)


def _dyn_is(I, st, r, T):
    if not (isinstance(r, tuple) and r[0] in ('ref', 'box') and r[-1] is not None):
        raise Undecided('downcast of unknown value')
    return tyname(I, r[-1]) == tyname(I, T)


for _b in ("<(dyn core::any::Any + 'static)>", "<(dyn core::any::Any + core::marker::Send + 'static)>",
           "<(dyn core::any::Any + core::marker::Send + core::marker::Sync + 'static)>"):
    @m(_b + '::is')
    def _(I, st, a, c):
        return int(_dyn_is(I, st, a[0], targ(c.inst)))

    @m(_b + '::downcast_ref', _b + '::downcast_mut')
    def _(I, st, a, c):
        if _dyn_is(I, st, a[0], targ(c.inst)):
            return some(I, c.retty, ('ref', a[0][1], a[0][2], None))
        return none(I, c.retty)

    @m(_b + '::downcast_unchecked_ref', _b + '::downcast_unchecked_mut')
    def _(I, st, a, c):
        return ('ref', a[0][1], a[0][2], None)


# ---------------------------------------------------------------- Vec and slices
@m('alloc::vec::Vec::new', 'alloc::vec::Vec::with_capacity')
def _(I, st, a, c):
    return ('vec', ())


TMODELS[('core::default::Default::default', 'alloc::vec::Vec')] = lambda I, st, a, c: ('vec', ())


def vlen(I, st, v):
    if isinstance(v, tuple) and v:
        if v[0] == 'vec':
            return len(v[1])
        if v[0] == 'arr':
            return len(v[1])
        if v[0] == 'vecn':
            return lin_add(v[1], len(v[3]))
        if v[0] == 'txt':
            return ('o', ('len', v))
    key = ('len', v)
    if key not in st.facts:
        st.facts[key] = I.sym(st, 0, 2**63 - 1)
    return st.facts[key]


def slice_len(I, st, r):
    return vlen(I, st, load(I, st, r))


def vplace(I, st, r):
    c = I.deref(st, r)
    if c[0] != 'L':
        raise Undecided('list behind opaque pointer')
    v = I.rd(st, c[1], c[2])
    if not (isinstance(v, tuple) and v and v[0] in ('vec', 'vecn', 'arr')):
        raise Undecided('not a list: %r' % (v[0] if isinstance(v, tuple) and v else v,))
    return c[1], c[2], v


@m('alloc::vec::Vec::len')
def _(I, st, a, c):
    return slice_len(I, st, a[0])


@m('core::slice::<impl [T]>::len', 'core::ptr::metadata::metadata')
def _(I, st, a, c):
    return slice_len(I, st, a[0])


@m('alloc::vec::Vec::is_empty', 'core::slice::<impl [T]>::is_empty')
def _(I, st, a, c):
    return int(st.decide_eq(slice_len(I, st, a[0]), 0))


@m('alloc::vec::Vec::push')
def _(I, st, a, c):
    l, p, v = vplace(I, st, a[0])
    e = I.alloc(st, a[1])
    if v[0] == 'vec':
        if len(v[1]) >= 2 and draining(st):
            # one element per element of a list of unknown length
            raise Undecided('a list is moved element by element')
        I.wr(st, l, p, ('vec', v[1] + (e,)))
    else:
        I.wr(st, l, p, ('vecn', v[1], v[2], v[3] + (e,), v[4]))
    return UNIT


def draining(st):
    def has(v, n=4):
        if not isinstance(v, tuple) or not v or n == 0:
            return False
        if v[0] == 'drain':
            w = st.heap.get(v[2])
            return isinstance(w, tuple) and w[0] == 'vecn'
        if v[0] == 'adt':
            return any(has(x, n - 1) for x in v[3])
        return v[0] == 'tup' and any(has(x, n - 1) for x in v[1])
    return any(has(v) for v in st.heap.values())


@m('alloc::vec::Vec::insert')
def _(I, st, a, c):
    l, p, v = vplace(I, st, a[0])
    e = I.alloc(st, a[2])
    if v[0] == 'vec' and isinstance(a[1], int) and a[1] <= len(v[1]):
        I.wr(st, l, p, ('vec', v[1][:a[1]] + (e,) + v[1][a[1]:]))
    elif v[0] == 'vecn' and st.decide_eq(a[1], vlen(I, st, v)):
        I.wr(st, l, p, ('vecn', v[1], v[2], v[3] + (e,), v[4]))
    elif v[0] == 'vecn':
        st.flags = st.flags | {'insert-not-at-end'}
        I.wr(st, l, p, ('vecn', v[1], v[2], v[3] + (e,), v[4]))
        I.wr(st, l, p, ('vecn', lin_add(v[1], 1), ((a[1], e),), v[3], v[4]))
    return UNIT


@m('alloc::vec::Vec::clear')
def _(I, st, a, c):
    l, p, v = vplace(I, st, a[0])
    I.wr(st, l, p, ('vec', ()))
    tmp = I.alloc(st, v)
    ty = elem_type(I, c.argtys[0])
    return Outs(drop_list(I, st, ty, tmp, ()))


@m('alloc::vec::Vec::truncate')
def _(I, st, a, c):
    if a[1] == 0:
        return MODELS['alloc::vec::Vec::clear'](I, st, a, c)
    raise Undecided('truncate')


@m('alloc::vec::Vec::pop', 'alloc::vec::Vec::remove', 'alloc::vec::Vec::swap_remove')
def _(I, st, a, c):
    l, p, v = vplace(I, st, a[0])
    if v[0] == 'vec':
        if c.inst['np'].endswith('pop'):
            if not v[1]:
                return none(I, c.retty)
            I.wr(st, l, p, ('vec', v[1][:-1]))
            return some(I, c.retty, st.heap[v[1][-1]])
        if isinstance(a[1], int) and a[1] < len(v[1]):
            I.wr(st, l, p, ('vec', v[1][:a[1]] + v[1][a[1] + 1:]))
            return st.heap[v[1][a[1]]]
    if v[0] == 'vecn':
        # the list shrinks by one arbitrary (or the indexed) element
        st.flags = st.flags | {'list-element-removed'}
        if not c.inst['np'].endswith('pop'):
            e = vec_at(I, st, l, p, a[1])
            v = I.rd(st, l, p)
            I.wr(st, l, p, ('vecn', lin_add(v[1], -1), (), v[3], v[4]))
            return st.heap[e]
    raise Undecided('Vec::' + c.inst['np'].split('::')[-1])


def elem_type(I, ty):
    t = I.T[ty]
    while t['k'] in ('ref', 'ptr'):
        t = I.T[t['e']]
    if t['k'] in ('slice', 'array'):
        return t['e']
    return [x for x in t['args'] if isinstance(x, int)][0]


def new_elem(I, st, loc, path, idx, how, pas):
    """materialise one unknown element; returns list of states each holding it
    (state, elem loc).  May return several states when there are several
    templates."""
    v = I.rd(st, loc, path)
    tpls = I.templates[v[4]]
    res = []
    for k, tp in enumerate(tpls):
        s = st if k == len(tpls) - 1 else st.fork()
        e = instantiate(I, s, tp)
        if e is None:
            continue
        el, names = e
        v2 = I.rd(s, loc, path)
        elems = v2[2] + ((idx, el),)
        I.wr(s, loc, path, ('vecn', v2[1], elems, v2[3], v2[4]))
        s.elems[el] = (tp.label, how, pas, names, idx, (loc, path), k)
        res.append((s, el))
    return res


def instantiate(I, st, tp):
    """copy a template's sub-heap with fresh locations and symbols"""
    lm = {}
    sm = {}
    for l in tp.heap:
        if isinstance(l, int):
            lm[l] = I.nloc
            I.nloc += 1

    def sy(s):
        r = sm.get(s)
        if r is None:
            r = sm[s] = I.nsym
            I.nsym += 1
            if s in I.opn:
                I.opn[r] = I.opn[s]
            st.zone.vs.add(r)
        return r

    def tag(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 's' and isinstance(x[1], int):
                return ('s', sy(x[1]))
            return tuple(val(y) if isinstance(y, tuple) and y and y[0] in ('i', 'o', 'ref', 'tup', 'adt', 'clo', 'arr') else tag(y) for y in x)
        return x

    def val(v):
        if not isinstance(v, tuple) or not v:
            return v
        k = v[0]
        if k == 'i':
            return ('i', tuple(sorted((sy(a), c) for a, c in v[1])), v[2])
        if k == 'o':
            return ('o', tag(v[1]))
        if k == 'ref':
            return ('ref', lm.get(v[1], v[1]), v[2], v[3])
        if k in ('box', 'arc'):
            return (k, lm.get(v[1], v[1]), v[2])
        if k in ('mutex', 'frag', 'once'):
            return (k, lm.get(v[1], v[1]))
        if k == 'guard':
            return (k, lm.get(v[1], v[1]), v[2])
        if k == 'vec':
            return ('vec', tuple(lm.get(x, x) for x in v[1]))
        if k == 'vecn':
            return ('vecn', val(v[1]), tuple((val(a), lm.get(b, b)) for a, b in v[2]), tuple(lm.get(b, b) for b in v[3]), v[4])
        if k == 'map':
            return ('map', tuple((val(a), lm.get(b, b)) for a, b in v[1]))
        if k == 'adt':
            return ('adt', v[1], v[2], tuple(val(x) for x in v[3]))
        if k == 'clo':
            return ('clo', v[1], tuple(val(x) for x in v[2]))
        return tuple(val(x) if isinstance(x, tuple) else x for x in v)

    for l, v in tp.heap.items():
        st.heap[lm.get(l, l)] = val(v)
    for x, y, c in tp.cons:
        if not st.zone.add(sy(x) if x else 0, sy(y) if y else 0, c):
            return None
    if tp.extra.get('poison'):
        st.poison = st.poison | {lm[l] for l in tp.extra['poison']}
    names = tuple(sorted((n, val(v)) for n, v in tp.names.items()))
    return lm[tp.root], names


def vec_at(I, st, loc, path, idx):
    """location of element idx (already known to be in bounds); may fork"""
    v = I.rd(st, loc, path)
    if v[0] == 'vec':
        if isinstance(idx, int):
            if 0 <= idx < len(v[1]):
                return v[1][idx]
            raise Undecided('index out of range')
        for i, e in enumerate(v[1]):
            if st.decide_eq(idx, i):
                return e
        raise Undecided('index out of range')
    n = v[1]
    d = lin_add(idx, n, -1)
    if isinstance(d, int) and d >= 0:
        if d < len(v[3]):
            return v[3][d]
        raise Undecided('index out of range')
    if v[3]:
        for k, e in enumerate(v[3]):
            if st.decide_eq(idx, lin_add(n, k)):
                return e
    for i, e in v[2]:
        if st.decide_eq(i, idx):
            return e
    if not st.decide_le0(lin_add(lin_add(idx, n, -1), 1)):
        raise Undecided('index out of range')
    how = 'first' if idx == 0 else 'ix'
    rs = new_elem(I, st, loc, path, idx, how, None)
    if len(rs) == 1 and rs[0][0] is st:
        return rs[0][1]
    raise ForkEx([s for s, _ in rs])


def _index(I, st, a, c):
    idx = a[1]
    if isinstance(idx, tuple) and idx and idx[0] == 'adt':
        # ranges: only the full range
        if 'RangeFull' in I.T[idx[1]]['def']:
            return a[0]
        raise Undecided('range index')
    if not is_num(idx):
        raise Undecided('index')
    l, p, v = vplace(I, st, a[0])
    n = vlen(I, st, v)
    if not st.decide_le0(lin_add(lin_add(idx, n, -1), 1)):
        return panic(I, st, ('attempt to bounds',))
    if v[0] == 'arr':
        return ('ref', l, p + (idx,), None)
    return ('ref', vec_at(I, st, l, p, idx), (), None)


for _s in ('alloc::vec::Vec', '[T]', '*'):
    TMODELS[('core::ops::index::Index::index', _s)] = _index
    TMODELS[('core::ops::index::IndexMut::index_mut', _s)] = _index
TMODELS[('core::slice::index::SliceIndex::index', '*')] = lambda I, st, a, c: _index(I, st, [a[1], a[0]], c)
TMODELS[('core::slice::index::SliceIndex::index_mut', '*')] = lambda I, st, a, c: _index(I, st, [a[1], a[0]], c)


def _get(I, st, a, c):
    idx = a[1]
    if not is_num(idx):
        raise Undecided('get range')
    l, p, v = vplace(I, st, a[0])
    n = vlen(I, st, v)
    if not st.decide_le0(lin_add(lin_add(idx, n, -1), 1)):
        return none(I, c.retty)
    if v[0] == 'arr':
        return some(I, c.retty, ('ref', l, p + (idx,), None))
    return some(I, c.retty, ('ref', vec_at(I, st, l, p, idx), (), None))


MODELS['core::slice::<impl [T]>::get'] = _get
MODELS['core::slice::<impl [T]>::get_mut'] = _get
MODELS['core::slice::<impl [T]>::first'] = lambda I, st, a, c: _get(I, st, [a[0], 0], c)
MODELS['core::slice::<impl [T]>::first_mut'] = MODELS['core::slice::<impl [T]>::first']
MODELS['core::slice::<impl [T]>::get_unchecked'] = lambda I, st, a, c: _index(I, st, a, c)


def _last(I, st, a, c):
    l, p, v = vplace(I, st, a[0])
    n = vlen(I, st, v)
    if st.decide_eq(n, 0):
        return none(I, c.retty)
    return _get(I, st, [a[0], lin_add(n, -1)], c)


MODELS['core::slice::<impl [T]>::last'] = _last
MODELS['core::slice::<impl [T]>::last_mut'] = _last


@t('core::ops::deref::Deref::deref', 'alloc::vec::Vec')
def _(I, st, a, c):
    return a[0]


TMODELS[('core::ops::deref::DerefMut::deref_mut', 'alloc::vec::Vec')] = TMODELS[('core::ops::deref::Deref::deref', 'alloc::vec::Vec')]
MODELS['alloc::vec::Vec::as_slice'] = TMODELS[('core::ops::deref::Deref::deref', 'alloc::vec::Vec')]
MODELS['alloc::vec::Vec::as_mut_slice'] = TMODELS[('core::ops::deref::Deref::deref', 'alloc::vec::Vec')]
TMODELS[('core::convert::AsRef::as_ref', 'alloc::vec::Vec')] = TMODELS[('core::ops::deref::Deref::deref', 'alloc::vec::Vec')]
TMODELS[('core::convert::AsMut::as_mut', 'alloc::vec::Vec')] = TMODELS[('core::ops::deref::Deref::deref', 'alloc::vec::Vec')]
TMODELS[('core::borrow::Borrow::borrow', 'alloc::vec::Vec')] = TMODELS[('core::ops::deref::Deref::deref', 'alloc::vec::Vec')]


def mk_iter(I, st, r):
    if isinstance(r, tuple) and r[0] == 'vref':
        r = ('ref', I.alloc(st, r[1]), (), None)
    l, p, v = vplace(I, st, r)
    ref = ('ref', l, p, None)
    if v[0] in ('vec', 'arr'):
        return ('iter', ref, 0, len(v[1]), -1)
    st.passes = st.passes + (frozenset(),)
    return ('iter', ref, ('b',), ('e',), len(st.passes) - 1)


@m("core::slice::iter::Iter::<'a, T>::new", "core::slice::iter::IterMut::<'a, T>::new",
   'core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'core::slice::iter::Iter::new', 'core::slice::iter::IterMut::new')
def _(I, st, a, c):
    return mk_iter(I, st, a[0])


@t('core::iter::traits::collect::IntoIterator::into_iter', "&'a alloc::vec::Vec<T, A>", "&'a mut alloc::vec::Vec<T, A>",
   "&'a [T]", "&'a mut [T]", "&'a [T; N]", "&'a mut [T; N]", '&alloc::vec::Vec<T, A>')
def _(I, st, a, c):
    return mk_iter(I, st, a[0])


@t('core::iter::traits::collect::IntoIterator::into_iter', '*')
def _(I, st, a, c):
    v = a[0]
    at = I.T[c.argtys[0]] if c.argtys else {'k': '?'}
    if at['k'] == 'ref':
        e = I.T[at['e']]
        if e['k'] in ('slice', 'array') or (e['k'] == 'adt' and e['def'].endswith('::Vec')):
            return mk_iter(I, st, v)
    if isinstance(v, tuple) and v and v[0] in ('vec', 'vecn'):
        return ('drain', 'vec', I.alloc(st, v), 0, elem_type(I, c.argtys[0]))
    if isinstance(v, tuple) and v and v[0] == 'map':
        return ('drain', 'map', I.alloc(st, v), 0, -1)
    if isinstance(v, tuple) and v and v[0] == 'arr':
        return ('aiter', v[1], 0)
    return NotImplemented if 'body' in c.inst else v


def iter_next(I, st, r, back=False):
    """advance the slice iterator behind reference r.
    returns the element reference or None (exhausted); may raise ForkEx."""
    cl = I.deref(st, r)
    if cl[0] != 'L':
        raise Undecided('iterator')
    it = I.rd(st, cl[1], cl[2])
    if not isinstance(it, tuple) or it[0] != 'iter':
        raise Undecided('iterator kind')
    _, ref, cur, end, pas = it

    def put(c2, e2, s=st):
        I.wr(s, cl[1], cl[2], ('iter', ref, c2, e2, pas))
    v = I.rd(st, ref[1], ref[2])
    if isinstance(cur, int):
        if cur >= end:
            return None, None
        i = end - 1 if back else cur
        put(cur if back else cur + 1, end - 1 if back else end)
        if v[0] == 'arr':
            return ('ref', ref[1], ref[2] + (i,), None), i
        return ('ref', v[1][i], (), None), i
    n = v[1]
    if back:
        return iter_next_back(I, st, cl, it, v, put)
    if end[0] not in ('e', 'cut'):
        raise Undecided('double-ended iteration')
    tail = v[3]
    if end[0] == 'cut':         # all but the last element
        if tail:
            tail = tail[:-1]
        else:
            n = lin_add(n, -1)
    if cur[0] == 'y':
        for i, e in v[2]:
            if i == cur[1]:
                put(('m', i), end)
                return ('ref', e, (), None), i
        raise Undecided('iterator element lost')
    if cur[0] == 'b':
        for i, e in v[2]:
            if i == 0:
                inf = st.elems[e]
                st.elems[e] = inf[:1] + ('first', pas) + inf[3:]
                put(('m', 0), end)
                return ('ref', e, (), None), 0
        if st.decide_le0(n):
            put(('t', 0), end)
        else:
            return _yield_new(I, st, cl, it, 0, 'first', pas)
        cur = ('t', 0)
    if cur[0] == 'm':
        j = cur[1]
        if st.decide_le0(lin_add(lin_add(n, j, -1), -1)):      # n - j - 1 <= 0
            put(('t', 0), end)
            cur = ('t', 0)
        else:
            x = I.sym(st, 1, UMAX)
            st.assume_le0(lin_add(lin_add(x, n, -1), 1))
            return _yield_new(I, st, cl, it, x, 'fwd', pas)
    k = cur[1]
    if k >= len(tail):
        if end[0] == 'e':
            mark_end(st, pas)
        return None, None
    put(('t', k + 1), end)
    return ('ref', tail[k], (), None), lin_add(n, k)


def mark_end(st, pas):
    if pas is not None and pas >= 0 and 'end' not in st.passes[pas]:
        ps = list(st.passes)
        ps[pas] = ps[pas] | {'end'}
        st.passes = tuple(ps)


def iter_next_back(I, st, cl, it, v, put):
    _, ref, cur, end, pas = it
    n = v[1]
    if cur[0] != 'b':
        raise Undecided('double-ended iteration')
    if end[0] == 'y':
        for i, e in v[2]:
            if i == end[1]:
                put(cur, ('bm', i))
                return ('ref', e, (), None), i
        raise Undecided('iterator element lost')
    if end[0] == 'e':
        k = len(v[3]) - 1
    elif end[0] == 'bt':
        k = end[1] - 1
    else:
        k = -1
    if k >= 0:
        put(cur, ('bt', k))
        return ('ref', v[3][k], (), None), lin_add(n, k)
    if end[0] in ('e', 'bt'):
        if st.decide_le0(n):
            put(cur, ('bx',))
            return None, None
        x = lin_add(n, -1)
    elif end[0] == 'bx':
        return None, None
    else:
        j = end[1]
        if j == 0 or st.decide_le0(j):
            put(cur, ('bx',))
            st.flags = st.flags | {'back-exhausted'}
            return None, None
        x = I.sym(st, 0, UMAX)
        st.assume_le0(lin_add(lin_add(x, n, -1), 2))
    # is it the known first element?
    for i, e in v[2]:
        if st.decide_eq(i, x):
            put(cur, ('bm', i))
            return ('ref', e, (), None), i
    s2, ex = [], None
    for s, e in new_elem(I, st, ref[1], ref[2], x, 'back', pas):
        I.wr(s, cl[1], cl[2], ('iter', ref, cur, ('y', x), pas))
        s2.append(s)
    raise ForkEx(s2)


def _yield_new(I, st, cl, it, x, how, pas):
    _, ref, cur, end, _p = it
    s2 = []
    for s, e in new_elem(I, st, ref[1], ref[2], x, how, pas):
        I.wr(s, cl[1], cl[2], ('iter', ref, ('y', x), end, pas))
        s2.append(s)
    raise ForkEx(s2)


def _iter_next(back):
    def f(I, st, a, c):
        cl = I.deref(st, a[0])
        it = I.rd(st, cl[1], cl[2]) if cl[0] == 'L' else cl[1]
        if isinstance(it, tuple) and it and it[0] == 'drain':
            return drain_next(I, st, a, c, it, cl)
        if isinstance(it, tuple) and it and it[0] == 'aiter':
            if it[2] >= len(it[1]):
                return none(I, c.retty)
            I.wr(st, cl[1], cl[2], ('aiter', it[1], it[2] + 1))
            return some(I, c.retty, it[1][it[2]])
        if not (isinstance(it, tuple) and it and it[0] == 'iter'):
            return NotImplemented if 'body' in c.inst else _undec('Iterator::next on %r' % (it[0] if it else it,))
        e, i = iter_next(I, st, a[0], back)
        return opt(I, c.retty, e)
    return f


def _undec(x):
    raise Undecided(x)


TMODELS[('core::iter::traits::iterator::Iterator::next', '*')] = _iter_next(False)
TMODELS[('core::iter::traits::double_ended::DoubleEndedIterator::next_back', '*')] = _iter_next(True)
for _s in ("core::slice::iter::Iter", "core::slice::iter::IterMut"):
    TMODELS[('core::iter::traits::iterator::Iterator::next', _s)] = _iter_next(False)
    TMODELS[('core::iter::traits::double_ended::DoubleEndedIterator::next_back', _s)] = _iter_next(True)


def _enum_next(I, st, a, c):
    cl = I.deref(st, a[0])
    en = I.rd(st, cl[1], cl[2])
    if en[0] == 'adt' and isinstance(en[3][0], tuple) and en[3][0][0] == 'iter':
        e, i = iter_next(I, st, ('ref', cl[1], cl[2] + (0,), None))
        if e is None:
            return none(I, c.retty)
        return some(I, c.retty, ('tup', (i, e)))
    return NotImplemented


TMODELS[('core::iter::traits::iterator::Iterator::next', 'core::iter::adapters::enumerate::Enumerate')] = _enum_next


def _cur_index(I, st, a, c):
    it = load(I, st, a[0])
    if isinstance(it, tuple) and it[0] == 'iter':
        if isinstance(it[2], int):
            return it[2] - 1
        if it[2][0] == 'm':
            return it[2][1]
        if it[2][0] == 't':
            return lin_add(I.rd(st, it[1][1], it[1][2])[1], it[2][1] - 1)
    raise Undecided('position on an adapted iterator')


@t('core::iter::traits::iterator::Iterator::take', '*')
def _(I, st, a, c):
    # the first k elements of a list of any length: all of them when there are
    # at most k, and all but the last when there are k + 1
    it, k = a
    if not (isinstance(it, tuple) and it and it[0] == 'iter' and it[2:4] == (('b',), ('e',))):
        return NotImplemented
    if not isinstance(k, int) or k < 4:
        return NotImplemented
    v = I.rd(st, it[1][1], it[1][2])
    n = lin_add(v[1], len(v[3]))
    outs = []
    s1 = st.fork()
    if s1.assume_le0(lin_add(n, -k)) is not False:
        outs.append(('ret', ('adt', c.retty, 0, (it, ('oo',))), s1))
    if st.assume_le0(lin_add(n, -k - 1)) is not False and st.assume_le0(lin_add(lin_add(0, n, -1), k + 1)) is not False:
        outs.append(('ret', ('adt', c.retty, 0, (it[:3] + (('cut',),) + it[4:], ('oo',))), st))
    return Outs(outs)


@t('core::iter::traits::iterator::Iterator::size_hint', '*')
def _(I, st, a, c):
    it = load(I, st, a[0])
    n = None
    if isinstance(it, tuple) and it and it[0] == 'iter':
        if isinstance(it[2], int):
            n = it[3] - it[2]
        elif it[2][0] == 'b' and it[3][0] == 'e':
            n = slice_len(I, st, it[1])
    elif isinstance(it, tuple) and it and it[0] == 'aiter':
        n = len(it[1]) - it[2]
    t = I.T[c.retty]
    if n is not None and t['k'] == 'tuple':
        return ('tup', (n, some(I, t['f'][1], n)))
    return NotImplemented if 'body' in c.inst else _undec('size_hint')


@t('core::iter::traits::exact_size::ExactSizeIterator::len', '*')
def _(I, st, a, c):
    it = load(I, st, a[0])
    if isinstance(it, tuple) and it[0] == 'iter':
        if isinstance(it[2], int):
            return it[3] - it[2]
        if it[2][0] == 'b':
            return slice_len(I, st, it[1])
    raise Undecided('ExactSizeIterator::len')


# ---- drains
@m('alloc::vec::Vec::drain')
def _(I, st, a, c):
    rng = a[1]
    full = False
    l, p, v = vplace(I, st, a[0])
    if isinstance(rng, tuple) and rng[0] == 'adt':
        d = I.T[rng[1]]['def']
        if d.endswith('RangeFull'):
            full = True
        elif d.endswith('RangeFrom') and rng[3][0] == 0:
            full = True
        elif d.endswith('Range') and rng[3][0] == 0 and st.decide_eq(rng[3][1], vlen(I, st, v)):
            full = True
        elif d.endswith('RangeTo') and st.decide_eq(rng[3][0], vlen(I, st, v)):
            full = True
    if not full:
        st.flags = st.flags | {'partial-drain'}
        if v[0] == 'vecn' or v[0] == 'vec':
            # some elements remain
            return ('drain', 'vec', I.alloc(st, v), 0, elem_type(I, c.argtys[0]))
    I.wr(st, l, p, ('vec', ()))
    return ('drain', 'vec', I.alloc(st, v), 0, elem_type(I, c.argtys[0]))


def drain_next(I, st, a, c, it, cl):
    kind, l = it[1], it[2]
    v = st.heap[l]
    if v[0] == 'map':
        if not v[1]:
            return none(I, c.retty)
        k, e = v[1][0]
        st.heap[l] = ('map', v[1][1:])
        return some(I, c.retty, ('tup', (k, st.heap[e])))
    if v[0] == 'vec':
        if not v[1]:
            return none(I, c.retty)
        st.heap[l] = ('vec', v[1][1:])
        return some(I, c.retty, st.heap[v[1][0]])
    if v[2]:
        e = v[2][0][1]
        st.heap[l] = ('vecn', v[1], v[2][1:], v[3], v[4])
        st.elems.pop(e, None)
        return some(I, c.retty, st.heap[e])
    key = ('drained', l, len(st.log))
    if key not in st.facts:
        s = st.fork()
        s.facts[key] = 1
        outs = [s]
        for s2, e in new_elem(I, st, l, (), I.sym(st, 0, UMAX), 'drain', None):
            outs.append(s2)
        raise ForkEx(outs)
    if st.facts.pop(key):
        if v[3]:
            st.heap[l] = ('vec', v[3])
            e = v[3][0]
            st.heap[l] = ('vec', v[3][1:])
            return some(I, c.retty, st.heap[e])
        st.heap[l] = ('vec', ())
        return none(I, c.retty)
    raise Undecided('drain')


@t('core::iter::traits::iterator::Iterator::collect', '*')
def _(I, st, a, c):
    if I.T[c.retty].get('def') == 'alloc::vec::Vec':
        return collect_vec(I, st, a, c)
    return NotImplemented


@t('core::iter::traits::collect::FromIterator::from_iter', 'alloc::vec::Vec')
def _(I, st, a, c):
    return collect_vec(I, st, a, c)


@t('alloc::vec::spec_from_iter::SpecFromIter::from_iter', 'alloc::vec::Vec')
def _(I, st, a, c):
    return collect_vec(I, st, a, c)


def collect_vec(I, st, a, c):
    v = a[0]
    if isinstance(v, tuple) and v and v[0] == 'drain':
        x = st.heap[v[2]]
        if x[0] == 'map':
            return ('vec', tuple(I.alloc(st, ('tup', (k, st.heap[e]))) for k, e in x[1]))
        return x
    if isinstance(v, tuple) and v and v[0] == 'iter' and isinstance(v[2], int):
        out = []
        src = I.rd(st, v[1][1], v[1][2])
        for i in range(v[2], v[3]):
            r = ('ref', v[1][1], v[1][2] + (i,), None) if src[0] == 'arr' else ('ref', src[1][i], (), None)
            out.append(I.alloc(st, r))
        return ('vec', tuple(out))
    outs = []
    for k, xs, s in adapted(I, st, v):
        outs.append(('ret', ('vec', tuple(I.alloc(s, x) for x in xs)), s) if k == 'ret' else (k, xs, s))
    return Outs(outs)


def adapted(I, st, v):
    """what an iterator of known length yields: [(kind, items, state)]"""
    if isinstance(v, tuple) and v and v[0] == 'aiter':
        return [('ret', list(v[1][v[2]:]), st)]
    if isinstance(v, tuple) and v and v[0] == 'iter' and isinstance(v[2], int):
        src = I.rd(st, v[1][1], v[1][2])
        return [('ret', [('ref', v[1][1], v[1][2] + (i,), None) if src[0] == 'arr' else ('ref', src[1][i], (), None) for i in range(v[2], v[3])], st)]
    if not (isinstance(v, tuple) and v and v[0] == 'adt'):
        raise Undecided('collect from an adapted iterator')
    d = I.T[v[1]]['def']
    f = v[3]
    if d in ('core::ops::range::Range', 'core::ops::range::RangeInclusive') and isinstance(f[0], int) and isinstance(f[1], int):
        return [('ret', list(range(f[0], f[1] + d.endswith('Inclusive'))), st)]
    if not d.startswith('core::iter::adapters::'):
        raise Undecided('collect from an adapted iterator')
    n = d.split('::')[-1]
    if n not in ('Map', 'Rev', 'Take', 'Skip', 'Enumerate', 'Cloned', 'Copied', 'Zip', 'Chain') or n in ('Take', 'Skip') and not isinstance(f[1], int):
        raise Undecided('collect from an adapted iterator')
    outs = []
    if n == 'Chain':
        f = [x[3][0] if x[0] == 'adt' and x[3] else x for x in f]
    for k, xs, s in adapted(I, st, f[0]):
        if k != 'ret':
            outs.append((k, xs, s))
        elif n in ('Zip', 'Chain'):
            for k2, ys, s2 in adapted(I, s, f[1]):
                outs.append((k2, ys if k2 != 'ret' else xs + ys if n == 'Chain' else [('tup', p) for p in zip(xs, ys)], s2))
        elif n == 'Map':
            done = [([], s)]
            for x in xs:
                nxt = []
                for got, s1 in done:
                    for k2, r, s2 in I.call_value(s1, f[1], [x]):
                        if k2 == 'ret':
                            nxt.append((got + [r], s2))
                        else:
                            outs.append((k2, r, s2))
                done = nxt
            outs += [('ret', got, s1) for got, s1 in done]
        else:
            outs.append(('ret', xs[::-1] if n == 'Rev' else xs[:f[1]] if n == 'Take' else xs[f[1]:] if n == 'Skip' else
                         [('tup', p) for p in enumerate(xs)] if n == 'Enumerate' else [load(I, s, x) for x in xs], s))
    return outs


# ---------------------------------------------------------------- maps
MAPS = ('std::collections::hash::map::HashMap', 'alloc::collections::btree::map::BTreeMap')
for _M in MAPS:
    TMODELS[('core::default::Default::default', _M)] = lambda I, st, a, c: ('map', ())
    MODELS[_M + '::new'] = lambda I, st, a, c: ('map', ())
    MODELS[_M + '::with_capacity'] = lambda I, st, a, c: ('map', ())
    MODELS[_M + '::with_hasher'] = lambda I, st, a, c: ('map', ())

    def _mapv(I, st, r):
        cl = I.deref(st, r)
        v = I.rd(st, cl[1], cl[2]) if cl[0] == 'L' else None
        if not (isinstance(v, tuple) and v and v[0] == 'map'):
            raise Undecided('unknown map')
        return cl, v

    def find(I, st, v, k):
        for kk, e in v[1]:
            if kk == k:
                return e
            if not ground(kk) or not ground(k):
                if st.decide_key_eq(I, kk, k) if hasattr(st, 'decide_key_eq') else key_eq(I, st, kk, k):
                    return e
        return None

    def key_eq(I, st, a, b):
        raise Undecided('map key comparison')

    def ground(v):
        if isinstance(v, tuple):
            if v and v[0] in ('o', 'i'):
                return v[0] == 'o' and v[1][0] == 'size'
            return all(ground(x) for x in v)
        return True

    def _mget(I, st, a, c):
        cl, v = _mapv(I, st, a[0])
        e = find(I, st, v, deepkey(I, st, a[1]))
        return opt(I, c.retty, None if e is None else ('ref', e, (), None))

    def deepkey(I, st, k):
        while isinstance(k, tuple) and k and k[0] in ('ref', 'vref'):
            k = load(I, st, k)
        return k
    MODELS[_M + '::get'] = _mget
    MODELS[_M + '::get_mut'] = _mget

    def _mcontains(I, st, a, c):
        cl, v = _mapv(I, st, a[0])
        return int(find(I, st, v, deepkey(I, st, a[1])) is not None)
    MODELS[_M + '::contains_key'] = _mcontains

    def _minsert(I, st, a, c):
        cl, v = _mapv(I, st, a[0])
        e = find(I, st, v, a[1])
        if e is not None:
            o = st.heap[e]
            st.heap[e] = a[2]
            return some(I, c.retty, o)
        I.wr(st, cl[1], cl[2], ('map', v[1] + ((a[1], I.alloc(st, a[2])),)))
        return none(I, c.retty)
    MODELS[_M + '::insert'] = _minsert

    def _mremove(I, st, a, c):
        cl, v = _mapv(I, st, a[0])
        e = find(I, st, v, deepkey(I, st, a[1]))
        if e is None:
            return none(I, c.retty)
        I.wr(st, cl[1], cl[2], ('map', tuple(x for x in v[1] if x[1] != e)))
        return some(I, c.retty, st.heap[e])
    MODELS[_M + '::remove'] = _mremove

    def _mlen(I, st, a, c):
        return len(_mapv(I, st, a[0])[1][1])
    MODELS[_M + '::len'] = _mlen
    MODELS[_M + '::is_empty'] = lambda I, st, a, c: int(not _mapv(I, st, a[0])[1][1])

    def _mdrain(I, st, a, c):
        cl, v = _mapv(I, st, a[0])
        I.wr(st, cl[1], cl[2], ('map', ()))
        return ('drain', 'map', I.alloc(st, v), 0, map_vty(I, c.argtys[0]))
    MODELS[_M + '::drain'] = _mdrain

    def _mclear(I, st, a, c):
        cl, v = _mapv(I, st, a[0])
        I.wr(st, cl[1], cl[2], ('map', ()))
        return Outs(drop_seq(I, st, [(map_vty(I, c.argtys[0]), e, ()) for _, e in v[1]]))
    MODELS[_M + '::clear'] = _mclear

    def _mvalues(I, st, a, c):
        cl, v = _mapv(I, st, a[0])
        return ('aiter', tuple(('ref', e, (), None) for _, e in v[1]), 0)
    MODELS[_M + '::values'] = _mvalues
    MODELS[_M + '::values_mut'] = _mvalues

    def _miter(I, st, a, c):
        cl, v = _mapv(I, st, a[0])
        return ('aiter', tuple(('tup', (('vref', k), ('ref', e, (), None))) for k, e in v[1]), 0)
    MODELS[_M + '::iter'] = _miter
    MODELS[_M + '::iter_mut'] = _miter

    def _mentry(I, st, a, c):
        cl, v = _mapv(I, st, a[0])
        e = find(I, st, v, a[1])
        mref = ('ref', cl[1], cl[2], None)
        if e is not None:
            vi = variant(I, c.retty, 'Occupied')
            return enum(I, c.retty, vi, ('ent', mref, a[1], ('ref', e, (), None)))
        vi = variant(I, c.retty, 'Vacant')
        return enum(I, c.retty, vi, ('ent', mref, a[1], None))
    MODELS[_M + '::entry'] = _mentry


def map_vty(I, ty):
    t = I.T[ty]
    while t['k'] in ('ref', 'ptr'):
        t = I.T[t['e']]
    return [x for x in t['args'] if isinstance(x, int)][1]


def ent_insert(I, st, ent, val):
    cl = I.deref(st, ent[1])
    v = I.rd(st, cl[1], cl[2])
    e = I.alloc(st, val)
    I.wr(st, cl[1], cl[2], ('map', v[1] + ((ent[2], e),)))
    return ('ref', e, (), None)


for _E in ('std::collections::hash::map::', 'alloc::collections::btree::map::entry::'):
    for _q in ("Entry::<'a, K, V, A>::", "Entry::<'a, K, V>::", "Entry::"):
        def _oiw(I, st, a, c):
            ent = a[0][3][0]
            if ent[3] is not None:
                return ent[3]
            outs = []
            arg = [('vref', ent[2])] if c.inst['np'].endswith('with_key') else []
            for k, r, s in I.call_value(st, a[1], arg):
                outs.append(('ret', ent_insert(I, s, ent, r), s) if k == 'ret' else (k, r, s))
            return Outs(outs)
        MODELS[_E + _q + 'or_insert_with'] = _oiw
        MODELS[_E + _q + 'or_insert_with_key'] = _oiw

        def _oi(I, st, a, c):
            ent = a[0][3][0]
            return ent[3] if ent[3] is not None else ent_insert(I, st, ent, a[1])
        MODELS[_E + _q + 'or_insert'] = _oi
    for _q in ("OccupiedEntry::<'a, K, V, A>::", "OccupiedEntry::<'a, K, V>::", 'OccupiedEntry::'):
        MODELS[_E + _q + 'into_mut'] = lambda I, st, a, c: a[0][3]
        MODELS[_E + _q + 'get'] = lambda I, st, a, c: load(I, st, a[0])[3]
        MODELS[_E + _q + 'get_mut'] = lambda I, st, a, c: load(I, st, a[0])[3]
    for _q in ("VacantEntry::<'a, K, V, A>::", "VacantEntry::<'a, K, V>::", 'VacantEntry::'):
        MODELS[_E + _q + 'insert'] = lambda I, st, a, c: ent_insert(I, st, a[0], a[1])


@m('std::hash::random::RandomState::new')
def _(I, st, a, c):
    return ('tup', ())


TMODELS[('core::default::Default::default', 'std::hash::random::RandomState')] = lambda I, st, a, c: ('tup', ())


# ---------------------------------------------------------------- fragile
@m('fragile::fragile::Fragile::new', 'fragile::sticky::Sticky::new')
def _(I, st, a, c):
    return ('frag', I.alloc(st, a[0]))


# I.foreign: the scenario runs on another thread than the one that configured
# the single-threaded actions and matchers
def _fget(I, st, a, c):
    v = load(I, st, a[0])
    if v[0] != 'frag':
        raise Undecided('fragile')
    if I.foreign:
        return panic(I, st, ('wrong thread',))
    return ('ref', v[1], (), None)


def _finto(I, st, a, c):
    if a[0][0] != 'frag':
        raise Undecided('fragile')
    if I.foreign:
        # the panic destroys the value, which panics again
        I.start_panic(st, ('wrong thread',))
        return Outs([('abort', st.payload, st)])
    return st.heap[a[0][1]]


MODELS['fragile::fragile::Fragile::get'] = _fget
MODELS['fragile::fragile::Fragile::get_mut'] = _fget
MODELS['fragile::fragile::Fragile::into_inner'] = _finto
MODELS['fragile::fragile::Fragile::is_valid'] = lambda I, st, a, c: int(not I.foreign)
TMODELS[('core::ops::deref::Deref::deref', 'fragile::fragile::Fragile')] = _fget
TMODELS[('core::ops::deref::DerefMut::deref_mut', 'fragile::fragile::Fragile')] = _fget


def _try(f, err):
    def g(I, st, a, c):
        if I.foreign:
            return enum(I, c.retty, 1, err(a))
        return enum(I, c.retty, 0, f(I, st, a, c))
    return g


MODELS['fragile::fragile::Fragile::try_get'] = _try(_fget, lambda a: ('tup', ()))
MODELS['fragile::fragile::Fragile::try_get_mut'] = _try(_fget, lambda a: ('tup', ()))
MODELS['fragile::fragile::Fragile::try_into_inner'] = _try(_finto, lambda a: a[0])


# ---------------------------------------------------------------- drops
def drop_model(I, t):
    if t['k'] != 'adt':
        return None
    d = t['def']
    f = DROPS.get(d)
    if f is not None:
        return f
    if d.startswith(('alloc::', 'std::', 'hashbrown::', 'core::fmt')):
        return d_generic
    return None


def d_none(I, st, t, v, loc, path):
    return [('ret', None, st)]


def d_generic(I, st, t, v, loc, path):
    """by the kind of abstract value"""
    k = v[0] if isinstance(v, tuple) and v else None
    if k == 'guard':
        release(I, st, v)
        return [('ret', None, st)]
    if k in ('vec', 'vecn', 'arr'):
        return drop_list(I, st, [x for x in t['args'] if isinstance(x, int)][0], loc, path)
    if k == 'drain':
        return d_drain(I, st, t, v, loc, path)
    if k == 'adt' and v[1] >= 0:
        outs = [('ret', None, st)]
        tt = I.T[v[1]]
        if tt['k'] == 'adt':
            for i, (n, ft) in enumerate(tt['v'][v[2]]['f'] if v[2] < len(tt['v']) else []):
                if i < len(v[3]) and v[3][i] is not None:
                    nxt = []
                    for o in outs:
                        if o[0] == 'ret':
                            nxt.extend(I.drop_at(o[2], ft, loc, path + (i,)))
                        else:
                            nxt.append(o)
                    outs = nxt
        return outs
    return [('ret', None, st)]


def d_box(I, st, t, v, loc, path):
    if v[0] != 'box':
        return [('ret', None, st)]
    ty = [x for x in t['args'] if isinstance(x, int)][0]
    if I.T[ty]['k'] == 'dyn':
        if v[2] is None:
            return [('ret', None, st)]
        ty = v[2]
    if I.T[ty]['k'] in ('slice', 'str'):
        return [('ret', None, st)]
    return I.drop_at(st, ty, v[1], ())


def d_mutex(I, st, t, v, loc, path):
    if v[0] != 'mutex':
        return [('ret', None, st)]
    return I.drop_at(st, [x for x in t['args'] if isinstance(x, int)][0], v[1], ())


def d_frag(I, st, t, v, loc, path):
    if v[0] != 'frag':
        return [('ret', None, st)]
    if I.foreign:
        I.start_panic(st, ('wrong thread',))
        return [('panic', None, st)]
    return I.drop_at(st, [x for x in t['args'] if isinstance(x, int)][0], v[1], ())


def d_once(I, st, t, v, loc, path):
    if v[0] != 'once' or v[1] is None:
        return [('ret', None, st)]
    return I.drop_at(st, [x for x in t['args'] if isinstance(x, int)][0], v[1], ())


def d_guard(I, st, t, v, loc, path):
    if v[0] == 'guard':
        release(I, st, v)
    return [('ret', None, st)]


def d_vec(I, st, t, v, loc, path):
    if v[0] == 'drain':
        return d_drain(I, st, t, v, loc, path)
    return drop_list(I, st, [x for x in t['args'] if isinstance(x, int)][0], loc, path)


def d_map(I, st, t, v, loc, path):
    if v[0] != 'map':
        return [('ret', None, st)]
    return drop_seq(I, st, [([x for x in t['args'] if isinstance(x, int)][1], e, ()) for _, e in v[1]])


def d_drain(I, st, t, v, loc, path):
    if v[0] != 'drain':
        return [('ret', None, st)]
    x = st.heap[v[2]]
    if x[0] == 'map':
        vt = v[4]
        if vt < 0:
            vt = [y for y in t['args'] if isinstance(y, int)][1]
        return drop_seq(I, st, [(vt, e, ()) for _, e in x[1]])
    return drop_list(I, st, v[4], v[2], ())


DROPS = {
    'alloc::boxed::Box': d_box, 'alloc::vec::Vec': d_vec, 'std::sync::poison::mutex::Mutex': d_mutex,
    'std::sync::poison::mutex::MutexGuard': d_guard, 'std::sync::once_lock::OnceLock': d_once,
    'fragile::fragile::Fragile': d_frag, 'alloc::string::String': d_none,
    'alloc::rcs::arc::Arc': d_none, 'alloc::sync::Arc': d_none, 'alloc::rcs::rc::Rc': d_none,
    'std::collections::hash::map::HashMap': d_map, 'alloc::collections::btree::map::BTreeMap': d_map,
    'core::mem::manually_drop::ManuallyDrop': d_none,
    'alloc::vec::drain::Drain': d_drain, 'std::collections::hash::map::Drain': d_drain,
    'alloc::vec::into_iter::IntoIter': d_drain,
}


def drop_seq(I, st, items):
    """drop a known sequence of places; a panic continues with the rest, a
    second one aborts"""
    cur = [(st, False)]
    done = []
    for ty, l, p in items:
        nxt = []
        for s, pk in cur:
            for k, v, s2 in I.drop_at(s, ty, l, p):
                if k == 'ret':
                    nxt.append((s2, pk))
                elif k == 'panic':
                    if pk:
                        done.append(('abort', s2.payload, s2))
                    else:
                        nxt.append((s2, True))
                else:
                    done.append((k, v, s2))
        cur = nxt
    return done + [('panic' if pk else 'ret', None, s) for s, pk in cur]


def drop_list(I, st, ety, loc, path):
    v = I.rd(st, loc, path)
    if v is None or v[0] == 'o':
        return [('ret', None, st)]
    if v[0] == 'vec':
        return drop_seq(I, st, [(ety, e, ()) for e in v[1]])
    if v[0] == 'arr':
        return drop_seq(I, st, [(ety, loc, path + (i,)) for i in range(len(v[1]))])
    if v[0] != 'vecn':
        return [('ret', None, st)]
    # unknown elements: fixpoint over "drop one more element"
    known = [(ety, e, ()) for _, e in v[2]] + [(ety, e, ()) for e in v[3]]
    outs = drop_seq(I, st, known)
    work = []
    done = []
    for k, r, s in outs:
        if k in ('ret', 'panic'):
            work.append((s, k == 'panic'))
        else:
            done.append((k, r, s))
    seen = set()
    fin = []
    nknown = len(v[2])
    while work:
        s, pk = work.pop()
        key = (pk, I.canon(s))
        if key in seen:
            continue
        seen.add(key)
        if len(seen) > 300:
            raise Undecided('list drop does not converge')
        # no more unknown elements?  exact only when the list may be exhausted
        f = s.fork()
        f.heap[loc] = I.setp(f.heap[loc], path, ('vec', ()))
        fin.append(('panic' if pk else 'ret', None, f))
        # one more
        r = s.le0(lin_add(v[1], -nknown))
        if r is True:
            continue
        x = s
        for s2, e in new_elem(I, x, loc, path, I.sym(x, 0, UMAX), 'drop', None):
            for k, q, s3 in I.drop_at(s2, ety, e, ()):
                s3.elems.pop(e, None)
                vv = I.rd(s3, loc, path)
                I.wr(s3, loc, path, ('vecn', vv[1], tuple(z for z in vv[2] if z[1] != e), vv[3], vv[4]))
                if k == 'ret':
                    work.append((s3, pk))
                elif k == 'panic':
                    if pk:
                        done.append(('abort', s3.payload, s3))
                    else:
                        work.append((s3, True))
                else:
                    done.append((k, q, s3))
    return done + fin


# ---------------------------------------------------------------- elements
def gc_elems(I, st):
    """forget list elements that nothing refers to any more (they have been
    passed over); what is known about them goes into the pass's flags"""
    if not st.elems:
        return
    touched = set()
    for e in st.log:
        if e[0] in ('rmw', 'store'):
            touched.add(e[1][1])
    live = None
    for el, inf in list(st.elems.items()):
        if inf[1] == 'first' or inf[4] == 0:
            continue
        if live is None:
            seeds = [L(x) for x in st.roots]
            for fb, nl in st.frames:
                seeds.extend(L(fb + i) for i in range(nl))
            seeds.extend(L(x) for x in st.heap if isinstance(x, tuple))
            live = I.reach(st, seeds, skip_vecn_elems=True)
        if el in live:
            continue
        sub = I.reach(st, [L(el)])
        if sub & touched:
            continue
        retire(I, st, el)


def retire(I, st, el):
    inf = st.elems.pop(el)
    loc, path = inf[5]
    pas = inf[2]
    if pas is not None and I.hooks:
        f = I.hooks.justify(I, st, el, inf)
        if f and f not in st.passes[pas]:
            ps = list(st.passes)
            ps[pas] = ps[pas] | {f}
            st.passes = tuple(ps)
    try:
        v = I.rd(st, loc, path)
    except Undecided:
        return
    if isinstance(v, tuple) and v and v[0] == 'vecn':
        I.wr(st, loc, path, ('vecn', v[1], tuple(z for z in v[2] if z[1] != el), v[3], v[4]))


def const_adt(I, st, t, ty, c):
    d = t['def']
    if d.startswith('core::sync::atomic::'):
        v = c
        while isinstance(v, dict):
            v = v['fs'][0]
        return ('atom', v)
    if d == 'core::any::TypeId':
        return ('o', ('const', ty))
    if d.endswith('sync::poison::mutex::Mutex'):
        dt = t['v'][0]['f']
        i = [n for n, _ in dt].index('data')
        return ('mutex', I.alloc(st, I.const(st, dt[i][1], c['fs'][i])))
    if d == 'core::cell::UnsafeCell':
        return I.const(st, t['v'][0]['f'][0][1], c['fs'][0])
    if d == 'alloc::vec::Vec':
        return ('vec', ())
    if d == 'alloc::string::String':
        return ('txt', ())
    if 'OnceLock' in d:
        return ('once', None)
    return None


MODELS['vmodel::cur_index'] = _cur_index
