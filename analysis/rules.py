"""Scenario runner and shared helpers for the property rules (Engine A)."""
import os, sys
from absint import *
import models
from models import MODELS, TMODELS, load

BIG = 2**62


class Hooks:
    def __init__(self):
        self.nested = None        # called while a user's return function runs
        self.args = None          # the caller's arguments in the current scenario
        self.argviol = {}
        self.argok = 0
        self.locks = {}           # (class a, class b) -> witness
        self.lockcls = {}
        self.panic_kinds = {}
        self.cur = ''
        self.lockpanics = []

    def on_panic(self, I, st, pieces):
        pass

    def on_drop_opaque(self, I, st, v):
        pass

    def on_opaque_call(self, I, st, f, args, retty):
        return None

    def on_lock(self, I, st, ref, iloc, ctx):
        cls = models.lock_class(I, st, ref, ctx)
        self.lockcls[iloc] = cls
        for h in st.held:
            e = (self.lockcls.get(h, '?'), cls)
            if h == iloc:
                continue
            self.locks.setdefault(e, (self.cur, I.stack[-1] if I.stack else ''))

    def justify(self, I, st, el, inf):
        return why_not(I, st, el, dict(inf[3]))


def pred_fact(st, tok):
    return st.facts.get(('b', ('pred', tok[1])))


def why_not(I, st, el, names):
    """why element el is not eligible: 'nomatch', 'sat' or 'U' (no reason)"""
    if 'tok' in names and pred_fact(st, names['tok']) == 0:
        return 'nomatch'
    if 'c' in names and st.entails_le(names['hi'], names['c'], 1):
        return 'sat'          # hi - 1 <= c
    return 'U'


def strip(I, st, v, n=12):
    while n and isinstance(v, tuple) and v and v[0] in ('ref', 'vref', 'box'):
        try:
            w = I.rd(st, v[1], ()) if v[0] == 'box' else load(I, st, v)
        except (Undecided, KeyError):
            return v
        if w is None:
            return v
        v = w
        n -= 1
    while isinstance(v, tuple) and v and v[0] == 'o' and v[1][0] in ('d', 'r'):
        v = ('o', v[1][1])
    if isinstance(v, tuple) and v and v[0] in ('fn', 'fndef'):
        return v
    return v


# ------------------------------------------------------------ markers
def install_markers(crate):
    M = MODELS

    def flat(I, st, v):
        if isinstance(v, tuple) and v and v[0] == 'tup':
            return list(v[1])
        return [v]

    def pred(I, st, a, c):
        H = I.hooks
        tok = a[0]
        if H and H.args is not None:
            got = flat(I, st, a[1])
            check_args(I, st, 'matcher', tok, got, H.args)
        r = I.truth(st, ('o', ('pred', tok[1])))
        if I.user_panics:
            s2 = st.fork()
            I.start_panic(s2, ('user panic',))
            return Outs([('ret', r, st), ('panic', None, s2)])
        return r
    M[crate + '::mark::pred'] = pred

    def rfunc(I, st, a, c):
        tok = a[0]
        got = flat(I, st, a[1])
        H = I.hooks
        if H and H.args is not None:
            check_args(I, st, 'return function', tok, got, H.args)
        st.log = st.log + (('user', tok),)
        if H and H.nested is not None:
            H.nested(st, tok)
        r = ('o', ('ret', tok[1]))
        if I.user_panics:
            s2 = st.fork()
            I.start_panic(s2, ('user panic',))
            return Outs([('ret', r, st), ('panic', None, s2)])
        return r
    M[crate + '::mark::rfunc'] = rfunc
    M[crate + '::mark::val'] = lambda I, st, a, c: ('o', ('val', a[0][1]))

    def clone_val(I, st, a, c):
        v = load(I, st, a[0])
        if isinstance(v, tuple) and v and v[0] == 'o':
            return ('o', ('clone', v[1]))
        return v
    M[crate + '::mark::clone_val'] = clone_val
    M[crate + '::mark::clone_dval'] = clone_val
    M[crate + '::mark::default_dval'] = lambda I, st, a, c: ('o', ('default', ()))

    def dbg_val(I, st, a, c):
        models.fmt_append(I, st, a[1], (('v', 'dbg', strip(I, st, a[0])),))
        return models.enum(I, c.retty, 0, models.UNIT)
    M[crate + '::mark::dbg_val'] = dbg_val
    M[crate + '::vmodel::cur_index'] = models._cur_index


def check_args(I, st, who, tok, got, want):
    """arguments given to a user function against the caller's"""
    H = I.hooks
    one = H.argmap.get(tok[1]) if getattr(H, 'argmap', None) else None
    if one is not None:
        want = [want[one]]
    key = None
    if len(got) != len(want):
        key = '%s receives %d argument(s), the caller passed %d' % (who, len(got), len(want))
    else:
        for i, (g, w) in enumerate(zip(got, want)):
            if who == 'return function':
                ok = g == w or strip(I, st, g) == strip(I, st, w)
            else:
                ok = strip(I, st, g) == strip(I, st, w)
            if not ok:
                gi = [j for j, x in enumerate(want) if strip(I, st, x) == strip(I, st, g)]
                key = '%s: position %d receives %s' % (who, i, 'argument %d' % gi[0] if gi else 'something else')
                if not gi and st.lossy:
                    key = None
                    continue
                break
    if key:
        H.argviol.setdefault((H.cur, key), I.stack[-1] if I.stack else '')
    else:
        H.argok += 1


# ------------------------------------------------------------ scenarios
class Scen:
    def __init__(self, prog, shape, tlimit=60, crate='corp'):
        self.p = prog
        self.s = shape
        self.h = Hooks()
        self.I = Interp(prog, self.h, tlimit=tlimit)
        self.crate = crate
        self.undec = {}
        self.states = 0
        self.variant = None           # form of the configuration functions to use

    def names(self, prefix):
        """the scenarios of this shape that begin with the prefix"""
        pre = "%s::s_%s__" % (self.crate, self.s.sid)
        return sorted(r[len(pre):] for r in self.p.roots if r.startswith(pre + prefix))

    def has(self, act):
        return '%s::s_%s__%s' % (self.crate, self.s.sid, act) in self.p.roots

    def inst(self, act):
        if self.variant and self.has(self.variant + '_' + act):
            act = self.variant + '_' + act
        n = '%s::s_%s__%s' % (self.crate, self.s.sid, act)
        return self.p.insts[self.p.roots[n]]

    def run(self, act, args, st, abs_name=None):
        self.h.cur = '%s.%s' % (self.s.sid, act)
        inst = self.inst(act) if abs_name is None else self.p.insts[self.p.roots[abs_name]]
        outs = self.I.run_body(inst, args, st.fork())
        self.states += len(outs)
        for k, v, s in outs:
            if k == 'undec':
                self.undec[v] = self.undec.get(v, 0) + 1
        return outs

    def argtys(self, act):
        b = self.inst(act)['body']
        return b['L'][1:1 + b['n']]

    def new(self):
        """a fresh mock (instance) or context (static): (state, reference to it)"""
        st = St()
        outs = self.run('new', [], st)
        rets = [o for o in outs if o[0] == 'ret']
        if len(rets) != 1:
            raise Undecided('%s::new has %d outcomes' % (self.s.mock, len(rets)))
        _, v, st = rets[0]
        l = self.I.alloc(st, v)
        st.roots = (l,)
        self.ml = l
        return st, ('ref', l, (), None)

    def setup(self, st, mref, act='setG', extra=()):
        """run a setter; returns (outcomes, token, fresh args by position)"""
        I = self.I
        tys = self.argtys(act)
        tok = I.opaque('tok', tys[1])
        args = [mref, tok]
        for i, t in enumerate(tys[2:]):
            if i < len(extra) and extra[i] is not None:
                args.append(extra[i])
            else:
                args.append(I.fresh(st, t, 'x%d' % i))
        outs = self.run(act, args, st)
        return outs, tok, args

    # ---- lists
    def find_list(self, st, tok):
        """place of the list holding the element that carries tok"""
        I = self.I
        best = None
        seeds = list(st.roots) + [l for l in st.heap if isinstance(l, tuple)]
        seen = set()
        q = list(seeds)
        i = 0
        while i < len(q):
            l = q[i]
            i += 1
            if l in seen:
                continue
            seen.add(l)
            v = st.heap.get(l)
            for path, x in subvals(v):
                if x[0] in ('vec', 'vecn'):
                    es = list(x[1]) if x[0] == 'vec' else list(x[3])
                    for e in es:
                        if has_tok(I, st, e, tok):
                            return l, path, e
            q.extend(sorted_locs(refs_of(v)))
        return None

    def template(self, st, tok, elem, names, label='G'):
        """generalise the element into a list template"""
        I = self.I
        locs = I.reach(st, [L(elem)])
        shared = {l for l in locs if isinstance(l, tuple)}
        heap = {}
        atoms = []
        for l in locs - shared:
            if l not in st.heap:
                continue
            v = st.heap[l]
            for path, x in subvals(v):
                if x[0] == 'atom':
                    atoms.append((l, path))
            heap[l] = v
        if len(atoms) != 1:
            raise Undecided('%d counters in an expectation' % len(atoms))
        tmp = St()
        tmp.heap = heap
        tmp.zone = st.zone.copy()
        c = I.sym(tmp, 0, BIG)
        l, path = atoms[0]
        I.wr(tmp, l, path, ('atom', c))
        nm = dict(names)
        nm['c'] = c
        nm['tok'] = tok
        syms = set()
        for v in list(heap.values()) + list(nm.values()):
            syms |= syms_of(v)
        cons = [(x, y, k) for (x, y), k in tmp.zone.m.items() if (x in syms or x == 0) and (y in syms or y == 0)]
        tp = Template(heap, elem, cons, nm, label)
        return tp

    def with_list(self, st, place, tpls, tail=(), nmin=1):
        """state whose list is an unknown number (>= nmin) of template elements"""
        I = self.I
        st = st.fork()
        tid = len(I.templates)
        I.templates[tid] = tpls
        n = I.sym(st, nmin, 2**60)
        I.wr(st, place[0], place[1], ('vecn', n, (), tuple(tail), tid))
        return st, n

    def with_concrete(self, st, place, tpls):
        """state whose list is exactly the given elements; returns their names"""
        I = self.I
        st = st.fork()
        els = []
        for tp in tpls:
            r = models.instantiate(I, st, tp)
            if r is None:
                raise Undecided('template')
            els.append((r[0], dict(r[1])))
        I.wr(st, place[0], place[1], ('vec', tuple(e for e, _ in els)))
        return st, els

    def call_args(self, st, act='call'):
        I = self.I
        tys = self.argtys(act)
        off = 1 if self.s.kind == 'inst' else 0
        names = self.s.names()
        return [I.fresh(st, t, names[i] if i < len(names) else 'a%d' % i) for i, t in enumerate(tys[off:])]

    def call(self, st, mref):
        I = self.I
        a = self.call_args(st)
        self.h.args = list(a)
        self.last_args = list(a)
        if self.s.kind == 'inst':
            recv = mref if self.s.recv != 'self' else I.rd(st, mref[1], mref[2])
            a = [recv] + a
        outs = self.run('call', a, st)
        self.h.args = None
        return outs


def subvals(v, path=()):
    if not isinstance(v, tuple) or not v:
        return
    yield path, v
    k = v[0]
    if k == 'adt':
        for i, x in enumerate(v[3]):
            yield from subvals(x, path + (i,))
    elif k == 'clo':
        for i, x in enumerate(v[2]):
            yield from subvals(x, path + (i,))
    elif k in ('tup', 'arr'):
        for i, x in enumerate(v[1]):
            yield from subvals(x, path + (i,))


def refs_of(v):
    out = []
    if not isinstance(v, tuple) or not v:
        return out
    k = v[0]
    if k in ('ref', 'box', 'arc', 'mutex', 'frag', 'guard', 'once'):
        if v[1] is not None:
            out.append(v[1])
    elif k == 'vec':
        out.extend(v[1])
    elif k == 'vecn':
        out.extend(b for a, b in v[2])
        out.extend(v[3])
    elif k == 'map':
        out.extend(b for a, b in v[1])
    elif k == 'adt':
        for x in v[3]:
            out.extend(refs_of(x))
    elif k == 'clo':
        for x in v[2]:
            out.extend(refs_of(x))
    elif k in ('tup', 'arr'):
        for x in v[1]:
            out.extend(refs_of(x))
    return out


def sorted_locs(ls):
    return ls


def syms_of(v):
    s = set()
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'i' and isinstance(v[1], tuple):
            return {a for a, _ in v[1]}
        if len(v) == 2 and v[0] == 's' and isinstance(v[1], int):
            return {v[1]}
        for x in v:
            s |= syms_of(x)
    return s


def mentions(v, tag):
    if v == tag:
        return True
    return isinstance(v, tuple) and any(mentions(x, tag) for x in v)


def has_tok(I, st, e, tok):
    for l in I.reach(st, [L(e)]):
        if mentions(st.heap.get(l), tok[1]):
            return True
    return False


def text(pieces):
    return ''.join(p if isinstance(p, str) else '{}' for p in (pieces or ()))
