"""Abstract interpreter over the extracted MIR (see DESIGN.md, "Engine A").

Domain: a finite set of abstract states, each a shape graph (heap of abstract
values), a difference-bound matrix over symbolic integers, and the set of facts
already decided on the path.  Lists of unknown length are summarised by
templates from which one element at a time is materialised; loops run to a
fixpoint over canonical states.  Nothing of the program is executed.
"""
import os, sys, time
sys.setrecursionlimit(20000)

UMAX = 2**64 - 1
DEBUG = bool(os.environ.get('ABS_DEBUG'))


LIMIT = [float('inf')]      # wall-clock time by which every analysis ends


class Undecided(Exception):
    pass


class BudgetExceeded(Undecided):
    pass


class ForkEx(Exception):
    def __init__(self, states):
        self.states = states


# ---------------------------------------------------------------- zone
class Zone:
    """Difference bounds: m[(x,y)] = c  means x - y <= c.  Variable 0 is zero."""
    __slots__ = ('m', 'vs')

    def __init__(self):
        self.m = {}
        self.vs = {0}

    def copy(self):
        z = Zone()
        z.m = dict(self.m)
        z.vs = set(self.vs)
        return z

    def b(self, x, y):
        return 0 if x == y else self.m.get((x, y))

    def add(self, x, y, c):
        """returns False when the result is empty"""
        if x == y:
            return c >= 0
        m = self.m
        self.vs.add(x)
        self.vs.add(y)
        o = m.get((x, y))
        if o is not None and o <= c:
            return True
        r = self.b(y, x)
        if r is not None and r + c < 0:
            return False
        m[(x, y)] = c
        ins = [(v, self.b(v, x)) for v in self.vs]
        ins = [(v, d) for v, d in ins if d is not None]
        outs = [(w, self.b(y, w)) for w in self.vs]
        outs = [(w, d) for w, d in outs if d is not None]
        for v, d1 in ins:
            for w, d2 in outs:
                if v == w:
                    continue
                n = d1 + c + d2
                o = m.get((v, w))
                if o is None or n < o:
                    m[(v, w)] = n
        return True


def lin(terms, k):
    t = tuple(sorted((v, c) for v, c in terms.items() if c))
    return ('i', t, k) if t else k


def lin_add(a, b, sb=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + sb * b
    d = {}
    k = 0
    for x, s in ((a, 1), (b, sb)):
        if isinstance(x, int):
            k += s * x
        else:
            for v, c in x[1]:
                d[v] = d.get(v, 0) + s * c
            k += s * x[2]
    return lin(d, k)


OO = ('oo',)


def is_num(v):
    return isinstance(v, int) or (isinstance(v, tuple) and v and v[0] == 'i')


# ---------------------------------------------------------------- state
class St:
    __slots__ = ('heap', 'zone', 'pan', 'payload', 'held', 'poison', 'facts', 'log', 'frames',
                 'roots', 'passes', 'elems', 'flags', 'lossy', 'mode')

    def __init__(self):
        self.heap = {}
        self.zone = Zone()
        self.pan = 0
        self.payload = None
        self.held = ()
        self.poison = frozenset()
        self.facts = {}
        self.log = ()
        self.frames = ()
        self.roots = ()
        self.passes = ()      # per iteration pass: frozenset of flags
        self.elems = {}       # elem loc -> Elem info tuple
        self.flags = frozenset()
        self.lossy = False
        self.mode = None

    def fork(self):
        s = St()
        s.heap = dict(self.heap)
        s.zone = self.zone.copy()
        s.pan = self.pan
        s.payload = self.payload
        s.held = self.held
        s.poison = self.poison
        s.facts = dict(self.facts)
        s.log = self.log
        s.frames = self.frames
        s.roots = self.roots
        s.passes = self.passes
        s.elems = dict(self.elems)
        s.flags = self.flags
        s.lossy = self.lossy
        s.mode = self.mode
        return s

    # ---- constraints
    def le0(self, l):
        """entailment of l <= 0: True / False / None"""
        if isinstance(l, int):
            return l <= 0
        t, k = l[1], l[2]
        z = self.zone
        f = _form(t)
        if f is None:
            key = ('le0', l)
            if key in self.facts:
                return self.facts[key]
            u = self._ub(l)
            if u is not None and u <= 0:
                return True
            lo = self._ub(lin_add(0, l, -1))
            if lo is not None and lo < 0:
                return False
            return None
        x, y = f
        c = z.b(x, y)
        if c is not None and c <= -k:
            return True
        c = z.b(y, x)
        # x - y >= -k+1  <=> y - x <= k-1
        if c is not None and c <= k - 1:
            return False
        return None

    def _ub(self, l):
        if isinstance(l, int):
            return l
        s = l[2]
        for v, c in l[1]:
            if c > 0:
                b = self.zone.b(v, 0)
                if b is None:
                    return None
                s += c * b
            else:
                b = self.zone.b(0, v)
                if b is None:
                    return None
                s += (-c) * b
        return s

    def assume_le0(self, l):
        if isinstance(l, int):
            return l <= 0
        f = _form(l[1])
        if f is None:
            self.facts[('le0', l)] = True
            self.facts[('le0', lin_add(1, l, -1))] = False
            self.lossy = True
            return True
        return self.zone.add(f[0], f[1], -l[2])

    def decide_le0(self, l):
        r = self.le0(l)
        if r is not None:
            return r
        a = self.fork()
        b = self
        ss = []
        if a.assume_le0(l):
            ss.append(a)
        if b.assume_le0(lin_add(1, l, -1)):
            ss.append(b)
        raise ForkEx(ss)

    def decide_eq(self, a, b):
        if a == b:
            return True
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        d = lin_add(a, b, -1)
        if isinstance(d, int):
            return d == 0
        if not self.decide_le0(d):
            return False
        return self.decide_le0(lin_add(0, d, -1))

    def entails_le(self, a, b, k=0):
        """a <= b + k"""
        return self.le0(lin_add(lin_add(a, b, -1), -k)) is True

    def can_le(self, a, b, k=0):
        return self.le0(lin_add(lin_add(a, b, -1), -k)) is not False


def _form(t):
    if len(t) == 1:
        v, c = t[0]
        if c == 1:
            return (v, 0)
        if c == -1:
            return (0, v)
    elif len(t) == 2:
        (v, c), (w, d) = t
        if c == 1 and d == -1:
            return (v, w)
        if c == -1 and d == 1:
            return (w, v)
    return None


# ---------------------------------------------------------------- program
def norm_path(p):
    """strip generic argument lists `::<...>` from a path"""
    out = []
    i = 0
    n = len(p)
    while i < n:
        if p.startswith('::<', i) and not p.startswith('::<impl', i):
            d = 0
            j = i + 2
            while j < n:
                if p[j] == '<':
                    d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
        else:
            out.append(p[i])
            i += 1
    return ''.join(out)


class Prog:
    def __init__(self, d):
        self.types = d['types']
        self.insts = d['insts']
        self.statics = d['statics']
        self.roots = d['roots']
        self.vt = {}
        for c, dy, m in d['vt']:
            self.vt[(c, dy)] = m
        self.ty_by_s = {}
        for i, t in enumerate(self.types):
            self.ty_by_s.setdefault(t['s'], i)
        for i, x in enumerate(self.insts):
            x['np'] = norm_path(x['p'])
            x['id'] = i
            b = x.get('body')
            if b:
                b['heads'] = None
        for s in self.statics:
            if s.get('body'):
                s['body']['heads'] = None
        self.unit = None

    def heads(self, b):
        if b['heads'] is None:
            B = b['B']
            heads = set()
            color = {}
            stack = [(0, iter(self.succ(B[0]['t'])))]
            color[0] = 1
            while stack:
                n, it = stack[-1]
                for s in it:
                    if s not in color:
                        color[s] = 1
                        stack.append((s, iter(self.succ(B[s]['t']))))
                        break
                    elif color[s] == 1:
                        heads.add(s)
                else:
                    color[n] = 2
                    stack.pop()
            b['heads'] = heads
        return b['heads']

    @staticmethod
    def succ(t):
        k = t[0]
        if k == 'g':
            return [t[1]]
        if k == 's':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'd':
            return [t[4]] + ([t[5]] if t[5] >= 0 else [])
        if k == 'c':
            return ([t[6]] if t[6] >= 0 else []) + ([t[7]] if t[7] >= 0 else [])
        if k == 'a':
            return [t[4]] + ([t[5]] if t[5] >= 0 else [])
        return []


class Template:
    """A generalised list element: sub-heap plus named symbols."""
    def __init__(self, heap, root, cons, names, label, extra=None):
        self.heap = heap      # loc -> value
        self.root = root
        self.cons = cons      # [(x,y,c)] over symbols
        self.names = names    # name -> symbol/opaque tag
        self.label = label
        self.extra = extra or {}


class Interp:
    def __init__(self, prog, hooks=None, budget=3_000_000, tlimit=120):
        self.p = prog
        self.T = prog.types
        self.nloc = 1
        self.nsym = 1
        self.opn = {}         # opaque symbol -> (name, ty)
        self.templates = {}   # tid -> [Template]
        self.hooks = hooks
        self.steps = 0
        self.budget = budget
        self.deadline = min(time.time() + tlimit, LIMIT[0])
        self.over = False
        self.lock_edges = {}
        self.undecided = {}
        self.visited_insts = set()
        self.call_edges = 0
        self.viol = []
        self.stack = []
        self.depth = 0
        self.user_panics = False
        self.foreign = False
        self.conc = False
        self.rely = None          # what other threads may do, under conc
        import models
        self.M = models.MODELS
        self.TM = models.TMODELS
        self.models = models

    # ------------------------------------------------------------ symbols
    def alloc(self, st, v):
        l = self.nloc
        self.nloc += 1
        st.heap[l] = v
        return l

    def sym(self, st, lo=0, hi=UMAX):
        s = self.nsym
        self.nsym += 1
        st.zone.vs.add(s)
        if lo is not None:
            st.zone.add(0, s, -lo)
        if hi is not None:
            st.zone.add(s, 0, hi)
        return ('i', ((s, 1),), 0)

    def opaque(self, name, ty=-1):
        s = self.nsym
        self.nsym += 1
        self.opn[s] = (name, ty)
        return ('o', ('s', s))

    def fresh(self, st, ty, name):
        t = self.T[ty]
        k = t['k']
        if k == 'int':
            b = t['b']
            if t['sg']:
                v = self.sym(st, -(1 << (b - 1)), (1 << (b - 1)) - 1)
            else:
                v = self.sym(st, 0, (1 << b) - 1)
            self.opn[v[1][0][0]] = (name, ty)
            return v
        if k == 'tuple':
            return ('tup', tuple(self.fresh(st, f, '%s.%d' % (name, i)) for i, f in enumerate(t['f'])))
        if k == 'adt' and t['def'].startswith('core::ops::range::') and t['ak'] == 'Struct':
            fs = []
            for n, f in t['v'][0]['f']:
                if n == 'exhausted':
                    fs.append(0)
                else:
                    fs.append(self.fresh(st, f, name + '.' + n))
            return ('adt', ty, 0, tuple(fs))
        if k == 'adt' and t['ak'] == 'Struct' and not t['v'][0]['f']:
            return ('adt', ty, 0, ())
        if k == 'closure':
            return ('clo', ty, tuple(self.fresh(st, u, '%s.%d' % (name, i)) for i, u in enumerate(t['up'])))
        if k == 'fndef':
            return ('fndef', ty)
        return self.opaque(name, ty)

    # ------------------------------------------------------------ values
    def zst(self, ty, depth=0):
        t = self.T[ty]
        k = t['k']
        if k == 'fndef':
            return ('fndef', ty)
        if k == 'closure':
            return ('clo', ty, tuple(self.zst(u, depth + 1) for u in t['up']))
        if k == 'tuple':
            return ('tup', tuple(self.zst(u, depth + 1) for u in t['f']))
        if k == 'array':
            return ('arr', tuple(self.zst(t['e'], depth + 1) for _ in range(t['n'])))
        if k == 'adt':
            if 'OnceLock' in t['def'] and t['def'].startswith('std::sync'):
                return ('once', None)
            vs = t['v']
            if not vs or depth > 5:
                return ('adt', ty, 0, ())
            return ('adt', ty, 0, tuple(self.zst(f, depth + 1) for _, f in vs[0]['f']))
        if k == 'str':
            return ('txt', ())
        return ('tup', ())

    def const(self, st, ty, c):
        if isinstance(c, int):
            return c
        if c is None:
            return ('o', ('const', ty))
        if 'z' in c:
            t = self.T[ty]
            if t['k'] in ('ref', 'ptr'):
                return ('ref', self.alloc(st, self.zst(t['e'])), (), None)
            return self.zst(ty)
        if 'str' in c:
            return ('sref', (c['str'],))
        t = self.T[ty]
        if 'ref' in c:
            if t['k'] in ('ref', 'ptr'):
                et = t['e']
                return ('ref', self.alloc(st, self.const(st, et, c['ref'])), (), None)
            return ('o', ('const', ty))
        if 'arr' in c:
            et = t.get('e', -1)
            return ('arr', tuple(self.const(st, et, x) for x in c['arr']))
        if 'static' in c:
            return ('ref', ('S', c['static']), (), None)
        if 'fn' in c:
            return ('fn', c['fn'])
        if 'fs' in c:
            if t['k'] == 'tuple':
                return ('tup', tuple(self.const(st, f, x) for f, x in zip(t['f'], c['fs'])))
            if t['k'] == 'adt':
                v = c.get('v', 0)
                d = t['def']
                r = self.models.const_adt(self, st, t, ty, c)
                if r is not None:
                    return r
                fs = t['v'][v]['f']
                return ('adt', ty, v, tuple(self.const(st, f[1], x) for f, x in zip(fs, c['fs'])))
        if 'dangling' in c:
            if t['k'] in ('ref', 'ptr'):
                e = self.T[t['e']]
                if e['k'] == 'array' or e['k'] == 'slice':
                    return ('ref', self.alloc(st, ('arr', ())), (), None)
                if e['k'] == 'str':
                    return ('sref', ('',))
                return ('ref', self.alloc(st, self.zst(t['e'])), (), None)
        return ('o', ('const', ty))

    def get_heap(self, st, loc):
        try:
            return st.heap[loc]
        except KeyError:
            pass
        if isinstance(loc, tuple) and loc[0] == 'S':
            self.init_static(st, loc)
            return st.heap[loc]
        return None

    def init_static(self, st, loc):
        s = self.p.statics[loc[1]]
        if s['body'] is None:
            st.heap[loc] = ('o', ('static', s['n']))
            return
        out = self.run_body({'id': -1, 'p': 'static ' + s['n'], 'body': s['body'], 'np': ''}, [], st.fork())
        rets = [o for o in out if o[0] == 'ret']
        if len(rets) != 1:
            raise Undecided('static initialiser ' + s['n'])
        ns = rets[0][2]
        st.heap = ns.heap
        st.heap[loc] = rets[0][1]

    def rd(self, st, loc, path):
        v = self.get_heap(st, loc)
        for i in path:
            v = self.fld(v, i)
        return v

    def fld(self, v, i):
        if v is None:
            return None
        k = v[0] if isinstance(v, tuple) else None
        if k in ('adt',):
            fs = v[3]
            if i < len(fs):
                return fs[i]
            return None
        if k == 'clo':
            return v[2][i]
        if k in ('tup', 'arr'):
            return v[1][i] if i < len(v[1]) else None
        if k == 'box' or k == 'ref':
            return v
        if k == 'o':
            return ('o', ('f', i, v[1]))
        raise Undecided('field %r of %r' % (i, k))

    def wr(self, st, loc, path, val):
        if not path:
            st.heap[loc] = val
            return
        st.heap[loc] = self.setp(self.get_heap(st, loc), path, val)

    def setp(self, v, path, val):
        if not path:
            return val
        i = path[0]
        if v is None:
            v = ('adt', -1, 0, ())
        k = v[0] if isinstance(v, tuple) else None
        if k == 'adt':
            fs = list(v[3])
            while len(fs) <= i:
                fs.append(None)
            fs[i] = self.setp(fs[i], path[1:], val)
            return ('adt', v[1], v[2], tuple(fs))
        if k == 'clo':
            fs = list(v[2])
            fs[i] = self.setp(fs[i], path[1:], val)
            return ('clo', v[1], tuple(fs))
        if k in ('tup', 'arr'):
            fs = list(v[1])
            while len(fs) <= i:
                fs.append(None)
            fs[i] = self.setp(fs[i], path[1:], val)
            return (k, tuple(fs))
        if k == 'o':
            return v
        if k == 'box':
            return v
        raise Undecided('write field %r of %r' % (i, k))

    # place evaluation: ('L', loc, path) or ('V', value)
    def lval(self, st, fb, pl):
        if isinstance(pl, int):
            return ('L', fb + pl, ())
        cur = ('L', fb + pl[0], ())
        dyn = None
        for e in pl[1:]:
            if e == '*':
                v = self.rd(st, cur[1], cur[2]) if cur[0] == 'L' else cur[1]
                cur = self.deref(st, v)
                continue
            k = e[0]
            if k == 'f':
                if cur[0] == 'L':
                    b = self.rd(st, cur[1], cur[2])
                    if isinstance(b, tuple) and b:
                        if b[0] in ('box',):
                            cur = ('V', b)
                            continue
                        if b[0] == 'o':
                            # a local that holds an opaque aggregate keeps its place
                            cur = ('L', cur[1], cur[2] + (e[1],))
                            continue
                    cur = ('L', cur[1], cur[2] + (e[1],))
                else:
                    cur = ('V', self.fld(cur[1], e[1]))
            elif k in ('v', 'o'):
                pass
            elif k == 'sub':
                raise Undecided('subslice')
            elif k in ('i', 'ci'):
                if k == 'i':
                    idx = self.rd(st, fb + e[1], ())
                else:
                    idx = e[1]
                if cur[0] == 'V':
                    cur = ('V', ('o', ('ix', cur[1])))
                    continue
                c = self.rd(st, cur[1], cur[2])
                if c[0] == 'arr':
                    if k == 'ci' and e[2]:
                        idx = len(c[1]) - idx
                    if not isinstance(idx, int):
                        raise Undecided('symbolic array index')
                    cur = ('L', cur[1], cur[2] + (idx,))
                elif c[0] in ('vec', 'vecn'):
                    if k == 'ci' and e[2]:
                        idx = lin_add(self.models.vlen(self, st, c), idx, -1)
                    el = self.models.vec_at(self, st, cur[1], cur[2], idx)
                    cur = ('L', el, ())
                else:
                    raise Undecided('index into %s' % c[0])
            else:
                raise Undecided('projection %r' % (e,))
        return cur

    def deref(self, st, v):
        if isinstance(v, tuple) and v:
            k = v[0]
            if k == 'ref':
                return ('L', v[1], v[2])
            if k == 'box' or k == 'arc':
                return ('L', v[1], ())
            if k == 'sref':
                return ('V', ('txt', v[1]))
            if k == 'o':
                t = v[1]
                if t[0] == 'r':
                    return ('V', ('o', t[1]))
                return ('V', ('o', ('d', t)))
            if k == 'vref':
                return ('V', v[1])
        raise Undecided('deref of %r' % (v if not isinstance(v, tuple) else v[0],))

    def rdp(self, st, fb, pl):
        if isinstance(pl, int):
            return st.heap.get(fb + pl)
        c = self.lval(st, fb, pl)
        if c[0] == 'V':
            return c[1]
        return self.rd(st, c[1], c[2])

    def op(self, st, fb, o):
        k = o[0]
        if k == 'C' or k == 'M':
            v = self.rdp(st, fb, o[1])
            return v
        if k == 'k':
            return self.const(st, o[1], o[2])
        if k == 'K':
            return o[1]
        raise Undecided('operand')

    def mkref(self, st, fb, pl):
        c = self.lval(st, fb, pl)
        dyn = None
        # a reborrow of an unsized pointer keeps its vtable
        if not isinstance(pl, int) and pl[-1] == '*':
            b = self.rdp(st, fb, pl[:-1] if len(pl) > 2 else pl[0])
            if isinstance(b, tuple) and b and b[0] in ('ref', 'box', 'arc'):
                dyn = b[-1]
            if isinstance(b, tuple) and b and b[0] in ('sref', 'vref'):
                return b
        if c[0] == 'L':
            return ('ref', c[1], c[2], dyn)
        v = c[1]
        if isinstance(v, tuple) and v and v[0] == 'o':
            t = v[1]
            if t[0] == 'd':
                return ('o', t[1])
            return ('o', ('r', t))
        if isinstance(v, tuple) and v and v[0] == 'txt':
            return ('sref', v[1])
        return ('vref', v)

    # ------------------------------------------------------------ rvalues
    def rval(self, st, fb, r):
        k = r[0]
        if k == 'u':
            return self.op(st, fb, r[1])
        if k == '&' or k == 'rb':
            return self.mkref(st, fb, r[1])
        if k == 'b':
            return self.binop(st, r[1], self.op(st, fb, r[2]), self.op(st, fb, r[3]), r[4])
        if k == 'cb':
            a = self.op(st, fb, r[2])
            b = self.op(st, fb, r[3])
            v = self.binop(st, r[1], a, b, r[4], wrap=False)
            if not is_num(v):
                return ('tup', (v, 0))
            lo, hi = self.range(r[4])
            if isinstance(v, int):
                return ('tup', (v, int(not lo <= v <= hi)))
            ov = not st.decide_le0(lin_add(v, -hi)) or not st.decide_le0(lin_add(lo, v, -1))
            return ('tup', (v, int(ov)))
        if k == 'un':
            if r[1] == 'PtrMetadata':
                return self.models.slice_len(self, st, self.op(st, fb, r[2]))
            a = self.op(st, fb, r[2])
            if r[1] == 'Not':
                if isinstance(a, int):
                    if self.T[r[3]]['k'] == 'bool':
                        return 1 - a
                    return ~a & ((1 << self.T[r[3]].get('b', 64)) - 1)
                return 1 - self.truth(st, a)
            if r[1] == 'Neg' and is_num(a):
                return lin_add(0, a, -1)
            raise Undecided('unop ' + r[1])
        if k == 'disc':
            return self.disc(st, self.rdp(st, fb, r[1]), r[2])
        if k == 'len':
            v = self.rdp(st, fb, r[1])
            return self.models.vlen(self, st, v)
        if k == 'rep':
            return ('arr', (self.op(st, fb, r[1]),) * r[2])
        if k == 'unsize':
            v = self.op(st, fb, r[1])
            return self.unsize(st, v, r[4])
        if k == 'cfp':
            return ('fn', r[2])
        if k == 'cast':
            v = self.op(st, fb, r[2])
            ck = r[1]
            if ck in ('IntToInt',):
                if isinstance(v, int):
                    t = self.T[r[4]]
                    if t['k'] == 'int':
                        b = t['b']
                        v &= (1 << b) - 1
                        if t['sg'] and v >> (b - 1):
                            v -= 1 << b
                return v
            if ck == 'ReifyFnPointer' and v[0] == 'fndef':
                return ('fn', self.T[v[1]]['i'])
            if ck == 'BoxDerefTransmute' or ck == 'Transmute':
                if isinstance(v, tuple) and v and v[0] == 'box':
                    return ('ref', v[1], (), v[2])
                if isinstance(v, int) and self.T[r[4]]['k'] in ('ref', 'ptr'):
                    return ('o', ('ptr', v))
                return v
            return v
        if k == 'agg':
            fs = tuple(self.op(st, fb, o) for o in r[4])
            if r[1] == 'tup':
                return ('tup', fs)
            if r[1] == 'arr':
                return ('arr', fs)
            if r[1] == 'clo':
                return ('clo', r[2], fs)
            if r[1] == 'rawptr':
                return fs[0]
            if r[1] == 'adt':
                if len(r) > 5 and r[5] >= 0:
                    return ('adt', r[2], r[3], (None,) * r[5] + fs)
                return ('adt', r[2], r[3], fs)
        raise Undecided('rvalue %r' % (k,))

    def range(self, ty):
        t = self.T[ty] if ty >= 0 else {'k': 'int', 'b': 64, 'sg': 0}
        b = t.get('b', 64)
        if t.get('sg'):
            return -(1 << (b - 1)), (1 << (b - 1)) - 1
        return 0, (1 << b) - 1

    def unsize(self, st, v, ct):
        if isinstance(v, tuple) and v:
            if ct >= 0:
                if v[0] == 'ref':
                    return ('ref', v[1], v[2], ct)
                if v[0] == 'box':
                    return ('box', v[1], ct)
                if v[0] == 'arc':
                    return ('arc', v[1], ct)
                if v[0] == 'adt' and len(v[3]) == 1:      # Pin<Box<..>> etc
                    return ('adt', v[1], v[2], (self.unsize(st, v[3][0], ct),))
                if v[0] == 'vref':
                    return ('ref', self.alloc(st, v[1]), (), ct)
                if v[0] == 'o':
                    return v
            else:
                return v
        return v

    def truth(self, st, v):
        if isinstance(v, int):
            return v
        if is_num(v):
            return 0 if st.decide_eq(v, 0) else 1
        if v is not None and v[0] == 'o':
            key = ('b', v[1])
            if key in st.facts:
                return st.facts[key]
            a = st.fork()
            a.facts[key] = 1
            st.facts[key] = 0
            raise ForkEx([a, st])
        raise Undecided('truth of %r' % (v,))

    def binop(self, st, o, a, b, ty, wrap=True):
        na, nb = is_num(a), is_num(b)
        if a == OO and isinstance(b, int):      # larger than any number that occurs
            if o in ('Add', 'Sub', 'AddUnchecked', 'SubUnchecked'):
                return OO
            if o in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return int(o in ('Ne', 'Gt', 'Ge'))
        if na and nb:
            if isinstance(a, int) and isinstance(b, int):
                f = _BIN.get(o)
                if f is None:
                    raise Undecided('binop ' + o)
                if o in ('Div', 'Rem') and b == 0:
                    raise Undecided('div by zero')
                v = f(a, b)
                if v is True or v is False:
                    return int(v)
                if wrap and ty >= 0 and self.T[ty]['k'] == 'int':
                    n = self.T[ty]['b']
                    v &= (1 << n) - 1
                    if self.T[ty]['sg'] and v >> (n - 1):
                        v -= 1 << n
                return v
            if o in ('Add', 'AddUnchecked'):
                return lin_add(a, b)
            if o in ('Sub', 'SubUnchecked'):
                return lin_add(a, b, -1)
            if o == 'Lt':
                return int(st.decide_le0(lin_add(lin_add(a, b, -1), 1)))
            if o == 'Le':
                return int(st.decide_le0(lin_add(a, b, -1)))
            if o == 'Gt':
                return int(st.decide_le0(lin_add(lin_add(b, a, -1), 1)))
            if o == 'Ge':
                return int(st.decide_le0(lin_add(b, a, -1)))
            if o == 'Eq':
                return int(st.decide_eq(a, b))
            if o == 'Ne':
                return int(not st.decide_eq(a, b))
            if o == 'Cmp':
                if st.decide_eq(a, b):
                    return 0
                return -1 if st.decide_le0(lin_add(a, b, -1)) else 1
            if o == 'Mul':
                if isinstance(a, int):
                    a, b = b, a
                if isinstance(b, int):
                    return lin({v: c * b for v, c in a[1]}, a[2] * b)
            # bit operations on booleans
            if o in ('BitAnd', 'BitOr', 'BitXor') and ty >= 0 and self.T[ty]['k'] == 'bool':
                return _BIN[o](self.truth(st, a), self.truth(st, b))
            # anything else: unknown integer
            key = ('op', o, a, b)
            if key not in st.facts:
                st.facts[key] = self.sym(st, *self.range(ty))
            return st.facts[key]
        if ty >= 0 and self.T[ty]['k'] == 'bool' and o in ('BitAnd', 'BitOr', 'BitXor', 'Eq', 'Ne'):
            return int(_BIN[o](self.truth(st, a), self.truth(st, b)))
        if o in ('Eq', 'Ne'):
            if a == b:
                return int(o == 'Eq')
            if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == 'ref':
                return int((o == 'Eq') == (a[:3] == b[:3]))
        key = ('cmp', o, a, b)
        if o in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.truth(st, ('o', key))
        if o == 'Offset':
            raise Undecided('pointer arithmetic')
        return ('o', key)

    def disc(self, st, v, ty):
        if isinstance(v, tuple) and v:
            if v[0] == 'adt':
                t = self.T[v[1]] if v[1] >= 0 else self.T[ty]
                vs = t['v']
                if t['ak'] == 'Enum' and v[2] < len(vs):
                    return int(vs[v[2]]['d'])
                return 0
            if v[0] == 'o':
                t = self.T[ty]
                key = ('disc', v[1])
                if key in st.facts:
                    return st.facts[key]
                if t['k'] == 'adt':
                    ss = []
                    for w in t['v']:
                        s = st.fork()
                        s.facts[key] = int(w['d'])
                        ss.append(s)
                    raise ForkEx(ss)
                return 0
        if is_num(v):
            return v
        if v is None:
            raise Undecided('discriminant of uninitialised place')
        return 0

    # ------------------------------------------------------------ running
    def run_body(self, inst, args, st):
        b = inst['body']
        B = b['B']
        nl = len(b['L'])
        fb = self.nloc
        self.nloc += nl + 1
        for i, a in enumerate(args):
            st.heap[fb + 1 + i] = a
        # unit-typed return place
        st.frames = st.frames + ((fb, nl),)
        self.visited_insts.add(inst['id'])
        heads = self.p.heads(b)
        seen = {}
        work = [(st, 0, 0)]
        outs = []
        T = self.T
        self.depth += 1
        if self.depth > 400:
            self.depth -= 1
            raise Undecided('recursion')
        self.stack.append(inst['p'])
        while work:
            st, bb, j = work.pop()
            self.steps += 1
            if self.over or self.steps > self.budget or (self.steps & 15) == 0 and time.time() > self.deadline:
                self.over = True
                self.depth -= 1
                self.stack.pop()
                raise BudgetExceeded('analysis budget exhausted')
            try:
                blk = B[bb]
                if j == 0 and bb in heads:
                    self.models.gc_elems(self, st)
                    key = self.canon(st)
                    ss = seen.setdefault(bb, set())
                    if key in ss:
                        continue
                    ss.add(key)
                    if len(ss) > 400:
                        raise Undecided('loop does not converge in ' + inst['p'])
                S = blk['s']
                n = len(S)
                heap = st.heap
                while j < n:
                    s = S[j]
                    k = s[0]
                    if k == '=':
                        v = self.rval(st, fb, s[2])
                        pl = s[1]
                        if isinstance(pl, int):
                            st.heap[fb + pl] = v
                        else:
                            c = self.lval(st, fb, pl)
                            if c[0] == 'L':
                                self.wr(st, c[1], c[2], v)
                    elif k == 'x':
                        st.heap.pop(fb + s[1], None)
                    elif k == 'D':
                        c = self.lval(st, fb, s[1])
                        if c[0] == 'L':
                            v = self.rd(st, c[1], c[2])
                            if isinstance(v, tuple) and v and v[0] == 'adt':
                                self.wr(st, c[1], c[2], ('adt', v[1], s[2], v[3]))
                            else:
                                self.wr(st, c[1], c[2], ('adt', -1, s[2], ()))
                    elif k == 'A':
                        pass
                    elif k == '?':
                        raise Undecided('unsupported statement')
                    j += 1
                t = blk['t']
                k = t[0]
                if k == 'g':
                    work.append((st, t[1], 0))
                elif k == 's':
                    v = self.op(st, fb, t[1])
                    if v == OO:
                        work.append((st, t[3], 0))
                        continue
                    if not isinstance(v, int):
                        if is_num(v):
                            tgt = t[3]
                            for val, dst in t[2]:
                                if st.decide_eq(v, val):
                                    tgt = dst
                                    break
                            work.append((st, tgt, 0))
                            continue
                        if v is None:
                            raise Undecided('switch on uninitialised value')
                        vals = [x[0] for x in t[2]]
                        if set(vals) <= {0, 1}:
                            v = self.truth(st, v)
                        else:
                            raise Undecided('switch on %r' % (v[0],))
                    tgt = t[3]
                    for val, dst in t[2]:
                        if val == v or (v < 0 and val == (v & ((1 << 64) - 1))) or \
                           (v < 0 and val == (v & 0xff)) or (v < 0 and val == (v & 0xffffffff)):
                            tgt = dst
                            break
                    work.append((st, tgt, 0))
                elif k == 'r':
                    v = st.heap.get(fb)
                    if v is None:
                        v = ('tup', ())
                    self.pop_frame(st, fb, nl)
                    outs.append(('ret', v, st))
                elif k == 'R':
                    self.pop_frame(st, fb, nl)
                    outs.append(('panic', None, st))
                elif k == 'X':
                    outs.append(('abort', 'abort', st))
                elif k == 'u':
                    # unreachable: infeasible path
                    self.undecided.setdefault('unreachable reached in ' + inst['p'], 0)
                    self.undecided['unreachable reached in ' + inst['p']] += 1
                elif k == 'a':
                    c = self.truth(st, self.op(st, fb, t[1]))
                    if c == t[2]:
                        work.append((st, t[4], 0))
                    else:
                        if t[3] == 'other':
                            self.start_panic(st, ('assert other',))
                        else:
                            self.start_panic(st, ('attempt to ' + t[3],))
                        self.unwind(st, t[5], work, outs, fb, nl)
                elif k == 'd':
                    os = self.do_drop(st, fb, t)
                    for kind, v, s in os:
                        if kind == 'ret':
                            work.append((s, t[4], 0))
                        elif kind == 'panic':
                            self.unwind(s, t[5], work, outs, fb, nl)
                        else:
                            outs.append((kind, v, s))
                elif k == 'c':
                    os = self.do_call(st, fb, t)
                    for kind, v, s in os:
                        if kind == 'ret':
                            if t[6] < 0:
                                continue
                            pl = t[5]
                            if isinstance(pl, int):
                                s.heap[fb + pl] = v
                            else:
                                c = self.lval(s, fb, pl)
                                if c[0] == 'L':
                                    self.wr(s, c[1], c[2], v)
                            work.append((s, t[6], 0))
                        elif kind == 'panic':
                            self.unwind(s, t[7], work, outs, fb, nl)
                        else:
                            outs.append((kind, v, s))
                else:
                    raise Undecided('terminator %r' % k)
            except ForkEx as e:
                for s in e.states:
                    work.append((s, bb, j))
            except (TypeError, KeyError, IndexError, AttributeError, ValueError, AssertionError) as e:
                if DEBUG:
                    raise
                r = 'internal %s: %s @ %s' % (type(e).__name__, e, ' < '.join(self.stack[-1:-5:-1]))
                self.undecided[r] = self.undecided.get(r, 0) + 1
                outs.append(('undec', r, st))
            except Undecided as e:
                r = str(e) + ' @ ' + ' < '.join(self.stack[-1:-5:-1])
                self.undecided[r] = self.undecided.get(r, 0) + 1
                outs.append(('undec', r, st))
        self.depth -= 1
        self.stack.pop()
        if len(outs) > 6:
            outs = self.dedup(outs)
        return outs

    def dedup(self, outs):
        r = []
        seen = set()
        for k, v, s in outs:
            key = (k, self.canon(s, extra=v if k == 'ret' else None))
            if key not in seen:
                seen.add(key)
                r.append((k, v, s))
        return r

    def pop_frame(self, st, fb, nl):
        h = st.heap
        for i in range(nl):
            h.pop(fb + i, None)
        assert st.frames[-1][0] == fb, 'frame mismatch'
        st.frames = st.frames[:-1]

    def start_panic(self, st, pieces):
        st.pan += 1
        st.payload = pieces
        if self.hooks:
            self.hooks.on_panic(self, st, pieces)

    def unwind(self, st, u, work, outs, fb, nl):
        if u >= 0:
            work.append((st, u, 0))
        elif u == -1:
            self.pop_frame(st, fb, nl)
            outs.append(('panic', None, st))
        elif u == -3:
            outs.append(('abort', st.payload, st))
        else:
            outs.append(('undec', 'unwind unreachable', st))

    def do_drop(self, st, fb, t):
        pl, ty, gi = t[1], t[2], t[3]
        if gi == -2:
            return [('ret', None, st)]
        c = self.lval(st, fb, pl)
        if c[0] == 'V':
            return [('ret', None, st)]
        return self.drop_at(st, ty, c[1], c[2], gi)

    def drop_at(self, st, ty, loc, path, gi=-1, dyn=None):
        v = self.rd(st, loc, path)
        if v is None:
            return [('ret', None, st)]
        if isinstance(v, tuple) and v and v[0] in ('o',):
            if self.hooks:
                self.hooks.on_drop_opaque(self, st, v)
            return [('ret', None, st)]
        t = self.T[ty]
        if t['k'] == 'dyn':
            if dyn is None:
                return [('ret', None, st)]
            return self.drop_at(st, dyn, loc, path)
        h = self.models.drop_model(self, t)
        if h is not None:
            return h(self, st, t, v, loc, path)
        if gi < 0:
            gi = t.get('drop', -1)
        if gi is None or gi < 0:
            return [('ret', None, st)]
        inst = self.p.insts[gi]
        if 'body' not in inst:
            return [('ret', None, st)]
        return self.run_body(inst, [('ref', loc, path, None)], st)

    # ------------------------------------------------------------ calls
    def do_call(self, st, fb, t):
        ci, fo, tm = t[1], t[2], t[3]
        args = [self.op(st, fb, a) for a in t[4]]
        retty, argtys = t[8], t[9]
        if ci < 0:
            f = self.op(st, fb, fo)
            if f is not None and f[0] == 'fn':
                return self.call_inst(st, f[1], args, retty, argtys)
            if f is not None and f[0] == 'fndef' and self.T[f[1]]['i'] >= 0:
                return self.call_inst(st, self.T[f[1]]['i'], args, retty, argtys)
            raise Undecided('call of unresolved function %s' % tm)
        return self.call_inst(st, ci, args, retty, argtys, tm)

    def call_inst(self, st, ci, args, retty=-1, argtys=(), tm=''):
        inst = self.p.insts[ci]
        self.call_edges += 1
        itm = inst['tm'] or tm
        h = self.M.get(inst['np'])
        if h is None and itm:
            h = self.TM.get((itm, inst['self'])) or self.TM.get((itm, '*'))
        if h is not None:
            r = h(self, st, args, Ctx(inst, retty, argtys, itm))
            if r is not NotImplemented:
                if isinstance(r, Outs):
                    return r.l
                return [('ret', r, st)]
        if inst['k'] == 'virtual':
            return self.call_virtual(st, inst, args, retty, argtys)
        if 'body' in inst:
            b = inst['body']
            if inst['clo'] and not inst['shim'] and len(args) == 2 and isinstance(args[1], tuple) and args[1] and args[1][0] == 'tup' \
               and itm.startswith('core::ops::function::Fn'):
                return self.run_body(inst, [args[0]] + list(args[1][1]), st)
            if b['sp'] >= 0:
                # spread: the last declared argument is a tuple built from the rest
                k = b['sp'] - 1
                if len(args) == b['n'] and isinstance(args[k], tuple) and args[k][0] == 'tup':
                    return self.run_body(inst, args, st)
                return self.run_body(inst, args[:k] + [('tup', tuple(args[k:]))], st)
            if len(args) != b['n']:
                if len(args) == 2 and isinstance(args[1], tuple) and args[1][0] == 'tup' and b['n'] == 1 + len(args[1][1]):
                    return self.run_body(inst, [args[0]] + list(args[1][1]), st)
                raise Undecided('arity of ' + inst['p'])
            return self.run_body(inst, args, st)
        raise Undecided('no model for %s [%s]' % (inst['p'], itm))

    def call_virtual(self, st, inst, args, retty, argtys):
        tm = inst['tm']
        r = args[0]
        if tm.startswith('core::ops::function::Fn'):
            return self.call_value(st, r, list(args[1][1]), retty)
        dyn = r[-1] if isinstance(r, tuple) and r and r[0] in ('ref', 'box', 'arc') else None
        if isinstance(r, tuple) and r and r[0] == 'adt' and len(r[3]) == 1:
            q = r[3][0]
            dyn = q[-1] if isinstance(q, tuple) and q[0] in ('ref', 'box') else None
        if dyn is None:
            raise Undecided('virtual call %s on %r' % (tm, r[0] if isinstance(r, tuple) and r else r))
        at = self.T[argtys[0]] if argtys else None
        dt = None
        while at is not None:
            if at['k'] in ('ref', 'ptr'):
                dt = at['e']
            elif at['k'] == 'adt' and at['args']:
                dt = [a for a in at['args'] if isinstance(a, int)][0]
            else:
                break
            at = self.T[dt]
            if at['k'] == 'dyn':
                break
        tgt = -1
        m = self.p.vt.get((dyn, dt))
        if m is not None and 0 <= inst['vi'] < len(m):
            tgt = m[inst['vi']]
        if tgt < 0:
            # look for any vtable of that concrete type carrying the method
            for (c, d), m in self.p.vt.items():
                if c != dyn:
                    continue
                for e in m:
                    if e >= 0 and self.p.insts[e]['tm'] == tm:
                        tgt = e
        if tgt < 0:
            raise Undecided('vtable entry for %s' % tm)
        a0 = args[0]
        if a0[0] == 'ref':
            a0 = ('ref', a0[1], a0[2], None)
        return self.call_inst(st, tgt, [a0] + args[1:], retty, argtys, tm)

    def call_value(self, st, f, args, retty=-1):
        """Call an abstract callable with a flat list of arguments."""
        depth = 0
        while True:
            depth += 1
            if depth > 12 or f is None or not isinstance(f, tuple):
                raise Undecided('call of non-callable')
            k = f[0]
            if k == 'clo':
                t = self.T[f[1]]
                if t['body'] < 0:
                    raise Undecided('closure body')
                inst = self.p.insts[t['body']]
                if t['ck'] == 'FnOnce':
                    selfv = f
                else:
                    selfv = ('ref', self.alloc(st, f), (), None)
                return self.run_closure(inst, selfv, args, st)
            if k == 'fndef':
                i = self.T[f[1]]['i']
                if i < 0:
                    raise Undecided('fn item')
                return self.call_inst(st, i, args, retty)
            if k == 'fn':
                inst = self.p.insts[f[1]]
                if inst['clo']:
                    return self.call_inst(st, f[1], [('tup', ())] + args, retty) if 'body' in inst and inst['body']['n'] == len(args) + 1 else self.call_inst(st, f[1], args, retty)
                return self.call_inst(st, f[1], args, retty)
            if k == 'ref':
                v = self.rd(st, f[1], f[2])
                if isinstance(v, tuple) and v and v[0] == 'clo':
                    t = self.T[v[1]]
                    if t['body'] < 0:
                        raise Undecided('closure body')
                    inst = self.p.insts[t['body']]
                    return self.run_closure(inst, v if t['ck'] == 'FnOnce' else ('ref', f[1], f[2], None), args, st)
                f = v
                continue
            if k == 'box' or k == 'arc':
                f = ('ref', f[1], (), None)
                continue
            if k == 'frag':
                f = ('ref', f[1], (), None)
                continue
            if k == 'vref':
                f = f[1]
                continue
            if k == 'adt' and len(f[3]) == 1:
                f = f[3][0]
                continue
            if k == 'o':
                if self.hooks:
                    r = self.hooks.on_opaque_call(self, st, f, args, retty)
                    if r is not None:
                        return r
                raise Undecided('call of opaque function value')
            raise Undecided('call of %s' % k)

    def run_closure(self, inst, selfv, args, st):
        if 'body' not in inst:
            raise Undecided('closure without body')
        n = inst['body']['n']
        if n == len(args) + 1:
            return self.run_body(inst, [selfv] + args, st)
        if n == 2 and inst['body']['sp'] >= 0:
            return self.run_body(inst, [selfv, ('tup', tuple(args))], st)
        raise Undecided('closure arity')

    # ------------------------------------------------------------ forks inside models
    def attempt(self, st, fn):
        out = []
        stack = [st]
        while stack:
            s = stack.pop()
            try:
                out.append((s, fn(s)))
            except ForkEx as e:
                stack.extend(e.states)
        return out

    # ------------------------------------------------------------ canonical states
    def canon(self, st, extra=None, roots=None):
        lm = {}
        sm = {}
        order = []
        queue = []
        heap = st.heap

        def loc(l):
            if isinstance(l, tuple):
                if l not in lm:
                    lm[l] = l
                    queue.append(l)
                return l
            r = lm.get(l)
            if r is None:
                r = len(lm)
                lm[l] = r
                queue.append(l)
            return r

        def sy(s):
            if s == 0:
                return 0
            r = sm.get(s)
            if r is None:
                r = len(sm) + 1
                sm[s] = r
            return r

        def tag(t):
            if not isinstance(t, tuple):
                return t
            if t and t[0] == 's':
                return ('s', sy(t[1]))
            return tuple(tag(x) if isinstance(x, tuple) and x and x[0] in _TAGS else (val(x) if isinstance(x, tuple) else x) for x in t)

        def val(v):
            if not isinstance(v, tuple) or not v:
                return v
            k = v[0]
            if k == 'i':
                return ('i', tuple(sorted((sy(a), c) for a, c in v[1])), v[2])
            if k == 'o':
                return ('o', tag(v[1]))
            if k == 'ref':
                return ('ref', loc(v[1]), v[2], v[3])
            if k in ('box', 'arc'):
                return (k, loc(v[1]), v[2])
            if k == 'adt':
                return ('adt', v[1], v[2], tuple(val(x) for x in v[3]))
            if k == 'clo':
                return ('clo', v[1], tuple(val(x) for x in v[2]))
            if k in ('tup', 'arr'):
                return (k, tuple(val(x) for x in v[1]))
            if k == 'vec':
                return ('vec', tuple(loc(x) for x in v[1]))
            if k == 'vecn':
                return ('vecn', val(v[1]), tuple((val(a), loc(b)) for a, b in v[2]), tuple(loc(b) for b in v[3]), v[4])
            if k == 'map':
                return ('map', tuple((val(a), loc(b)) for a, b in v[1]))
            if k in ('mutex', 'frag', 'once'):
                return (k, loc(v[1]) if v[1] is not None else None)
            if k == 'guard':
                return (k, loc(v[1]), v[2])
            if k in ('fndef', 'fn', 'tid', 'sref', 'txt'):
                if k in ('sref', 'txt'):
                    return (k, tuple(val(x) if isinstance(x, tuple) else x for x in v[1]))
                return v
            return tuple(val(x) if isinstance(x, tuple) else x for x in v)

        out = []
        if extra is not None:
            out.append(val(extra))
        for l in st.roots:
            out.append(loc(l))
        for fb, nl in st.frames:
            for i in range(nl + 0):
                v = heap.get(fb + i)
                if v is not None:
                    lm.setdefault(fb + i, len(lm))
                    out.append((lm[fb + i], i, val(v)))
                elif (fb + i) in lm:
                    out.append(('u', i))
        for l in sorted((x for x in heap if isinstance(x, tuple)), key=repr):
            loc(l)
        for e in st.log:
            out.append(val(e))
        out.append(tuple(loc(l) for l in st.held))
        i = 0
        framel = set()
        for fb, nl in st.frames:
            framel.update(range(fb, fb + nl))
        while i < len(queue):
            l = queue[i]
            i += 1
            if l in framel:
                continue
            out.append((lm[l], val(heap.get(l))))
        pz = frozenset(lm[x] for x in st.poison if x in lm)
        fs = []
        for k, v in st.facts.items():
            if isinstance(k, tuple) and _known(k, sm, lm):
                fs.append((val(k) if k[0] not in _TAGS else tag(k), val(v) if isinstance(v, tuple) else v))
        fs.sort(key=repr)
        els = tuple(sorted(((lm[l], e[0], e[1], e[2]) for l, e in st.elems.items() if l in lm), key=repr))
        z = []
        for (x, y), c in st.zone.m.items():
            if (x == 0 or x in sm) and (y == 0 or y in sm):
                z.append((sm.get(x, 0), sm.get(y, 0), c))
        z.sort()
        return (tuple(out), pz, tuple(fs), els, tuple(z), st.pan, st.passes, st.flags,
                val(st.payload) if isinstance(st.payload, tuple) else st.payload)

    def reach(self, st, seeds, skip_vecn_elems=False, stop=()):
        """set of locations reachable from the given values/locations"""
        seen = set()
        stack = list(seeds)
        heap = st.heap
        while stack:
            v = stack.pop()
            if isinstance(v, L):
                l = v.l
                if l in seen or l in stop:
                    continue
                seen.add(l)
                x = heap.get(l)
                if x is not None:
                    stack.append(x)
                continue
            if not isinstance(v, tuple) or not v:
                continue
            k = v[0]
            if k in ('ref', 'box', 'arc', 'mutex', 'frag', 'guard', 'once'):
                if v[1] is not None:
                    stack.append(L(v[1]))
            elif k == 'vec':
                stack.extend(L(x) for x in v[1])
            elif k == 'vecn':
                if not skip_vecn_elems:
                    stack.extend(L(b) for a, b in v[2])
                stack.extend(L(b) for b in v[3])
            elif k == 'map':
                stack.extend(L(b) for a, b in v[1])
            elif k == 'adt':
                stack.extend(v[3])
            elif k == 'clo':
                stack.extend(v[2])
            elif k in ('tup', 'arr'):
                stack.extend(v[1])
            elif k in ('o', 'i', 'fn', 'fndef', 'tid'):
                pass
            else:
                stack.extend(x for x in v if isinstance(x, tuple))
        return seen


class L:
    __slots__ = ('l',)

    def __init__(self, l):
        self.l = l




class Outs:
    def __init__(self, l):
        self.l = l


class Ctx:
    __slots__ = ('inst', 'retty', 'argtys', 'tm')

    def __init__(self, inst, retty, argtys, tm):
        self.inst = inst
        self.retty = retty
        self.argtys = argtys
        self.tm = tm


_TAGS = {'s', 'd', 'f', 'r', 'ix', 'b', 'disc', 'cmp', 'pred', 'ret', 'val', 'clone'}


def _known(k, sm, lm):
    for x in k:
        if isinstance(x, tuple) and x:
            if x[0] == 's' and len(x) == 2 and isinstance(x[1], int):
                if x[1] not in sm:
                    return False
            elif x[0] == 'i' and len(x) == 3:
                if any(a not in sm for a, _ in x[1]):
                    return False
            elif x[0] == 'ref' and len(x) == 4:
                if x[1] not in lm:
                    return False
            elif not _known(x, sm, lm):
                return False
    if k and k[0] == 's' and len(k) == 2 and isinstance(k[1], int):
        return k[1] in sm
    return True


_BIN = {
    'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mul': lambda a, b: a * b,
    'AddUnchecked': lambda a, b: a + b, 'SubUnchecked': lambda a, b: a - b,
    'MulUnchecked': lambda a, b: a * b,
    'Div': lambda a, b: a // b, 'Rem': lambda a, b: a % b,
    'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b, 'BitXor': lambda a, b: a ^ b,
    'Shl': lambda a, b: a << b, 'Shr': lambda a, b: a >> b,
    'Lt': lambda a, b: a < b, 'Le': lambda a, b: a <= b, 'Gt': lambda a, b: a > b,
    'Ge': lambda a, b: a >= b, 'Eq': lambda a, b: a == b, 'Ne': lambda a, b: a != b,
    'Cmp': lambda a, b: (a > b) - (a < b),
}
