"""Further property rules on abstract outcomes (Engine A)."""
from props import *

INF = ('inf',)


def mkargs(S, st, act, seq=None, name=None):
    """fresh arguments of a setter after the handle: (list, toks, ints)"""
    I = S.I
    tys = S.argtys(act) if name is None else S.p.insts[S.p.roots[name]]['body']['L'][1:1 + S.p.insts[S.p.roots[name]]['body']['n']]
    tokty = tys[1]
    args, toks, ints = [], [], []
    for i, t in enumerate(tys[1:]):
        d = I.T[t]
        if t == tokty:
            v = I.opaque('tok', t)
            toks.append(v)
        elif d['k'] == 'int':
            v = I.sym(st, 0, BIG)
            ints.append(v)
        elif d['k'] == 'ref' or d['k'] == 'ptr':
            v = seq
        elif d['k'] == 'adt' and 'Range' in d['def']:
            a, b = I.sym(st, 0, BIG), I.sym(st, 0, BIG)
            v = ('adt', t, 0, (a, b))
            ints += [a, b]
        else:
            v = I.fresh(st, t, 'x%d' % i)
        args.append(v)
    return args, toks, ints


def configured(S, act, st0=None, mref=None, seq=None):
    """fresh mock with one expectation set by `act`: list of (kind, value, state), toks, ints"""
    if st0 is None:
        st0, mref = S.new()
    st = st0.fork()
    args, toks, ints = mkargs(S, st, act, seq)
    outs = S.run(act, [mref] + args, st)
    return outs, mref, toks, ints


def norm_val(I, st, v):
    """(base tag, [clones])"""
    v = strip(I, st, v)
    return v


def is_clone_of(v, tag):
    n = 0
    while isinstance(v, tuple) and v and v[0] == 'o' and v[1] and v[1][0] == 'clone':
        v = ('o', v[1][1])
        n += 1
    return v == ('o', tag), n


def deref_loc(v):
    return v[1] if isinstance(v, tuple) and v and v[0] in ('ref',) else None


def reach_of(I, st, mref):
    return I.reach(st, [L(mref[1])] + [L(x) for x in st.heap if isinstance(x, tuple)])


def check_value(S, R, st, v, tok, how, key, desc, mref=None):
    """the value a served call returned is what return action `how` of `tok` yields"""
    I = S.I
    rk = S.s.rk
    w = v
    if rk in ('ref', 'refmut'):
        loc = deref_loc(v)
        if loc is None:
            R['C11'].undecided('returned reference of unknown shape')
            return
        live = reach_of(I, st, mref) if mref is not None else set(st.heap)
        R['C29'].ok(loc in live, key + ':not-lent-from-expectation',
                    desc + ' lends a reference to storage that is not owned by the mock')
        w = strip(I, st, v)
    if how in ('returning', 'returning_st', 'return_once', 'return_once_st'):
        good = strip(I, st, w) == ('o', ('ret', tok[1]))
        what = "the function's result"
    elif rk in ('ref', 'refmut'):
        good, n = is_clone_of(w, ('val', tok[1]))
        good = good and n == 0
        what = 'a reference to the configured value'
    else:
        good, n = is_clone_of(w, ('val', tok[1]))
        if not good:
            good = strip(I, st, w) == ('o', ('val', tok[1]))
        what = 'a clone of the configured value'
    if not good and st.lossy:
        R['C11'].undecided('imprecise value')
        return
    R['C11'].ok(good, key, '%s does not return %s' % (desc, what), '%s returns %s' % (desc, what))


DEFHOW = {'own': 'returning', 'ref': 'return_const', 'refmut': 'returning', 'sref': 'returning'}


def served_user(st, tok):
    return [e for e in st.log if e[0] == 'user' and e[1] == tok]


def a_values(S, R, B):
    """C11: what a served call returns, for every return action"""
    I = S.I
    sid = S.s.sid
    # generic: list of any length, value belongs to the element that served
    acts = [('setG', DEFHOW[S.s.rk])]
    for a in ('returning_st', 'return_once', 'return_once_st', 'return_const', 'return_const_st', 'return_var'):
        if S.has('setR' + a):
            acts.append(('setR' + a, a))
    if S.has('setRover'):
        acts.append(('setRover', 'returning'))
    if S.has('setRover2'):
        acts.append(('setRover2', 'return_const'))
    acts += [(x, x.split('__')[1]) for x in S.names('setRp_')]
    for act, how in acts:
        try:
            outs, m, toks, ints = configured(S, act)
        except Undecided as e:
            R['C11'].undecided(str(e))
            continue
        k = toks[0]          # first Tok is always the winning one
        for kind, v, st in outs:
            if kind == 'undec':
                R['C11'].undecided(v)
                continue
            if kind != 'ret':
                if act != 'setG':
                    R['C11'].ok(False, '%s.%s:setter-panics' % (sid, act), 'configuring %s %s' % (how, outcome_text(kind, v, st)))
                continue
            base = st.log
            for k1, v1, s1 in S.call(st, m):
                d = '%s: first call with %s' % (where(S, act), how)
                if k1 == 'undec':
                    R['C11'].undecided(v1)
                    continue
                pf = pred_fact(s1, k)
                if k1 == 'panic':
                    if act == 'setG':
                        continue
                    # unlimited expectation: only a rejecting matcher may refuse
                    good = pf == 0
                    if not good and s1.lossy:
                        R['C11'].undecided('imprecise')
                        continue
                    R['C11'].ok(good, '%s.%s:first-call-panics' % (sid, act), '%s %s' % (d, outcome_text(k1, v1, s1)))
                    continue
                if k1 != 'ret':
                    continue
                check_value(S, R, s1, v1, k, how, '%s.%s:wrong-value' % (sid, act), d, m)
                users = [e for e in s1.log if e[0] == 'user']
                if len(toks) > 1:
                    for j in toks[1:]:
                        R['C11'].ok(not served_user(s1, j), '%s.%s:replaced-action-ran' % (sid, act), d + ' runs a return action that was replaced')
                if how.startswith('return_once') or how in ('returning', 'returning_st'):
                    if S.s.rk != 'ref':
                        R['C11'].ok(len(served_user(s1, k)) == 1, '%s.%s:not-run-once' % (sid, act), d + ' does not run the function exactly once')
                if act == 'setG':
                    continue
                # second call
                if S.s.recv == 'self':
                    continue
                s1 = s1.fork()
                marker = None
                if S.s.rk == 'refmut' and deref_loc(v1) is not None:
                    marker = I.opaque('written-by-caller', -1)
                    try:
                        I.wr(s1, v1[1], v1[2], marker)
                    except Undecided:
                        marker = None
                s1.log = ()
                for k2, v2, s2 in S.call(s1, m):
                    d = '%s: second call with %s' % (where(S, act), how)
                    if k2 == 'undec':
                        R['C11'].undecided(v2)
                        continue
                    pf2 = pred_fact(s2, k)
                    if pf2 != 1:
                        continue
                    if how.startswith('return_once'):
                        R['C11'].ok(k2 == 'panic' and not served_user(s2, k), '%s.%s:ran-twice' % (sid, act),
                                    d + ' does not panic although the action was used up', d + ' panics')
                    elif k2 == 'panic':
                        R['C11'].ok(s2.lossy, '%s.%s:second-call-panics' % (sid, act), d + ' ' + outcome_text(k2, v2, s2))
                    elif k2 == 'ret':
                        if how == 'return_var' and marker is not None:
                            R['C11'].ok(strip(I, s2, v2) == marker, '%s.%s:caller-modification-lost' % (sid, act),
                                        d + ' does not show the modification made by the caller through the previous reference',
                                        d + ' lends the variable as the caller left it')
                        else:
                            check_value(S, R, s2, v2, k, how, '%s.%s:wrong-value-again' % (sid, act), d, m)


def answers(S, st, toks):
    """with many predicates: all accept, or one of them rejects; else they are left open"""
    if not S.s.wide:
        return [st]
    out = []
    for bad in [None] + list(range(len(toks))):
        z = st.fork()
        for i, t in enumerate(toks):
            z.facts[('b', ('pred', t[1]))] = 0 if i == bad else 1
        out.append(z)
    return out


def a_matchers(S, R, B):
    """C12"""
    I = S.I
    sid = S.s.sid

    def served(s):
        return any(e[0] == 'user' for e in s.log) or any(e[0] == 'rmw' for e in s.log)
    for act in ['setMnone', 'setMwithfst', 'setMwith', 'setG', 'setMlast'] + S.names('setMover_'):
        if not S.has(act):
            continue
        outs, m, toks, ints = configured(S, act)
        # tokens in declaration order: k, those of the first matcher, those of the second
        n = len(S.s.args)
        if act.startswith('setMover_'):
            x, y = act[-2:]
            c = n if x == 'w' else 1
            unused, used = toks[1:1 + c], toks[1 + c:]
            ks = used if y == 'w' else []
        elif act == 'setMwith':
            used = ks = toks[1:]
            unused = []
        elif act == 'setMnone':
            ks, used, unused = [], [], []
        else:
            ks, used, unused = [], [toks[0]], []
        S.h.argmap = {t[1]: i for i, t in enumerate(ks)}
        for kind, v, st in outs:
            if kind == 'undec':
                R['C12'].undecided(v)
                continue
            if kind != 'ret':
                continue
            for k1, v1, s1 in [x for z in answers(S, st, used) for x in S.call(z, m)]:
                d = '%s: a call' % where(S, act)
                if k1 == 'undec':
                    R['C12'].undecided(v1)
                    continue
                if k1 not in ('ret', 'panic'):
                    continue
                pfs = [pred_fact(s1, t) for t in used]
                if served(s1):
                    good = all(x == 1 for x in pfs)
                    key, msg = 'accepted', ' is accepted although not every configured predicate accepted'
                else:
                    good = any(x == 0 for x in pfs)
                    if act == 'setG' and not good:
                        continue
                    key, msg = 'rejected', ' is rejected although no configured predicate rejected it'
                if not good and s1.lossy:
                    R['C12'].undecided('imprecise')
                else:
                    R['C12'].ok(good, '%s.%s:%s' % (sid, act, key), d + msg,
                                '%s.%s: %s iff predicates %s' % (sid, act, 'accepted' if served(s1) else 'rejected', pfs))
                for t in unused:
                    R['C12'].ok(pred_fact(s1, t) is None, '%s.%s:replaced-matcher-consulted' % (sid, act), d + ' consults a matcher that was replaced')
        S.h.argmap = {}


TIMES = {
    'setTn': lambda a: (a[0], lin_add(a[0], 1)),
    'setTafter': lambda a: (a[0], lin_add(a[0], 1)),
    'setTfull': lambda a: (0, INF),
    'setTfrom': lambda a: (a[0], INF),
    'setTincl': lambda a: (a[0], lin_add(a[1], 1)),
    'setTto': lambda a: (0, a[0]),
    'setTtoincl': lambda a: (0, lin_add(a[0], 1)),
    'setG': lambda a: (a[0], a[1]),
    'setNover': lambda a: (a[2], a[3]),
    'setNonce': lambda a: (1, 2),
    'setNnever': lambda a: (0, 1),
    'setNdef': lambda a: (0, INF),
}
# the latter of two counts, given the second number
LAST = {
    'once': lambda a: (1, 2),
    'never': lambda a: (0, 1),
    'n': lambda a: (a[1], lin_add(a[1], 1)),
    'from': lambda a: (a[1], INF),
    'to': lambda a: (0, a[1]),
    'full': lambda a: (0, INF),
}
UNB = 2**64 - 1


class Redirect(dict):
    """sends the C01-C04 obligations of a count form to C05"""
    def __init__(self, r5):
        self.r5 = r5
        self.sink = Report('-')

    def __missing__(self, k):
        return self.r5 if k in ('C03', 'C04') else self.sink


class Tagged:
    def __init__(self, rep, tag):
        self.rep, self.tag = rep, tag

    def ok(self, cond, key, detail='', sample=None):
        return self.rep.ok(cond, self.tag + key, detail, sample)

    def undecided(self, w):
        self.rep.undecided(w)


def a_times(S, R, B):
    """C05: the count forms"""
    I = S.I
    sid = S.s.sid
    forms = dict(TIMES)
    for act in S.names('setTover_'):
        x, y = act[len('setTover_'):].split('__')
        forms[act] = LAST[y]
    for act, f in forms.items():
        if not S.has(act):
            continue
        outs, m, toks, ints = configured(S, act)
        lo, hi = f(ints)
        for kind, v, st in outs:
            if kind == 'undec':
                R['C05'].undecided(v)
                continue
            if hi == INF:
                nonempty, empty = True, False
            else:
                nonempty, empty = st.entails_le(lo, hi, -1), st.entails_le(hi, lo)
            if act == 'setNover':
                # the first specification may be rejected as well
                e1 = st.entails_le(ints[1], ints[0])
                if kind == 'panic':
                    R['C05'].ok(empty or e1, '%s.%s:nonempty-rejected' % (sid, act), '%s: a non-empty range of counts is rejected' % where(S, act))
                    continue
            if act.startswith('setTover_to__') and kind == 'panic' and st.entails_le(ints[0], 0):
                continue        # the first one was empty
            if act == 'setTfull' and kind == 'panic':
                R['C05'].ok(st.entails_le(ints[1], ints[0]), '%s.%s:nonempty-rejected' % (sid, act), '%s: a non-empty range of counts is rejected' % where(S, act))
                continue
            if kind == 'panic':
                R['C05'].ok(empty, '%s.%s:nonempty-rejected' % (sid, act), '%s: a non-empty range of counts is rejected: %s' % (where(S, act), outcome_text(kind, v, st)))
                continue
            if kind != 'ret':
                continue
            if not R['C05'].ok(nonempty, '%s.%s:empty-accepted' % (sid, act), '%s: an empty range of counts is accepted' % where(S, act),
                               '%s.%s: accepted only when the range is non-empty' % (sid, act)):
                continue
            R5 = Redirect(R['C05'])
            R5['C03'] = R5['C04'] = Tagged(R['C05'], '%s/' % act)
            try:
                pl = S.find_list(st, toks[0])
                if pl is None:
                    raise Undecided('expectation list not found')
                B2 = Base.__new__(Base)
                B2.S, B2.m, B2.st1, B2.tok = S, m, st, toks[0]
                B2.place, B2.elem = (pl[0], pl[1]), pl[2]
                B2.tp = S.template(st, toks[0], pl[2], {'lo': lo, 'hi': UNB if hi == INF else hi})
                s1, els = B2.concrete(1)
                eval_call(S, R5, S.call(s1, m), None, B2.place, concrete=els)
                a_drop1(S, R5, B2)
            except Undecided as e:
                R['C05'].undecided(str(e)[:200])


def a_drop1(S, R, B):
    I = S.I
    sid = S.s.sid
    st, els = B.concrete(1)
    nm = els[0][1]
    # only counts a call history can produce: every call beyond the limit also counts
    for k, v, s in S.run('drop', [st.heap[B.m[1]]], st):
        if k == 'undec':
            R['C04'].undecided(v)
            continue
        w = inside(s, nm)
        if k == 'ret':
            R['C04'].ok(w is True, '%s.drop:unmet-not-reported' % sid, '%s: a final count outside the set is accepted' % S.s.mock)
        elif k == 'panic':
            R['C04'].ok(w is False, '%s.drop:met-reported' % sid, '%s: a final count inside the set is reported (%s)' % (S.s.mock, text(s.payload)))


# ------------------------------------------------------------ sequences
def a_sequence(S, R):
    """C06"""
    I = S.I
    sid = S.s.sid
    p = 'C06'
    N = 3
    st, m = S.new()
    outs = S.run('new', [], st, abs_name='corp::s_X__seqnew')
    rets = [o for o in outs if o[0] == 'ret']
    if len(rets) != 1:
        raise Undecided('Sequence::new')
    _, v, st = rets[0]
    sl = I.alloc(st, v)
    st.roots = st.roots + (sl,)
    seq = ('ref', sl, (), None)
    atoms = seq_atoms(I, st, sl)
    if len(atoms) != 1:
        raise Undecided('%d counters in a sequence' % len(atoms))
    level = atoms[0]
    if I.rd(st, *level)[1] != 0:
        raise Undecided('initial level')
    # a sequence with any number of steps already complete
    start = st
    for base in [0] + (BASES if S.s.sid in ('Own', 'Sta', 'GenRefMut') else BASES[:1]):
        st = start.fork()
        if base == 'any':
            base = I.sym(st, 0, 2**60)
        if base != 0:
            at = [path for path, x in subvals2(st.heap[sl]) if x == 0]
            if len(at) != 1:
                raise Undecided('position counter of a sequence')
            I.wr(st, sl, at[0], base)
            I.wr(st, level[0], level[1], ('atom', base))
        guarded(R[p], seq_base, S, R, p, st, m, seq, level, base, N)
    # only exact counts
    st = start
    for act in ('setSeqR', 'setSeqD'):
        o, tok, args = setseq(S, st, m, seq, act)
        for k, v, s in o:
            if k == 'undec':
                R[p].undecided(v)
            elif k == 'ret':
                good = act == 'setSeqR' and s.entails_le(args[1], args[0], 1) and s.entails_le(args[0], args[1], -1)
                R[p].ok(good, '%s.in_sequence:inexact-accepted' % sid, '%s: an expectation without an exact call count is accepted' % where(S, act),
                        '%s.%s: returns only for exact counts' % (sid, act))
            elif k == 'panic':
                good = act == 'setSeqD' or not (s.entails_le(args[1], args[0], 1) and s.entails_le(args[0], args[1], -1))
                R[p].ok(good, '%s.in_sequence:exact-refused' % sid, '%s: an exact count is refused' % where(S, act))


# numbers of steps completed before the ones under study
BASES = ['any', 1, 2, 31, 63, 64, 127, 255, 256, 65535, 65536, 2**32 - 1, 2**32]


def subvals2(v, path=()):
    """(path, value) including plain numbers, but not what counters hold"""
    yield path, v
    if isinstance(v, tuple) and v and v[0] == 'adt':
        for i, x in enumerate(v[3]):
            yield from subvals2(x, path + (i,))


def same_num(s, a, b):
    return s.entails_le(a, b) and s.entails_le(b, a)


def seq_base(S, R, p, st, m, seq, level, base, N):
    sid = S.s.sid
    alts = [(st, [], [])]
    for i in range(N):
        nxt = []
        for st, toks, ns in alts:
            o, tok, args = setseq(S, st, m, seq, 'setSeq')
            for x in o:
                if x[0] == 'panic':
                    R[p].ok(False, '%s.in_sequence:exact-refused' % sid, '%s: an expectation with an exact count is refused: %s' % (where(S, 'setSeq'), text(x[2].payload)))
                elif x[0] == 'undec':
                    R[p].undecided(x[1])
                elif x[0] == 'ret':
                    nxt.append((x[2], toks + [tok], ns + [args]))
        alts = nxt
    for st, toks, ns in alts[:16]:
        guarded(R[p], seq_calls, S, R, p, st, m, level, toks, ns, base)


def guarded(r, f, *a):
    try:
        f(*a)
    except Undecided as e:
        r.undecided(str(e)[:200])


def seq_calls(S, R, p, st, m, level, toks, ns, base):
    I = S.I
    sid = S.s.sid
    N = len(toks)
    st = st.fork()
    pl = S.find_list(st, toks[0])
    if pl is None:
        raise Undecided('list not found')
    lv = I.rd(st, pl[0], pl[1])
    if lv[0] != 'vec' or len(lv[1]) != N:
        raise Undecided('expectation list')
    elems = lv[1]
    counters = []
    for e, t in zip(elems, toks):
        if not has_tok(I, st, e, t):
            raise Undecided('order')
        a = [x for x in all_atoms(I, st, e) if x != level]
        if len(a) != 1:
            raise Undecided('%d counters in a sequenced expectation' % len(a))
        counters.append(a[0])
    for x in ns:
        if not st.zone.add(0, x[1][0][0], -1):
            raise Undecided('count')
    for q in range(N + 1):
        s0 = st.fork()
        I.wr(s0, level[0], level[1], ('atom', lin_add(base, q)))
        cs = []
        for i in range(N):
            if i < q:
                c = ns[i]
            elif i > q:
                c = 0
            else:
                c = I.sym(s0, 0, BIG)
                s0.zone.add(c[1][0][0], ns[i][1][0][0], -1)
            cs.append(c)
            I.wr(s0, counters[i][0], counters[i][1], ('atom', c))
        s0.log = ()
        els = [(e, {'tok': t, 'c': c, 'lo': n, 'hi': lin_add(n, 1)}) for e, t, c, n in zip(elems, toks, cs, ns)]
        for k, v, s in S.call(s0, m):
            d = '%s: with %d of %d sequence steps complete, a call that %s' % (where(S, 'call'), q, N, outcome_text(k, v, s))
            if k == 'undec':
                R[p].undecided(v)
                continue
            if k not in ('ret', 'panic'):
                continue
            E = known_elems(s, els)
            touched = set()
            for e in s.log:
                if e[0] in ('rmw', 'store'):
                    o = owner(I, s, E, e[1][1])
                    if o is not None and (e[1][1], tuple(e[1][2])) != (level[0], tuple(level[1])) and not same_place(e[1], level):
                        touched.add(o.idx)
            users = [[x.idx for x in E if x.names['tok'] == e[1]] for e in s.log if e[0] == 'user']
            users = [u[0] for u in users if u]
            newlevel = I.rd(s, *level)[1]
            if k == 'ret' or users:
                who = users[0] if users else (min(touched) if touched else None)
                if who is None:
                    R[p].undecided('serving expectation unknown')
                    continue
                if not R[p].ok(who == q, '%s.call:out-of-order-ran' % sid, d + ' is served by expectation %d out of order' % who,
                               '%s.call: level %d: only expectation %d runs' % (sid, q, q)):
                    continue
                done = s.entails_le(ns[q], lin_add(cs[q], 1))
                notdone = s.entails_le(lin_add(cs[q], 1), ns[q], -1)
                if same_num(s, newlevel, lin_add(base, q + 1)):
                    R[p].ok(done, '%s.call:advanced-early' % sid, d + ' moves the sequence on although more calls are required')
                elif same_num(s, newlevel, lin_add(base, q)):
                    R[p].ok(notdone, '%s.call:not-advanced' % sid, d + ' does not move the sequence on although the required calls are complete')
                else:
                    judge(R[p], s, False, '%s.call:advanced-by-other' % sid, d + ' moves the sequence on by other than one')
                left = I.rd(s, *counters[q])[1]
                R[p].ok(s.entails_le(left, lin_add(cs[q], 1)) and s.entails_le(lin_add(cs[q], 1), left), '%s.call:miscounted' % sid,
                        d + ' does not count exactly one call')
            else:
                # refused: nobody eligible, or the first eligible one is out of order
                el = [x for x in E if why(s, x) == 'U']
                first = el[0] if el else None
                good = first is None or first.idx != q
                if not good and s.lossy:
                    R[p].undecided('imprecise')
                else:
                    R[p].ok(good, '%s.call:in-order-refused' % sid, d + ' is refused although it is in order')
                if good:
                    judge(R[p], s, same_num(s, newlevel, lin_add(base, q)), '%s.call:refused-but-advanced' % sid, d + ' moves the sequence on')


class SeqRely:
    """What concurrent calls on the same sequenced expectation (and, once it is
    complete, on later ones) may do to the shared counters: the call count only
    grows, and the sequence leaves position q only when some call has claimed
    the last required count n.  a_seqconc shows that every call keeps to this."""

    def __init__(self, level, counter, q, n):
        self.level, self.counter, self.q, self.n = level, counter, q, n

    def at(self, c, pl):
        return c[1] == pl[0] and tuple(c[2])[:len(pl[1])] == tuple(pl[1])[:len(c[2])]

    def claim(self, st):
        for e in st.log:
            if e[0] == 'rmw' and same_place(e[1], self.counter) and e[3] != e[2]:
                return lin_add(e[3], 0)
        return None

    def advanced(self, st):
        return [e for e in st.log if e[0] in ('rmw', 'store') and same_place(e[1], self.level) and e[3] != e[2]]

    def stable(self, I, st, c):
        if not self.at(c, self.level):
            return False
        k = self.claim(st)
        # only the call that claims the last required count moves the sequence on
        return k is not None and not self.advanced(st) and st.decide_eq(k, self.n)

    def moves(self, I, st, c, v):
        if not self.at(c, self.level):
            return True
        key = ('moved', len(st.log), v)
        if key not in st.facts:
            x = st.fork()
            x.facts[key] = 1
            st.facts[key] = 0
            raise ForkEx([x, st])
        return st.facts.pop(key) == 1

    def moved(self, I, st, c, old, new):
        if not self.at(c, self.level):
            return
        # the sequence has moved on from q, so n calls have been counted
        st.assume_le0(lin_add(self.q + 1, new, -1))
        have = I.rd(st, *self.counter)[1]
        k = I.sym(st, 0, BIG)
        st.assume_le0(lin_add(have, k, -1))
        st.assume_le0(lin_add(self.n, k, -1))
        I.wr(st, self.counter[0], self.counter[1], ('atom', k))


def a_seqconc(S, R):
    """C32: calls on a sequenced expectation with other threads calling it too"""
    I = S.I
    p = 'C32'
    sid = S.s.sid
    if S.s.recv in ('&mut', 'self', 'box'):
        return      # the caller has the mock to itself
    st, m = S.new()
    outs = S.run('new', [], st, abs_name='corp::s_X__seqnew')
    rets = [o for o in outs if o[0] == 'ret']
    if len(rets) != 1:
        raise Undecided('Sequence::new')
    _, v, st = rets[0]
    sl = I.alloc(st, v)
    st.roots = st.roots + (sl,)
    seq = ('ref', sl, (), None)
    atoms = seq_atoms(I, st, sl)
    if len(atoms) != 1:
        raise Undecided('%d counters in a sequence' % len(atoms))
    level = atoms[0]
    states = [(st, [], [])]
    for q in (0, 1):
        nxt = []
        for st, toks, ns in states:
            o, tok, args = setseq(S, st, m, seq, 'setSeq')
            nxt += [(x[2], toks + [tok], ns + [args]) for x in o if x[0] == 'ret']
        states = nxt
        for st, toks, ns in states[:4]:
            guarded(R[p], seqconc_calls, S, R, p, st, m, level, toks, ns, q)


def seqconc_calls(S, R, p, st, m, level, toks, ns, q):
    I = S.I
    sid = S.s.sid
    st = st.fork()
    pl = S.find_list(st, toks[0])
    if pl is None:
        raise Undecided('list not found')
    lv = I.rd(st, pl[0], pl[1])
    if lv[0] != 'vec' or len(lv[1]) != q + 1:
        raise Undecided('expectation list')
    counters = []
    for e in lv[1]:
        a = [x for x in all_atoms(I, st, e) if x != level]
        if len(a) != 1:
            raise Undecided('%d counters in a sequenced expectation' % len(a))
        counters.append(a[0])
    for x in ns:
        if not st.zone.add(0, x[1][0][0], -1):
            raise Undecided('count')
    for i in range(q):
        I.wr(st, counters[i][0], counters[i][1], ('atom', ns[i]))
    I.wr(st, level[0], level[1], ('atom', q))
    c = I.sym(st, 0, BIG)
    st.zone.add(c[1][0][0], ns[q][1][0][0], -1)
    I.wr(st, counters[q][0], counters[q][1], ('atom', c))
    st.log = ()
    n = ns[q]
    rely = SeqRely(level, counters[q], q, n)
    I.conc, I.rely = True, rely
    try:
        outs = S.call(st, m)
    finally:
        I.conc, I.rely = False, None
    for k, v, s in outs:
        if k == 'undec':
            R[p].undecided(v)
            continue
        if k not in ('ret', 'panic'):
            continue
        d = '%s: with other threads calling the same sequenced expectation (position %d), a call that %s' % (where(S, 'call'), q, outcome_text(k, v, s))
        claim = rely.claim(s)
        if pred_fact(s, toks[q]) == 0:
            continue
        if claim is None:
            # refused before it was counted: only if the required calls are complete
            have = I.rd(s, *counters[q])[1]
            ran = any(e[0] == 'user' for e in s.log)
            judge(R[p], s, not ran and k == 'panic' and s.entails_le(n, have), '%s.call:refused-in-order' % sid,
                  d + ' is refused or runs uncounted although it may be in order')
            continue
        within = s.entails_le(claim, n)
        beyond = s.entails_le(n, claim, -1)
        adv = rely.advanced(s)
        if beyond:
            judge(R[p], s, not adv, '%s.call:excess-advances' % sid, d + ' moves the sequence on although it exceeds the required calls')
            continue
        if not within:
            R[p].undecided('claimed count unknown')
            continue
        judge(R[p], s, k == 'ret', '%s.call:in-order-panics' % sid,
              d + ' is one of the required calls and in order, yet fails when another thread gets ahead of it',
              '%s.call (concurrent): a required call in order is served' % sid)
        if k != 'ret':
            continue
        last = s.entails_le(n, claim)
        notlast = s.entails_le(claim, n, -1)
        if not last and not notlast:
            judge(R[p], s, False, '%s.call:advance-undecided' % sid,
                  d + (' moves' if adv else ' does not move') + ' the sequence on without regard to which call it was')
            continue
        good = len(adv) == (1 if last else 0) and all(lin_add(e[3], e[2], -1) == 1 for e in adv)
        judge(R[p], s, good, '%s.call:advance-race' % sid,
              d + ' was %sthe last required call but %s' % ('' if last else 'not ', 'moves the sequence on' if adv else 'does not move the sequence on'),
              '%s.call (concurrent): the sequence moves on exactly with the last required call' % sid)


def judge(r, s, good, key, what, done=''):
    if not good and s.lossy:
        r.undecided('imprecise')
        return
    r.ok(good, key, what, done)


def same_place(ref, pl):
    return ref[1] == pl[0] and tuple(ref[2])[:len(pl[1])] == tuple(pl[1])[:len(ref[2])]


def setseq(S, st, m, seq, act):
    st = st.fork()
    args, toks, ints = mkargs(S, st, act, seq)
    outs = S.run(act, [m] + args, st)
    return outs, toks[0], ints if len(ints) != 1 else ints[0]


def all_atoms(I, st, loc):
    out = []
    for l in I.reach(st, [L(loc)]):
        if l in st.heap and not isinstance(l, tuple):
            for path, x in subvals(st.heap[l]):
                if x[0] == 'atom':
                    out.append((l, path))
    return out


def seq_atoms(I, st, loc):
    return all_atoms(I, st, loc)
