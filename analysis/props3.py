"""Generic keys, checkpoints over several methods, reports, default values,
panicking user code, concurrency (Engine A)."""
from props2 import *


# ------------------------------------------------------------ C09
def a_generic(S, R, B):
    I = S.I
    sid = S.s.sid
    p = 'C09'

    def untouched(s, n):
        lv = I.rd(s, *B.place)
        return lv[0] == 'vecn' and lv[1] == n and not lv[3] and 'list-element-removed' not in s.flags and 'partial-drain' not in s.flags
    for i in range(len(S.s.alts)):
        d0 = '%s with type arguments %s' % (where(S, 'call'), S.s.alts[i][0])
        # calls with other type arguments never use these expectations
        st, n = B.anylist()
        for k, v, s in altcall(S, st, B.m, i):
            if k == 'undec':
                R[p].undecided(v)
                continue
            used = [e for e in s.log if e[0] in ('user',)] or [1 for (a, b) in s.facts if a == 'b' and isinstance(b, tuple) and b[0] == 'pred']
            R[p].ok(k == 'panic' and not used, '%s.alt%d.call:used-other' % (sid, i), '%s uses expectations set for %s' % (d0, S.s.tf),
                    '%s: a call with %s finds no expectation set with %s' % (sid, S.s.alts[i][0], S.s.tf))
            R[p].ok(untouched(s, n), '%s.alt%d.call:changed-other' % (sid, i), '%s changes expectations set for %s' % (d0, S.s.tf))
        # setting with other type arguments
        st, n = B.anylist()
        act = 'alt%dset' % i
        st1 = st.fork()
        args, toks, ints = mkargs(S, st1, act)
        tok = toks[0]
        sets = S.run(act, [B.m] + args, st1)
        if not any(k in ('undec', 'ret') for k, v, s in sets):
            R[p].ok(False, '%s.alt%d.set:refused' % (sid, i), 'setting an expectation for %s always panics (%s) when there are expectations for %s' %
                    (S.s.alts[i][0], '; '.join(sorted(set(outcome_text(k, v, s) for k, v, s in sets)))[:200], S.s.tf))
        for k, v, s in sets:
            if k == 'undec':
                R[p].undecided(v)
                continue
            if k != 'ret':
                continue
            if not R[p].ok(untouched(s, n), '%s.alt%d.set:changed-other' % (sid, i), 'setting an expectation for %s changes those for %s' % (S.s.alts[i][0], S.s.tf)):
                continue
            pl = S.find_list(s, tok)
            if pl is None:
                R[p].ok(False, '%s.alt%d.set:lost' % (sid, i), 'an expectation set for %s is not stored' % S.s.alts[i][0])
                continue
            # calls with the original arguments are unaffected
            s1 = s.fork()
            s1.log = ()
            R9 = Redirect(R[p])
            for q in ('C01', 'C02', 'C03'):
                R9[q] = Tagged(R[p], 'alt%d/' % i)
            outs = S.call(s1, B.m)
            eval_call(S, R9, outs, n, B.place)
            for k2, v2, s2 in outs:
                if k2 in ('ret', 'panic'):
                    R[p].ok(pred_fact(s2, tok) is None and not served_user(s2, tok), '%s.alt%d.call:mixed' % (sid, i),
                            'a call with %s consults an expectation set for %s' % (S.s.tf, S.s.alts[i][0]))
            # calls with the other arguments use exactly it
            s1 = s.fork()
            s1.log = ()
            served = False
            for k2, v2, s2 in altcall(S, s1, B.m, i):
                if k2 == 'undec':
                    R[p].undecided(v2)
                    continue
                others = [b for (a, b) in s2.facts if a == 'b' and isinstance(b, tuple) and b[0] == 'pred' and b[1] != tok[1] and (a, b) not in s1.facts]
                R[p].ok(not others, '%s.alt%d.call:consults-other' % (sid, i), '%s consults expectations set for %s' % (d0, S.s.tf))
                if k2 == 'ret':
                    served = True
                if k2 == 'panic':
                    pl2 = pl
                    good = pred_fact(s2, tok) == 0 or any(e[0] == 'rmw' for e in s2.log)
                    R[p].ok(good or s2.lossy, '%s.alt%d.call:not-found' % (sid, i), '%s does not find the expectation set for them' % d0)
            R[p].ok(served, '%s.alt%d.call:never-served' % (sid, i), '%s is never served by the expectation set for them' % d0,
                    '%s: %s: set and call agree' % (sid, S.s.alts[i][0]))


def altcall(S, st, m, i):
    I = S.I
    act = 'alt%dcall' % i
    tys = S.argtys(act)
    off = 1 if S.s.kind == 'inst' else 0
    a = [I.fresh(st, t, 'b%d' % j) for j, t in enumerate(tys[off:])]
    return S.run(act, ([m] if off else []) + a, st)


# ------------------------------------------------------------ several methods on one mock
def a_multi(S, R):
    """C07, C04, C28 over every kind of method of one mock at once"""
    sid = S.s.sid
    pre = 'corp::s_%sX__' % sid
    I = S.I
    P = S.p
    sets = sorted(r for r in P.roots if r.startswith(pre + 'set_') and not r.endswith('_sta'))
    calls = sorted(r for r in P.roots if r.startswith(pre + 'call_'))
    st, m = S.new()
    els = []
    for r in sets:
        st = st.fork()
        args, toks, ints = mkargs(S, st, None, name=r)
        outs = S.run(r.split('__')[-1], [m] + args, st, abs_name=r)
        good = [o for o in outs if o[0] == 'ret']
        if len(good) != 1:
            raise Undecided('set-up of %s' % r)
        st = good[0][2]
        els.append((r.split('__set_')[1], toks[0], ints))
    # a static expectation as well
    spl = None
    if pre + 'ctx' in P.roots:
        o = S.run('ctx', [], st, abs_name=pre + 'ctx')
        cx = [x for x in o if x[0] == 'ret']
        if len(cx) != 1:
            raise Undecided('context')
        st = cx[0][2].fork()
        cl = I.alloc(st, cx[0][1])
        st.roots = st.roots + (cl,)
        r = pre + 'set_sta'
        args, toks, ints = mkargs(S, st, None, name=r)
        o = [x for x in S.run('set_sta', [('ref', cl, (), None)] + args, st, abs_name=r) if x[0] == 'ret']
        if len(o) != 1:
            raise Undecided('static set-up')
        st = o[0][2]
        spl = S.find_list(st, toks[0])
    info = []
    for name, tok, ints in els:
        pl = S.find_list(st, tok)
        if pl is None:
            raise Undecided('list of %s' % name)
        at = all_atoms(I, st, pl[2])
        if len(at) != 1:
            raise Undecided('counters of %s' % name)
        c = I.sym(st, 0, BIG)
        I.wr(st, at[0][0], at[0][1], ('atom', c))
        info.append((name, tok, pl, {'lo': ints[0], 'hi': ints[1], 'c': c, 'tok': tok}))
    st.log = ()
    for act in ('ck', 'drop'):
        arg = st.heap[m[1]] if act == 'drop' else m
        for k, v, s in S.run(act, [arg], st):
            p = 'C07' if act == 'ck' else 'C04'
            if k == 'undec':
                R[p].undecided(v)
                continue
            if k not in ('ret', 'panic'):
                R['C21'].ok(False, sid + '.%s:%s' % (act, k), 'discarding the expectations of several methods: %s' % (k,))
                continue
            ins = [(nm[0], inside(s, nm[3])) for nm in info]
            if k == 'ret':
                bad = [x for x, w in ins if w is not True]
                if bad and s.lossy:
                    R[p].undecided('imprecise')
                else:
                    for x, w in ins:
                        R[p].ok(w is True, sid + '.%s.%s:unverified' % (act, x), '%s of a mock does not verify the expectations of method %s' % ('checkpoint' if act == 'ck' else 'drop', x),
                                sid + '.%s: method %s verified' % (act, x))
            else:
                R[p].ok(any(w is False for _, w in ins), sid + '.%s:met-reported' % act, '%s panics (%s) although every count may be within its bounds' % (act, text(s.payload)))
            if act == 'ck' and k == 'ret':
                live = I.reach(s, [L(x) for x in s.roots] + [L(x) for x in s.heap if isinstance(x, tuple)])
                for name, tok, pl, nm in info:
                    R['C07'].ok(pl[2] not in live, sid + '.ck.%s:not-cleared' % name, 'checkpoint leaves the expectations of method %s in place (%s)' % (name, outcome_text(k, v, s)))
                if spl is not None:
                    R['C07'].ok(spl[2] in live, sid + '.ck:static-discarded', 'checkpoint of an object discards expectations of a static method')
                R['C07'].ok(not any(e[0] in ('rmw', 'store') for e in s.log), sid + '.ck:counter-changed', 'checkpoint changes call counts')
    # while panicking
    sp = st.fork()
    sp.pan = 1
    for k, v, s in S.run('drop', [sp.heap[m[1]]], sp):
        if k == 'undec':
            R['C21'].undecided(v)
        else:
            R['C21'].ok(k == 'ret', sid + '.drop:panics-while-panicking', 'dropping a mock while the thread is panicking %s' % outcome_text(k, v, s))
    # fresh mocks have no expectations
    for ctor in ('new', 'default'):
        s0 = St()
        o = [x for x in S.run(ctor, [], s0) if x[0] == 'ret']
        if len(o) != 1:
            R['C28'].undecided(ctor)
            continue
        s0 = o[0][2].fork()
        l = I.alloc(s0, o[0][1])
        s0.roots = (l,)
        mref = ('ref', l, (), None)
        for r in calls:
            nm = r.split('__call_')[1]
            inst = P.insts[P.roots[r]]['body']
            tys = inst['L'][1:1 + inst['n']]
            s1 = s0.fork()
            a = [I.fresh(s1, t, 'a%d' % j) for j, t in enumerate(tys[1:])]
            recv = mref if I.T[tys[0]]['k'] == 'ref' else s1.heap[l]
            for k, v, s in S.run('call_' + nm, [recv] + a, s1, abs_name=r):
                if k == 'undec':
                    R['C28'].undecided(v)
                    continue
                R['C28'].ok(k == 'panic' and not any(e[0] in ('user', 'rmw') for e in s.log), sid + '.%s.%s:has-expectation' % (ctor, nm),
                            'a mock created by %s has an expectation for method %s' % (ctor, nm),
                            sid + '::%s: method %s has no expectation' % (ctor, nm))


def a_modck(S, R):
    """C27: the checkpoint of a mocked module covers every function of it"""
    I = S.I
    P = S.p
    sets = sorted(r for r in P.roots if '::s_ModX__set_' in r)
    st = St()
    info = []
    for r in sets:
        name = r.split('__set_')[1]
        o = [x for x in S.run('ctx_' + name, [], st, abs_name=r.replace('__set_', '__ctx_')) if x[0] == 'ret']
        if len(o) != 1:
            raise Undecided('context of %s' % name)
        st = o[0][2].fork()
        cl = I.alloc(st, o[0][1])
        st.roots = st.roots + (cl,)
        args, toks, ints = mkargs(S, st, None, name=r)
        o = [x for x in S.run('set_' + name, [('ref', cl, (), None)] + args, st, abs_name=r) if x[0] == 'ret']
        if len(o) != 1:
            raise Undecided('set-up of %s' % name)
        st = o[0][2]
        info.append((name, toks[0], ints))
    full = []
    for name, tok, ints in info:
        pl = S.find_list(st, tok)
        if pl is None:
            raise Undecided('list of %s' % name)
        at = all_atoms(I, st, pl[2])
        if len(at) != 1:
            raise Undecided('counters of %s' % name)
        c = I.sym(st, 0, BIG)
        I.wr(st, at[0][0], at[0][1], ('atom', c))
        full.append((name, pl, {'lo': ints[0], 'hi': ints[1], 'c': c, 'tok': tok}))
    st.log = ()
    r = R['C27']
    for k, v, s in S.run('ck', [], st, abs_name='corp::s_ModX__ck'):
        if k == 'undec':
            r.undecided(v)
            continue
        if k not in ('ret', 'panic'):
            r.ok(False, 'module.checkpoint:%s' % k, 'checkpoint of a mocked module: %s' % k)
            continue
        ins = [(n, inside(s, nm)) for n, _, nm in full]
        if k == 'panic':
            r.ok(any(w is False for _, w in ins), 'module.checkpoint:met-reported', 'checkpoint of a mocked module panics (%s) although every count may be within its bounds' % text(s.payload))
            continue
        live = I.reach(s, [L(x) for x in s.roots] + [L(x) for x in s.heap if isinstance(x, tuple)])
        for (n, pl, nm), (_, w) in zip(full, ins):
            r.ok(w is True, 'module.checkpoint.%s:unverified' % n, 'checkpoint of a mocked module does not verify the expectations of function %s' % n,
                 'module checkpoint: function %s verified' % n)
            r.ok(pl[2] not in live, 'module.checkpoint.%s:not-cleared' % n, 'checkpoint of a mocked module leaves the expectations of function %s in place' % n,
                 'module checkpoint: function %s cleared' % n)
        r.ok(not s.held, 'module.checkpoint:lock-held', 'checkpoint of a mocked module leaves a lock held')


def a_fresh(S, R, B):
    """C28: new and default give a mock without expectations"""
    I = S.I
    if S.s.kind != 'inst':
        return
    for ctor in ('new', 'default'):
        o = [x for x in S.run(ctor, [], St()) if x[0] == 'ret']
        if len(o) != 1:
            R['C28'].undecided(ctor)
            continue
        s0 = o[0][2].fork()
        l = I.alloc(s0, o[0][1])
        s0.roots = (l,)
        for k, v, s in S.call(s0, ('ref', l, (), None)):
            if k == 'undec':
                R['C28'].undecided(v)
                continue
            R['C28'].ok(k == 'panic' and not any(e[0] in ('user', 'rmw') for e in s.log), '%s.%s:has-expectation' % (S.s.sid, ctor),
                        '%s::%s gives a mock that has an expectation' % (S.s.mock, ctor),
                        '%s::%s gives a mock without expectations' % (S.s.mock, ctor))


# ------------------------------------------------------------ C23
def tokens_of(pieces):
    out = []
    for x in pieces or ():
        if isinstance(x, str):
            out += ['?'] * x.count('?')
        elif isinstance(x, tuple) and x and x[0] == 'v':
            out.append(x)
    return out


def names_ok(S, st):
    t = text(st.payload)
    nm = S.s.name
    return has_word(t, nm) or (S.s.kind == 'static' and '::' in nm and has_word(t, nm.split('::')[-1]) and not nm.startswith('Mock'))


def has_word(t, w):
    i = t.find(w)
    while i >= 0:
        a = t[i - 1] if i else ' '
        b = t[i + len(w)] if i + len(w) < len(t) else ' '
        if not (a.isalnum() or a == '_') and not (b.isalnum() or b == '_'):
            return True
        i = t.find(w, i + 1)
    return False


def same_num(st, x, y):
    return is_num(x) and is_num(y) and st.entails_le(x, y) and st.entails_le(y, x)


def a_reports(S, R, B):
    I = S.I
    sid = S.s.sid
    p = 'C23'
    for size in (None, 0, 1, 2):
        if size is None:
            st, els = B.st0, []
        else:
            st, els = B.concrete(size)
        h = S.h
        outs = S.call(st, B.m)
        args = S.last_args
        for k, v, s in outs:
            if k == 'undec':
                R[p].undecided(v)
                continue
            if k != 'panic':
                continue
            d = '%s: the report "%s"' % (where(S, 'call'), text(s.payload))
            E = known_elems(s, els)
            own = [(o, e) for e in s.log if e[0] == 'rmw' for o in [owner(I, s, E, e[1][1])] if o is not None]
            if not R[p].ok(names_ok(S, s), '%s.call:unnamed' % sid, d + ' does not name the mocked function %s' % S.s.name):
                continue
            if not own:
                want = []
                for (nm, ty, how), a in zip(S.s.args, args):
                    want.append('?' if how == '?' else strip(I, s, a))
                got = [x if x == '?' else strip(I, s, x[2]) for x in tokens_of(s.payload)]
                good = got == want and all(x == '?' or x[1] == 'dbg' for x in tokens_of(s.payload))
                if not good and s.lossy:
                    R[p].undecided('imprecise')
                else:
                    R[p].ok(good, '%s.call:arguments-misreported' % sid, d + ' does not show every argument in order (expected %s)' % [a[2] for a in S.s.args],
                            '%s.call: %s' % (sid, shape_text(s.payload)))
            elif any(e[0] == 'user' for e in s.log):
                # served; the mock itself, passed by value, was then dropped
                R[p].ok(S.s.recv == 'self', '%s.call:panics-after-serving' % sid, d + ' is raised although the call was served')
            else:
                o, e = own[0]
                vals = [x[2] for x in s.payload if isinstance(x, tuple) and x[0] == 'v']
                hi1 = lin_add(o.names['hi'], -1)
                if not vals:
                    good = s.entails_le(hi1, 0)
                    R[p].ok(good, '%s.call:counts-missing' % sid, d + ' does not show the counts')
                else:
                    good = len(vals) == 2 and same_num(s, vals[0], e[3]) and same_num(s, vals[1], hi1)
                    if not good and s.lossy:
                        R[p].undecided('imprecise')
                    else:
                        R[p].ok(good, '%s.call:counts-misreported' % sid, d + ' does not show the actual number of calls and the maximum',
                                '%s.call: %s' % (sid, shape_text(s.payload)))
                R[p].ok('function' in text(s.payload), '%s.call:matcher-not-described' % sid, d + ' does not describe the matcher')
    for act in ('drop', 'ck'):
        st, els = B.concrete(1)
        nm = els[0][1]
        for k, v, s in S.run(act, [st.heap[B.m[1]] if act == 'drop' else B.m], st):
            if k == 'undec':
                R[p].undecided(v)
                continue
            if k != 'panic':
                continue
            d = '%s: the report "%s"' % (S.s.mock, text(s.payload))
            R[p].ok(names_ok(S, s), '%s.%s:unnamed' % (sid, act), d + ' does not name the mocked function %s' % S.s.name)
            R[p].ok('function' in text(s.payload), '%s.%s:matcher-not-described' % (sid, act), d + ' does not describe the matcher')
            vals = [x[2] for x in s.payload if isinstance(x, tuple) and x[0] == 'v']
            few = s.entails_le(nm['c'], nm['lo'], -1)
            bound = nm['lo'] if few else lin_add(nm['hi'], -1)
            good = len(vals) == 2 and same_num(s, vals[0], nm['c']) and same_num(s, vals[1], bound)
            if not good and s.lossy:
                R[p].undecided('imprecise')
            else:
                R[p].ok(good, '%s.%s:counts-misreported' % (sid, act), d + ' does not show the actual number of calls and the bound that was missed',
                        '%s.%s: %s' % (sid, act, shape_text(s.payload)))
            t = text(s.payload)
            R[p].ok(('fewer' in t) == bool(few) and ('more' in t) == (not few), '%s.%s:direction' % (sid, act), d + ' says the opposite of what happened')
    # matcher descriptions
    for act, word in (('setMnone', 'anything'), ('setMwithfst', 'single threaded function'), ('setMwith', None)):
        if not S.has(act):
            continue
        outs, m, toks, ints = configured(S, act)
        for k, v, s in outs:
            if k != 'ret':
                continue
            pl = S.find_list(s, toks[0])
            if pl is None:
                R[p].undecided('list')
                continue
            s = s.fork()
            at = all_atoms(I, s, pl[2])
            if len(at) != 1:
                continue
            # force an excess: no expectation of this corpus is bounded, so ask for the text directly
            tp = matcher_text(S, s, pl[2])
            if tp is None:
                continue
            if word is not None:
                R[p].ok(word in text(tp), '%s.%s:matcher-misdescribed' % (sid, act), 'the matcher is described as "%s"' % text(tp))


def matcher_text(S, st, elem):
    return None


def shape_text(pieces):
    return ''.join(x if isinstance(x, str) else '<%s>' % x[1] for x in pieces if isinstance(x, str) or x[0] == 'v')


# ------------------------------------------------------------ C26
DEFAULTABLE = ('DVal', 'i64', 'u32', 'String', '()', 'Vec<Val>')


def a_default(S, R, B, nightly):
    I = S.I
    sid = S.s.sid
    p = 'C26'
    act = 'setRdefault'
    outs, m, toks, ints = configured(S, act)
    tag = 'nightly' if nightly else 'stable'
    for k, v, st in outs:
        if k == 'undec':
            R[p].undecided(v)
            continue
        if k != 'ret':
            continue
        may = nightly and S.s.owned in DEFAULTABLE
        for k1, v1, s in S.call(st, m):
            if k1 == 'undec':
                R[p].undecided(v1)
                continue
            d = '%s (%s): a call served by an expectation without a return action %s' % (where(S, 'call'), tag, outcome_text(k1, v1, s))
            if pred_fact(s, toks[0]) != 1:
                R[p].ok(k1 == 'panic', '%s.%s:invented' % (sid, tag), d)
                continue
            if may:
                if k1 == 'ret':
                    w = strip(I, s, v1)
                    good = w == ('o', ('default', ())) or w == 0 or (isinstance(w, tuple) and w and w[0] in ('txt', 'vec', 'arr', 'sref', 'tup') and not w[1])
                    R[p].ok(good, '%s.%s:not-default' % (sid, tag), d + ' a value other than the default of %s' % S.s.owned, '%s (%s): returns the default of %s' % (sid, tag, S.s.owned))
                else:
                    R[p].ok(s.lossy, '%s.%s:default-refused' % (sid, tag), d + ' although %s implements Default' % S.s.owned)
            else:
                R[p].ok(k1 == 'panic', '%s.%s:invented' % (sid, tag), d, '%s (%s): panics' % (sid, tag))


# ------------------------------------------------------------ panicking user code; concurrency
def a_userpanic(S, R, B):
    """C08, C21, C22: the user's matcher or return function panics during a call"""
    I = S.I
    sid = S.s.sid
    I.user_panics = True
    try:
        st, els = B.concrete(1)
        outs = S.call(st, B.m)
    finally:
        I.user_panics = False
    for k, v, s in outs:
        if k == 'undec':
            R['C22'].undecided(v)
            continue
        if k == 'stop':
            R['C22'].ok(False, '%s.call:%s' % (sid, v[0]), 'a call acquires a lock it already holds')
            continue
        R['C22'].ok(not s.held, '%s.call:lock-held-at-exit' % sid, '%s: a call whose user function panics leaves a lock held' % where(S, 'call'))
        if k == 'abort':
            R['C21'].ok(False, '%s.call:abort' % sid, '%s: a panic of user code during a call aborts the process' % where(S, 'call'))
            continue
        if k != 'panic' or S.s.recv == 'self':
            continue
        user = text(s.payload) == 'user panic'
        if not user:
            continue
        # unwinding: the mock or the static context is dropped while panicking
        s1 = s.fork()
        s1.pan = 1
        s1.log = ()
        for k2, v2, s2 in S.run('drop', [s1.heap[B.m[1]]], s1):
            if k2 == 'undec':
                R['C21'].undecided(v2)
                continue
            R['C21'].ok(k2 == 'ret', '%s.drop:panics-while-panicking' % sid,
                        '%s: dropping it after user code panicked during a call %s' % (S.s.mock, outcome_text(k2, v2, s2)),
                        '%s: user code panicked during the call; drop is quiet' % sid)
            if k2 != 'ret' or S.s.kind != 'static':
                continue
            R['C08'].ok(gone(I, s2, B, els), '%s.drop:not-cleared-on-panic' % sid, '%s: expectations survive the end of the context after a panic during a call' % S.s.mock)
            R['C08'].ok(not static_poison(I, S, s2), '%s.drop:poisoned' % sid, '%s: the store stays poisoned after a panic during a call' % S.s.mock,
                        '%s: store cleared and usable after a panic during a call' % sid)
            # the next user starts clean
            s3 = s2.fork()
            s3.pan = 0
            s3.payload = None
            for k3, v3, s4 in S.run('new', [], s3):
                if k3 != 'ret':
                    R['C08'].ok(k3 == 'undec', '%s.new:unusable-after-panic' % sid, 'a new context cannot be created after a panic: %s' % outcome_text(k3, v3, s4))
                    continue
                s4 = s4.fork()
                l = I.alloc(s4, v3)
                s4.roots = (l,)
                mref = ('ref', l, (), None)
                o, tok, a = S.setup(s4, mref)
                for k5, v5, s5 in o:
                    if k5 == 'undec':
                        R['C08'].undecided(v5)
                    elif k5 == 'panic':
                        R['C08'].ok(s5.entails_le(a[2][3][1], a[2][3][0]), '%s.set:unusable-after-panic' % sid, 'setting an expectation after a panic during a call %s' % outcome_text(k5, v5, s5))
                    elif k5 == 'ret':
                        R['C08'].ok(True, '')
                        lv = I.rd(s5, *S.find_list(s5, tok)[:2])
                        R['C08'].ok(lv[0] == 'vec' and len(lv[1]) == 1, '%s.set:not-clean-after-panic' % sid, 'the next user does not start with an empty list')


def a_conc(S, R, B):
    """C03: the maximum holds whatever other threads do between two accesses to a counter"""
    I = S.I
    sid = S.s.sid
    I.conc = True
    try:
        runs = []
        st, els = B.concrete(1)
        runs.append((els, S.call(st, B.m)))
        st, els = B.concrete(2)
        runs.append((els, S.call(st, B.m)))
    finally:
        I.conc = False
    for els, outs in runs:
        for k, v, s in outs:
            if k == 'undec':
                R['C03'].undecided(v)
                continue
            if k not in ('ret', 'panic'):
                continue
            E = known_elems(s, els)
            users = [(i, e) for i, e in enumerate(s.log) if e[0] == 'user']
            d = '%s with other threads calling concurrently' % where(S, 'call')
            for e in s.log:
                if e[0] in ('rmw', 'store'):
                    o = owner(I, s, E, e[1][1])
                    if o is None:
                        continue
                    R['C03'].ok(e[0] == 'rmw' and lin_add(e[3], e[2], -1) == 1 or e[0] == 'rmw' and e[3] == e[2], '%s.call:counter-race' % sid,
                                d + ': a call counter is written other than by an atomic increment, so concurrent calls can be lost')
            ran = [(i, [x for x in E if x.names['tok'] == e[1]]) for i, e in users]
            if not users and k == 'ret' and S.s.rk in ('ref',):
                own = [(i, owner(I, s, E, e[1][1])) for i, e in enumerate(s.log) if e[0] == 'rmw']
                own = [(i, [o]) for i, o in own if o is not None]
                ran = [(len(s.log), own[0][1])] if own else []
            for i, o in ran:
                if not o:
                    continue
                mine = [e for e in s.log[:i] if e[0] == 'rmw' and owner(I, s, E, e[1][1]) is o[0] and lin_add(e[3], e[2], -1) == 1]
                good = any(s.entails_le(e[2], o[0].names['hi'], -2) for e in mine)
                if not good and s.lossy:
                    R['C03'].undecided('imprecise')
                else:
                    R['C03'].ok(good, '%s.call:race-over-maximum' % sid,
                                d + ': the return function runs without this call having atomically claimed one of the allowed counts',
                                '%s.call (concurrent): own atomic increment claimed a count within the maximum' % sid)


def lock_cycles(locks):
    """cycles in the lock-order graph {(a, b): witness}"""
    g = {}
    for (a, b) in locks:
        g.setdefault(a, set()).add(b)
    out = []
    for a in sorted(g):
        # a reaches itself?
        seen, q = set(), [(x, (a, x)) for x in sorted(g[a])]
        while q:
            x, path = q.pop()
            if x == a:
                out.append(path)
                break
            if x in seen:
                continue
            seen.add(x)
            for y in sorted(g.get(x, ())):
                q.append((y, path + (y,)))
    uniq = {}
    for p in out:
        uniq.setdefault(frozenset(p), p)
    return list(uniq.values())


# ------------------------------------------------------------ C13
def a_handle(S, R, B):
    """every configuration method of a static handle acts as on the underlying
    expectation and on that expectation only: the obligations of the value,
    matcher, count and sequence rules, evaluated through the handle: chained
    on the handle, one method at a time on the handle, and through the
    expectation that each method of the handle returns"""
    p = R['C13']
    try:
        for var in (None, 'h', 'q1', 'q2', 'q3'):
            S.variant = var
            pre = 'handle/' + (var + '/' if var else '')
            for f, q, args in ((a_values, 'C11', (B,)), (a_matchers, 'C12', (B,)), (a_times, 'C05', (B,)), (a_sequence, 'C06', ())):
                T = Reports()
                try:
                    f(S, T, *args)
                except Undecided as e:
                    p.undecided(str(e)[:200])
                    continue
                t = T[q]
                p.ob += t.ob
                p.dis += t.dis
                for k, d in t.viol.items():
                    p.viol.setdefault(pre + k, d)
                for w, n in t.und.items():
                    p.und[w] = p.und.get(w, 0) + n
    finally:
        S.variant = None


# ------------------------------------------------------------ discard of specially configured expectations
def a_discard_cfg(S, R, B):
    """C04: expectations configured in other ways are verified the same way"""
    I = S.I
    sid = S.s.sid
    p = 'C04'
    for act in ('setSeq', 'setMnone', 'setRdefault', 'setNdef'):
        st, m = S.new()
        seq = level = None
        if act == 'setSeq':
            rets = [o for o in S.run('new', [], st, abs_name='corp::s_X__seqnew') if o[0] == 'ret']
            if len(rets) != 1:
                raise Undecided('Sequence::new')
            _, v, st = rets[0]
            sl = I.alloc(st, v)
            st.roots = st.roots + (sl,)
            seq = ('ref', sl, (), None)
            atoms = seq_atoms(I, st, sl)
            level = atoms[0] if len(atoms) == 1 else None
        outs, _, toks, ints = configured(S, act, st, m, seq)
        for k, v, s in outs:
            if k == 'undec':
                R[p].undecided(v)
            if k != 'ret':
                continue
            pl = S.find_list(s, toks[0])
            if pl is None:
                R[p].undecided('%s: expectation list not found' % act)
                continue
            cnt = [x for x in all_atoms(I, s, pl[2]) if level is None or x != level]
            if len(cnt) != 1:
                R[p].undecided('%s: %d counters' % (act, len(cnt)))
                continue
            c = I.sym(s, 0, BIG)
            I.wr(s, cnt[0][0], cnt[0][1], ('atom', c))
            if level is not None:
                lv = I.sym(s, 0, BIG)
                I.wr(s, level[0], level[1], ('atom', lv))
            for end in ('drop', 'ck'):
                s1 = s.fork()
                s1.log = ()
                for k1, v1, s2 in S.run(end, [s1.heap[m[1]] if end == 'drop' else m], s1):
                    if k1 == 'undec':
                        R[p].undecided(v1)
                        continue
                    if k1 not in ('ret', 'panic'):
                        continue
                    if act == 'setSeq':
                        n = ints[0]
                        met = s2.entails_le(c, n) and s2.entails_le(n, c)
                        unmet = not s2.can_le(c, n) or not s2.can_le(n, c)
                    else:
                        met, unmet = True, False
                    what = {'setSeq': 'an expectation in a sequence', 'setMnone': 'an expectation with no matcher', 'setRdefault': 'an expectation with no return action',
                            'setNdef': 'an expectation with no call count'}[act]
                    d = '%s: discarding %s %s' % (S.s.mock if end == 'drop' else where(S, end), what, outcome_text(k1, v1, s2))
                    if s2.lossy and not (met or unmet):
                        R[p].undecided('imprecise')
                    elif k1 == 'ret':
                        R[p].ok(met, '%s.%s.%s:unmet-not-reported' % (sid, act, end), d + ' although its count may be outside its bounds', '%s.%s.%s: verified' % (sid, act, end))
                    else:
                        R[p].ok(unmet, '%s.%s.%s:met-reported' % (sid, act, end), d + ' although its count may be within its bounds', '%s.%s.%s: verified' % (sid, act, end))


# ------------------------------------------------------------ other threads
def a_foreign(S, R, B):
    """C21: single-threaded actions and matchers used from, or discarded by, another thread"""
    I = S.I
    sid = S.s.sid
    p = 'C21'
    acts = [x + str(i) for x in ('setF', 'setFr') for i in range(4) if S.has(x + str(i))]
    for act in acts:
        for n in (1, 2):
            st, m = S.new()
            good = [st]
            for _ in range(n):
                nxt = []
                for s in good:
                    outs, _, toks, ints = configured(S, act, s, m)
                    for k, v, s1 in outs:
                        if k == 'ret':
                            nxt.append(s1)
                        elif k == 'undec':
                            R[p].undecided(v)
                good = nxt
            I.foreign = True
            try:
                for s in good:
                    ends = [(s.fork(), 'dropped')]
                    q = s.fork()
                    q.pan = 1
                    ends.append((q, 'dropped while the thread is panicking'))
                    for k, v, s1 in S.call(s.fork(), m):
                        d = '%s: calling an expectation configured with a single-threaded action or matcher from another thread' % where(S, 'call')
                        if k == 'undec':
                            R[p].undecided(v)
                            continue
                        if k == 'stop':
                            continue
                        R[p].ok(k != 'abort', '%s.call.%s:abort' % (sid, act), d + ' aborts the process', d + ': no abort')
                        if k == 'panic' and S.s.recv != 'self':
                            s1 = s1.fork()
                            s1.pan = 1
                            ends.append((s1, 'dropped after a call from another thread panicked'))
                    for s1, what in ends:
                        s1 = s1.fork()
                        s1.log = ()
                        pan = s1.pan
                        for k, v, s2 in S.run('drop', [s1.heap[m[1]]], s1):
                            d = '%s (%d expectation(s), %s): %s on another thread' % (S.s.mock, n, act, what)
                            if k == 'undec':
                                R[p].undecided(v)
                                continue
                            if k == 'stop':
                                continue
                            R[p].ok(k == 'ret' if pan else k != 'abort', '%s.drop.%s:%s-wrong-thread' % (sid, act, 'panics-while-panicking' if pan else 'abort'),
                                    d + ', which ' + ('raises another panic' if pan else 'aborts the process'), d + ': no further panic')
            finally:
                I.foreign = False


# ------------------------------------------------------------ re-entrant calls
def a_reentrant(S, R, B):
    """C22: a return function calls the same method; another expectation serves that call"""
    I = S.I
    if S.s.kind != 'inst' or S.s.recv not in ('&',) or S.s.rk not in ('own', 'sref'):
        return
    st, els = B.concrete(2)
    toks = [nm['tok'] for _, nm in els if 'tok' in nm]
    if len(toks) != 2:
        raise Undecided('matchers of a list of two')
    seen = []

    def nested(s, tok):
        if tok not in toks or s.pan:
            return
        H = S.h
        H.nested = None
        args, cur, locks = H.args, H.cur, dict(H.locks)
        try:
            s2 = s.fork()
            for t in toks:
                s2.facts = dict(s2.facts)
                s2.facts[('b', ('pred', t[1]))] = int(t != tok)
            for k, v, s3 in S.call(s2, B.m):
                seen.append((k, v))
        finally:
            # the order in which user code nests calls is its own
            H.nested, H.args, H.cur, H.locks = nested, args, cur, locks
    S.h.nested = nested
    try:
        S.call(st, B.m)
    finally:
        S.h.nested = None
    for k, v in seen:
        if k == 'undec':
            R['C22'].undecided(v)
            continue
        R['C22'].ok(k != 'stop', '%s.call:reentrant-deadlock' % S.s.sid,
                    '%s: a call made by a return function, which another expectation serves, waits for a lock that the outer call holds' % where(S, 'call'),
                    '%s: a nested call served by another expectation takes no lock the outer call holds' % S.s.sid)
