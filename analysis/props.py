"""Property rules evaluated on abstract outcomes (Engine A)."""
from rules import *
import models


from report import Report, Reports


def where(S, act, st=None):
    """the generated construct a violation is in"""
    i = S.inst(act)
    t = [x['t'] for x in i['body']['B'] if x['t'][0] == 'c' and x['t'][1] >= 0]
    names = [S.p.insts[x[1]]['p'] for x in t]
    return names[-1] if names else i['p']


def outcome_text(k, v, st):
    if k == 'panic':
        return 'panics "%s"' % text(st.payload)
    if k == 'ret':
        return 'returns'
    return '%s %s' % (k, v)


# ------------------------------------------------------------ call outcomes
class Elem:
    __slots__ = ('loc', 'how', 'pas', 'names', 'idx')

    def __init__(self, loc, how, pas, names, idx):
        self.loc, self.how, self.pas, self.names, self.idx = loc, how, pas, names, idx


def known_elems(st, concrete):
    if concrete is not None:
        return [Elem(e, 'known', None, nm, i) for i, (e, nm) in enumerate(concrete)]
    return [Elem(e, i[1], i[2], dict(i[3]), i[4]) for e, i in st.elems.items()]


def owner(I, st, elems, loc):
    for e in elems:
        if loc == e.loc or loc in I.reach(st, [L(e.loc)]):
            return e
    return None


def why(st, e):
    return why_not(None, st, e.loc, e.names)


def eval_call(S, R, outs, n, place, concrete=None, seq=False):
    """rules C01, C02, C03, C22 on the outcomes of one mocked call"""
    I = S.I
    sid = S.s.sid
    loc = where(S, 'call')
    for k, v, st in outs:
        if k == 'undec':
            for p in ('C01', 'C02', 'C03', 'C10', 'C22'):
                R[p].undecided(v)
            continue
        if k == 'stop':
            R['C22'].ok(False, '%s.call:%s' % (sid, v[0]), 'a call acquires a lock it already holds in %s' % loc)
            continue
        if k == 'abort':
            R['C21'].ok(False, '%s.call:abort' % sid, 'a call aborts the process in %s' % loc)
            continue
        d = '%s: a call that %s' % (loc, outcome_text(k, v, st))
        R['C22'].ok(not st.held, '%s.call:lock-held-at-exit' % sid, d + ' leaves a lock held')
        elems = known_elems(st, concrete)
        rm = []
        bad_write = None
        for e in st.log:
            if e[0] in ('rmw', 'store'):
                o = owner(I, st, elems, e[1][1])
                rm.append((o, e))
                if o is None:
                    continue
                if e[0] == 'store' or lin_add(e[3], e[2], -1) != 1:
                    if e[3] != e[2]:
                        bad_write = e
        users = [e for e in st.log if e[0] == 'user']
        touched = {id(o): o for o, _ in rm if o is not None}
        uels = []
        for u in users:
            o = [e for e in elems if e.names.get('tok') == u[1]]
            uels.append(o[0] if o else None)
            if o:
                touched[id(o[0])] = o[0]
        lossy = st.lossy or 'list-element-removed' in st.flags
        if bad_write is not None:
            R['C03'].ok(False, '%s.call:counter-write' % sid, d + ' writes a call counter other than by adding one')
        if len(touched) > 1:
            R['C01'].ok(False, '%s.call:two-consumed' % sid, d + ' consumes two expectations')
            continue
        if not touched:
            if k == 'ret':
                if users or any(o is None for o, _ in rm):
                    R['C01'].undecided('unknown expectation served the call')
                else:
                    R['C02'].ok(False, '%s.call:returned-unserved' % sid, d + ' without any expectation having served it')
                continue
            # nothing consumed: no expectation may have been eligible
            good, whyn = none_eligible(I, st, elems, n, concrete)
            if good is None:
                R['C02'].undecided(whyn)
            elif not good and lossy:
                R['C02'].undecided('imprecise: ' + whyn)
            else:
                R['C02'].ok(good, '%s.call:eligible-refused' % sid, '%s although %s' % (d, whyn),
                            '%s.call: %s; consumed nothing; every expectation ruled out' % (sid, outcome_text(k, v, st)))
            R['C01'].ok(True, '')
            if not concrete and sid_static(S):
                R['C22'].ok(not static_poison(I, S, st), '%s.call:poisons-static' % sid,
                            d + ' was raised with the lock of the static function held')
            continue
        E = list(touched.values())[0]
        # ---- C01
        pf = pred_fact(st, E.names['tok']) if 'tok' in E.names else 1
        if pf != 1 and lossy:
            R['C01'].undecided('imprecise matcher outcome')
        else:
            R['C01'].ok(pf == 1, '%s.call:served-without-match' % sid, d + ' is served by an expectation whose matcher %s'
                        % ('rejected the arguments' if pf == 0 else 'was not consulted'))
        c, lo, hi = E.names['c'], E.names['lo'], E.names['hi']
        notsat = st.entails_le(c, hi, -2)
        sole = (n is not None and st.entails_le(n, 1)) or (concrete is not None and len(concrete) == 1)
        key = '%s.call:saturated-selected' % sid
        if not (notsat or sole) and lossy:
            R['C01'].undecided('imprecise count')
        else:
            R['C01'].ok(notsat or sole, key, d + ' selects an expectation whose limit may be used up although it is not the only one')
        # ---- C02: could every expectation be ineligible here?
        maybe = pf != 1 or not (notsat or sole)
        other = [e for e in elems if e is not E and pred_fact(st, e.names.get('tok')) == 1 and st.entails_le(e.names['c'], e.names['hi'], -2)]
        if maybe and not other:
            if lossy:
                R['C02'].undecided('imprecise selection')
            else:
                R['C02'].ok(False, '%s.call:consumed-unaccepted' % sid, d + ' uses an expectation although possibly none accepts the call')
        else:
            R['C02'].ok(True, '')
        good, whyn = earlier_ineligible(I, st, elems, E, n, concrete)
        if good is None:
            R['C01'].undecided(whyn)
        elif not good and lossy:
            R['C01'].undecided('imprecise: ' + whyn)
        else:
            R['C01'].ok(good, '%s.call:not-earliest' % sid, '%s although %s' % (d, whyn),
                        '%s.call: %s via element %s; earlier ones ruled out %s' % (sid, outcome_text(k, v, st), E.how, sorted(st.passes[E.pas]) if E.pas is not None and E.pas >= 0 else ''))
        # ---- C03
        own = [e for o, e in rm if o is E]
        if users:
            R['C03'].ok(len(users) == 1, '%s.call:runs-twice' % sid, d + ' runs the return function %d times' % len(users))
            iu = min(i for i, e in enumerate(st.log) if e[0] == 'user')
            before = [e for e in st.log[:iu] if e[0] == 'rmw' and any(e is x for x in own)]
            if len(own) == 1 and len(before) == 1:
                old = before[0][2]
                within = st.entails_le(old, hi, -2)
                if not within and lossy:
                    R['C03'].undecided('imprecise count')
                else:
                    R['C03'].ok(within, '%s.call:excess-runs' % sid, d + ' runs the return function without having established that the count is within the maximum',
                                '%s.call: return function ran; old count + 1 <= maximum proved' % sid)
            elif not own:
                R['C03'].ok(False, '%s.call:uncounted' % sid, d + ' runs the return function without counting the call')
            elif not before:
                R['C03'].ok(False, '%s.call:count-after-run' % sid, d + ' counts the call only after the return function ran')
            else:
                R['C03'].ok(False, '%s.call:counted-twice' % sid, d + ' counts one call %d times' % len(own))
        elif k == 'panic' and not seq:
            exc = st.entails_le(hi, c, 1)
            if not exc and lossy:
                R['C03'].undecided('imprecise count')
            else:
                R['C03'].ok(exc, '%s.call:within-refused' % sid, d + ' refuses a call within the maximum')
        elif k == 'ret':
            if S.s.rk != 'ref':
                R['C11'].ok(False, '%s.call:returned-without-action' % sid, d + ' without running the return function')
            else:
                exc = own and st.entails_le(own[0][2], hi, -2)
                R['C03'].ok(bool(exc) and len(own) == 1, '%s.call:excess-returns' % sid, d + ' without having counted it within the maximum')


def sid_static(S):
    return S.s.kind == 'static'


def static_poison(I, S, st):
    sl = {l for l in st.heap if isinstance(l, tuple)}
    roots = set()
    for l in sl:
        v = st.heap[l]
        for path, x in subvals(v):
            if x[0] == 'mutex':
                roots.add(x[1])
            if x[0] == 'once' and x[1] is not None:
                for p2, y in subvals(st.heap.get(x[1])):
                    if y[0] == 'mutex':
                        roots.add(y[1])
    return roots & st.poison


def none_eligible(I, st, elems, n, concrete):
    """(True, '') when every expectation is shown ineligible, or the only one
    is used up; (False, reason); (None, reason) when that cannot be told"""
    if concrete is not None:
        if len(concrete) == 1:
            w = why(st, elems[0])
            if w == 'nomatch':
                return True, ''
            if w == 'sat':
                # sole and used up: an excess report, not a refusal
                return True, ''
            return False, 'the only expectation may accept it'
        for e in elems:
            if why(st, e) == 'U':
                return False, 'expectation %d may be eligible' % e.idx
        return True, ''
    if n is None:
        return True, ''
    for e in elems:
        w = why(st, e)
        if w == 'U':
            return False, 'an expectation that was looked at may be eligible'
        if w == 'sat' and not st.entails_le(2, n):
            if pred_fact(st, e.names['tok']) == 1:
                # sole, matching, used up: refused as an excess call
                if st.entails_le(n, 1):
                    return True, ''
            elif pred_fact(st, e.names['tok']) is None and st.entails_le(n, 1):
                return True, ''
            elif not st.entails_le(n, 1):
                return True, ''
    ends = [p for p in st.passes if 'end' in p]
    if not ends:
        if 'back-exhausted' in st.flags:
            return None, 'reverse iteration'
        if st.entails_le(n, len({id(e) for e in elems})):
            return True, ''
        if not st.passes:
            return None, 'no list traversal recognised'
        return False, 'not every expectation was considered'
    for p in ends:
        if 'U' not in p:
            return True, ''
    return False, 'an expectation that was passed over may be eligible'


def earlier_ineligible(I, st, elems, E, n, concrete):
    if concrete is not None:
        for e in elems:
            if e.idx < E.idx and why(st, e) == 'U':
                return False, 'expectation %d, created earlier, may be eligible' % e.idx
        return True, ''
    if E.idx == 0:
        return True, ''
    if not isinstance(E.idx, int) and st.entails_le(E.idx, 0):
        return True, ''
    if E.how == 'back':
        if 'back-exhausted' in st.flags:
            return None, 'reverse iteration'
        return False, 'expectations created earlier were not considered'
    if E.how == 'ix':
        return None, 'indexed access'
    if E.pas is None or E.pas < 0:
        return None, 'no traversal'
    for e in elems:
        if e is E:
            continue
        if e.idx == 0 or st.le0(lin_add(lin_add(e.idx, E.idx, -1), 1)) is not False:
            w = why(st, e)
            if w == 'U':
                return False, 'an expectation created earlier may be eligible'
    if 'U' in st.passes[E.pas]:
        return False, 'an expectation created earlier was passed over without being ruled out'
    return True, ''


# ------------------------------------------------------------ set-up shared by the analyses
class Base:
    """fresh mock, one G template, state with a list of any length"""
    def __init__(self, S, R=None, pick=0):
        self.S = S
        I = S.I
        st0, m = S.new()
        self.m = m
        self.st0 = st0
        outs, tok, args = S.setup(st0, m)
        ok = [o for o in outs if o[0] == 'ret']
        self.ways = len(ok)
        if not pick < len(ok) <= 4:
            raise Undecided('set-up has %d normal outcomes: %s' % (len(ok), [o[1] for o in outs if o[0] == 'undec'][:1]))
        self.setup_outs = outs
        self.st1 = ok[pick][2]
        self.tok = tok
        r = args[2]
        self.lo, self.hi = r[3][0], r[3][1]
        pl = S.find_list(self.st1, tok)
        if pl is None:
            raise Undecided('expectation list not found')
        self.place = (pl[0], pl[1])
        self.elem = pl[2]
        self.tp = S.template(self.st1, tok, pl[2], {'lo': self.lo, 'hi': self.hi})

    def anylist(self, tail=()):
        return self.S.with_list(self.st1, self.place, [self.tp], tail)

    def concrete(self, k):
        return self.S.with_concrete(self.st1, self.place, [self.tp] * k)

    def empty(self):
        st = self.st1.fork()
        self.S.I.wr(st, self.place[0], self.place[1], ('vec', ()))
        return st


def a_calls(S, R, B, deep=False):
    """C01-C03, C10, C22 (call part): calls on a list of any length"""
    st, n = B.anylist()
    outs = S.call(st, B.m)
    und = [o for o in outs if o[0] == 'undec']
    eval_call(S, R, outs, n, B.place)
    sizes = (1, 2, 3) if (und or deep) else (1,)
    for k in sizes:
        st, els = B.concrete(k)
        eval_call(S, R, S.call(st, B.m), None, B.place, concrete=els)
    # no expectation at all
    for st in (B.st0, B.empty()):
        for k, v, s in S.call(st, B.m):
            if k == 'undec':
                R['C02'].undecided(v)
                continue
            R['C02'].ok(k == 'panic', '%s.call:empty-returned' % S.s.sid, '%s: a call with no expectations %s' % (where(S, 'call'), outcome_text(k, v, s)))
            R['C22'].ok(not s.held, '%s.call:lock-held-at-exit' % S.s.sid, 'a call leaves a lock held')


def a_args(S, R):
    for (cur, key), fn in S.h.argviol.items():
        R['C10'].ok(False, '%s:%s' % (cur, key), '%s: the %s (reached from %s)' % (where(S, 'call'), key, fn))
    R['C10'].ob += S.h.argok
    R['C10'].dis += S.h.argok


def a_append(S, R, B):
    """setting an expectation appends exactly one element at the end (C01, C08, C13)"""
    st, n = B.anylist()
    I = S.I
    st, els = st, None
    outs, tok, args = S.setup(st, B.m)
    prop = ['C01'] + (['C08', 'C13'] if S.s.kind == 'static' else [])
    for k, v, s in outs:
        if k == 'undec':
            for p in prop:
                R[p].undecided(v)
            continue
        if k != 'ret':
            continue
        lv = I.rd(s, *B.place)
        good = lv[0] == 'vecn' and lv[1] == n and len(lv[3]) == 1 and 'insert-not-at-end' not in s.flags and 'list-element-removed' not in s.flags \
            and 'partial-drain' not in s.flags
        for p in prop:
            R[p].ok(good, '%s.set:not-appended' % S.s.sid, '%s: a new expectation is not appended to the list' % where(S, 'setG'))
        if good:
            mine = has_tok(I, s, lv[3][0], tok)
            for p in prop:
                R[p].ok(mine, '%s.set:other-configured' % S.s.sid,
                        '%s: the matcher or return function was given to an expectation other than the new one' % where(S, 'setG'))
        R['C22'].ok(not s.held, '%s.set:lock-held-at-exit' % S.s.sid, 'setting an expectation leaves a lock held')


def a_drop(S, R, B, deep=False):
    """C04, C21, C07/C08 (discard part)"""
    I = S.I
    sid = S.s.sid
    for act in ('drop', 'ck'):
        for size in (0, 1, 2):
            for pan in (0, 1):
                st, els = B.concrete(size)
                st.pan = pan
                arg = st.heap[B.m[1]] if act == 'drop' else B.m
                outs = S.run(act, [arg], st)
                w = where(S, act) if act == 'ck' else S.s.mock
                for k, v, s in outs:
                    if k == 'undec':
                        for p in ('C04', 'C21', 'C07' if S.s.kind == 'inst' else 'C08'):
                            R[p].undecided(v)
                        continue
                    if k == 'stop':
                        R['C22'].ok(False, '%s.%s:%s' % (sid, act, v[0]), '%s: discarding expectations acquires a lock it already holds' % w)
                        continue
                    R['C22'].ok(not s.held, '%s.%s:lock-held-at-exit' % (sid, act), '%s: leaves a lock held' % w)
                    if pan:
                        R['C21'].ok(k == 'ret', '%s.%s:panics-while-panicking' % (sid, act),
                                    '%s: discarding %d expectation(s) while the thread is panicking %s' % (w, size, outcome_text(k, v, s)),
                                    '%s.%s while panicking: returns quietly' % (sid, act))
                        if k == 'ret' and S.s.kind == 'static' and act == 'drop':
                            lv = I.rd(s, *B.place)
                            R['C08'].ok(gone(I, s, B, els), '%s.drop:not-cleared-on-panic' % sid, '%s: expectations survive the end of the context while panicking' % w)
                            R['C08'].ok(not static_poison(I, S, s), '%s.drop:poisoned' % sid, '%s: the expectation store stays poisoned' % w)
                        continue
                    sat = [inside(s, nm) for _, nm in els]
                    if k == 'abort':
                        R['C21'].ok(False, '%s.%s:abort' % (sid, act), '%s: discarding expectations aborts the process' % w)
                        continue
                    if k == 'ret':
                        good = all(x is True for x in sat)
                        key = '%s.%s:unmet-not-reported' % (sid, act)
                        det = '%s: discards an expectation whose count may be outside its bounds without a panic' % w
                    else:
                        good = any(x is False for x in sat)
                        key = '%s.%s:met-reported' % (sid, act)
                        det = '%s: panics (%s) although every count may be within its bounds' % (w, text(s.payload))
                    if not good and s.lossy:
                        R['C04'].undecided('imprecise')
                    else:
                        R['C04'].ok(good, key, det, '%s.%s with %d expectation(s): %s; bounds decided' % (sid, act, size, outcome_text(k, v, s)))
                        if act == 'ck' and S.s.kind == 'inst':
                            R['C07'].ok(good, key, det)
                        if S.s.kind == 'static':
                            R['C08'].ok(good, key, det)
                    if S.s.kind == 'static' or act == 'ck':
                        p = 'C08' if S.s.kind == 'static' else 'C07'
                        R[p].ok(gone(I, s, B, els), '%s.%s:not-cleared' % (sid, act), '%s: expectations survive (%s)' % (w, outcome_text(k, v, s)),
                                '%s.%s with %d expectation(s): list empty afterwards' % (sid, act, size))
                        if S.s.kind == 'static':
                            R['C22'].ok(not static_poison(I, S, s), '%s.%s:poisons-static' % (sid, act),
                                        '%s: the verification failure is raised with the lock of the static function held' % w)
    # a list of any length is emptied
    acts = ('ck',) if S.s.kind == 'inst' else ('ck', 'drop')
    for act in acts:
        for pan in ((0, 1) if act == 'drop' else (0,)):
            st, n = B.anylist()
            st.pan = pan
            p = 'C07' if S.s.kind == 'inst' else 'C08'
            for k, v, s in S.run(act, [st.heap[B.m[1]] if act == 'drop' else B.m], st):
                if k == 'undec':
                    R[p].undecided(v)
                    continue
                R[p].ok(empty_list(I, s, B) and 'partial-drain' not in s.flags, '%s.%s:not-cleared' % (sid, act),
                        '%s: some expectations survive' % where(S, 'ck'))


def empty_list(I, s, B):
    try:
        lv = I.rd(s, *B.place)
    except (Undecided, KeyError):
        return True
    # the list may have been removed together with its container
    return not (isinstance(lv, tuple) and lv and lv[0] in ('vec', 'vecn') and (lv[0] == 'vecn' or lv[1])) or unreachable(I, s, B)


def unreachable(I, s, B):
    live = I.reach(s, [L(x) for x in s.roots] + [L(x) for x in s.heap if isinstance(x, tuple)])
    return B.place[0] not in live


def gone(I, s, B, els):
    live = I.reach(s, [L(x) for x in s.roots] + [L(x) for x in s.heap if isinstance(x, tuple)])
    return not any(e in live for e, _ in els)


def inside(st, nm):
    """count within bounds: True / False / None"""
    c, lo, hi = nm['c'], nm['lo'], nm['hi']
    if st.entails_le(lo, c) and st.entails_le(c, hi, -1):
        return True
    if st.entails_le(c, lo, -1) or st.entails_le(hi, c):
        return False
    return None
