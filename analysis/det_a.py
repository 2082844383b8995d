"""C18: macro expansion depends on nothing but its input.

Taint analysis over the MIR of the macro crates.  Sources are reads of ambient
state (environment, clock, files, threads, processes, network, positions,
addresses, mutable statics, randomly keyed hashers) and iterations over
randomly keyed collections; no source may reach what a macro returns, explicitly
or through a branch (what a branch prints does not count)."""
import re
import build

AMBIENT = [
    ('environment', r'^std::env::(?!.*split_paths)|tracked_env|^<std::env::'),
    ('file system', r'^std::fs::|^<std::fs::|tracked_path|^std::path::.*|^<std::path::Path>::(exists|is_file|is_dir|metadata|canonicalize|read_dir|try_exists)'),
    ('clock', r'^<?std::time::(Instant|SystemTime)|^std::time::'),
    ('thread', r'^std::thread::|^<std::thread::'),
    ('process', r'^std::process::|^<std::process::'),
    ('network', r'^std::net::|^<std::net::'),
    ('standard input', r'stdio::stdin|^<std::io::stdio::Stdin'),
    ('random hash keys', r'^<std::hash::random::RandomState>::new'),
    ('source position', r'^<proc_macro2?::(\w+::)*Span>::(start|end|source_text|source_file|local_file|file|line|column|byte_range|source|parent|debug)$'),
    ('source position', r'Location<.*>>::(caller|line|file|column)'),
    ('type identity', r'^<core::any::TypeId>::of|^core::any::type_id'),
    ('address', r'^<core::fmt::rt::Argument<.*>>::new_pointer|^<\*(const|mut) T>::(addr|expose_provenance)|^core::ptr::(hash|addr_eq|addr_of_val)'),
]
MAPS = r'std::collections::hash::(map::HashMap|set::HashSet)|hash_map::HashMap|hash_set::HashSet'
ITERATES = set('iter iter_mut keys values values_mut into_keys into_values drain retain extract_if into_iter union intersection difference symmetric_difference'.split())
ADAPT = set('map filter filter_map cloned copied enumerate chain zip rev skip take flat_map flatten inspect peekable fuse by_ref into_iter skip_while take_while map_while scan step_by'.split())
INSENS = set('any all count sum product min max len is_empty is_subset is_superset is_disjoint size_hint'.split())
SETS = re.compile(r'(HashMap|HashSet|BTreeMap|BTreeSet|BinaryHeap)')


def last(f):
    return f.rsplit('::', 1)[-1]


class Fn:
    def __init__(self, j):
        self.__dict__.update(j)
        self.clos = {}          # local -> closure or function it holds
        self.mutof = {}         # local -> base of the place it mutably borrows
        for b in self.blocks:
            for s in b['s']:
                if s[2].startswith('closure '):
                    self.clos.setdefault(s[0], set()).add(s[2][8:])
                elif len(s[3]) == 1 and s[3][0] in self.clos:
                    self.clos.setdefault(s[0], set()).update(self.clos[s[3][0]])
                if s[2] in ('refmut', 'raw Mut') or s[2].startswith('closure'):
                    self.mutof.setdefault(s[0], set()).update(s[3])
                elif len(s[3]) == 1 and s[3][0] in self.mutof and self.locals[s[0]].startswith('&mut'):
                    self.mutof.setdefault(s[0], set()).update(self.mutof[s[3][0]])
            t = b['t']
            if t['k'] == 'call' and self.locals[t['d'][0]].startswith('&mut'):
                for a in t['al']:
                    if a >= 0 and self.locals[a].startswith('&mut'):
                        self.mutof.setdefault(t['d'][0], set()).update({a} | self.mutof.get(a, set()))

    def region(self, i):
        """blocks that run only for some outcomes of the branch ending block i"""
        pd = self.postdom()
        stop = pd[i] - {i}
        # nearest common postdominator: the one all others postdominate
        seen, todo = set(), list(self.blocks[i]['t']['to'])
        while todo:
            x = todo.pop()
            if x in seen or x in stop:
                continue
            seen.add(x)
            todo += self.blocks[x]['t']['to']
        return seen

    def postdom(self):
        if hasattr(self, '_pd'):
            return self._pd
        n = len(self.blocks)
        live = [i for i in range(n) if not self.blocks[i]['c']]
        pd = {i: set(live) for i in live}
        for i in live:
            if not self.blocks[i]['t']['to']:
                pd[i] = {i}
        ch = True
        while ch:
            ch = False
            for i in reversed(live):
                to = [x for x in self.blocks[i]['t']['to'] if x in pd]
                # paths that panic do not count for joining
                to = [x for x in to if not self.panics(x)] or to
                if to:
                    new = set.intersection(*[pd[x] for x in to]) | {i}
                    if new != pd[i]:
                        pd[i] = new
                        ch = True
        self._pd = pd
        return pd

    def panics(self, i):
        k = getattr(self, '_pn', None)
        if k is None:
            self._pn = k = {}
            n = len(self.blocks)
            ok = {j for j in range(n) if self.blocks[j]['t']['k'] == 'return'}
            ch = True
            while ch:
                ch = False
                for j in range(n):
                    if j not in ok and any(x in ok for x in self.blocks[j]['t']['to']):
                        ok.add(j)
                        ch = True
            for j in range(n):
                k[j] = j not in ok
        return k[i]


def source_of(t, statics):
    """kind of ambient state a call reads, or None"""
    f = t['fn']
    for kind, rx in AMBIENT:
        if re.search(rx, f):
            return kind
    if last(f) in ('build_hasher', 'hash_one') and any('RandomState' in g for g in t['g']):
        return 'random hash keys'
    if last(f) in ('new_debug', 'fmt') and any('RandomState' in g and re.search(MAPS, g) for g in t['g'] + t['at']):
        return 'hash order'
    if last(f) == 'new_debug' and any(re.search(r'proc_macro2?::|syn::', g) for g in t['g']):
        return 'source position'
    return None


def order_source(t):
    f = t['fn']
    if any('RandomState' in g for g in t['g']) and last(f) in ITERATES and (re.search(MAPS, f) or any(re.search(MAPS, g) for g in t['g'][:1])):
        return True
    for x in t['it']:
        k, ty = x.split(' ', 1)
        if k in ('IntoIterator', 'Iterator') and re.match(r'(&(\'\w+ )?(mut )?)?(%s)' % MAPS, ty) and 'RandomState' in ty:
            return True
    return False


class Taint:
    """one analysis ('ambient' or 'order') over all bodies"""

    def __init__(self, fns, statics, order):
        self.fns = fns
        self.order = order
        self.statics = statics
        self.ret = {}       # path -> origins of tainted results
        self.par = {}       # path -> {parameter: origins}
        self.into = {}      # path -> {parameter: origins}: tainted arguments received
        self.aborts = {}
        self.impls = {}     # type -> its trait methods
        for f in fns.values():
            m = re.match(r'[&\w\' ]*?crate::([\w:]+)', getattr(f, 'impl', ''))
            if m:
                self.impls.setdefault(m.group(1), []).append(f.path)
        self.dirty = False
        ch = True
        self.sources = set()
        while ch:
            ch = False
            for f in fns.values():
                if self.one(f):
                    ch = True

    def enter(self, path, p, o):
        """taint of a parameter"""
        o = o or frozenset()
        d = self.into.setdefault(path, {}).setdefault(p, set())
        if not o <= d:
            d |= o
            self.dirty = True
        return frozenset(self.ret.get(path, ()))

    def one(self, f):
        T = {}      # local -> origins

        def add(l, o):
            old = T.get(l, frozenset())
            new = old | o
            if new != old:
                T[l] = new
                for b in f.mutof.get(l, ()):
                    add(b, o)
                return True
            return False

        def of(ls):
            s = frozenset()
            for l in ls:
                s |= T.get(l, frozenset())
            return s
        for p, o in self.into.get(f.path, {}).items():
            if p <= f.args:
                T[p] = frozenset(o)
        abort = set()
        implicit = {}
        ch = True
        while ch:
            ch = False
            for i, b in enumerate(f.blocks):
                if b['c']:
                    continue
                imp = implicit.get(i, frozenset())
                for s in b['s']:
                    o = of(s[3]) | imp
                    if not self.order:
                        for st in s[5]:
                            if st in self.statics:
                                self.sources.add(s[6])
                                o |= {('mutable static', st, s[6])}
                        if s[2].startswith('cast PointerExpose'):
                            self.sources.add(s[6])
                            o |= {('address', 'cast', s[6])}
                    if s[2].startswith('closure '):
                        o |= self.enter(s[2][8:], 1, of(s[3]))
                        po = self.par.get(s[2][8:], {}).get(1)
                        if po:
                            o |= frozenset(po)
                    for g in s[4]:
                        o |= frozenset(self.ret.get(g, ()))
                    if o and s[2] == 'refmut' and not of(s[3]):
                        continue    # borrowing under a branch changes nothing yet
                    if o:
                        ch |= add(s[0], o)
                t = b['t']
                if t['k'] == 'call':
                    o = of(t['u'][0]) | imp
                    if self.order:
                        if order_source(t):
                            self.sources.add(t['loc'])
                            o |= {('hash order', last(t['fn']), t['loc'])}
                    else:
                        k = source_of(t, self.statics)
                        if k:
                            self.sources.add(t['loc'])
                            o |= {(k, t['fn'], t['loc'])}
                        for st in t['u'][2]:
                            if st in self.statics:
                                self.sources.add(t['loc'])
                                o |= {('mutable static', st, t['loc'])}
                    callee = self.fns.get(t['res'])
                    if callee is None:
                        for g in t['u'][1]:
                            o |= frozenset(self.ret.get(g, ()))
                        for a in t['al']:
                            for c in f.clos.get(a, ()):
                                cf = self.fns.get(c)
                                for q in range(2, cf.args + 1 if cf else 2):
                                    self.enter(c, q, of([x for x in t['u'][0] if x != a]))
                    elif '{Closure' in callee.path or callee.path in f.clos.get(t['al'][0] if t['al'] else -1, ()):
                        # called through Fn* with a tuple of arguments
                        for q in range(1, callee.args + 1):
                            self.enter(callee.path, q, o)
                    if callee is None:
                        # the project's own implementations it may call back
                        for ty in set(re.findall(r'crate::([\w:]+)', ' '.join(t['g'] + t['at']))):
                            for m in self.impls.get(ty, ()):
                                o |= frozenset(self.ret.get(m, ()))
                                for po in self.par.get(m, {}).values():
                                    o |= frozenset(po)
                    if imp and not t['to'] and not self.order:
                        abort |= imp
                    # closures handed over run with or without the tainted value
                    if callee is not None:
                        for j, a in enumerate(t['al']):
                            if a >= 0 and T.get(a):
                                d = self.into.setdefault(callee.path, {}).setdefault(j + 1, set())
                                if not T[a] <= d:
                                    d |= T[a]
                                    self.dirty = True
                        o2 = frozenset(self.ret.get(callee.path, ())) | imp
                        if o - of(t['u'][0]) - imp:
                            o2 |= o - of(t['u'][0])
                        if o2:
                            ch |= add(t['d'][0], o2)
                        for j, po in self.par.get(callee.path, {}).items():
                            if j - 1 < len(t['al']) and t['al'][j - 1] >= 0:
                                ch |= add(t['al'][j - 1], frozenset(po))
                        continue
                    if not o:
                        continue
                    n = last(t['fn'])
                    if self.order:
                        if n in INSENS or (n in ('insert', 'remove', 'contains', 'contains_key', 'get', 'entry') and SETS.search(t['fn'] + ' '.join(t['at'][:1]))):
                            continue
                        dty = f.locals[t['d'][0]]
                        if n in ('collect', 'from_iter') and SETS.match(re.sub(r'^[\w:]*::', '', dty)):
                            continue
                        if n == 'extend' and t['at'] and SETS.search(t['at'][0]):
                            continue
                        if n.startswith('sort'):
                            continue
                    ch |= add(t['d'][0], o)
                    for j, a in enumerate(t['al']):
                        if a >= 0 and t['at'][j].startswith('&mut'):
                            # iterating does not change what is iterated
                            if self.order and n in ('next', 'by_ref'):
                                continue
                            ch |= add(a, o)
                elif t['k'] == 'switch' and not self.order:
                    o = of(t['u'][0]) | imp
                    if o:
                        for x in f.region(i):
                            old = implicit.get(x, frozenset())
                            if not o <= old:
                                implicit[x] = old | o
                                ch = True
                elif t['k'] == 'assert' and imp:
                    pass
        if self.order:
            # sorted afterwards: undecided, so quiet
            for b in f.blocks:
                t = b['t']
                if t['k'] == 'call' and last(t['fn']).startswith('sort'):
                    return False
        out = False
        r = T.get(0, frozenset())
        if not r <= set(self.ret.get(f.path, ())):
            self.ret[f.path] = set(r) | set(self.ret.get(f.path, ()))
            out = True
        for p in range(1, f.args + 1):
            if f.locals[p].startswith('&mut') and T.get(p):
                got = T[p] - frozenset(self.into.get(f.path, {}).get(p, ()))
                d = self.par.setdefault(f.path, {}).setdefault(p, set())
                if not got <= d:
                    d |= got
                    out = True
        if abort - set(self.aborts.get(f.path, ())):
            self.aborts[f.path] = abort | set(self.aborts.get(f.path, ()))
            out = True
        if getattr(self, 'dirty', False):
            self.dirty = False
            out = True
        return out


def determinism(R, prop, tier):
    r = R[prop]
    r.explanation = ('Taint analysis over the compiler IR of every function of the macro crates: from each read of ambient state and each iteration over a '
                     'randomly keyed collection, explicit and implicit flows are followed through calls; none may reach what a macro returns.')
    r.assumptions = ['syn, quote, proc-macro2 and cfg-if are deterministic', 'method calls through type parameters of the macro crates stay within analysed bodies or std']
    for crate, ni in (('mockall_derive', False), ('mockall_double', False), ('mockall_derive', True), ('mockall_double', True)):
        L = build.crate(crate, 'det', ni)
        fns = {}
        statics = {}
        for j in L:
            if 'static' in j:
                r.count('statics')
                if j['mut'] or (not j['freeze'] and not re.match(r'std::sync::(\w+::)*LazyLock<', j['type'])):
                    statics[j['static']] = j
                continue
            fns[j['path']] = Fn(j)
        roots = [f for f in fns.values() if f.export and f.path.count('::') == 1]
        if not roots:
            r.undecided('no macro found in ' + crate)
        r.count('functions', len(fns))
        r.count('macros', len(roots))
        r.count('calls', sum(1 for f in fns.values() for b in f.blocks if b['t']['k'] == 'call'))
        for order in (False, True):
            T = Taint(fns, statics, order)
            what = 'hash iterations' if order else 'ambient reads'
            r.count(what, len(T.sources))
            bad = {}
            for f in roots:
                for o in T.ret.get(f.path, ()):
                    bad.setdefault(o, set()).add(f.path)
            for f, os in T.aborts.items():
                for o in os:
                    bad.setdefault(o, set()).add(f + ' (aborts)')
            for f in roots:
                mine = [o for o, fs in bad.items() if f.path in fs]
                r.ok(not mine, '%s:%s:%s' % (crate, last(f.path), 'order' if order else 'ambient'),
                     'the output of %s depends on %s' % (f.path, '; '.join('%s read by %s at %s' % o for o in sorted(mine)[:3])),
                     '%s: no %s reaches the output' % (f.path, 'hash order' if order else 'ambient state'))
            for o, fs in sorted(bad.items()):
                ab = [x for x in fs if x.endswith('(aborts)')]
                if ab:
                    r.ok(False, '%s:%s:aborts' % (crate, o[1]), 'whether the expansion aborts depends on %s read by %s at %s' % o)
        for s in sorted(T.sources):
            r.ok(True, s)
        for f in fns.values():
            r.ok(True, f.path)
