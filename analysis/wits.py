"""Type-level witnesses: lines that must type-check against the generated code,
and lines that must be refused by the compiler with a given error."""
import re
import concurrent.futures as cf
import build


class W:
    def __init__(self, label, text, what, codes=(), msg='', needs=()):
        self.label = label      # construct examined
        self.text = text        # one line of items
        self.what = what        # what the line shows
        self.codes = tuple(codes)   # errors that must be reported; () = must type-check
        self.msg = msg
        self.needs = tuple(needs)


def layout(head, decls, wits, drop=()):
    txt = head
    index = {}
    ln = txt.count('\n') + 1

    def put(s, who):
        nonlocal txt, ln
        s = s.rstrip('\n') + '\n'
        for i in range(s.count('\n')):
            index[ln + i] = who
        ln += s.count('\n')
        txt += s
    for k, t in decls.items():
        if k not in drop:
            put(t, ('d', k))
    for w in wits:
        if not any(n in drop for n in w.needs):
            put(w.text.replace('\n', ' '), ('w', w))
    return txt, index


def errors(head, decls, wits, name, tc, nightly, args=()):
    """(failing declarations, {witness label: [(code, msg)]}, warnings by owner)"""
    drop = {}
    for _ in range(8):
        txt, index = layout(head, decls, wits, drop)
        ok, dg = build.check(txt, name, tc, nightly, args=args)
        got, new, warn = {}, {}, {}
        lost = []
        for l, c, ln, m in dg:
            who = index.get(ln)
            if l == 'warning':
                if who:
                    warn.setdefault(who[1] if who[0] == 'd' else who[1].label, []).append((c, m))
                continue
            if who is None:
                if ln is not None or not m.startswith('aborting'):
                    lost.append((c, m))
            elif who[0] == 'd':
                new.setdefault(who[1], []).append((c, m))
            else:
                got.setdefault(who[1].label, []).append((c, m))
        if not new:
            if lost and not got:
                raise build.BuildError('witnesses: %s' % (lost[:2],))
            return drop, got, warn
        drop.update(new)
    return drop, got, warn


def refusals(head, decls, wits, *a):
    """like errors, but repeated without the lines already refused, so that an
    early error does not hide those of later compiler phases"""
    drop, got, warn = {}, {}, {}
    left = list(wits)
    for _ in range(20):
        d, g, w = errors(head, decls, left, *a)
        drop.update(d)
        got.update(g)
        for k, v in w.items():
            warn.setdefault(k, v)
        if not g:
            break
        left = [x for x in left if x.label not in g]
        if not left:
            break
    else:
        for x in left:       # the compiler never got to these
            got.setdefault(x.label, [('?', 'not reached')])
    return drop, got, warn


def shard(decls, wits, n):
    """split into n groups; witnesses stay with the declarations they need"""
    of = {k: i % n for i, k in enumerate(decls)}
    ds = [{k: t for k, t in decls.items() if of[k] == i} for i in range(n)]
    ws = [[] for _ in range(n)]
    for j, w in enumerate(wits):
        ws[of[w.needs[0]] if w.needs else j % n].append(w)
    return [(d, w) for d, w in zip(ds, ws) if d or w]


def run(R, prop, head, decls, wits, name, tc=build.TC, nightly=False, explain='', args=(), tag='', shards=1):
    tag = tag and tag + ':'
    r = R[prop]
    pos = [w for w in wits if not w.codes]
    neg = [w for w in wits if w.codes]
    build.base(tc, nightly)
    d1, e1, d2, e2 = {}, {}, {}, {}
    with cf.ThreadPoolExecutor(8) as ex:
        a = [ex.submit(errors, head, d, w, '%s-p%d' % (name, i), tc, nightly, args) for i, (d, w) in enumerate(shard(decls, pos, shards))]
        needed = {k for w in neg for k in w.needs} or set(decls)
        dn = {k: t for k, t in decls.items() if k in needed}
        b = [ex.submit(refusals, head, d, w, '%s-n%d' % (name, i), tc, nightly, args) for i, (d, w) in enumerate(shard(dn, neg, shards)) if w]
        for f in a:
            d, e, _ = f.result()
            d1.update(d)
            e1.update(e)
        for f in b:
            d, e, _ = f.result()
            d2.update(d)
            e2.update(e)
    for k in decls:
        r.count('declarations')
        r.ok(k not in d1, '%s%s:compile' % (tag, k), 'declaration %s does not compile: %s' % (k, d1.get(k, [''])[0]))
    for w in pos:
        if any(n in d1 for n in w.needs):
            continue
        e = e1.get(w.label)
        r.count('accepted witnesses')
        r.ok(not e, tag + w.label, '%s: refused: %s' % (w.what, '%s %s' % e[0] if e else ''), '%s: type-checks' % w.what)
    for w in neg:
        if any(n in d2 for n in w.needs):
            continue
        e = e2.get(w.label, [])
        r.count('refused witnesses')
        good = [x for x in e if (x[0] in w.codes or '*' in w.codes and x[0] != '?') and re.search(w.msg, x[1])]
        if e and not good:
            r.undecided('%s%s: refused for another reason: %s %s' % (tag, w.label, e[0][0], e[0][1]))
            continue
        r.ok(bool(good), tag + w.label, '%s: the compiler accepts it' % w.what, '%s: refused (%s)' % (w.what, good[0][0] if good else ''))
    if explain:
        r.explanation = explain
