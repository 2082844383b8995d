"""C34: the predicates that mockall offers are those of the predicates crate."""
import build
import wits
from wits import W

HEAD = '''#![allow(dead_code, unused)]
// function items have distinct types: this is well-typed only for one function
fn same<F>(_: F, _: F) {}
'''
FNS = {'always': '', 'never': '', 'function': '::<fn(&u8) -> bool, u8>', 'in_hash': '::<Vec<u8>, u8>', 'in_iter': '::<Vec<u8>, u8>', 'eq': '::<u8>', 'ge': '::<u8>', 'gt': '::<u8>',
       'le': '::<u8>', 'lt': '::<u8>', 'ne': '::<u8>', 'str::is_empty': '', 'str::contains': '::<&str>', 'str::ends_with': '::<&str>', 'str::starts_with': '::<&str>',
       'path::eq_file': '::<&std::path::Path>', 'path::exists': '', 'path::missing': '', 'path::is_dir': '', 'path::is_file': '', 'path::is_symlink': ''}
TRAITS = {'Predicate': 'predicates::Predicate<u8>', 'PredicateBooleanExt': 'predicates::boolean::PredicateBooleanExt<u8>', 'PredicateBoxExt': 'predicates::prelude::PredicateBoxExt<u8>',
          'PredicateFileContentExt': 'predicates::prelude::PredicateFileContentExt', 'PredicateStrExt': 'predicates::prelude::PredicateStrExt'}


def reexports(R, prop, tier):
    r = R[prop]
    d, l, arts = build.base(build.TC, False)
    ws = []
    for f, g in FNS.items():
        ws.append(W('predicate::' + f, 'fn f%d() { same(mockall::predicate::%s%s, predicates::prelude::predicate::%s%s) }' % (len(ws), f, g, f, g),
                    'mockall::predicate::%s is the function of the predicates crate' % f))
    for t, o in TRAITS.items():
        m = 'mockall::%s%s' % (t, '<u8>' if o.endswith('<u8>') else '')
        for a, b, s in ((m, o, 'is'), (o, m, 'is all of')):
            ws.append(W('%s-%s' % (t, s.split()[-1]), 'mod t%d { fn has<T: %s>() {} fn f<T: predicates::Predicate<u8> + predicates::Predicate<str> + %s>() { has::<T>() } }' % (len(ws), b, a),
                        'mockall::%s %s the trait of the predicates crate' % (t, s)))
    for x in ('predicate', ) + tuple(TRAITS):
        ws.append(W(x + '-glob', 'mod g%d { use mockall::*; use self::%s as _x; }' % (len(ws), x), '%s is offered at the top of mockall' % x))
    tr = '--extern predicates=' + arts['predicates']
    wits.run(R, prop, HEAD, {}, ws, 'c34', args=tr.split(),
             explain='Every function item has a type of its own, so the compiler accepts same(a, b) only when both paths resolve to one function; a trait bound '
             'entails another for every type only when both paths resolve to one trait. Every predicate and trait that mockall offers is compared in this way with the predicates crate.')
