"""C24: #[double]."""
import wits
import double
import concurrent.futures as cf

EXPL = ('Imports and aliases of every supported tree shape are expanded with and without cfg(test); the compiler decides which type or module '
        'each name denotes (type equality obligations), from where it is visible, which attributes hold for it, and that unsupported items are refused.')


def doubles(R, prop, tier):
    modes = [('t', ['--cfg', 'test'], False), ('n', [], False), ('ti', ['--cfg', 'test'], True), ('ni', [], True)]
    for name, args, ni in modes:
        ds, ws = double.good('t' in name)
        wits.run(R, prop, double.HEAD, ds, [] if ni else ws, 'c24' + name, nightly=ni, explain=EXPL, args=args, tag='test' if 't' in name else 'nontest')
        wits.run(R, prop, double.HEAD, {}, double.bad(), 'c24b' + name, nightly=ni, explain=EXPL, args=args, tag=('test' if 't' in name else 'nontest') + ('-nightly' if ni else ''))
        if not ni:
            ds, ws = double.product('t' in name)
            wits.run(R, prop, double.HEAD, ds, ws, 'c24x' + name, args=args, tag='test' if 't' in name else 'nontest', shards=2)
