"""C20: declarations outside what the macros support are refused."""
import wits
import reject
from wits import W

EXPL = ('Every declaration of a table of unsupported shapes is expanded, with and without the nightly feature; the compiler must report an error '
        'for each of them, whether from the macro itself or from type-checking what it generated.')


def rejects(R, prop, tier):
    ws = [W(l, 'pub mod n%d { use super::*; %s }' % (n, t), t, ('*',)) for n, (l, t) in enumerate(reject.REJ)]
    for ni in (False, True):
        wits.run(R, prop, reject.HEAD, {}, ws, 'c20%d' % ni, nightly=ni, explain=EXPL, tag='nightly' if ni else 'plain')
