"""C29: owned return values of reference-returning methods."""
import owned
import wits


def owneds(R, prop, tier):
    ds, ws = owned.tables()
    wits.run(R, prop, owned.HEAD, ds, ws, 'c29', shards=8,
             explain='The compiler decides which types the setters of reference-returning methods accept and how long the lent references live, for every supported '
             'referent; the returned reference is traced by abstract interpretation to the storage of the expectation that served the call.')
