import send, wits


def sendness(R, prop, tier):
    wits.run(R, prop, send.HEAD, send.decls(), send.witnesses(), 'c14',
             explain='The compiler decides auto-trait obligations on the generated types: every mock must be Send (and Sync), the ordinary setters must '
             'refuse functions, predicates and values that are not Send with E0277, and the _st setters must accept them.')
    ds, ws = send.more()
    wits.run(R, prop, send.HEAD, ds, ws, 'c14m')
