"""Writes MANIFEST.json from the tables below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of generated-code MIR (symbolic heap, difference-bound zones, list summaries)'
AN = ('Static; holds for every list length, count, bound and predicate outcome on each declaration shape of the corpus. '
      'Trusts the models of std/downcast/fragile/predicates and that the shapes represent user declarations.')
CLAIMED = {p: (AI, AN) for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C21', 'C22', 'C23', 'C26')}
CMP = 'rule-based comparison of resolved signatures, bounds and visibilities in the type-checked program (rustc driver over HIR/ty)'
WIT = 'type-level witnesses: obligations the compiler must accept and compile-fail witnesses it must refuse'
WN = ('Static; the compiler decides each obligation on the expansion of a table of declarations. Trusts rustc and that the table '
      'represents user declarations.')
for p in ('C15', 'C16', 'C19'):
    CLAIMED[p] = (CMP, WN)
for p in ('C14', 'C20', 'C24'):
    CLAIMED[p] = (WIT, WN)
CLAIMED['C27'] = (AI + '; the generated item set compared by the driver with the declared module', AN)
CLAIMED['C17'] = (CMP, WN)
CLAIMED['C30'] = ('comparison of the compiler\'s diagnostics for each declaration with and without its mock', WN)
CLAIMED['C28'] = (AI + '; constructors and implementations resolved by the compiler', AN)
CLAIMED['C29'] = (AI + '; ' + WIT, AN)
CLAIMED['C18'] = ('taint analysis over the MIR of the macro crates (ambient reads and hash iteration order against emitted tokens)',
                  'Static; every function of the macro crates, in both feature settings. Trusts the list of ambient and '
                  'order-dependent library functions and that syn, quote and proc-macro2 are deterministic.')
CLAIMED['C25'] = ('query over the type-checked program (rustc driver over HIR): unsafe blocks, functions, implementations, statics', WN)
CLAIMED['C32'] = (AI + ', thread-modular: rely/guarantee on the shared counters', AN + ' Memory accesses are taken as sequentially consistent per counter.')
CLAIMED['C34'] = (WIT, WN)
NA = {
 'C31': 'the outcome of user-supplied predicates and of the predicates crate (an external dependency, not in this repository) is a matter of '
        'runtime values: floats, strings, files, regular expressions. That mockall offers the functions of that crate is decided under C34, and how the mock combines outcomes under C12',
 'C33': 'a bound on expansion and compilation time is a quantity of the run, not of the source; no static argument in reach bounds it',
}
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo: every check analyses the unmodified sources.'}
for p in props:
    if p in CLAIMED:
        t, n = CLAIMED[p]
        m['checks'].append({'property': p, 'quick_cmd': 'bin/check %s' % p, 'thorough_cmd': 'VERIF_TIER=thorough bin/check %s' % p,
                            'technique': t, 'level': 'other', 'level_note': n})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'check not built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
