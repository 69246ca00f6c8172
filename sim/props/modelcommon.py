REAL = 'cheval (kernels as Python functions), pandas, numpy, numexpr engine (one real thread)'
STUBS = 'numba compilation and threading layer (kernels interpreted in order), numexpr thread pool, process entropy'
STATE_MEASURE = ('distinct abstract model states at runs: (depth, nodes, units, expressions, groups, declared symbols with '
                 'their status, stored utilities?, precision) per model')
ASSUMPTIONS = ['utilities within the exponent range; expressions are drawn from the generator grammar of sim/refmodel.py']


def note_state(R, p):
    r = p.ref
    R.state(r.tree.depth, len(r.tree.nodes), 0 if r.units is None else len(r.units), len(r.ungrouped), len(r.groups),
            tuple(sorted((k, s.status) for k, s in r.scope.items())), r.partial is not None, r.precision)
