"""C12: lookups follow the keys through any derived frame."""
from .. import lm
from .linkcommon import ASSUMPTIONS, REAL, STATE_MEASURE, STUBS, note_state  # noqa

WORLDS = {'nojit': 8}
RUNS = {'quick': {'nojit': 7500}, 'thorough': {'nojit': 300000}}
RULE = ('Each run draws tables with keys of several kinds and links between them (precomputed or deferred), then a history of '
        'derivations, in-place changes, refreshes and lookups; every lookup is compared with brute-force key matching.')


def run(R):
    src = R.src
    mc = lm.LinkMachine(R, many=src.chance(1, 3))
    for k in range(src.rint(2, 12)):
        if not mc.live:
            break
        fs = src.pick(mc.live)
        what = src.weighted([(6, 'derive'), (4, 'look'), (2, 'inplace'), (1, 'recompute'), (1, 'relink'), (1, 'values'), (1, 'target'), (1, 'pivot')])
        if what == 'derive':
            ns = mc.derive(fs)
            if ns is not None:
                mc.live.append(ns)
                if len(mc.live) > 6:
                    mc.live.pop(src.draw(6))
                if src.chance(1, 2):
                    mc.check_some(ns, 2)
        elif what == 'look':
            note_state(R, fs)
            mc.check_some(fs, 3)
        elif what == 'inplace':
            if mc.inplace(fs) and src.chance(1, 2):
                mc.check_some(fs, 2)
        elif what == 'recompute':
            mc.recompute(fs)
        elif what == 'pivot':
            mc.check_pivot(fs)
        elif what == 'relink':
            mc.relink(fs)
        elif what == 'values':
            mc.edit_values()
            mc.check_some(fs, 2)
        else:
            mc.edit_target()
    for fs in mc.live:
        note_state(R, fs)
        mc.check_all(fs)
    mc.check_tables()
    R.nontrivial = True
