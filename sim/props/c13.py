"""C13: aggregations cover exactly each row's own matches."""
from .. import lm
from .linkcommon import ASSUMPTIONS, REAL, STATE_MEASURE, STUBS, note_state  # noqa

WORLDS = {'nojit': 8}
RUNS = {'quick': {'nojit': 7500}, 'thorough': {'nojit': 300000}}
RULE = ('Each run draws tables with one-to-many links (missing, partially missing, unknown and repeated keys), a history of '
        'derivations, in-place changes, refreshes, lookups, and aggregations of columns and expressions; each is compared with '
        'the statistic of the rows selected by brute force.')


def run(R):
    src = R.src
    mc = lm.LinkMachine(R, one=src.chance(1, 2), max_rows=src.pick([6, 11, 11]))
    mc.live = [fs for fs in mc.live if any(l.many for p in mc.paths(fs) for _, l in p)]
    for k in range(src.rint(2, 9)):
        if not mc.live:
            break
        fs = src.pick(mc.live)
        what = src.weighted([(7, 'agg'), (3, 'derive'), (1, 'look'), (1, 'inplace'), (1, 'recompute'), (1, 'relink'), (1, 'target'), (2, 'values'), (1, 'eval')])
        if what == 'agg':
            note_state(R, fs)
            for _ in range(3):
                mc.check_agg(fs)
        elif what == 'derive':
            ns = mc.derive(fs)
            if ns is not None:
                mc.live.append(ns)
                mc.check_agg(ns)
        elif what == 'look':
            mc.check_lookup(fs)
        elif what == 'eval':
            mc.check_eval(fs)
        elif what == 'inplace':
            mc.inplace(fs)
        elif what == 'recompute':
            mc.recompute(fs)
        elif what == 'relink':
            mc.relink(fs)
        elif what == 'values':
            # the same aggregations before and after
            paths = [p for p in mc.paths(fs) if p[-1][1].many]
            if paths:
                path = src.pick(paths)
                draw = src.rint(0, 2 ** 20)
                mc.check_agg(fs, path, mc.draw_agg_again(fs, path, draw))
                for _ in range(src.rint(1, 3)):
                    mc.edit_values()
                mc.check_agg(fs, path, mc.draw_agg_again(fs, path, draw))
        else:
            mc.edit_target()
    for fs in mc.live:
        note_state(R, fs)
        mc.check_all(fs)
    mc.check_tables()
    R.nontrivial = True
