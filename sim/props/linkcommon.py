REAL = 'cheval.ldf, cheval.parsing, pandas, numpy, numexpr engine (one real thread)'
STUBS = 'numexpr thread pool; numba compilation (the linked frames do not use it)'
STATE_MEASURE = ('distinct abstract frame states at lookups: (rows bucket, links with kind, where their keys are, deferred?, '
                 'keys present?, relabelled?, duplicate rows?)')
ASSUMPTIONS = ['missing keys in the unique side of a link, and key edits without a refresh, are not judged',
               'row operations of pandas are trusted (the plain twin of each frame)']


def note_state(R, fs):
    R.state(min(fs.n, 3), fs.twin.index.is_unique, fs.twin.index.nlevels,
            tuple(sorted((fs.links[k].many, fs.links[k].self_spec[0], len(fs.links[k].self_spec[1] or ()), fs.links[k].other_spec[0],
                          k in fs.deferred, k in fs.must, k in fs.relabelled, fs.links[k].other.ldf,
                          None in fs.keys[k], len(set(fs.keys[k])) < len(fs.keys[k])) for k in fs.keys)))
