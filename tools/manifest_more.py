MODEL = 'Explored histories only; oracle: the executable reference model of sim/refmodel.py. '
MORE = {
 'C05': ('seeded histories of model operations (declare, assign, extend, run, release, group runs, pre-evaluation, tree edits) against an executable reference model',
         MODEL + 'Parallel schedules are the subject of C01.'),
 'C07': ('seeded interleavings of operations on a model and on copies and subsets taken at drawn points, each judged by its own reference model',
         MODEL),
 'C10': ('seeded histories with refused edits injected at drawn points; the reference never sees them',
         MODEL),
 'C11': ('seeded histories of pre-evaluated groups, copies, subsets, assignments and runs against the reference that evaluates all expressions',
         MODEL),
 'C20': ('seeded histories of unit changes, tree edits, (mis)assignments, releases and run attempts against a reference of readiness',
         MODEL),
 'C06': ('faults (interrupts at every interruptible point of the package, engine failures before, during and after evaluated blocks, failing loggers, bad expressions and arguments) injected into runs, pre-evaluations and partial-utility operations after seeded histories; oracle: candidate states not-started/completed and bit-equality of the retry with a twin where nothing failed',
         'Explored histories and fault points only; nothing is interrupted inside a compiled kernel.'),
 'C17': ('seeded histories run unobserved and under recording, standard and failing loggers and traced units, with failures injected at drawn expressions; oracle: bit-equality of results and the reference evaluation steps',
         MODEL),

 'C08': ('caller threads that each edit and run their own models, copies and subsets, share tables, or read and derive from shared linked frames, under a seeded baton scheduler that preempts them at drawn interruptible points of the package, one of them interrupted in some runs; oracle: the reference of each thread as if it were alone, and brute-force key matching',
         'Explored schedules only; no preemption inside kernels, numexpr, pandas or numpy, which release nothing of the package. '),
 'C12': ('seeded histories of derivations, in-place changes, refreshes, re-links and lookups on generated tables with links of every key structure; every frame has a plain pandas twin, and every lookup is compared with brute-force key matching',
         'Explored histories only; oracle: brute-force matching of key values on plain copies of the tables. ' + 'Row operations of pandas themselves are trusted.'),
 'C13': ('seeded histories on tables with one-to-many links (missing, partially missing, unknown, repeated keys); every aggregation is compared with the statistic of the rows selected by brute force',
         'Explored histories only; oracle: brute-force matching of key values on plain copies of the tables. '),
 'C14': ('interrupts, failing allocations and engine failures at drawn (and at swept successive) points of linking, first use, computation in advance and refreshes, retries, and first uses raced by simulated threads under a seeded scheduler; oracle: brute-force key matching, and old-or-new-as-a-whole between a failed refresh and its retry',
         'Explored histories only; oracle: brute-force matching of key values on plain copies of the tables. '),
 'C15': ('seeded histories of reading operations on frames and models, half of them interrupted or failing at drawn points; oracle: fingerprints of every caller-owned object after every operation',
         'Explored histories, memory layouts and fault points only.'),
 'C16': ('seeded histories of fill settings and temporary blocks left normally, by errors, by interrupts at drawn points and by refused names; oracle: a reference of the settings in force',
         'Explored histories only; oracle: brute-force matching of key values on plain copies of the tables. '),
 'C18': ('tables read and written through simulated streams, disk and clipboard delivering drawn pieces, with errors at drawn calls, full disks, torn writes, truncated and malformed input and interrupts; oracle: pandas on the plain data through the same stream, and fingerprints, lookups and a second writing after each failure',
         'Explored streams and faults only; pandas on plain data is trusted.'),
 'C19': ('the version module and the package executed again under a simulated version-control system behind subprocess.Popen (drawn repository state, an outcome drawn per command, bounded pipes); oracle: the version the repository state describes or the placeholder',
         'Explored combinations of outcomes only; where output is malformed yet plausible only the absence of failures is judged.'),
 'C23': ('seeded histories of assignments, runs, pre-evaluations, copies, unit and tree changes with faults at drawn points, garbage collected under control of the simulator; oracle: weak references to all assigned data against the data that the reference models hold',
         'Explored histories and fault points only; data counts as kept if it survives a full garbage collection.'),
 'C24': ('seeded histories of derivations, value edits, refreshes, refused, failing and interrupted evaluations of expressions over linked frames, divided into blocks in drawn order, some by several simulated caller threads; oracle: plain arithmetic on the operands of each row, found by brute force',
         'Explored histories, schedules and fault points only; row operations of pandas are trusted.'),
 'C25': ('seeded histories of construction, declarations, assignments, expressions, copies, pre-evaluations, refused edits and interrupted runs, with (interrupted, concurrent) questions at drawn points; oracle: the reference model of the same history',
         MODEL),
 'C26': ('seeded histories of links, derivations, in-place operations, refused links, interrupted first uses and computations, with (interrupted, concurrent) questions at drawn points; oracle: the links declared and used, and use of whatever is offered',
         'Explored histories, schedules and fault points only; the wording of keys in the summary is not judged.'),
 'C27': ('seeded histories on models and linked frames with drawn, changing settings of the process (NumPy, pandas, warnings, generators, collection, environment, directory, engine threads) and injected failures; settings compared around every operation, equal runs and lookups under different settings compared bit by bit',
         'Explored settings, histories and fault points only; the settings listed in sim/props/c27.py, not every one that exists.'),
 'C28': ('seeded histories with crash and restart: models stored into simulated files (which may be full or cut short) at drawn points, the process dying with only complete files surviving, or going on next to what it restored; oracle: a reference per model, and bit-equality of original and restored',
         'Explored histories and crash points only; linked tables (which are pickled without their links) and files damaged otherwise than by being cut short are not part of it.'),
}
