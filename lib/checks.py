"""The checks: harness, entries, bounds per tier."""
COMMON_ASSUMPTIONS = [
  'the code is compiled by clang 18 to LLVM IR at -O1-like simplification from the current tree; compiler correctness is trusted',
  'third-party libraries (protobuf, fmt, glog, gflags, iostreams) are replaced in the symbolic build by stubs under /verif/stubs with the documented behaviour; the native replay build uses the real ones',
  'a numeric input is an exact rational with a tracked rounding-error bound; comparisons closer than that bound are explored both ways',
]
W = dict(weakhash=1)
def w(**k): return dict(W, **k)
CHECKS = {
 'C01': dict(harness='c01.cc', stages=[
   dict(entry='c01_one', params=dict(n=3, nb=4), thorough=dict(n=5, nb=6), time=25, reach=['one']),
   dict(entry='c01_multi', params=dict(n1=2, n2=1), thorough=dict(n1=3, n2=2), time=15, reach=['multi']),
   dict(entry='c01_wide', params=dict(base=252), time=15, reach=['wide']),
   dict(entry='c01_counts', params=dict(k=4), thorough=dict(k=5), time=20, reach=['counts']),
   dict(entry='c01_auto', params=dict(extra=1), thorough=dict(extra=2), time=25, reach=['auto']),
   dict(entry='c01_wide', params=dict(base=65531, nb=70000, max_instr=1000000000), time=40, samples=3, reach=['wide'])]),
 'C02': dict(harness='c02.cc', stages=[
   dict(entry='c02_small', params=w(n=2, len=3), thorough=dict(n=2, len=4), time=15, reach=['small']),
   dict(entry='c02_small', params=w(n=4, len=1), thorough=dict(n=5, len=1), time=15, reach=['small']),
   dict(entry='c02_near', params=w(), time=10, reach=['near']),
   dict(entry='c02_long', params=w(), time=5, reach=['long']),
   dict(entry='c02_long', params=w(len=300, n=7), time=5, reach=['long']),
   dict(entry='c02_final', params=w(), time=10, reach=['final']),
   dict(entry='c02_wide', params=w(base=253), time=15, reach=['wide']),
   dict(entry='c02_wide', params=dict(weakhash=0, base=65533, max_instr=1000000000), time=25, samples=3, reach=['wide'])]),
 'C03': dict(harness='c03.cc', stages=[
   dict(entry='c03_text', params=w(len=4), thorough=dict(len=7), time=10, reach=['text_ok', 'text_short']),
   dict(entry='c03_cells', params=w(tokens=20, rows=2), time=25, reach=['cells_ok', 'cells_bad']),
   dict(entry='c03_ragged', params=w(), time=10, reach=['ragged_ok', 'ragged_bad']),
   dict(entry='c03_many', params=w(), time=18, reach=['many', 'many_bad']),
   dict(entry='c03_files', params=w(), thorough=dict(files=10), time=8, reach=['files', 'files_bad']),
   dict(entry='c03_setup', params=w(), time=15, reach=['setup_ok', 'setup_bad'])]),
 'C04': dict(harness='c04.cc', stages=[
   dict(entry='c04_history', params=w(steps=4), thorough=dict(steps=5), time=25, reach=['history']),
   dict(entry='c04_many', params=w(), time=5, reach=['many']),
   dict(entry='c04_raw', params=w(), time=15, reach=['raw'])]),
 'C05': dict(harness='c05.cc', stages=[
   dict(entry='c05_text', params=w(), time=15, reach=['text']),
   dict(entry='c05_floats', params=w(), time=15, reach=['floats']),
   dict(entry='c05_dirs', params=w(), time=15, reach=['dirs']),
   dict(entry='c05_names', params=w(), time=8, reach=['names']),
   dict(entry='c05_three', params=w(), time=15, reach=['three']),
   dict(entry='c05_many', params=w(), time=10, reach=['many numbers', 'many texts']),
   dict(entry='c05_threads', params=w(preempt=2), thorough=dict(preempt=4), time=20, reach=['threads'])]),
 'C06': dict(harness='c06.cc', stages=[
   dict(entry='c06_float', params=w(), time=15, reach=['float']),
   dict(entry='c06_bucket', params=w(), time=12, reach=['bucket', 'cut']),
   dict(entry='c06_many', params=w(), time=12, reach=['many categories', 'many values']),
   dict(entry='c06_wide', params=w(), time=8, reach=['wide categories', 'wide values']),
   dict(entry='c06_order', params=w(), time=15, reach=['order']),
   dict(entry='c06_string', params=w(), time=15, reach=['string']),
   dict(entry='c06_raw', params=w(), time=15, reach=['raw']),
   dict(entry='c06_mismatch', params=w(), time=15)]),
 'C07': dict(harness='c07.cc', stages=[
   dict(entry='c07_float', params=w(n=3, gmax=4, sorted=1), thorough=dict(n=4), time=10, reach=['found', 'none']),
   dict(entry='c07_float', params=w(n=2, gmax=2, weights=1, hs=4, lambdas=3, mhs=3, mgs=2), thorough=dict(n=3), time=15, reach=['found', 'none']),
   dict(entry='c07_float', params=w(n=3, gmax=2, weights=1, subset=1, hs=2), time=9, reach=['found']),
   dict(entry='c07_float', params=w(n=3, gmax=3, mgs=3, lambdas=1, mhs=1), thorough=dict(n=4), time=10, reach=['found', 'none']),
   dict(entry='c07_coarse', params=w(n=4, gmax=1, vals=6, lambdas=1, mhs=1), thorough=dict(gmax=3, vals=7), time=12, reach=['found', 'none', 'coarse']),
   dict(entry='c07_string', params=w(), thorough=dict(n=4), time=12, reach=['found']),
   dict(entry='c07_string', params=w(hs=2, gmax=3, mhs=1), thorough=dict(n=4), time=15, reach=['found']),
   dict(entry='c07_none', params=w(), time=10),
   dict(entry='c07_manys', params=w(gmax=8), thorough=dict(sym=3), time=8, reach=['many', 'found']),
   dict(entry='c07_manys', params=w(flat=0, sym=2), thorough=dict(sym=3), time=8, reach=['many', 'found']),
   dict(entry='c07_manys', params=w(flat=0, sym=1, n=40), time=5, reach=['many', 'found']),
   dict(entry='c07_manys', params=w(flat=0, sym=1, n=40, period=10), time=5, reach=['many', 'found']),
   dict(entry='c07_manyf', params=w(flat=0, sym=1, n=40, period=10), time=5, reach=['many', 'found']),
   dict(entry='c07_manyf', params=w(flat=0, sym=1, n=40), time=5, reach=['many', 'found']),
   dict(entry='c07_manyf', params=w(gmax=8), thorough=dict(sym=3), time=8, reach=['many', 'found']),
   dict(entry='c07_manyf', params=w(flat=0, sym=2), thorough=dict(sym=3), time=8, reach=['many', 'found']),
   dict(entry='c07_threshold', params=w(), time=40)]),
 'C08': dict(harness='c08.cc', stages=[
   dict(entry='c08_tree', params=w(strings=0), time=12, reach=['deep', 'two']),
   dict(entry='c08_tree', params=w(strings=0, symg=2, gmax=4, n=4, vfix=1), time=12),
   dict(entry='c08_tree', params=w(vals=1, cats=2, symg=2, gmax=3, leaves=3), time=25),
   dict(entry='c08_tree', params=w(strings=0, **{'lambda': 1}, min_hessian=1, weights=1, vals=2, gmax=3, threads=2), time=8),
   dict(entry='c08_tree', params=w(strings=0, **{'lambda': 1}, min_gain=1, vals=3, gmax=3, leaves=3), time=8),
   dict(entry='c08_wide', params=w(), thorough=dict(symg=2, gmax=5), time=8, reach=['wide', 'deep']),
   dict(entry='c08_wide', params=w(n=16, leaves=8, gmax=20), thorough=dict(leaves=12), time=8, reach=['wide', 'deep']),
   dict(entry='c08_wide', params=w(**{'lambda': 1}, weights=1, min_hessian=1, hs=1, threads=2, n=12, gmax=20), thorough=dict(symg=2, gmax=4), time=8, reach=['wide', 'deep']),
   dict(entry='c08_wide', params=w(ties=4, n=12, gmax=20), thorough=dict(symg=2, gmax=4), time=8, reach=['wide', 'deep']),
   dict(entry='c08_sampled', params=w(gfix=1, symg=1, strings=0, n=7, gmax=8, leaves=4, **{'lambda': 1}), thorough=dict(n=9, leaves=6), time=8, ttime=120, reach=['sampled', 'features']),
   dict(entry='c08_sampled', params=w(n=3, vals=2, fmin=0, weights=0), time=8, reach=['sampled', 'features'])]),
 'C09': dict(harness='c09.cc', stages=[
   dict(entry='c09_train', params=w(strings=0, leaves=2, base=0), time=8, reach=['train']),
   dict(entry='c09_train', params=w(strings=0, leaves=3, base=0, symg=1, trees=3, gmax=6), time=8, reach=['train']),
   dict(entry='c09_train', params=w(trees=1, leaves=3, shrinks=0), time=8, reach=['train', 'continued']),
   dict(entry='c09_train', params=w(symg=1, trees=2), time=12, reach=['train', 'continued']),
   dict(entry='c09_train', params=w(symg=1, strings=0, leaves=2, weights=1, **{'lambda': 1}, hs=2, threads=2, trees=1), time=8, reach=['train']),
   dict(entry='c09_train', params=w(one=1, trees=12, treesmin=12, n=12, base=0, symg=1, leaves=4, symb=0, shrinks=1, shmin=1), thorough=dict(trees=24, treesmin=24, n=16, shrinks=2), time=15, ttime=120, reach=['train']),
   dict(entry='c09_train', params=w(one=1, trees=14, treesmin=14, n=6, base=2, symg=1, leaves=3, symb=0, shrinks=1, shmin=1), thorough_only=True, ttime=90, reach=['continued']),
   dict(entry='c09_setup', params=w(), time=5, reach=['started', 'refused']),
   dict(entry='c09_train', params=w(diverge=1, symg=1, trees=3, strings=0), time=8, reach=['diverged'])]),
 'C10': dict(harness='c10.cc', stages=[
   dict(entry='c10_files', params=w(vary=0, trees=4, points=4), thorough=dict(trees=5, points=5), time=10, reach=['file']),
   dict(entry='c10_files', params=w(vary=0, trees=12, points=2), thorough=dict(points=4), time=10, reach=['file']),
   dict(entry='c10_eval', params=w(tmin=1, nmin=3, kinds=3, vary=0), time=20, reach=['eval', 'deep']),
   dict(entry='c10_eval', params=w(tmin=2, nmin=2, n=2, kinds=2, vary=0, depth2=2), thorough_only=True, ttime=200, reach=['deep']),
   dict(entry='c10_eval', params=w(tmin=2, trees=3, nmin=3, vary=0, kinds=2, depth=1), thorough=dict(trees=4), time=12, reach=['eval']),
   dict(entry='c10_eval', params=w(n=8, nmin=7, threads=4, kinds=3, depth2=0, trees=1, vary=0), thorough=dict(vary=1), time=12, reach=['eval']),
   dict(entry='c10_eval', params=w(n=8, nmin=7, threads=1, kinds=3, depth=1, depth2=0, trees=1), time=8, reach=['eval']),
   dict(entry='c10_eval', params=w(kinds=7, kinds2=7, depth=1), time=10, reach=['absent']),
   dict(entry='c10_eval', params=w(n=4, tmin=1, nmin=4, trees=1, depth=3, right=0, vary=0, kinds=3, threads=3), thorough=dict(depth=4), time=12, reach=['deep']),
   dict(entry='c10_eval', params=w(n=4, tmin=1, nmin=4, trees=1, depth=3, right=2, vary=0, kinds=3, threads=3), thorough=dict(depth=4), time=12, ttime=90, reach=['deep']),
   dict(entry='c10_eval', params=w(n=3, tmin=1, nmin=3, trees=1, depth=4, right=2, vary=0, kinds=1, threads=1), thorough=dict(depth=6), time=10, ttime=90, reach=['deep']),
   dict(entry='c10_big', params=w(n=120, trees=20, depth=8, step=12, nodes=12, threads=4, variant=7), thorough=dict(n=400, trees=40, depth=12, nodes=40), time=10, ttime=90, reach=['big']),
   dict(entry='c10_full', params=w(), time=5, reach=['full', 'written']),
   dict(entry='c10_empty', params=w(), time=5, reach=['empty'])]),
 'C11': dict(harness='c11.cc', stages=[
   dict(entry='c11_mse', params=w(), time=8, reach=['mse']),
   dict(entry='c11_hinge', params=w(), time=15, reach=['hinge']),
   dict(entry='c11_squared', params=w(), time=8, reach=['squared']),
   dict(entry='c11_negative', params=w(), time=8, reach=['negative', 'positive']),
   dict(entry='c11_log', params=w(), time=15, reach=['log', 'extreme']),
   dict(entry='c11_log', params=w(range=1000000), time=15, reach=['log', 'extreme'])]),
 'C12': dict(harness='c12.cc', stages=[
   dict(entry='c12_log', params=w(n=2, fmax=3, den=1, olds=1), time=5, reach=['pointwise', 'progress']),
   dict(entry='c12_mse', params=w(n=1, olds=1, ws=1, fs=1, ys=1), time=3, reach=['pointwise']),
   dict(entry='c12_log', params=w(n=1, olds=1, ws=1, fs=1, fmax=3, den=1), time=3, reach=['pointwise']),
   dict(entry='c12_progress', params=w(calls=2, sym=1), time=5, reach=['progress', 'reduced']),
   dict(entry='c12_progress', params=w(calls=3), time=6, reach=['progress', 'reduced']),
   dict(entry='c12_mse', params=w(n=3, ws=2, fs=2), time=8, reach=['pointwise']),
   dict(entry='c12_mse', params=w(n=2, olds=1, fs=0, ys=0, threads=2), time=5, reach=['pointwise']),
   dict(entry='c12_mse', params=w(n=3, olds=1, fs=0, ys=1), time=5, reach=['pointwise']),
   dict(entry='c12_mse', params=w(n=2, zero=1, olds=1, fs=1, ys=2), time=5, reach=['pointwise']),
   dict(entry='c12_hinge', params=w(n=2, zero=1, olds=1, fmax=2, den=1), time=5, reach=['pointwise']),
   dict(entry='c12_hinge', params=w(n=2, ws=1, fmax=4, den=2, olds=1), time=15, reach=['pointwise', 'limit']),
   dict(entry='c12_log', params=w(n=3, ws=1, fs=2, fmax=4, den=1), time=8, reach=['pointwise', 'limit', 'steps']),
   dict(entry='c12_log', params=w(n=2, ws=0, fmax=800, den=100, fs=1), time=25, reach=['pointwise']),
   dict(entry='c12_mse', params=w(n=2, olds=1, fs=1, ws=0, ys=1), time=5, reach=['pointwise', 'progress']),
   dict(entry='c12_mse', params=w(n=13, ys=1, fs=1, ws=1, olds=1), time=6, reach=['pointwise']),
   dict(entry='c12_mse', params=w(n=24, ys=1, fs=1, ws=1, threads=3), time=6, reach=['pointwise']),
   dict(entry='c12_log', params=w(n=11, yc=2, fs=1, ws=1, fmax=4, den=1), time=6, reach=['pointwise']),
   dict(entry='c12_hinge', params=w(n=12, yc=2, fs=1, ws=1, zero=1, fmax=4, den=2), time=6, reach=['pointwise']),
   dict(entry='c12_targets', params=w(), time=5, reach=['good', 'bad']),
   dict(entry='c12_factory', params=w(), time=5, reach=['factory'])]),
 'C13': dict(harness='c13.cc', stages=[
   dict(entry='c13_pairs', params=w(n=3), time=5, reach=['pairs', 'nopair']),
   dict(entry='c13_pairs', params=w(n=4), time=12, reach=['pairs', 'many']),
   dict(entry='c13_pairs', params=w(n=5, ymax=1, yden=1), thorough=dict(n=5), time=20, reach=['pairs']),
   dict(entry='c13_pairs', params=w(n=1), time=3, reach=['nopair']),
   dict(entry='c13_sequence', params=w(), time=5, reach=['sequence']),
   dict(entry='c13_pairs', params=w(n=3, ymax=1, yden=1048576), time=8, reach=['pairs', 'nopair']),
   dict(entry='c13_rank', params=w(), time=5, reach=['rank']),
   dict(entry='c13_rank', params=w(n=3, fden=1073741824), time=5, reach=['rank']),
   dict(entry='c13_many', params=w(), thorough=dict(sym=3), time=10, reach=['many']),
   dict(entry='c13_many', params=w(other=1, sym=1), thorough=dict(sym=2), time=10, reach=['many']),
   dict(entry='c13_big', params=w(max_instr=1000000000), time=15, reach=['big'])]),
 'C14': dict(harness='c14.cc', stages=[
   dict(entry='c14_fresh', params=w(), time=5, can=['fresh0', 'fresh1', 'own']),
   dict(entry='c14_fresh', params=w(**{'lambda': 1}), time=5, can=['fresh0', 'fresh1', 'own']),
   dict(entry='c14_progress', params=w(calls=2), time=5, reach=['progress', 'reduced']),
   dict(entry='c14_progress', params=w(calls=3), time=6, reach=['progress']),
   dict(entry='c14_grad', params=w(n=1, olds=1, prog=1), time=3, reach=['constant']),
   dict(entry='c14_missing', params=w(), time=5, reach=['accepted', 'refused']),
   dict(entry='c14_grad', params=w(n=3, bytarget=0, equal=0, fs=2, fmax=24, fden=8), time=8, reach=['grad', 'sampled', 'constant']),
   dict(entry='c14_grad', params=w(n=2, fs=2, fmax=24, fden=8, ymax=10), time=5, reach=['grad']),
   dict(entry='c14_grad', params=w(kind=2, n=2), time=5, reach=['grad']),
   dict(entry='c14_grad', params=w(kind=2, n=3, fs=1, rates=3, ys=1, bytarget=0), time=8, reach=['grad']),
   dict(entry='c14_grad', params=w(kind=1, n=3, ws=0, bytarget=0, equal=0), time=5, reach=['grad']),
   dict(entry='c14_grad', params=w(n=3, groups=2, fs=1), time=8, reach=['grad']),
   dict(entry='c14_grad', params=w(n=12, groups=6, gfix=2, rate0=1, rates=0, ys=0, fs=2, bytarget=0), time=5, reach=['grad', 'sampled', 'groups']),
   dict(entry='c14_grad', params=w(n=14, groups=7, gfix=2, rate0=1, rates=0, ys=2, fs=1, threads=2), time=5, reach=['grad', 'sampled', 'groups']),
   dict(entry='c14_grad', params=w(n=16, groups=8, gfix=2, rate0=1, rates=0, ys=0, fs=1, kind=2, prog=1), time=5, reach=['grad', 'sampled', 'groups']),
   dict(entry='c14_grad', params=w(n=12, groups=6, gfix=2, rate0=1, rates=0, ys=1, kind=1, f1=1), time=5, reach=['grad', 'sampled', 'groups']),
   dict(entry='c14_grad', params=w(n=4, groups=2, gfix=1, ys=4, ymax=2, fs=0, ws=0, bytarget=0, rates=0, prog=1), time=8, reach=['grad']),
   dict(entry='c14_grad', params=w(n=4, groups=2, gfix=1, ys=2, fs=2, ws=1, fmax=2, bytarget=0, rates=0), time=8, reach=['grad']),
   dict(entry='c14_grad', params=w(n=5, groups=2, gfix=1, ys=0, fs=5, ws=0, fmax=1, bytarget=1, rates=0, threads=2), time=8, reach=['grad']),
   dict(entry='c14_grad', params=w(n=3, again=1, olds=1, ys=2, fs=1, ws=0, prog=1), time=10, reach=['grad']),
   dict(entry='c14_grad', params=w(kind=1, n=3, groups=2, gfix=1, prog=1, ys=2, ws=1), time=8, reach=['grad']),
   dict(entry='c14_grad', params=w(n=3, prog=1, ys=2, fs=1, ws=0, ymax=2), time=8, reach=['grad'])]),
 'C15': dict(harness='c15.cc', stages=[
   dict(entry='c15_ties', params=w(), time=5),
   dict(entry='c15_far', params=w(), time=5, reach=['far', 'beyond']),
   dict(entry='c15_lambda', params=w(ys=1, fvar=1, ws=1, rates=0, equal=0), time=8, reach=['lambda']),
   dict(entry='c15_lambda', params=w(ws=0, ys=2, rounds=1, symf=1, ymax=2, rates=0, bases=2, equal=0), time=5, reach=['lambda']),
   dict(entry='c15_lambda', params=w(n=2, byt=1, bases=5, prog=0), time=8, reach=['lambda']),
   dict(entry='c15_lambda', params=w(n=4, groups=2, ys=2, fvar=1, bases=0), time=8, reach=['lambda']),
   dict(entry='c15_lambda', params=w(n=12, groups=6, gfix=2, rate0=1, rates=0, ys=1, fvar=0, bases=0, equal=1), time=5, reach=['lambda']),
   dict(entry='c15_lambda', params=w(n=14, groups=7, gfix=2, rate0=1, rates=0, ys=0, fvar=0, bases=0, threads=2), time=5, reach=['lambda']),
   dict(entry='c15_lambda', params=w(ys=3, ymax=2, fvar=1, ws=0, rates=0, equal=0, bases=0), time=15, reach=['lambda', 'reranked'])]),
 'C16': dict(harness='c16.cc', stages=[
   dict(entry='c16_once', params=w(preempt=3), thorough=dict(preempt=4), time=10, reach=['once']),
   dict(entry='c16_once', params=w(spurious=1, threads=1), time=5, reach=['once']),
   dict(entry='c16_once', params=w(threads=3, tmin=3, tasks=3, preempt=0), thorough=dict(preempt=1), time=5, reach=['once']),
   dict(entry='c16_order', params=w(), time=5),
   dict(entry='c16_nested', params=w(), time=5),
   dict(entry='c16_parallel', params=w(), time=5),
   dict(entry='c16_producers', params=w(), time=5),
   dict(entry='c16_producers', params=w(threads=2, preempt=0), time=5)]),
 'C17': dict(harness='c17.cc', stages=[
   dict(entry='c17_pointwise', params=w(), thorough=dict(preempt=1), time=5, reach=['pointwise']),
   dict(entry='c17_pointwise', params=w(n=1, preempt=1), thorough=dict(preempt=2), time=8, reach=['pointwise']),
   dict(entry='c17_pairwise', params=w(preempt=1), thorough=dict(preempt=2), time=8, reach=['pairwise']),
   dict(entry='c17_tree', params=w(symg=1), thorough=dict(symg=2), time=10, reach=['tree', 'split']),
   dict(entry='c17_tree', params=w(n=3, leaves=1, symg=0, dup=0, preempt=1), thorough=dict(preempt=2), time=8, reach=['tree']),
   dict(entry='c17_pointwise', params=w(n=3, preempt=1), thorough=dict(preempt=2), time=8, reach=['pointwise']),
   dict(entry='c17_eval', params=w(preempt=1), time=12, reach=['eval']),
   dict(entry='c17_load', params=w(preempt=1), thorough=dict(preempt=3), time=5, reach=['load']),
   dict(entry='c17_tsv', params=w(), thorough=dict(preempt=1), time=5, reach=['tsv']),
   dict(entry='c17_tsv', params=w(more=1), thorough=dict(preempt=1), time=5, reach=['tsv']),
   dict(entry='c17_tsv', params=w(more=2), thorough=dict(preempt=1), time=5, reach=['tsv']),
   dict(entry='c17_tsv', params=w(more=3), thorough=dict(preempt=1), time=5, reach=['tsv'])]),
 'C18': dict(harness='c18.cc', stages=[
   dict(entry='c18_divide', params=w(), thorough=dict(window=65535), time=25, reach=['divide']),
   dict(entry='c18_divide', params=w(gmin=17, groups=20, window=63), time=8, reach=['divide']),
   dict(entry='c18_slices', params=w(), thorough=dict(n=9), time=5, reach=['slices']),
   dict(entry='c18_slice', params=w(), thorough=dict(n=7), time=5, reach=['slice']),
   dict(entry='c18_uniform', params=w(), thorough=dict(n=6), time=5, reach=['uniform', 'empty']),
   dict(entry='c18_uniform', params=w(symrate=8192, n=3), thorough=dict(n=5), time=5, ttime=60, reach=['uniform', 'empty']),
   dict(entry='c18_tree', params=w(gfix=1, symg=0, n=6), thorough=dict(n=7), time=12, ttime=150, reach=['sampled', 'none', 'features', 'deep']),
   dict(entry='c18_tree', params=w(gfix=1, symg=1, strings=0, n=8, gmax=8, fmin=1), thorough=dict(n=9, gmax=12, fmin=0), time=8, ttime=150, reach=['sampled', 'none', 'deep']),
   dict(entry='c18_tree', params=w(strings=0, n=3, vals=2, fmin=1), time=6, reach=['sampled', 'none']),
   dict(entry='c18_tree', params=w(n=2, symg=2), time=6, reach=['sampled', 'features']),
   dict(entry='c18_tree', params=w(n=3, weights=0, gmax=1, vals=0), thorough=dict(gmax=2, vals=1), time=8, reach=['sampled', 'features'])]),
 'C19': dict(harness='c19.cc', stages=[
   dict(entry='c19_importance', params=w(depth=1), thorough=dict(depth=2), time=12, reach=['importance', 'several', 'nogain']),
   dict(entry='c19_importance', params=w(depth=2, trees=1, right=0), thorough=dict(right=1), time=6, reach=['several']),
   dict(entry='c19_features', params=w(depth=0, depth2=2, features=1), time=12, reach=['features']),
   dict(entry='c19_many', params=w(sym=2), thorough=dict(sym=2, n=26), time=5, reach=['many']),
   dict(entry='c19_features', params=w(), time=12, reach=['features'])]),
 'C20': dict(harness='c20.cc', stages=[
   dict(entry='c20_check', params=w(), time=5, reach=['accepted', 'refused']),
   dict(entry='c20_points', params=w(), thorough=dict(trees=24), time=5, reach=['whole', 'points', 'many']),
   dict(entry='c20_features', params=w(), time=5, reach=['features']),
   dict(entry='c20_columns', params=w(), thorough=dict(n=3), time=5, reach=['weights', 'targets', 'group'])]),
 'C21': dict(harness='c21.cc', stages=[
   dict(entry='c21_split', params=w(), thorough=dict(len=8), time=5, reach=['empty', 'split', 'many']),
   dict(entry='c21_affix', params=w(), thorough=dict(len=6), time=5, reach=['prefix', 'other']),
   dict(entry='c21_trim', params=w(), thorough=dict(len=6), time=5, reach=['trim']),
   dict(entry='c21_lines', params=w(), thorough=dict(len=9), time=5, reach=['lines']),
   dict(entry='c21_lines', params=w(bytes=1, len=8), thorough=dict(len=11), time=5, reach=['lines']),
   dict(entry='c21_split', params=w(bytes=1, len=6), thorough=dict(len=8), time=5, reach=['many']),
   dict(entry='c21_trim', params=w(bytes=1, len=5), thorough=dict(len=7), time=5, reach=['trim']),
   dict(entry='c21_long', params=w(), time=8, reach=['long']),
   dict(entry='c21_cast', params=w(), thorough=dict(len=6), time=5, reach=['text', 'number']),
   dict(entry='c21_files', params=w(), time=5, reach=['files']),
   dict(entry='c21_fail', params=w(), time=5),
   dict(entry='c21_time', params=w(window=150), thorough=dict(window=1500), time=8, reach=['time']),
   dict(entry='c21_vector', params=w(), time=5, reach=['vector'])]),
 'C22': dict(harness='c22.cc', extra=['src/python/*.cc'], stages=[
   dict(entry='c22_throw', params=w(), time=5, reach=['throw']),
   dict(entry='c22_column', params=w(), thorough=dict(n=5), time=5, reach=['element', 'outside']),
   dict(entry='c22_describe', params=w(), time=6, reach=['described', 'counted']),
   dict(entry='c22_store', params=w(), thorough=dict(steps=4), time=8, reach=['store']),
   dict(entry='c22_tsv', params=w(), time=5, reach=['loaded', 'failed']),
   dict(entry='c22_train', params=w(ys=1), thorough=dict(ys=2, n=4), time=10, reach=['train', 'split']),
   dict(entry='c22_train', params=w(n=3, ys=0, rate=1, twice=1, trees=1, cats=0, seed=-1, fix=1), thorough=dict(n=4, trees=2), time=6, reach=['train', 'split']),
   dict(entry='c22_train', params=w(n=2, ys=0, rate=1, twice=1, trees=2, cats=1, seed=-1), time=8, reach=['train']),
   dict(entry='c22_refused', params=w(), time=5, reach=['refused']),
   dict(entry='c22_forest', params=w(), time=5, reach=['predicted', 'nodata', 'absent']),
   dict(entry='c22_forest', params=w(threads=2), time=5, reach=['predicted', 'nodata', 'absent']),
   dict(entry='c22_alive', params=w(), time=4, reach=['alive'])]),
 'C25': dict(harness='c25.cc', extra=['harness/main_shim.cc'], stages=[
   dict(entry='c25_train', params=w(xs=1), thorough=dict(xs=2, n=4), time=14, reach=['train', 'importance']),
   dict(entry='c25_train', params=w(n=3, rate=1, trees=1, ys=0, seed=-1, fix=1), thorough=dict(n=4, trees=2), time=8, reach=['train', 'importance']),
   dict(entry='c25_train', params=w(n=2, rate=1, trees=2, ys=0, seed=-1), thorough=dict(n=3, ys=2), time=14, reach=['train']),
   dict(entry='c25_test', params=w(xs=1, n=4), thorough=dict(xs=3), time=10, reach=['test', 'points']),
   dict(entry='c25_test', params=w(n=2, ys=0, tmax=5), thorough=dict(xs=2), time=6, reach=['test', 'points']),
   dict(entry='c25_fails', params=w(), time=5, reach=['test fault', 'train fault'])]),
 'C23': dict(python='py/c23.py', stages=[
   dict(entry='c23_rows', params=dict(rows=3, picked=2), thorough=dict(rows=4, picked=3), time=10, reach=['slice', 'copy', 'outside']),
   dict(entry='c23_store', params=dict(steps=2), thorough=dict(steps=3), time=10, reach=['lookup', 'names', 'items', 'erase', 'add']),
   dict(entry='c23_load', params={}, thorough=dict(columns=3), time=10, reach=['dict', 'files', 'frame', 'missing']),
   dict(entry='c23_frame', params={}, time=5, reach=['frame']),
   dict(entry='c23_train', params={}, time=10, reach=['trained', 'unknown']),
   dict(entry='c23_train', params=dict(twice=1), time=10, reach=['trained', 'unknown']),
   dict(entry='c23_train', params=dict(twice=2), thorough_only=1, time=10, ttime=120, reach=['trained', 'unknown']),
   dict(entry='c23_forest', params={}, time=5, reach=['forest', 'type']),
   dict(entry='c23_points', params={}, time=10, reach=['points']),
   dict(entry='c23_plot', params=dict(rows=2, values=2, cats=3), thorough=dict(rows=3, values=3, cats=4), time=15, reach=['float', 'category', 'refused']),
   dict(entry='c23_bars', params={}, time=5, reach=['bars']),
   dict(entry='c23_draw', params=dict(depth=2), thorough=dict(depth=3), time=8, reach=['drawn', 'empty'])]),
 'C26': dict(python='py/c26.py', functions='the whole of every script in /repo/scripts', assumptions='Python 2 is not installed: print statements, list-valued builtins, next methods and integer division are given their Python 2 meaning on Python 3 (lib/py2.py); files, processes and hash() are stand-ins (a file system in memory, any program result, any bag for a row)', stages=[
   dict(entry='c26_convert', params={}, thorough=dict(rows=3), time=10, reach=['converted']),
   dict(entry='c26_rmse', params={}, thorough=dict(n=5), time=5, reach=['rmse', 'refused']),
   dict(entry='c26_metrics', params={}, thorough=dict(rows=4, targets=2), time=10, reach=['metrics', 'groups']),
   dict(entry='c26_required', params={}, time=3, reach=['required']),
   dict(entry='c26_bagged', params={}, thorough=dict(rows=3, bags=4), time=10, reach=['bagged']),
   dict(entry='c26_draw', params=dict(depth=2), thorough=dict(depth=3), time=8, reach=['drawn', 'empty', 'missing']),
   dict(entry='c26_draw', params=dict(chain=6), thorough=dict(chain=10), time=8, reach=['drawn']),
   dict(entry='c26_wide', params={}, time=8, reach=['wide']),
   dict(entry='c26_groups', params={}, time=8, reach=['long']),
   dict(entry='c26_bagged', params=dict(wide=1), thorough=dict(rows=3), time=8, reach=['bagged']),
   dict(entry='c26_many', params={}, time=8, reach=['many'])]),
}
