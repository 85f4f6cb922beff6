"""Source of properties.jsonl and MANIFEST.json (lib/gen.py writes both)."""
def p(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    assert len(title) <= 80, id
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook))
COL = 'src/data_store/column.cc'
PROPS = [
 p('C01', 'A bucketized float column represents every value it was given',
  'For every sequence of finite or missing values added in any chunks and every bucket count, the finalized column has one bucket per row, a missing value lies in a bucket of its own, buckets are disjoint value ranges in increasing order whose bounds and mean enclose exactly the values of their rows, and at most twice as many buckets are used as asked for (values appearing often enough get one of their own). When at least as many buckets are asked for as there are rows, each distinct value gets its own bucket. Nothing crashes, divides by zero or writes outside the column, whatever the widths of the internal index storage.',
  ['inputs', 'configurations'], 'all value multisets and orders, chunkings, bucket counts and index widths within the bounds',
  'The tests bucketize a few fixed arrays; ties, NaN, heavy values exhausting the buckets, infinities and the 8/16/32 bit index switch are never combined.',
  [COL, 'src/data_store/column.h'], [('BucketizedFloatColumn::BuildBuckets/UpdateBuckets', COL), ('IntegerCol widths', 'src/data_store/column.h')], ['BucketizedFloatColumn accessors'],
  [('buckets', 'min/max/mean of each bucket', 'src/data_store/column.h')]),
 p('C02', 'A string column is a faithful dictionary encoding of its rows',
  'For every sequence of strings added in any chunks the column returns, for every row, a category whose text is exactly the string of that row; equal strings get equal categories and different strings different ones. Category lookup is the inverse of category text and an unknown string is reported as such. A string added after the column is closed is refused instead of silently lost, at every internal index width.',
  ['inputs', 'histories'], 'all string sequences up to the stated rows and lengths, including empty strings, and across the 255/65535 category boundaries',
  'The tests use a handful of fixed categories; hash collisions, empty strings, index widening and additions after finalizing are not covered.',
  [COL, 'src/data_store/column.h'], [('StringColumn::Add/Finalize/get_cat_index', COL)], ['StringColumn accessors']),
 p('C03', 'TSV loading puts every cell in the right row of the right column or fails',
  'For every TSV text, block size and column selection, a successful load yields one row per data line in order, each configured column holding the cell of that line under its own header whatever the column order or unused columns, missing markers become missing values and numbers their parsed value. A malformed number, a line with too few cells, a missing header or an unreadable file makes the load fail with an error, leaving no half-loaded columns behind. The result does not depend on how the text is cut in blocks or files.',
  ['inputs', 'configurations'], 'all texts over the separator-relevant characters up to the stated length, all cell/token combinations, header orders, column selections and block sizes within the bounds',
  'The tests load two fixed files with one block size; block boundaries inside lines, missing final newline, bad cells and selections cannot be enumerated by hand.',
  ['src/data_store/tsv_block.cc', 'src/data_store/tsv_data_store.cc'], [('TSVBlock::ReadTSVBlock', 'src/data_store/tsv_block.cc'), ('TSVDataStore::ProcessBlock', 'src/data_store/tsv_data_store.cc')], ['TSVDataStore status, columns']),
 p('C04', 'A data store keeps equal-length, uniquely named columns through any history',
  'After every sequence of adding, reading, removing and clearing columns, the columns present are exactly those added and not removed, each under its own name with its own data; all have the same number of rows and the reported counts match. Adding a name that exists or a column of another length (also against columns of no rows) is refused with an error and changes nothing; a removed column is gone and can be added again.',
  ['histories', 'inputs'], 'all operation sequences up to the stated length over three names and several lengths and kinds',
  'The tests add a few columns once; no history mixes refused additions, removals, clears and empty columns.',
  ['src/data_store/data_store.cc', 'src/data_store/data_store.h'], [('DataStore::Add/RemoveColumnIfExists/GetColumn', 'src/data_store/data_store.cc')], ['DataStore public interface']),
 p('C05', 'Flat-file columns load exactly once with their contents, also concurrently',
  'A column of a flat-file store holds exactly the lines of its file (one row per line, numbers parsed, text that is no number a missing value, a missing file, an unknown type or another number of rows than the columns before an error), under its own name and type, whatever other columns or sub-directories exist. When several threads ask for columns at the same time, in every interleaving each of them gets the same fully loaded column and that column stays valid.',
  ['inputs', 'schedules', 'configurations'], 'all short file contents and directory layouts; all interleavings of the loading threads up to the stated preemption bound',
  'The test loads one fixed directory from one thread.',
  ['src/data_store/flatfiles_data_store.cc'], [('FlatfilesDataStore::GetColumn and its mutex', 'src/data_store/flatfiles_data_store.cc')], ['GetColumn results, status']),
 p('C06', 'A split sends every sample to exactly one side, the right one',
  'Partitioning a sample slice by any split keeps exactly the same samples, without loss or duplication, and cuts them so that every sample of the left part satisfies the split condition (a category of the split, or a value whose bucket lies below the threshold) and none of the right part does; a missing value goes to the side the split says. Nothing outside the slice is touched, a column that cannot be split sends every sample to the right, and a split of the wrong kind is refused instead of being misread.',
  ['inputs'], 'all column contents, thresholds, category sets, missing directions and slices within the bounds (all float bit patterns)',
  'The tests partition one fixed column with fixed splits; boundary thresholds, missing values and sub-slices are not covered.',
  ['src/gbdt_algo/utils.cc', 'src/gbdt_algo/compute_tree_scores.cc'], [('Partition and split conditions', 'src/gbdt_algo/utils.cc')], ['slices after partition']),
 p('C07', 'The split search returns the best admissible split with its true gain',
  'For every bucketized or string column, gradients, hessians, weights, subset of samples and regularization, the split returned by the search has exactly the gain its two sides really have, both sides satisfy the minimal hessian, the gain exceeds the minimal gain, and no other split of that column the search has to consider is better; when no admissible split exists none is returned. Categorical splits are optimal over the category orderings used (over all subsets without regularization), and a numeric threshold separates the largest value of one side from the smallest of the other for every pair of floats.',
  ['inputs', 'configurations'], 'all gradients, hessians, weights, values, missing patterns and regularization constants within the bounds; all float pairs for the threshold',
  'The tests check one or two fixed histograms; optimality and the constraints are statements over all inputs and all alternative splits.',
  ['src/gbdt_algo/split_algo.cc', 'src/gbdt_algo/utils.cc'], [('FindBestSplit, histograms, SplitFloat/StringColumn', 'src/gbdt_algo/split_algo.cc')], ['returned split']),
 p('C08', 'A fitted tree is grown best-first within its limits, with correct scores',
  'For every data, gradients, weights and sampling, the fitted tree has at most the configured number of leaves, every split is the best one available over the sampled features, the leaf split next is always the one with the largest gain, growth stops only when no leaf has an admissible split or the limit is reached. Every leaf holds the weighted gradient sum divided by the weighted hessian sum plus the regularization of exactly the samples that reach it. The result does not depend on the number of threads.',
  ['inputs', 'configurations', 'schedules'], 'all gradients, hessians, weights, column values and limits within the bounds',
  'The test fits one fixed data set and compares with a stored tree.',
  ['src/gbdt_algo/tree_algo.cc', 'src/gbdt_algo/split_algo.cc', 'src/gbdt_algo/gbdt_algo.cc'], [('priority queue growth in FitTreeToGradients', 'src/gbdt_algo/tree_algo.cc')], ['TreeNode']),
 p('C09', 'Boosting: each tree fits the loss at the model so far, the result adds up',
  'Training asks the loss once per round with exactly the predictions of the model so far (the model continued from included), and appends one tree whose leaves are the shrunk optimal step for the gradients returned in that round. The first tree of the result is the sum of all constants; the trees of a model continued from follow unchanged, then one tree per round; evaluating the finished model gives exactly the predictions the training ended with. Trees name only given features and real categories. The base model is not changed, a diverging loss stops the training with an error, and an unusable config, feature, group column or base model is refused before it starts.',
  ['inputs', 'configurations', 'histories'], 'all gradients, hessians, constants, base models, shrinkage and tree limits within the bounds',
  'The test trains one data set with one loss and compares a stored forest; an error in the accumulated state only shows over several rounds, with a base model, or for particular constants.',
  ['src/gbdt_algo/gbdt_algo.cc', 'src/gbdt_algo/compute_tree_scores.cc'], [('TrainGBDT', 'src/gbdt_algo/gbdt_algo.cc')], ['Forest', 'LossFunc calls']),
 p('C10', 'A prediction is the sum of the leaves a row reaches; score files agree with it',
  'For every forest and every data store, the score of a row is the sum over the trees of the score of the one leaf the row reaches by the conditions on its values, with missing values and unknown categories sent where the split says; it does not depend on earlier contents of the output or the number of threads. Adding one tree and a constant to existing scores adds exactly those. A score file is written for exactly each requested number of trees within the forest, in any order of the request, holding one line per row. A missing feature, one whose column does not match its split, or a failed write is reported and empty stores or forests work.',
  ['inputs', 'configurations'], 'all trees, thresholds, categories and rows within the bounds, all lists of test points',
  'The tests evaluate two fixed forests on fixed data.',
  ['src/gbdt_algo/evaluation.cc', 'src/gbdt_algo/compute_tree_scores.cc', 'src/gbdt_algo/utils.cc'], [('EvaluateForest', 'src/gbdt_algo/evaluation.cc'), ('ComputeTreeScores', 'src/gbdt_algo/compute_tree_scores.cc')], ['scores', 'score files']),
 p('C11', 'Each loss has its documented value, and g and h are its true derivatives',
  'For all targets and scores the squared, logistic, huberized hinge and squared hinge losses have their documented value; the returned gradient is the negative slope of a convex loss in the score and the returned curvature the slope of that gradient where it is defined. Losses and curvatures are never negative, the logistic quantities stay finite for extreme margins, and the gradients of the classification losses pull towards the target with at most unit strength.',
  ['inputs'], 'all real targets and scores in the stated ranges',
  'The tests compare a handful of numbers; kinks, signs and overflow at extreme margins are statements about all reals.',
  ['src/loss_func/loss_func_math.cc'], [('ComputeMSE/LogLoss/HuberizedHinge/SquaredHinge', 'src/loss_func/loss_func_math.cc')], ['returned tuples']),
 p('C12', 'Pointwise training losses give per-row gradients and a stationary constant',
  'For every set of targets, weights and current scores a pointwise loss returns for each row the unweighted gradient and curvature of its loss at the current score plus the constant, whatever the previous contents of the output, and a constant at which the weighted total gradient step is stationary (for the squared loss exactly the weighted mean residual), stepped until it is or for ten steps. Its progress message tells the weighted mean loss and by how many percent it has come down since the first one. Classification losses refuse targets other than +1 and -1, and exactly the documented losses exist.',
  ['inputs', 'configurations'], 'all targets (all bit patterns for validation), weights and scores within the bounds',
  'The tests use three fixed rows per loss.',
  ['src/loss_func/loss_func_pointwise.cc', 'src/loss_func/loss_func_factory.cc', 'src/loss_func/loss_func_logloss.cc', 'src/loss_func/loss_func_huberized_hinge.cc'], [('Pointwise::ComputeFunctionalGradientsAndHessians', 'src/loss_func/loss_func_pointwise.cc')], ['gradient vector, constant, status']),
 p('C13', 'Query groups hold their rows by target, count and sample pairs uniformly',
  'A group of rows of any targets keeps every row exactly once in descending order of target and knows the exact number of row pairs with different targets, also when that exceeds 32 bits. A sampled pair lies in the group, has the larger target first, and every such pair is equally likely; successive samples use fresh randomness. Ranking a group by scores gives every position its rank by descending score, a permutation that leaves the group itself unchanged.',
  ['inputs', 'histories'], 'all targets and scores within the bounds, all draws of the random generator, and a group of 140001 rows for the pair count',
  'The tests look at one or two groups with fixed targets; uniformity over all draws, ties and pair counts beyond 32 bits cannot be sampled.',
  ['src/loss_func/group.cc', 'src/loss_func/group.h'], [('Group::SamplePair/Rerank/num_pairs', 'src/loss_func/group.cc')], ['Group accessors']),
 p('C14', 'Pairwise gradients are the weighted sums over sampled pairs of one group',
  'For all targets, scores, weights, groups, sampling rates and draws, the pairwise logistic, AUC and GBRank losses return for each row the sum over the sampled pairs of its group of the pair derivative at the score difference of preferred and other row times the pair weight (target difference and equal group weight if configured), towards the preferred row, so that each pair pushes both rows by the same amount in opposite directions. Pairs never cross groups, the number of samples follows the configured rate, and every round and every group draws pairs of its own. The constant is 0, earlier contents of the output and an earlier Init have no influence, and missing groups or an unusable sampling rate are refused. Its progress message tells the mean loss of the sampled pairs and by how many percent it has come down since the first one.',
  ['inputs', 'configurations', 'histories'], 'all targets, scores, weights, group assignments, rates and random draws within the bounds',
  'The tests use one fixed seed and fixed numbers; the gradients of rows in other groups, with other rates, on reuse or without any pair are not seen.',
  ['src/loss_func/loss_func_pairwise.cc', 'src/loss_func/loss_func_pairwise.h', 'src/loss_func/group.cc'], [('Pairwise::ComputeFunctionalGradientsAndHessians', 'src/loss_func/loss_func_pairwise.cc')], ['gradient vector, constant, status']),
 p('C15', 'LambdaMART weighs each pair by its gain of DCG at the current ranking',
  'For all targets, scores, weights, groups, discount bases and draws, the LambdaMART loss ranks each group by the current scores and gives each sampled pair the logistic derivative times the target difference and the difference of the discounts at the current ranks of its rows, with the documented discount log(base)/log(base+rank) at every rank however large and base 2 if none is configured. Ties are handled, and a new round uses the ranking of the new scores.',
  ['inputs', 'configurations', 'histories'], 'all targets, scores, weights, groups, bases and draws within the bounds; ranks around the precomputed limit',
  'The tests check a single fixed group and round; large ranks, other bases, re-ranking in later rounds and ties are not covered.',
  ['src/loss_func/loss_func_lambdamart.cc', 'src/loss_func/group.cc'], [('LambdaMART::GetExtraPairWeightFunc', 'src/loss_func/loss_func_lambdamart.cc')], ['gradient vector']),
 p('C16', 'The thread pool runs every task exactly once before it is gone',
  'In every interleaving, a task given to a thread pool runs exactly once, and destroying the pool waits until all tasks have finished, including tasks added by other tasks or by several threads. Nothing deadlocks or is lost, with spurious wake-ups, more tasks than threads, or no task at all; one worker takes the tasks in order and several workers run tasks at the same time. What the tasks wrote is visible afterwards without a data race.',
  ['schedules', 'inputs'], 'all interleavings of up to three workers and three tasks up to the stated number of preemptions',
  'A test runs under the schedules the machine happens to produce; lost wake-ups and races need particular ones.',
  ['src/utils/threadpool.cc', 'src/utils/threadpool.h'], [('ThreadPool queue, mutex and condition variable', 'src/utils/threadpool.cc')], ['task effects after destruction']),
 p('C17', 'Parallel loading, training and prediction are free of races and deterministic',
  'In every interleaving of the worker threads, loading files, computing pointwise and pairwise gradients, searching splits over features and evaluating a forest have no data race and give the result the single-threaded run (or, for sampled pairs, the run of the same seed and thread count) gives. Errors of any worker are reported whichever thread meets them.',
  ['schedules', 'inputs', 'configurations'], 'all interleavings of two workers up to the stated number of preemptions, with symbolic data',
  'A test runs under the schedules the machine happens to produce and has no race detector for the others.',
  ['src/gbdt_algo/tree_algo.cc', 'src/gbdt_algo/evaluation.cc', 'src/gbdt_algo/utils.cc', 'src/loss_func/loss_func_pointwise.cc', 'src/loss_func/loss_func_pairwise.cc', 'src/data_store/tsv_data_store.cc'], [('ThreadPool users', 'src/gbdt_algo/tree_algo.cc')], ['gradients, trees, scores, columns']),
 p('C18', 'Subsampling is uniform and dividing samples loses none of them',
  'Dividing any number of samples or any slice into any number of groups gives that many consecutive slices that cover every sample exactly once, with sizes that differ by at most one. A subsample holds each index at most once in order, each kept independently with exactly the given probability (all of them at rate 1), repeatable with the same seed. A slice refers to the elements of its vector without copying or leaving it. A tree fitted with sampling rates below 1 uses only the sampled rows for its splits and scores and only the features sampled for a node, also when the sample is empty.',
  ['inputs', 'configurations'], 'all sample counts in windows up to the largest int, all group counts, slices, rates and random draws within the bounds',
  'The tests look at a few sizes and one seed; uneven divisions, empty samples and the dependence on each draw are not covered.',
  ['src/utils/subsampling.cc', 'src/utils/vector_slice.h', 'src/gbdt_algo/tree_algo.cc'], [('Subsampling::DivideSamples/UniformSubsample', 'src/utils/subsampling.cc')], ['returned slices and samples', 'TreeNode']),
 p('C19', 'Feature importance is the relative total gain of each feature of the model',
  'For every forest the importance lists each feature used by an inner node exactly once, in descending order, with the total gain of its splits over all trees relative to the largest total (0 when there is no gain at all); splits left on leaves do not count. The features a model needs are exactly those named by its splits.',
  ['inputs'], 'all forests up to the stated trees and depth, with symbolic gains',
  'The test computes the importance of one fixed forest.',
  ['src/gbdt_algo/utils.cc'], [('ComputeFeatureImportance, CollectAllFeatures', 'src/gbdt_algo/utils.cc')], ['importance list', 'feature set']),
 p('C20', 'A configuration is validated and means what it documents',
  'A config is accepted exactly when the numbers of trees and leaves are positive and both sampling rates lie in (0, 1], for every bit pattern. With an evaluation interval the test points are all numbers of trees at multiples of the interval below the whole forest, which comes last; without one it is the whole forest. The features are exactly the configured float and categorical ones. Weights (1 without a weight column), targets (as +1 or -1 by their sign if binarized) and groups are those of the configured columns, and a column that is absent or of another kind stops the program instead of being ignored.',
  ['inputs', 'configurations'], 'all 32-bit integers and float bit patterns of the config fields and columns, all column selections',
  'The tests try one or two configs; NaN rates, intervals near the integer limits and wrong column kinds are not covered.',
  ['src/gbdt_algo/utils.cc'], [('CheckConfig, GetTestPoints, GetTargetsOrDie', 'src/gbdt_algo/utils.cc')], ['status, test points, accessors']),
 p('C21', 'Text, line and file helpers handle every input exactly',
  'Splitting a text by a delimiter gives exactly the parts between its occurrences and joining them restores the text; prefix and suffix tests and trimming agree with their definition for all strings; reading lines gives each line without its line end whatever the mixture of line ends; a text without white space is accepted as a number exactly when all of it is one, with its value. A file reads back as it was written, and a file that cannot be read or completely written is an error. Formatted durations add up to the duration.',
  ['inputs', 'fault_sequences'], 'all texts over the relevant characters and all bytes up to the stated lengths, a full disk, durations around each unit boundary',
  'The tests try a handful of fixed strings.',
  ['src/utils/utils.cc', 'src/utils/utils_inl.h', 'src/utils/stopwatch.cc'], [('strings::split, StringCast, ReadLine, WriteStringToFile', 'src/utils/utils.cc')], ['returned values', 'files']),
 p('C22', 'The Python entry points agree with the library and raise every error',
  'Training through the Python entry point gives exactly the forest the library gives for the same data, configuration, base forest and seed, with targets and weights from the given lists or else from the configured columns (binarized on request), leaves the data store and the base forest as they were and uses the requested number of threads. A column stays readable after the last other use of its data store. Whatever cannot be trained, loaded, added, looked up or predicted (non-positive threads, invalid config text, missing data, wrong lengths, missing or wrong columns, unknown loss, no features, invalid parameters, unknown features) raises an exception, never ends the process, and leaves everything unchanged. Column elements are those of the rows and an index outside raises an index error; the data store answers like the set of columns added and not removed, and its text counts them and the rows; the text of a column shows its first ten elements in order and whether there are more.',
  ['inputs', 'histories', 'configurations'], 'all values, indices, call histories and fault kinds within the bounds',
  'No C++ test touches the binding layer, and the Python tests need an installed module.',
  ['src/python/train_gbdt_py.cc', 'src/python/datastore_py.cc', 'src/python/column_py.cc', 'src/python/forest_py.cc', 'src/python/gbdt_py_base.cc'], [('TrainPy, DataStorePy, ForestPy', 'src/python/train_gbdt_py.cc')], ['exceptions', 'returned forests, predictions and columns']),
 p('C25', 'The command line trains and tests what its flags and files say, or fails',
  'Training from the command line writes, under the requested name, exactly the forest the library trains on the data of the given TSV files or flat-file directories with the given configuration, base model and seed (whatever the number of threads), and beside it the importance of every feature of that forest, one per line in order. Testing writes a score file for the whole forest and for each earlier test point (and no other), holding for every row in order the sum of that many trees. Whatever cannot be done (missing or malformed flags, files, configuration, model or data, columns that do not exist, an unknown mode or loss, invalid parameters, a model without its feature, output that cannot be written completely) ends the program with an error instead of passing for done. (Flat files are read only for the columns named by the configuration in training and by the model in testing.)',
  ['inputs', 'configurations', 'fault_sequences'], 'all data, configurations, models, flag combinations and fault kinds within the bounds',
  'No test runs the program.',
  ['src/main.cc', 'src/flags.cc', 'src/gbdt_algo/utils.cc', 'src/gbdt_algo/evaluation.cc'], [('Train, Test, LoadDataStoreOrDie, GetTestPoints', 'src/main.cc')], ['files in the output directory', 'exit of the program']),
 p('C23', 'The Python package keeps data, options and results what they are',
  'In the package gbdt, an index, a range, a list of rows, a slice or a copy of a data store is a new store with exactly the same columns of the same kinds and those rows in that order, and leaves the store as it was; a row outside is an index error. A column is given under its kind by its name, an unknown one is a value error, and the listings, items and lengths are those of the columns added and not erased. A store made of lists, files or a data frame has every given column once under the kind asked for (numeric columns of a data frame bucketized and others as strings unless overridden), and becomes a data frame again. Training passes exactly the given data, features under their kinds, configuration (with sampling rates 1 unless given), targets, weights, base forest, seed and number of threads to the library, and raises a value error for an unknown feature. A forest is made of a text or a forest only, predicts what the library predicts, and gives its scores at the checkpoints in order whatever other such computation is under way. A partial dependency plot shows the mean change of the score against the base value at each value, in order, for every scoring function, and leaves the data as it was; the drawing of a tree has each node once with its split, score and children.',
  ['inputs', 'histories', 'configurations'], 'all stores, indices, orders of calls, options and forests within the bounds; all cell values and all scoring functions',
  'The package has no tests (its compiled module is not part of the source tree).',
  ['gbdt/_data_store.py', 'gbdt/_forest.py', 'gbdt/_gbdt.py', 'gbdt/_forest_visualizer.py', 'gbdt/_partial_dependency_plot.py'], [('DataStore.slice, DataLoader.from_df', 'gbdt/_data_store.py'), ('train', 'gbdt/_gbdt.py')], ['calls of the library', 'returned stores and lists', 'drawings']),
 p('C26', 'The scripts convert, evaluate, bag and draw what they are given',
  'The converter makes of a delimited text one flat file per column of the header (spaces and slashes in the name replaced), each naming a type the data store can load, the one the configuration asks for (bucketized floats unless listed as raw floats or strings), and holding every cell of the column in order. The error script gives the root of the mean squared difference of two files and ends with an error for files of different lengths. The metrics script gives for every target value and in total the mean over the groups (consecutive rows with the same id, comment lines and line ends aside) of the number of rows and of the discounted gain by rank of the score, and an error for a missing parameter. Bagging leaves every row out of exactly one bag, trains one model per bag with that bag as weight column and the given data and configuration otherwise, and writes for every test point and row in order the mean score of the models trained with, and of the model trained without, that row. A drawn forest has one graph per tree, with every node once, its feature, threshold or categories, its children in order, leaf scores, and the side missing values take.',
  ['inputs', 'configurations'], 'all texts, types, groups, bag assignments and trees within the bounds; all scores',
  'The scripts have no tests.',
  ['scripts/convert_tsv_to_filatfiles.py', 'scripts/compute_rmse.py', 'scripts/compute_metrics.py', 'scripts/bagged.py', 'scripts/draw_trees.py'], [('ConvertTsvToFlatfiles', 'scripts/convert_tsv_to_filatfiles.py'), ('ReadByGroup', 'scripts/compute_metrics.py'), ('Bagging', 'scripts/bagged.py')], ['written files', 'printed lines', 'commands run', 'exit of the script']),
]
NA = [
 p('C24', 'Writing a model as JSON and reading it back yields the same forest',
  'Every forest written to its text form and read back has the same trees, splits, scores and categories.',
  ['inputs'], 'all forests', 'The tests read one stored model.', ['src/utils/json_utils.cc'], [('JSON conversion by the protobuf library', 'src/utils/json_utils.cc')]),
]
NA_REASON = {'C24': 'The conversion is done inside the installed protobuf library (json_util), of which no source or bitcode is available here; only two forwarding calls of this repository could be encoded, and the stub for the rest would decide the verdict.'}
