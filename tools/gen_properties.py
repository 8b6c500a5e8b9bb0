#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of its text; run after editing)."""
import json, os
D = 'la/deflarry.py'; F = 'la/flarry.py'; IO = 'la/io.py'
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, (id, statement.count('. '))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or ['return value or exception of the public call', 'operands before and after the call'],
            hook_needed=None)))

p('C01', 'Every larry that an operation returns is well formed',
  'Starting from valid larrys, every larry returned by a public method, operator or function has a NumPy data array of at least one dimension, exactly one label list per dimension, each as long as its dimension, and no label twice along a dimension; this also holds for every operand afterwards, and for arbitrary chains of operations. '
  'Excepted are only: `validate=False`, squeezing a larry whose dimensions all have length one, an array operand that broadcasts the larry to a larger shape, data types that NumPy cannot combine, and label functions (`maplabel`) that are not one-to-one.',
  ['inputs', 'programs'], 'all dtypes, shapes (including zero length axes), memory layouts, label types, and sequences of operations',
  'Most results are built with validation switched off, so nothing but the code of each method keeps labels and data in step; the tests look at a few hand written 1d and 2d larrys and at single operations.',
  [D, F], [('construction with validate=False', D + ': every method that ends in larry(x, label, validate=False)'), ('larry.__init__ validation', D + ': larry.__init__')])

p('C02', 'Construction rejects malformed input and otherwise keeps data and labels',
  'Building a larry from array-like data and labels succeeds, with exactly that data (cast to `dtype` if one is given) and exactly those labels, if and only if there is at least one dimension, one label list per dimension, every label is a list of the right length, and no label repeats along a dimension; otherwise an exception is raised (ValueError, unless a label is unhashable). '
  'Without labels every axis is labelled 0..n-1. '
  '`lrange`, `ones`, `zeros`, `empty`, `rand` and `randn` give the shape, dtype, labels and values (start + i*step in row-major order, all ones, all zeros, draws of the given generator) that their arguments ask for.',
  ['inputs'], 'all data arrays, label lists (right, too long, too short, duplicated, wrong type, unhashable) and dtypes',
  'The validation is a conjunction over all axes and all pairs of labels; tests try one bad example per error message.',
  [D, F], [('larry.__init__', D + ': larry.__init__'), ('instantiation shortcuts', F + ': lrange, empty, ones, zeros, rand, randn')])

p('C03', 'No operation changes its operands unless it is documented to be in place',
  'Every public method, operator and function leaves the data, dtype, shape and labels of every larry, array and list passed to it bit for bit unchanged, whether it returns or raises; the only exceptions are the in-place operations: item and `lix` assignment, `set`, `fill`, `shuffle`, `shufflelabel`, and `maplabel`/`flipaxis` with copy=False, and these change nothing but the larry they are called on (and what shares memory with it).',
  ['inputs', 'programs'], 'all operands, argument combinations and failing calls',
  'A mutated operand goes unnoticed unless the test looks at the operand again after the call, which the tests rarely do, and most mutations need missing values, equal labels or a failing call.',
  [D, F, 'la/farray', 'la/missing.py'], [('copy before modify', D + ': y = self.copy() / copylabel()'), ('isview flags', F + ': align_raw, binaryop')])

p('C04', 'Copies are independent of their source and views write through',
  'A larry returned by an operation documented to return a copy (`copy`, arithmetic, comparison, unary, cumulative, moving window, ranking and normalizing functions, reductions, `morph`, `morph_like`, `merge`, `align`, `align_axis`, `sortaxis`, `flipaxis`, `lag`, `T`, `swapaxes`, `flatten`, `insertaxis`, `take`, `keep_label`, `keep_x`, `vacuum`, `cut_missing`, `push`, `nan_replace`, `astype`, `maplabel`) shares neither data memory nor label lists with its inputs, even when the operation had nothing to do. '
  'Results documented to be views (`pull`, `squeeze`, integer and slice indexing, `A`, `getx` and `flipaxis` with copy=False) share their data with the source, and the view flags of `align_raw` are True exactly when the array returned is the data of the corresponding input larry and not a copy.',
  ['inputs', 'programs'], 'all operands, in particular those for which the operation is a no-op (equal labels, zero lag, sorted axis, length-one axes)',
  'Sharing shows only when one of the two larrys is modified later; tests compare references for some methods on one input.',
  [D, F], [('copy / copylabel', D + ': larry.copy, copylabel'), ('no-op branches', D + ': morph, sortaxis, lag, merge; ' + F + ': align, align_raw')],
  ['writes to the result seen in the source and vice versa'])

p('C05', 'Compiled and pure Python label mapping agree and are memory safe',
  '`listmap` and `listmap_fill` of the compiled extension, built from either the Cython source or the shipped C file, return the same lists as the pure Python versions: the positions in the first list (the last one, if repeated) of the elements of the second, with unmappable elements raising KeyError, being skipped, or being replaced by the fill value and listed, as asked. '
  'Unhashable labels raise TypeError, as do, in the compiled versions, arguments of other types than list, bool and int. They pass through exceptions raised by the comparison or hashing of labels, and never leak references or touch memory out of bounds, even if labels change the lists while being hashed or compared.',
  ['inputs', 'configurations'], 'all pairs of lists of hashable or unhashable labels, fill values, and all three implementations',
  'The tests run a handful of lists through one implementation at a time; memory errors and reference leaks do not show in results at all.',
  ['la/src/cflabel.pyx', 'la/src/cflabel.c', 'la/flabel.py'], [('listmap, listmap_fill', 'la/src/cflabel.pyx, la/src/cflabel.c'), ('fallback', 'la/flabel.py')],
  ['return values of the three implementations', 'AddressSanitizer and UndefinedBehaviorSanitizer reports', 'reference counts'])

p('C06', 'Arithmetic, logic and comparison of two larrys line up by label',
  'For two larrys of the same number of dimensions, `+ - * / // & |` and the six comparisons return a larry whose labels along each axis are the left labels in their order if both label lists are equal and otherwise the sorted intersection, and whose value at each label is the NumPy operation (`&` and `|` meaning logical and/or) applied to the two values at that label, with the dtype NumPy gives. '
  'A different number of dimensions raises.',
  ['inputs'], 'all pairs of larrys: any overlap and ordering of labels per axis, dtypes, layouts, zero length and empty intersections',
  'Alignment depends on the combination of orders on every axis; tests use few fixed pairs, mostly with equal labels or one partially overlapping axis.',
  [D], [('__align', D + ': larry.__align'), ('operators', D + ': __add__ ... __ge__')])

p('C07', 'Scalar and array operands and element-wise functions keep every label',
  'Operators with a scalar or with an array that broadcasts to the shape of the larry (in both operand orders), comparisons with scalars, arrays and sequences, and `log exp sqrt sign power ** abs clip isnan isfinite isinf invert neg pos astype` return a larry with unchanged labels in which each value is the corresponding NumPy operation on the corresponding value. '
  '`clip` with its limits swapped and `invert` of a larry that is not bool raise, and operands that are neither scalar, array nor larry raise TypeError.',
  ['inputs'], 'all larrys, scalars and arrays, dtypes and memory layouts',
  'Each operator is a separate copy of the same code for each operand type; tests sample a few combinations.',
  [D], [('operators', D + ': __add__ ... __ror__, __compare'), ('unary functions', D + ': log ... invert')])

p('C08', 'Aligning two larrys follows the join method on every axis',
  '`align` and `align_raw` return, per axis, the sorted intersection (inner), sorted union (outer), left or right labels (unsorted labels are kept as they are when both lists are equal), or unchanged axes (skip), where `join` may differ per axis, and every value is found under its label in both results. '
  'Labels that a larry does not have are filled with the missing marker of its dtype (NaN, empty string, None), bool and integer data being cast to float only if something is missing, or raising TypeError if `cast` is False. '
  'Unknown joins, wrong lengths and different numbers of dimensions raise.',
  ['inputs'], 'all pairs of larrys, join lists, dtypes, cast flags, zero length axes',
  'Five joins per axis times label overlap times dtype times cast is far beyond the sampled cases, and each join is a separate block of code.',
  [F, 'la/flabel.py', 'la/missing.py'], [('align_raw', F + ': align_raw'), ('align', F + ': align'), ('listmap_fill', 'la/flabel.py')])

p('C09', 'Binary functions with join and missing-value replacement are exact',
  '`binaryop` (for any element-wise function and its keyword arguments), `add`, `subtract`, `multiply` and `divide` equal aligning the larrys with the given join, replacing values missing in exactly one of them by `missone` and values missing in both by `misstwo` (each only if given), and applying the function; "missing" includes both values that were missing in the input and those introduced by the join. An axis that is skipped must have equal labels in both, otherwise they raise.',
  ['inputs'], 'all pairs of larrys, joins, missone and misstwo values, dtypes with a missing marker and without',
  'Tests cover a few joins with one overlap pattern; whether the replacement touches the wrong element depends on the pattern of missing values in both larrys.',
  [F], [('binaryop', F + ': binaryop, add, subtract, multiply, divide')])

p('C10', 'Joining many larrys: align_axis, union, intersection, isaligned, stack',
  '`align_axis` gives every larry, along its own given axis, the sorted intersection, sorted union, first or last labels of all of them, with values kept under their labels and other axes untouched. '
  '`union` and `intersection` return the sorted label sets over all larrys given, and `isaligned` tells whether the labels (of one axis or all) are equal including order. '
  '`stack` returns the float 3d larry over the sorted names and the row and column unions (or intersections) holding each input value under its labels and NaN elsewhere.',
  ['inputs'], 'any number of larrys, any axes (also different or negative), any overlaps',
  'Three or more larrys with different axes are hardly tested.',
  [F], [('align_axis', F + ': align_axis'), ('union, intersection, isaligned, stack', F)])

p('C11', 'Reordering (morph, sortaxis, flipaxis, sortby) moves values with labels',
  '`morph` and `morph_like` return a larry with exactly the requested labels in the requested order, each known label with its values and each unknown one filled with the missing marker (casting int and bool to float only then), and raise for repeated labels. '
  '`sortaxis` (either direction), `flipaxis` and `sortby` permute the labels of the axes concerned into the documented order and keep every value under its labels.',
  ['inputs'], 'all larrys, target labels (permutation, subset, superset, disjoint, empty, duplicates), axes and dtypes',
  'A value under a wrong label is visible only for particular permutations and axes; tests use few, often symmetric ones.',
  [D, F], [('morph, morph_like, sortaxis, flipaxis', D), ('sortby', F + ': sortby')])

p('C12', 'Merging loses no value and overwrites only when told to update',
  '`merge` returns a larry over the union of the labels of each axis (sorted, unless the label lists are equal) that holds every non-missing value of both larrys under its labels, without loss of precision or truncation, and is missing elsewhere. '
  'Where both have a non-missing value the second wins if `update` is True and ValueError is raised otherwise. '
  'A different number of dimensions or str/object data combined with another kind raises.',
  ['inputs'], 'all pairs of larrys with finite or missing data: overlaps, dtypes, missing patterns',
  'Whether a value is dropped depends on the pattern of missing values and dtypes of both larrys; tests merge a few pairs.',
  [D], [('merge', D + ': larry.merge')])

p('C13', 'Positional indexing selects the same positions in data and labels',
  'Indexing with integers, slices, lists, tuples, integer arrays, bool arrays and aligned bool larrys, alone or one per axis (at most one of the tuple entries being a sequence), returns exactly what indexing the data one axis after the other does, with the labels at the same positions on every axis kept; all-integer indexing returns the scalar. '
  '`take` does the same along one axis, iteration yields the items in order, and out-of-range positions, repeated positions, too many indices, unaligned bool larrys and unsupported index types raise.',
  ['inputs'], 'all larrys, index expressions (negative, strided, empty, per axis combinations)',
  'The label side and the data side of an index are computed by different code; only the combination of all index types per axis shows a difference.',
  [D], [('__getitem__', D + ': larry.__getitem__'), ('take', D + ': larry.take')])

p('C14', 'Assignment changes exactly the addressed cells',
  'Assignment by position, by aligned bool larry, by `lix`, by `set` and by `fill` stores the value (scalar, array or aligned larry) in exactly the addressed cells, seen through the cast to the dtype of the larry, and changes no other cell and no label. '
  'A larry value whose labels differ from those of the addressed part, unknown labels and an out-of-range integer raise and change nothing; an out-of-range position in a sequence raises and changes no cell that was not addressed.',
  ['inputs', 'histories'], 'all larrys, index expressions and values, and sequences of assignments',
  'Tests assign to a few cells and compare with a literal; a write to an extra cell needs a particular index combination.',
  [D], [('__setitem__, set, fill', D), ('Lix.__setitem__', D + ': Lix')])

p('C15', 'Label based lookup finds exactly what the labels name',
  '`get`, `lix`, `pull`, `labelindex` (exact, or inexact: the position of the largest label not above the given one), `keep_label`, `keep_x`, `getlabel`, `maxlabel` and `minlabel` return the values and labels that the label arguments (single labels, label lists in the given order, label slices, mixed with positions) denote. '
  'Unknown labels raise, and never select something else.',
  ['inputs'], 'all label types and orders, including integer labels that differ from their positions and unsorted labels',
  'Confusing a label with a position shows only if labels are integers in another order; tests mostly use strings or 0..n-1.',
  [D], [('Lix, slicemaker, labels2indices', D), ('get, pull, labelindex, keep_label, keep_x', D)])

p('C16', 'Reductions ignore NaN and drop exactly the reduced axis',
  '`sum prod mean median std var max min any all geometric_mean` along an axis return the larry over the remaining axes (or a scalar when none remains, or for axis None) that holds the statistic of the non-NaN values of each lane, NaN where a lane has none or is empty (False and True for `any` and `all` of empty lanes), with the labels of the remaining axes unchanged. '
  'A negative axis means the same as its positive counterpart and an invalid axis raises.',
  ['inputs'], 'all numeric larrys, axes, NaN patterns, zero length axes, layouts and ddof',
  'NaN handling and label popping depend on axis and NaN pattern; tests use one or two fixed arrays.',
  [D, 'la/farray/misc.py'], [('__reduce and reductions', D), ('geometric_mean', 'la/farray/misc.py')])

p('C17', 'Cumulative and moving window functions equal their window by window definition',
  '`cumsum`, `cumprod`, `move_sum mean std min max median ranking func`, `movingsum` and `movingsum_forward` return, at every position along the axis, the statistic of the non-NaN values of exactly the window ending (or, for forward, starting) there with the given skip and normalization, NaN where the window does not fit or has no values, with labels unchanged, the same for every method (loop, strides); in `cumsum` and `cumprod` a NaN stays NaN and is otherwise ignored. '
  'Windows that are too small or too large raise.',
  ['inputs'], 'all float and int larrys with finite or NaN values, axes, windows, skips, methods, layouts',
  'Off-by-one errors depend on window, skip, axis and NaN pattern; stride tricks depend on the memory layout.',
  [D, 'la/farray/move.py'], [('move_*', D), ('move_func_loop, move_func_strides, movingsum', 'la/farray/move.py')])

p('C18', 'Rankings and quantiles follow their definition lane by lane',
  '`ranking` returns, for every lane along the axis (or the whole larry for None), the average rank of each non-NaN value among the non-NaN values of the lane scaled to the chosen normalization, the midpoint for a lone value, and NaN for NaN. '
  '`lastrank` is the rank of the last value of each lane in [-1, 1] (with exponential weights when decayed), and `quantile` puts the values of each lane into q bins by rank, scaled to [-1, 1]. '
  'Labels stay as they are; unknown norms, negative decay and bad q raise.',
  ['inputs'], 'all larrys with ties, NaN, lone values, axes, norms, decay and q',
  'Ranks depend on tie and NaN patterns per lane; tests use a few arrays per normalization.',
  [D, 'la/farray/normalize.py'], [('ranking, lastrank, quantile', 'la/farray/normalize.py')])

p('C19', 'Normalizing, grouping and covariance functions use only their own lane or group',
  '`demean`, `demedian` and `zscore` subtract and scale by the NaN-ignoring statistics of the lane (or of everything for axis None); `group_mean`, `group_median` and `group_ranking` give each element the statistic of the elements of its lane that belong to the same group, and NaN where the group is None. '
  '`cov` is the uncentered covariance of each pair of rows over the columns present in both, and `correlation` uses only the pairs present in both arrays. '
  'Labels stay as they are, and a group larry that lacks a label or has the wrong type or number of dimensions raises.',
  ['inputs'], 'all float larrys with NaN, axes, group assignments in any label order (superset of labels, None groups)',
  'The group larry is aligned by label; tests use groups that are already aligned or nearly so.',
  [D, F, 'la/farray/normalize.py', 'la/farray/group.py', 'la/farray/misc.py'], [('demean, demedian, zscore', 'la/farray/normalize.py'), ('group_*', 'la/farray/group.py'), ('_group_align', D), ('cov, correlation', 'la/farray/misc.py')])

p('C20', 'Missing data operations treat exactly the missing values',
  '`ismissing`, `isnan`, `nx`, `missing_marker` and `nans` agree on what is missing for each dtype; `nan_replace` replaces exactly the NaNs; `push` fills a NaN with the latest value at most `window` positions earlier on its lane and nothing else. '
  '`vacuum` and `cut_missing` remove exactly the rows, columns, ... whose slices have no finite value, or too large a fraction of missing values, and `lag` shifts data against labels by n positions dropping the ends; all values left stay under their labels.',
  ['inputs'], 'all larrys missing patterns, axes, windows, fractions, lags',
  'Which slices go depends on the missing pattern across all axes; tests use few 2d examples.',
  [D, 'la/missing.py', 'la/farray/normalize.py'], [('ismissing, missing_marker, nans', 'la/missing.py'), ('vacuum, cut_missing, lag, nan_replace', D), ('push', 'la/farray/normalize.py')])

p('C21', 'Reshaping keeps every value under its labels',
  '`T`, `swapaxes`, `flatten` (either order), `unflatten`, `insertaxis`, `squeeze`, `panel` and `maplabel` return larrys in which each value is found under its (reversed, swapped, tuple, extended, reduced, mapped) label, and flatten followed by unflatten gives the numeric data back with sorted labels. '
  '`copy`, `copyx`, `copylabel`, `getx` and `A` return the same data and labels, and `unique` the sorted distinct values with index arrays that reconstruct them.',
  ['inputs'], 'all larrys of one to four dimensions, axes (negative too), orders and layouts',
  'Label products and data order are computed independently; mistakes cancel for symmetric shapes like those in the tests.',
  [D, F, 'la/flabel.py'], [('flatten, unflatten, T, swapaxes, insertaxis, squeeze', D), ('flattenlabel', 'la/flabel.py'), ('panel, unique', F)])

p('C22', 'Conversion to and from tuples, lists, dicts and text keeps every cell',
  '`totuples`, `tolist`, `todict` list each cell exactly once with its labels, and `fromtuples`, `fromlist`, `fromdict` build the float larry with sorted labels that holds each given value at its labels and NaN elsewhere, so a round trip gives back the sorted larry. '
  '`tocsv` followed by `fromcsv` (any delimiter, skipped rows) does the same with labels turned into strings, `tofile` writes every label and value of a 1d or 2d larry in place, and the printed form shows the labels (eliding the middle of long ones) and the data.',
  ['inputs'], 'all numeric larrys of one to four dimensions, label types, sparse data, delimiters, labels with quotes or delimiters',
  'A lost or swapped cell depends on the shape and label order; tests round trip few fixed larrys.',
  [D, 'la/util/misc.py', 'la/flabel.py'], [('totuples ... tofile, __repr__', D), ('fromlists', 'la/util/misc.py'), ('list2index, flattenlabel', 'la/flabel.py')])

p('C23', 'Shuffling and resampling only permute and partition',
  '`shuffle` permutes whole slices of the data along the axis and leaves labels alone, `shufflelabel` permutes the labels of the axis and leaves data alone, so nothing is lost or repeated. '
  '`cross_validation` yields k disjoint test sets that together are all n indices, each with its complement for training; `bootstrap` yields the asked number of training draws of size n with exactly the indices not drawn as non-empty test set; `split` takes exactly those positions. '
  'All are determined by the random generator (or the shuffle or randint function passed in), and bad sizes raise.',
  ['inputs', 'schedules'], 'all n, k, nboot, axes, seeds and generators',
  'Tests fix one seed or one function; the partition must hold for every outcome of the generator and every remainder of n by k.',
  [D, 'la/farray/misc.py', 'la/util/resample.py'], [('shuffle, shufflelabel', D + ', la/farray/misc.py'), ('cross_validation, bootstrap, split', 'la/util/resample.py')])

p('C24', 'An archive behaves like a dictionary of larrys over any history',
  'After any history of assignments, overwrites, deletions, clears, saves, loads and repacks, by file name or open file, with plain and nested names, an archive lists exactly the names a dictionary would, and loading a name gives back the last larry stored: same data, dtype, shape, labels and label types (int, float, bool, str, date, time, datetime). '
  'Iteration, membership, length, values, items, the printed table and the shape, dtype, size and labels of the archived larrys agree with that dictionary, `space` is the size of the file and `freespace` the part of it that no archived data or labels use. '
  'Looking up or deleting a name that is not there raises KeyError, and storing, loading or deleting with a name that is not a str, or storing what is not a larry, raises TypeError.',
  ['histories', 'inputs'], 'all sequences of archive operations over all savable larrys, reopened at any point',
  'Tests save and load one or two larrys; interference between names, overwrites with other shapes and reopening need longer histories.',
  [IO], [('IO', IO + ': IO'), ('save, load, delete, archive_directory', IO)],
  ['results of every archive operation against a dictionary model', 'the HDF5 file reopened after the history'])

p('C25', 'Partial loading and assignment in an archive equal indexing the larry',
  'Indexing an archived larry with an integer, a slice, or a tuple of integers, slices and at most one increasing list or bool array gives the same data, dtype and labels as indexing the larry in memory, and `labelindex`, `getlabel`, `maxlabel`, `minlabel` agree too. '
  'Assigning to part of an archived larry has the same effect on the archive as on the larry in memory and touches nothing else in the archive. '
  'An index or value that is not supported raises and changes nothing; an archive never returns or stores something else.',
  ['inputs', 'histories'], 'all archived larrys, index expressions and values, sequences of partial reads and writes',
  'Data selection is done by HDF5, label selection by la; tests index a few slices.',
  [IO, D], [('lara', IO + ': lara.__getitem__, __setitem__'), ('_load_label', IO)])

p('C26', 'Failed or interrupted archive operations lose no stored larry',
  'If saving or assigning a larry that cannot be stored (unsupported data or labels, wrong types, name in use by something else) raises, all larrys in the archive, also one stored under the same name before, can still be read unchanged and the archive stays usable. '
  'If `repack` fails or the process dies at any file operation of it, all larrys remain readable, unchanged, in the archive or, while it is being replaced, in a file next to it whose name starts with that of the archive. '
  'A repack that returns leaves one file with exactly the same larrys and without the space that deleted larrys had taken.',
  ['fault_sequences', 'crash_points'], 'all unsavable larrys and all file operations of repack as fault or crash point',
  'Tests never inject faults or kill the process.',
  [IO], [('_larry2arrays before writing', IO), ('repack: copy, rename, rename, remove', IO + ': repack')],
  ['directory contents and archive contents after each injected fault or crash'])

p('C27', 'The testing helpers accept equal larrys and reject every difference',
  '`assert_larry_equal` passes for two larrys (or scalars) with equal labels and data (to 13 decimals for float data, NaN equal to NaN) and equal dtype, and raises AssertionError for any difference in a label, a value, the shape, the dtype (unless told to ignore it) or the type, and for shared or unshared references when asked to check copies or views. '
  '`assert_iscopy`, `assert_isview`, `noreference` and `nocopy` report sharing of the data and of the labels of every axis.',
  ['inputs'], 'all pairs of larrys differing in nothing or in a single aspect at any position',
  'The helpers are the oracle of the unit tests; tests of the helpers cover a few differences.',
  ['la/util/testing.py'], [('assert_larry_equal, assert_iscopy, assert_isview, noreference, nocopy', 'la/util/testing.py')])

p('C28', 'Yahoo quotes become the larry that the downloaded tables describe',
  'For any tickers and any well-formed price tables served for them, `quotes` returns the 3d larry over tickers, items and the sorted union of dates that holds each price under its ticker, item and date, NaN where a ticker has no price on a date, and prices scaled by adjusted close over close when adjusting. '
  'The first line and lines without exactly seven fields are skipped, and the requested dates and upper-case ticker are what is asked from the server.',
  ['inputs'], 'all sets of tickers, tables in any date order, with gaps and malformed lines, both adjust modes',
  'There are no tests of this module, which needs the network (stubbed here).',
  ['la/data/yahoo.py', 'la/external/matplotlib.py'], [('quotes', 'la/data/yahoo.py'), ('parse_yahoo_historical, fetch_historical_yahoo', 'la/external/matplotlib.py')],
  ['requests made to the stubbed server', 'return value'])

p('C29', 'A result depends on the values of the operands and on nothing else',
  'An operation on larrys, arrays and lists of labels gives the same labels with the same types, the same shape, dtype and values (up to rounding of float data), or the same type of exception, whenever it is called with operands of the same value (of labels that are equal but of different types any may be taken). '
  'It does not matter how the data lies in memory (C or Fortran order, reversed, strided, or read-only if the operation does not work in place), whether equal label lists and equal operands are one object or several, which calls were made before, or what the hash seed of the interpreter is. '
  'Operations on files and functions the user passes that are not functions of their arguments are not part of this.',
  ['inputs', 'histories', 'configurations'], 'all operations, operands, memory layouts and sharing of the operands, and preceding calls',
  'Unit tests call an operation once, on freshly made contiguous data with label lists of its own.',
  [D, 'la/flarry.py', 'la/flabel.py', 'la/farray'], [('every operation', D), ('align, binaryop, sortby, union', 'la/flarry.py'), ('listmap, listmap_fill', 'la/flabel.py')],
  ['outcome of the same call on copies of the operands', 'outcome in an interpreter with another hash seed'])

p('C30', 'Printed forms, tables and list helpers show exactly what is there',
  '`repr` and `str` of a larry list the labels of each axis in order (the first and last three of more than ten) followed by the data as NumPy prints it, `nx`, `size`, `shape` and `ndim` describe the data, tables have their cells in aligned columns in the given order, and `la.info` names the versions in use. '
  '`flattenlabel` lists the label tuples in the order of the flattened data, and `list2index` and `fromlists` put every element under its label in the sorted unique labels, NaN where nothing is given. '
  '`isint`, `isfloat`, `isscalar` and `isstring` follow their documented tables for every value, and `randstring` gives strings of letters and digits of the asked length.',
  ['inputs'], 'all larrys, tables of at least one row and column, lists of labels and scalars of the documented types',
  'Tests print a few larrys and use lists of two or three labels; tables and wrapping are not tested.',
  [D, 'la/flabel.py', 'la/util/misc.py', 'la/util/report.py', 'la/external/prettytable.py'],
  [('__repr__, nx, size, shape, ndim', D), ('flattenlabel, list2index', 'la/flabel.py'), ('fromlists, isint, isfloat, isscalar, isstring, randstring', 'la/util/misc.py'), ('info', 'la/util/report.py'), ('indent, wrap_always, wrap_onspace', 'la/external/prettytable.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for q in P: f.write(json.dumps(q) + '\n')
print(len(P))
