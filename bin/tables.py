"""The properties, as data."""
PROPERTIES = [
 dict(id='C01', title='A dimension name denotes one label process-wide',
  statement='A dimension label made from a name equals every other label made '
   'from that name and differs from every label made from another name, and '
   'reading its name back gives the original string, no matter which threads '
   'create labels at the same time. When the label space is exhausted or '
   'memory runs out, the call fails with an exception, and every label made '
   'before and after it stays correct.',
  over=['schedules', 'histories', 'fault_sequences'],
  text='All interleavings of label creation, lookup and comparison by any '
   'number of threads, all sets of names, every failing allocation.',
  why='Unit tests create labels from one thread, one after another, and never '
   'fail an allocation or reach the capacity of the label table.',
  files=['lib/units/dim.cpp', 'lib/units/include/scipp/units/dim.h'],
  mechanism=[('reader/writer lock around the table of user labels',
              'lib/units/dim.cpp Dim::Dim(const std::string &)'),
             ('builtin table consulted first', 'lib/units/dim.cpp builtin_ids'),
             ('capacity check', 'lib/units/dim.cpp')],
  observe=['units::Dim(std::string)', 'Dim::name', 'operator==', 'std::hash'],
  state=[('custom_ids', 'name to id of user labels', 'lib/units/dim.cpp')]),
 dict(id='C02', title='Element-wise operations are layout independent',
  statement='An element-wise operation on variables, dense or binned, gives '
   'for each element of the broadcast operands the value, variance, dtype and '
   'unit defined by the operation, whatever the memory layout of the operands '
   '(transposed, sliced, broadcast, empty, bins in any order, bin buffers '
   'with several dimensions in any order) and however the work is split over '
   'threads. In-place operations do so too when operands overlap in memory or '
   'are the same object, and nothing outside the elements of the output is '
   'written.',
  over=['inputs', 'schedules'],
  text='All shapes and memory layouts of one to four operands, dtypes with '
   'and without variances, dense and binned, all splits of the work and all '
   'interleavings of the tasks.',
  why='Unit tests use a few small shapes under one schedule; layouts are '
   'combined with operand counts, bins and aliasing only in samples.',
  files=['lib/variable/include/scipp/variable/transform.h',
         'lib/core/multi_index.cpp', 'lib/variable/arithmetic.cpp',
         'lib/variable/pow.cpp', 'lib/variable/astype.cpp',
         'lib/variable/bins.cpp', 'lib/variable/variable_factory.cpp',
         'lib/variable/include/scipp/variable/bin_array_variable.tcc',
         'lib/variable/include/scipp/variable/element_array_model.h'],
  mechanism=[('iteration over operands in chunks', 'transform.h '
              'inner_loop, in_place::transform_data'),
             ('copy of an overlapping operand', 'transform.h '
              'transform_data, overlaps'),
             ('sequential loop if the output is broadcast', 'transform.h'),
             ('buffer strides aligned by label',
              'multi_index.cpp aligned_strides')],
  observe=['operator+ - * / % and comparison', 'operator+= -= *= /=',
           'variable::transform', 'transform_in_place', 'copy', 'astype',
           'to_unit', 'nan_to_num', 'where']),
 dict(id='C03', title='Reductions do not depend on threads or layout',
  statement='Sums, means, extrema, logical reductions and cumulative sums of '
   'variables, dense or binned, over one dimension, over all of them or over '
   'the events of each bin, give for every output element the reduction of '
   'exactly the input elements that belong to it, each counted once and on '
   'top of existing contents where there are any, whatever the memory layout, '
   'the sizes (including empty ones and those that switch to threaded code) '
   'and the way threads share the work. Inputs and memory outside of the '
   'output are not modified, and threads do not race.',
  over=['inputs', 'schedules'],
  text='All shapes and layouts of input and output, all operations and dtypes '
   'including NaN, bins of any size, all splits of the work into chunks and '
   'all interleavings of the chunks.',
  why='Unit tests reduce small arrays, which take the unthreaded code path, '
   'or compare one large array under whatever schedule happens.',
  files=['lib/variable/include/scipp/variable/accumulate.h',
         'lib/variable/reduction.cpp', 'lib/variable/cumulative.cpp',
         'lib/variable/operations_common.h',
         'lib/core/include/scipp/core/element/cumulative.h'],
  mechanism=[('chunks of the input with private outputs, or chunks of the '
              'output', 'accumulate.h do_accumulate'),
             ('check that starting values are idempotent',
              'accumulate.h do_accumulate'),
             ('private copy against false sharing', 'accumulate.h '
              'reduce_chunk')],
  observe=['variable::sum, nansum, min, max, nanmin, nanmax, all, any, mean, '
           'nanmean', 'bins_*', '*_into', 'cumsum, cumsum_bins']),
 dict(id='C10', title='The shared memory pool never gives out memory twice',
  statement='Every block the memory pool or the aligned allocator hands out '
   'is at least as large and as aligned as asked, does not overlap any other '
   'block in use, keeps its contents until it is given back, and all memory '
   'is released when the pool ends. This holds when several threads allocate '
   'and release at once and when the underlying allocation fails, in which '
   'case the pool remains usable and loses no memory.',
  over=['schedules', 'histories', 'fault_sequences'],
  text='All interleavings of allocate and deallocate by several threads, all '
   'sizes and alignments, every point where the underlying allocation fails.',
  why='There are no tests of the pool with several threads or failing '
   'allocations.',
  files=['lib/core/include/scipp/core/memory_pool.h',
         'lib/core/include/scipp/core/aligned_allocator.h'],
  mechanism=[('mutex around the free lists', 'memory_pool.h'),
             ('size classes', 'memory_pool.h'),
             ('over-aligned operator new', 'aligned_allocator.h')],
  observe=['MemoryPool::allocate', 'MemoryPool::deallocate', 'instance',
           'AlignedAllocator']),
 dict(id='C11', title='Parallel loops run each index once; sort orders all',
  statement='A parallel loop visits every index of its range exactly once, in '
   'non-empty chunks inside the range, all work is finished when it returns, '
   'and an exception from a chunk reaches the caller after all running chunks '
   'have ended. A parallel sort returns an ordered permutation of its input.',
  over=['schedules', 'inputs', 'fault_sequences'],
  text='All task schedules, worker counts, ranges, grain sizes, nesting '
   'levels, concurrent callers and positions of a throwing chunk.',
  why='Unit tests run a few ranges under whatever schedule the machine '
   'happens to produce; none throws from a chunk.',
  files=['lib/core/include/scipp/core/parallel-tbb.h'],
  mechanism=[('range with default grain size', 'parallel-tbb.h blocked_range'),
             ('forwarding to the task library', 'parallel-tbb.h parallel_for, '
              'parallel_sort')],
  observe=['core::parallel::parallel_for', 'core::parallel::parallel_sort']),
 dict(id='C12', title='Element storage is a value: independent deep copies',
  statement='The array type that holds the elements of every variable behaves '
   'as a value: a copy has the same elements and is independent, a move '
   'leaves the source empty, resizing and resetting give what they document, '
   'and the distinction between "no elements" and "not set" survives. If '
   'memory runs out or copying an element fails, both operands are as they '
   'were before, nothing leaks, and every element is destroyed exactly once; '
   'several threads may copy from the same array at once.',
  over=['histories', 'fault_sequences', 'schedules'],
  text='All histories of construction, copy, move, resize, reset and element '
   'writes over a few arrays and element types, every failing allocation or '
   'element copy, concurrent copying of one array.',
  why='Unit tests perform one operation each on small arrays, and never fail '
   'an allocation or an element copy.',
  files=['lib/core/include/scipp/core/element_array.h'],
  mechanism=[('null state as size -1', 'element_array.h'),
             ('copy-and-swap', 'element_array.h operator='),
             ('parallel copy and fill', 'element_array.h')],
  observe=['core::element_array']),
 dict(id='C13', title='Traversal split at any point covers each element once',
  statement='Traversing strided, transposed, sliced, broadcast or binned '
   'operands visits exactly the elements that correspond to each other, in '
   'row-major order of the iteration dimensions. Splitting the traversal at '
   'any points and running the pieces in any order or on any threads visits '
   'the same elements, each exactly once and each within its own piece, and '
   'never touches memory outside of the operands.',
  over=['inputs', 'schedules'],
  text='All shapes, memory layouts, numbers of operands, bin sizes including '
   'empty bins, and all ways the task scheduler splits the range.',
  why='Unit tests check a list of small shapes with one cut each, mostly with '
   'a single operand layout.',
  files=['lib/core/include/scipp/core/multi_index.h',
         'lib/core/multi_index.cpp',
         'lib/core/include/scipp/core/view_index.h', 'lib/core/view_index.cpp',
         'lib/core/include/scipp/core/element_array_view.h',
         'lib/core/element_array_view.cpp',
         'lib/common/include/scipp/common/index_composition.h',
         'lib/core/strides.cpp'],
  mechanism=[('positioning at a flat index', 'multi_index.h set_index, '
              'view_index.h set_index'),
             ('flattening of contiguous dimensions',
              'multi_index.cpp flatten_dims'),
             ('stepping over empty bins', 'multi_index.h seek_bin'),
             ('chunk boundaries', 'multi_index.h in_same_chunk, '
              'inner_distance_to_end')],
  observe=['core::MultiIndex', 'core::ViewIndex', 'core::ElementArrayView']),
 dict(id='C14', title='Views share, copies do not, over any history',
  statement='A slice, transpose, rename, fold, broadcast or squeeze of a '
   'variable and a plain (shallow) copy refer to the elements of their '
   'source: a write through any of them is seen through all others that '
   'cover the element and through nothing else, while copy() and the results '
   'of out-of-place operations are independent. A read-only variable and every '
   'view derived from it refuse all writes and leave contents unchanged. '
   'This holds after any sequence of creating views, copying, assigning, '
   'moving, writing elements, slices, units and variances, concatenating and '
   'flattening, dense or binned, including writes whose source and target '
   'overlap.',
  over=['histories', 'inputs', 'schedules'],
  text='All sequences of view, ownership and mutation operations on a set of '
   'dense and binned variables of drawn layout and dtype, with the task '
   'schedules of the operations that run in parallel.',
  why='Unit tests make one view of one variable and one write; the meaning of '
   'sharing depends on the whole history of views, copies and writes.',
  files=['lib/variable/variable.cpp', 'lib/variable/shape.cpp',
         'lib/variable/include/scipp/variable/element_array_model.h',
         'lib/variable/include/scipp/variable/element_array_variable.tcc',
         'lib/variable/include/scipp/variable/bin_array_model.h',
         'lib/variable/bins.cpp', 'lib/core/strides.cpp'],
  mechanism=[('shared model handle, offset and strides per view',
              'variable.cpp slice, transpose, broadcast, fold, as_const'),
             ('read-only flag', 'variable.cpp expect_writable'),
             ('deep copy', 'variable.cpp copy'),
             ('assignment through a view', 'variable.cpp setSlice')],
  observe=['Variable::slice, transpose, broadcast, fold, rename_dims, '
           'as_const, setSlice, setUnit, setVariances', 'flatten', 'squeeze',
           'copy', 'concat', 'operator=, +=, *=', 'is_readonly', 'is_same']),
 dict(id='C07', title='A rejected in-place operation has no effect',
  statement='An operation that modifies its target (in-place arithmetic and '
   'logic, operations with an output argument, setSlice, setUnit, '
   'setVariances, setData, inserting or erasing coords and masks, bins.append '
   'and bins.scale) of a variable, data array or dataset either completes or '
   'raises. If it raises, the target, the memory it shares with others, the '
   'other items of the dataset, masks, coords and the operand are exactly as '
   'before. If it completes, the result is that of the same operation on '
   'independent copies, each item of a dataset once, with the masks of both '
   'sides combined, and the operand is unchanged.',
  over=['inputs', 'fault_sequences', 'schedules'],
  text='Targets and operands of drawn dimensions, layout, dtype, unit, '
   'variances, binning, masks, coords, read-only flags and aliasing, most of '
   'them compatible and a part not, in a way that is rejected at any point of '
   'the operation, including at the last item of a dataset.',
  why='A partial effect appears only for a combination of items of which a '
   'late one is rejected; tests check a few such combinations.',
  files=['lib/dataset/arithmetic.cpp', 'lib/dataset/dataset.cpp',
         'lib/dataset/data_array.cpp', 'lib/dataset/sized_dict.cpp',
         'lib/templates/dataset_inplace.cpp.in', 'lib/dataset/bins.cpp',
         'lib/variable/variable.cpp', 'lib/variable/pow.cpp',
         'lib/variable/include/scipp/variable/transform.h',
         'lib/variable/include/scipp/variable/bin_array_variable.tcc'],
  mechanism=[('dry run over all items before the first change',
              'arithmetic.cpp dry_run_op, apply, apply_with_delay'),
             ('validation of slices', 'variable.cpp validateSlice'),
             ('validation of masks', 'dataset.cpp union_or_in_place'),
             ('unit, variance and dimension checks before the element loop',
              'transform.h do_transform_in_place')],
  observe=['operator+= -= *= /= |= &= ^= of Variable, DataArray, Dataset',
           'setSlice', 'setData', 'coords().set, erase', 'masks().set, erase',
           'pow, sqrt, ... with an output argument', 'setUnit, setVariances',
           'buckets::append, buckets::scale']),
 dict(id='C04', title='Binning and histogramming keep every event exactly once',
  statement='Binning and grouping (including of data that is binned already, '
   'in one or two stages and chunk by chunk), histogramming, concatenation '
   'and appending of bins, and lookups and scaling by a histogram put every '
   'event into the bin its coordinates, group labels and outer bin determine, '
   'exactly once, with its data, coords and masks unchanged: edges are closed '
   'on the left and open on the right, events outside of all bins or with NaN '
   'coordinates are dropped, and events in masked input bins are dropped where '
   'masks along a handled dimension apply. Histograms and rebinned counts, '
   'and their variances, are the sums of the contributing events or of the '
   'overlapping fractions of counts. Input is never modified and the result '
   'does not depend on threads, task order, memory layout or the spacing of '
   'the edges.',
  over=['inputs', 'schedules'],
  text='Event tables and binned data of drawn dimensions, memory layout, '
   'unused buffer regions, dtype, masks and event coords; linear, drifting, '
   'non-linear, sorted and unsorted edges and groups, coordinates on and next '
   'to edges; erased dimensions; each run under a drawn number of threads and '
   'task order.',
  why='Loss or duplication depends on the combination of the layout of input '
   'bins, number of output bins (which selects among several algorithms), '
   'position of events relative to edges and split among threads; tests sample '
   'a few small inputs.',
  files=['lib/dataset/bin.cpp', 'lib/dataset/bins.cpp',
         'lib/dataset/bin_detail.cpp',
         'lib/dataset/histogram.cpp', 'lib/dataset/rebin.cpp',
         'lib/variable/rebin.cpp', 'lib/variable/cumulative.cpp',
         'lib/variable/bin_detail.cpp',
         'lib/core/include/scipp/core/histogram.h',
         'lib/core/include/scipp/core/element/bin.h',
         'lib/core/include/scipp/core/element/bin_detail.h',
         'lib/core/include/scipp/core/element/histogram.h',
         'lib/core/include/scipp/core/element/event_operations.h',
         'lib/core/include/scipp/core/element/rebin.h'],
  mechanism=[('counting, offsets and filling of output bins',
              'bin.cpp TargetBins, SingleStageMapper, TwoStageMapper; '
              'element/bin.h map_to_bins, bin_index_to_full_index'),
             ('bin of an event', 'core/histogram.h get_bin; '
              'element/bin.h update_indices_by_binning'),
             ('copying of bins', 'bins.cpp concatenate_impl, append_impl; '
              'variable copy_slices'),
             ('parallel histogramming in chunks with a final sum',
              'histogram.cpp')],
  observe=['bin, group with erase', 'histogram', 'rebin',
           'buckets::concatenate', 'buckets::append', 'concat of binned data',
           'buckets::map, lookup and scale', 'buckets::histogram',
           'bin sizes and bin contents']),
 dict(id='C05', title='Groups, masked reductions and sorting use every element exactly once',
  statement='A groupby reduction combines, for each group, exactly the '
   'unmasked slices whose key equals the group label (NaN equals NaN) or lies '
   'in the half-open interval of the group, each once, and lists groups in '
   'ascending order. Reductions of data arrays, datasets and events ignore '
   'precisely what masks depending on a reduced dimension hide, drop metadata '
   'that depends on it and keep the rest. Sorting and extracting permute or '
   'select whole slices: data, coords, masks, attributes and events at one '
   'position stay together, none is lost or duplicated, keys come out in '
   'order, inputs are not modified, and results do not depend on threads, '
   'order of tasks, memory layout or number of elements.',
  over=['inputs', 'schedules'],
  text='Dense and binned data of drawn dimensions, layout, dtype, with NaN, '
   'variances, bin-edge and multi-dimensional coords and masks; keys of any '
   'dtype with repeated values and NaN, groups by value or edges; each run '
   'under a drawn number of threads and task order.',
  why='Errors show for particular combinations of mask dimensions, order of '
   'dimensions, key distribution and split among threads, of which tests '
   'sample a few.',
  files=['lib/dataset/groupby.cpp', 'lib/dataset/sort.cpp',
         'lib/dataset/extract.cpp', 'lib/dataset/variable_reduction.cpp',
         'lib/dataset/dataset_operations_common.h', 'lib/dataset/mean.cpp',
         'lib/variable/reduction.cpp', 'lib/variable/sort.cpp',
         'lib/variable/operations.cpp'],
  mechanism=[('slices of groups', 'groupby.cpp MakeGroups'),
             ('reduction of groups in parallel', 'groupby.cpp reduce_'),
             ('masks along a dimension', 'sized_dict.h irreducible_mask, '
              'variable_reduction.cpp'),
             ('permutation', 'sort.cpp, extract.cpp')],
  observe=['groupby(...).sum, mean, max, all, concat ...',
           'sum, nansum, mean, ... of DataArray and Dataset', 'bins_sum ...',
           'sort', 'extract']),
 dict(id='C06', title='Sharing objects between threads is safe where nobody writes the same data',
  statement='Any number of threads may read, copy, slice, print, compare and '
   'destroy the same variables, data arrays and datasets, dense or binned, at '
   'once, and run any operation that returns a new object on them, in any '
   'interleaving: no thread reads what another writes (no data race on '
   'elements, metadata, caches or reference counts), every result equals the '
   'one obtained without concurrency, the shared objects stay as they were '
   'and everything is released exactly once when the last reference goes. '
   'Threads may also write concurrently to disjoint slices of one object, and '
   'then every slice holds exactly what its thread wrote.',
  over=['schedules', 'histories', 'inputs'],
  text='Two to four clients running about 210 operations of the library on '
   'shared objects of drawn shape, layout and dtype, each operation in turn '
   'splitting into tasks; every interleaving of clients and tasks.',
  why='Python users run scipp without the GIL; a lazily filled cache, a lock '
   'that is too narrow or a write through a shared handle shows only in '
   'certain interleavings, which unit tests neither choose nor can observe.',
  files=['lib/variable/include/scipp/variable/variable.h',
         'lib/variable/include/scipp/variable/bin_array_model.h',
         'lib/variable/include/scipp/variable/element_array_model.h',
         'lib/core/include/scipp/core/dict.h',
         'lib/dataset/sized_dict.cpp', 'lib/dataset/data_array.cpp',
         'lib/dataset/dataset.cpp', 'lib/dataset/string.cpp',
         'lib/core/string.cpp', 'lib/units/dim.cpp',
         'lib/variable/variable_factory.cpp', 'lib/common/numeric.h'],
  mechanism=[('shared ownership of elements and metadata',
              'variable.h data handle, data_array.h shared_ptr of dicts'),
             ('shared event buffer of bins', 'bin_array_model.h'),
             ('process-wide registries', 'dim.cpp, variable_factory.cpp, '
              'string.cpp formatter registry')],
  observe=['every const operation', 'setSlice and in-place operations of '
           'disjoint slices', 'copy', 'to_string']),
 dict(id='C08', title='A failed allocation is reported, leaks nothing and leaves the rest usable',
  statement='Whichever memory allocation fails during an operation, in '
   'whichever thread or task of it, the operation either completes with its '
   'usual result or reports the failure to its caller as an exception. It '
   'never terminates the process, hangs, or touches memory it does not own; '
   'what it had allocated is released; operations that return a new object '
   'leave their operands as they were; operations in place leave '
   'a well-formed object that still can be used, and their other operands '
   'untouched; other threads are not affected; and the same operation '
   'succeeds with its usual result as soon as memory is available again.',
  over=['fault_sequences', 'inputs', 'schedules'],
  text='About 210 operations of the library on objects of drawn shape, layout '
   'and dtype; the n-th allocation inside the operation fails, for every n, '
   'alone or with all that follow, in any thread of the operation.',
  why='Each allocation is a crash point; there are hundreds per operation and '
   'no test makes any of them fail. Binning and grouping large event data is '
   'where running out of memory happens in practice.',
  files=['lib/core/include/scipp/core/dict.h',
         'lib/core/include/scipp/core/element_array.h',
         'lib/variable/include/scipp/variable/visit.h',
         'lib/variable/include/scipp/variable/bin_array_model.h',
         'lib/variable/variable_factory.cpp', 'lib/dataset/bin.cpp',
         'lib/dataset/bins.cpp', 'lib/dataset/sized_dict.cpp',
         'lib/dataset/dataset.cpp', 'lib/dataset/groupby.cpp',
         'lib/core/include/scipp/core/parallel-tbb.h'],
  mechanism=[('order of updates', 'dict.h insert_or_assign, '
              'element_array.h resize'),
             ('propagation through tasks', 'parallel_for of transform, '
              'groupby, bins'),
             ('noexcept only where nothing allocates', 'bins_view.h, visit.h')],
  observe=['exception type', 'live memory after the operation',
           'operands and results', 'repetition without faults']),
 dict(id='C09', title='Coords, masks, attrs and dataset items are consistent ordered dictionaries',
  statement='Over any history of insertions, replacements, removals, slices, '
   'copies, renamings and failed attempts, the dictionaries of a data array '
   'or dataset (coords, masks, attrs, items) hold exactly the entries that '
   'the history implies, in order of insertion and each with its own value, '
   'alignment and read-only flag; every entry fits the sizes of the object '
   'that holds it (up to one bin edge more in one dimension); objects that '
   'share an entry see the same data and others do not; a slice is read-only '
   'in its dictionaries, whatever is made from it by copying or inserting is '
   'not; and a rejected operation or failed allocation leaves all of them as '
   'they were.',
  over=['histories', 'fault_sequences', 'schedules'],
  text='Drawn histories of up to 40 operations on several data arrays and '
   'datasets that share variables, with operands that do not fit, failing '
   'allocations, and several clients that work on copies.',
  why='Consistency of the dictionaries depends on all operations that were '
   'applied before, on which objects share entries and where an operation '
   'failed; tests look at single operations on fresh objects.',
  files=['lib/core/include/scipp/core/dict.h', 'lib/core/sizes.cpp',
         'lib/core/dimensions.cpp', 'lib/dataset/sized_dict.cpp',
         'lib/dataset/data_array.cpp', 'lib/dataset/dataset.cpp'],
  mechanism=[('order and keys in step with values', 'dict.h, sizes.cpp '
              'small_stable_map'),
             ('sizes are checked on insertion', 'sized_dict.cpp set, setSizes; '
              'dataset.cpp setData, setCoord'),
             ('read-only flags', 'sized_dict.cpp slice, copy constructor')],
  observe=['keys, order, values, identity of storage, flags of all '
           'dictionaries', 'sizes', 'exceptions']),
 dict(id='C15', title='Coords, masks, attrs and event data stay attached to the right elements',
  statement='Through any sequence of slicing by position or label, '
   'transposing, folding, flattening, squeezing, renaming, resizing and '
   'copying, every element of a data array keeps exactly the coords, masks, '
   'attrs and bin contents it had, bin edges included, with alignment and '
   'name; concatenating puts elements with their meta data together in '
   'order (cutting and concatenating gives the original) and rejects edges '
   'that do not join. Operations on two data arrays or datasets (items by '
   'name) reject mismatching aligned coords, unite masks, and keep attrs and '
   'unaligned coords only if they match, and the result always has '
   'dictionaries that fit its data; a function of a dataset gives for every '
   'item what it gives for the item alone. Operands do not change and '
   'results own their masks.',
  over=['histories', 'inputs', 'fault_sequences', 'schedules'],
  text='Drawn histories of structural operations on data arrays with all '
   'kinds of coords, edges in one of several dimensions, masks, bins with '
   'event coords; operands that do not match; failing allocations; several '
   'threads.',
  why='Which meta data belongs to an element depends on all operations that '
   'were applied before, on the layout they left behind and on the kind of '
   'coord; tests apply one operation to fresh 1-D or 2-D arrays.',
  files=['lib/dataset/shape.cpp', 'lib/dataset/slice.cpp',
         'lib/dataset/data_array.cpp', 'lib/dataset/sized_dict.cpp',
         'lib/dataset/arithmetic.cpp', 'lib/dataset/dataset.cpp',
         'lib/variable/shape.cpp', 'lib/variable/slice.cpp',
         'lib/core/dimensions.cpp', 'lib/core/slice.cpp',
         'lib/templates/dataset_binary.cpp.in',
         'lib/templates/dataset_inplace.cpp.in',
         'lib/templates/dataset_unary.cpp.in',
         'lib/dataset/counts.cpp', 'lib/dataset/sort.cpp',
         'lib/dataset/dataset_operations_common.h'],
  mechanism=[('bin edges follow their bins', 'shape.cpp fold_bin_edge, '
              'flatten_bin_edge, join_edges; sized_dict.cpp slice_map'),
             ('label to position', 'variable/slice.cpp get_slice_params'),
             ('union and intersection of meta data', 'sized_dict.cpp union_, '
              'intersection; dataset.cpp union_or')],
  observe=['every element with its coords, masks, attrs and events, after '
           'each step', 'sizes', 'exceptions']),
]

# (property, reason)
NOT_APPLICABLE = [
 (dict(id='C16', title='Unit algebra and unit conversion are exact',
  statement='Units multiply, divide and take powers as physical dimensions '
   'do, conversion between compatible units scales every value by the exact '
   'ratio of the units, and conversion between incompatible units is '
   'rejected.',
  over=['inputs'], text='All units and values.',
  why='Tests convert a handful of units.',
  files=['lib/units/unit.cpp', 'lib/variable/to_unit.cpp'],
  mechanism=[('wrapper of the LLNL units library', 'lib/units/unit.cpp')]),
  'Pure functions without concurrency, time, I/O or several parties: there is '
  'no schedule and no fault to search over. The LLNL units library that '
  'implements them is not available in this sandbox either (a stub takes its '
  'place). That operations reject operands of mismatching units without '
  'effect is decided by C02 and C07.'),
 (dict(id='C17', title='Variances are propagated to first order',
  statement='Every operation on values with variances gives the variances of '
   'first-order propagation of uncorrelated errors for its formula, and '
   'special functions and spatial transformations have the accuracy of their '
   'floating-point type.',
  over=['inputs'], text='All finite values and variances.',
  why='Tests evaluate the formulas for a few numbers.',
  files=['lib/core/include/scipp/core/value_and_variance.h',
         'lib/core/include/scipp/core/transform_common.h',
         'lib/core/include/scipp/core/spatial_transforms.h'],
  mechanism=[('overloads for ValueAndVariance', 'value_and_variance.h')]),
  'Numerical formulas of single scalars: pure functions with nothing for a '
  'simulator to schedule or fail. That the library applies the formula of the '
  'operation to each element with its own variance, under every layout and '
  'split of the work, is decided by C02, C03 and C15.'),
 (dict(id='C18', title='Files written can be read back, or are seen to be bad',
  statement='What is saved to HDF5 and loaded again is identical to the '
   'original, and a write that was cut short by an error or a crash does not '
   'yield a file that loads as something else.',
  over=['inputs', 'crash_points', 'fault_sequences'],
  text='All objects; all points of failure during a save.',
  why='Tests save and load samples without failures.',
  files=['src/scipp/io/hdf5.py'],
  mechanism=[('one HDF5 group per object', 'src/scipp/io/hdf5.py')]),
  'The I/O of the repository is Python code on top of h5py, numpy and the '
  'compiled extension module; h5py, numpy and pybind11 are not installed and '
  'cannot be fetched, so that none of it can run here. The C++ libraries '
  'perform no I/O.'),
 (dict(id='C19', title='Python objects never outlive or lose the data they show',
  statement='numpy arrays and scipp objects obtained in Python keep the data '
   'they show alive, show writes to it, and functions that release the GIL '
   'touch no Python object while they do.',
  over=['histories', 'schedules'],
  text='All sequences of getting, writing and dropping views in Python, and '
   'all interleavings of Python threads.',
  why='Tests are single threaded and keep all owners alive.',
  files=['lib/python/bind_data_access.h', 'lib/python/py_object.cpp',
         'lib/python/view.h'],
  mechanism=[('keep_alive and base objects', 'bind_data_access.h'),
             ('GIL guards', 'py_object.cpp')]),
  'The extension module needs pybind11 and numpy, which are not installed, so '
  'that it cannot be compiled. What Python threads without the GIL can do to '
  'the C++ objects is decided by C06.'),
 (dict(id='C20', title='Coordinate transformations follow the graph',
  statement='transform_coords computes each requested coord from the inputs '
   'the graph names, each intermediate result once, renames dimensions only '
   'where the graph is unambiguous, and leaves its input unchanged.',
  over=['inputs', 'programs'], text='All graphs and data.',
  why='Tests use sample graphs.',
  files=['src/scipp/coords/transform_coords.py', 'src/scipp/coords/graph.py',
         'src/scipp/coords/rule.py'],
  mechanism=[('topological order of rules', 'src/scipp/coords/graph.py')]),
  'Single-threaded Python code without time or I/O, on top of the extension '
  'module that cannot be compiled here. The C++ operations it uses (renaming, '
  'alignment flags, sharing of coords) are decided by C09 and C15.'),
]

# id: (oracle in a few words, level note)
CHECKS = {
 'C01': ('linearised name table as reference model, race check',
         'Real dim.cpp under simulated threads, locks and heap, with '
         'failing allocations and a full table.'),
 'C02': ('element-by-element reference model over raw memory, race and '
         'bounds check',
         'Real variable library on operands of drawn layouts under simulated '
         'task splits.'),
 'C03': ('sequential reference reduction over raw memory, race and '
         'bounds check',
         'Real reduction code, including inputs above the threading '
         'thresholds, under simulated task splits.'),
 'C10': ('shadow ownership map as reference model, race and leak check',
         'Real pool and allocator headers under simulated threads, locks and '
         'heap with failing allocations.'),
 'C11': ('exactly-once counters and sequential sort as reference',
         'Real wrappers and oneTBB headers on a simulated task scheduler, '
         'with throwing chunks, nesting and concurrent callers.'),
 'C12': ('history against a value model, leak and double-destroy check',
         'Real header with failing allocations and throwing element copies at '
         'chosen points and simulated threads.'),
 'C13': ('nested sequential loops as reference, bounds and race check',
         'Real index classes, split by the real partitioners under simulated '
         'steals.'),
 'C14': ('store-of-elements reference model checked after every step, race '
         'and bounds check',
         'Real variable library driven through drawn histories under simulated '
         'task splits.'),
 'C07': ('seeded rejection of operations at any point, comparison of all '
         'state before and after, operations on copies as reference',
         'Real variable and dataset libraries; faults are the drawn '
         'incompatibilities.'),
 'C04': ('seeded simulation of drawn inputs and task schedules against '
         'a model that places each event by its coordinates',
         'Real binning, histogramming and transform code with the simulated '
         'task arena; no faults are injected here (C08 does).'),
 'C05': ('seeded simulation of drawn inputs and task schedules against a '
         'model that finds the members of groups one by one',
         'Real groupby, reduction and sort code with the simulated task arena; '
         'no faults are injected here (C08 does).'),
 'C06': ('seeded simulation of client threads and tasks with a happens-before '
         'race detector on all memory; results compared with the ones of '
         'sequential execution',
         'Real scipp libraries; threads are simulated and every memory access '
         'of library code is a point where the scheduler may switch. libstdc++ '
         'and the unit library are not instrumented except where intercepted.'),
 'C08': ('seeded simulation with failing allocations: the same operation run '
         'without fault, with a fault at a drawn allocation, and again without',
         'Real scipp libraries on a simulated allocator that fails the drawn '
         'allocation; text results are not compared because standard streams '
         'truncate silently when memory runs out.'),
 'C09': ('seeded simulation of histories against a reference model of ordered '
         'dictionaries with sharing, with rejected operands, failing '
         'allocations and several clients',
         'Real scipp libraries; simulated allocator and threads.'),
 'C15': ('seeded simulation of histories against a reference model that '
         'tracks the meta data of every element, with failing allocations '
         'and several threads',
         'Real scipp libraries; simulated allocator and threads.'),
}
