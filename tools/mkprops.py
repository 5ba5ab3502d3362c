#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that the lines stay well formed)."""
import json, os, sys
IO='src/pyhipp/io/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=(),state=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
            state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=hook)))
H5=IO+'h5/named_objs.py'
prop('C01','HDF5 trees read back exactly as written',
 'Nested mappings, arrays, numbers, text and bytes written through the HDF5 layer (whole trees, single items, or items created empty and filled later) read back with the same tree of names and, item by item, the same dtype, shape and values, text coming back as its UTF-8 bytes. Key listings, membership, lookup by nested path or by several keys, selection by pattern, and deletion behave as those of a nested dictionary. This holds after any history of writes, overwrites and deletions, however several clients working on their own groups or files are interleaved, and when the operating system transfers data in pieces or interrupts transfers.',
 ['inputs','histories','schedules','fault_sequences'],
 'Any supported tree (all dtypes, 0-d to n-d, empty arrays, deep nesting, unusual names), any operation history, any interleaving of clients on disjoint groups/files, any pattern of short transfers and EINTR.',
 'tests/pyhipp/io/test_h5.py writes a handful of small float/int datasets in one thread on a healthy file system; it never varies dtype, shape, history, interleaving or transfer size.',
 [H5,IO+'h5/utils.py'],[('recursive dump/load of mappings',H5+' Group.dump, Group.load'),('dataset creation, lookup, selection',H5+' DatasetManager'),('path handling of single-call helpers',H5+' File.dump_to, File.load_from')],
 ['return values of load/lookup/listing calls','files re-read by a fresh reader'])
prop('C02','Acknowledged HDF5 writes survive process death; I/O errors are reported',
 'Once a call that dumps HDF5 data to a file, or the end of the block in which a file was open for writing, has returned without error, everything written is readable by another process even if the writing process dies at any moment before its next write to that file begins. If the storage fails while data are being written (I/O error, disk full, partial write that cannot be completed), some call made up to and including the close of the file raises; success is never reported for data that are not there. Other files finished earlier are unaffected.',
 ['crash_points','fault_sequences','histories'],
 'Process death after every acknowledged operation and between any two later file operations; any single or persistent write/truncate/open/close error, disk capacity and torn write during dumps of any tree.',
 'Tests never fail a system call or kill the process; they read back through the same healthy process.',
 [H5],[('file closed at the end of every helper / with block',H5+' File.dump_to, File.__exit__, File.close'),('write errors surfaced before the dataset handle is dropped',H5+' DatasetManager.create')],
 ['disk image reconstructed from the recorded system calls','outcome of each call'])
prop('C03','Failed or interrupted HDF5 calls release the file and damage nothing',
 'When a call on an HDF5 file fails (bad argument, redundant or missing key, unsupported value, open or read error) or is interrupted at any point, the file is released, so that it can be reopened for writing at once, every item that existed before keeps its value, and every item of the failed call is either completely present or absent (after a disk error in the middle of an update only the release is promised). A mapping containing, at any depth, a key that is not text or a value of an unsupported type (not a mapping, array, text, bytes or number) is rejected with TypeError before anything of it is written. After the failure the same request, made legal, succeeds.',
 ['fault_sequences','crash_points','inputs','histories'],
 'Any failing argument at any depth, any open/read error, an interrupt or allocation failure raised at any line of the library during any call, in any history.',
 'The tests exercise two error paths (redundant key) and no interrupt or I/O error, and never look at what a failed call leaves behind.',
 [H5,IO+'h5/utils.py'],[('whole mapping scanned before dumping',H5+' Group.dump; '+IO+'h5/utils.py Utils.is_data_dict_supported'),('files opened in with blocks',H5+' File.dump_to, load_from, ls_from')],
 ['number of open file descriptors and HDF5 handles after the call','file contents read by a fresh reader'])
prop('C04','Creation and open flags mean what they say',
 "Exclusive creation ('x') of a file, group, dataset, attribute or link fails and changes nothing if the name exists, and when several clients race to create one file, group, dataset or link exactly one succeeds. Open-or-create ('ac'/'ca') opens an existing group or empty-created dataset keeping its contents, overwrites the value of an existing dataset or attribute in place keeping its type and shape, leaves an existing entry alone where a link is asked for, and rejects an object of another kind with ValueError; whatever is rejected changes nothing. File flags read ('r'), modify ('a'), create ('x'), open-or-create ('ac'/'ca') and truncate ('w') succeed exactly when the file's existence allows and preserve or discard the old contents accordingly; any other flag raises ValueError and changes nothing.",
 ['schedules','histories','inputs'],
 'Any history of creations under every flag over a small set of names and kinds, and any interleaving of racing creators on one file.',
 'Tests call a few flags once each in one thread; races, kind mismatches, invalid flags and the preservation of the previous contents are not sampled.',
 [H5],[('flag checks before creation',H5+' create, create_empty, create_group, create_soft_link, create_external_link'),('file flag translation',H5+' File._flag_to_raw_flag')],
 ['outcome of each call','tree read back afterwards'])
prop('C05','Reading HDF5 never modifies a file, and loaded data are snapshots',
 'Loading, listing, looking up or formatting the contents of an HDF5 file - successfully or not - never changes a byte of the file and leaves it closed when the call or block ends. What was loaded stays unchanged and usable when the file is later overwritten, deleted or closed by anyone, and changing loaded data changes neither the file nor other loaded copies.',
 ['histories','schedules','fault_sequences'],
 'Any interleaving of readers with each other, any read error or short read in any of them, any later history of writes by other clients.',
 'Tests load once and compare; they do not watch the bytes of the file, inject read errors, nor change the file or the data afterwards.',
 [H5],[('read-only open in load_from and ls_from',H5+' File.__init__, load_from, ls_from'),('values materialised by [()]',H5+' DatasetManager.__getitem__, Group.load')],
 ['recorded write system calls and byte comparison of the file','loaded arrays'])
prop('C06','HDF5 attributes behave as a persistent typed dictionary',
 'Attributes attached to any file, group or dataset read back with the values, shapes and types they were created with, across reopening; assigning to an existing attribute changes its value but keeps its stored type, assigning to a missing one raises KeyError and creates nothing. Dumping and loading a set of attributes, listing, membership, pattern selection and attribute-style access agree with each other, and operations on the attributes of one object never affect those of another, however clients are interleaved.',
 ['histories','inputs','schedules','fault_sequences'],
 'Any history of attribute creations, modifications, dumps and loads on several objects by interleaved clients, with interrupts between lines and files reopened at any time.',
 'No test touches attributes beyond printing them.',
 [H5],[('create/modify/load/dump of attributes',H5+' AttrManager')],['attribute values after reopening'])
prop('C07','Objects and text tables stored in HDF5 come back whole',
 'An object that declares its HDF5 fields, stored to a group or file and read back, has equal fields, including nested declared objects, tables and text fields (returned as text); column tables survive likewise. Converting a text table to HDF5 stores every declared column with its declared type and every row in order, honours the requested file and overwrite flags whether the target is a path or an open group, and on unreadable or malformed text or a failing disk raises, never leaving a silently shortened table.',
 ['inputs','histories','fault_sequences'],
 'Any nesting of declared objects, any table, any flag combination, read faults and short reads on the text file, interrupts during conversion.',
 'Not covered by any test.',
 [IO+'h5/abc.py',IO+'h5/shortcuts.py','src/pyhipp/core/containers/data_table.py'],[('field-driven conversion',IO+'h5/abc.py GroupLike, to_h5_data, from_h5_data'),('text conversion',IO+'h5/shortcuts.py txt_to_h5')],['objects and tables read back'])
prop('C08','Fortran binary sections are returned exactly or rejected',
 'Reading a Fortran sequential binary file record by record returns exactly the elements written, in order, and skipping a section leaves the reader where loading it would. If the file is truncated, a read fails or ends early, the markers around a section disagree, or a section does not have the size implied by the requested type and count, loading or skipping that section raises instead of returning data. The file is closed when its block ends, however it ends.',
 ['inputs','fault_sequences','crash_points','histories'],
 'Any sequence of sections of any types and lengths, any mix of load/skip/seek, truncation at any byte (a writer that died), corrupted markers, read errors, short reads and EINTR at any read.',
 'Not covered by any test.',
 [IO+'binary/fortran.py'],[('leading and trailing record markers compared',IO+'binary/fortran.py load_sect, skip_sect'),('with-block closing',IO+'binary/fortran.py __exit__')],['returned arrays, exceptions, file position'])
prop('C09','Layered YAML configuration is read consistently',
 'Reading configuration keys from a YAML file returns, for each requested key, the value of the deepest configured nesting level that defines it and nothing else; a missing key or node raises KeyError. Each read reflects the file as it is at that time and one single version of it, even when the file is replaced concurrently, and a read or parse failure raises, leaves no file open, and does not affect later reads.',
 ['histories','schedules','fault_sequences','inputs'],
 'Any nested configuration and key set, any interleaving with writers that atomically replace the file, any open/read error, short read or interrupt.',
 'Not covered by any test.',
 [IO+'yaml.py'],[('file opened once per read',IO+'yaml.py ConfigFileParser.get'),('later nodes override earlier ones',IO+'yaml.py __try_parse')],['returned mapping'])
prop('C10','Nested tables map to spreadsheet sheets and back',
 'Saving a nested dictionary of tables writes one sheet per table, named by the joined access path, in order, with the table unchanged, and loading rebuilds the same nesting with the same tables, as data frames or on request as column tables. If the engine or disk fails, the call raises and the writer it opened is closed; a writer supplied by the caller is left open for further use.',
 ['inputs','histories','fault_sequences'],
 'Any nesting of tables, any prefix/index/format options, several clients interleaved, an engine failing at any call.',
 'Not covered by any test (no spreadsheet engine is installed).',
 [IO+'excel/__init__.py'],[('recursive dump with path prefix',IO+'excel/__init__.py Excel.dump_file'),('splitting of sheet names',IO+'excel/__init__.py Excel.load_file')],['sheets received by the engine','loaded tables'])
prop('C11','Gridded density: mass is conserved under any split into jobs',
 'Depositing particles on the periodic grid adds each particle exactly once with total weight equal to its own, so that the final grid and its total depend only on the set of particles, not on how they are split into batches, jobs or files, in which order jobs run, dump and are joined, or which jobs crash and are retried. Joining dumped partial grids leaves the partial dumps unmodified, and a rejected batch (wrong shape or length) leaves the grid as it was. A dumped grid loads back with the same data, box size and grid number.',
 ['schedules','histories','fault_sequences','crash_points'],
 'Any partition of any particle set (any positions, weighted or not) over simulated workers, any interleaving, worker crashes and retries, I/O interruptions and join orders.',
 'No test of this part exists.',
 ['src/pyhipp/field/cubic_box/mass_assignment.py','src/pyhipp/field/cubic_box/field.py','src/pyhipp/field/cubic_box/mesh.py'],[('CIC deposit and input checks','mass_assignment.py _Linear, DensityField.add'),('dump / join / load','mass_assignment.py DensityField.dump, join_dumps, load')],['grid data','dumped files'])
prop('C12','Binned accumulation is independent of batching and loses nothing',
 'Accumulating samples into bins counts every in-range sample exactly once (with its weight) in the bin whose edges enclose it and ignores out-of-range samples, so the result depends only on the multiset of samples, not on how they were batched, ordered or interleaved with other accumulators; bin edges and centres handed out stay constant. A rejected batch leaves the accumulator usable and the caller’s arrays are never modified.',
 ['schedules','histories','fault_sequences','inputs'],
 'Any binning (equal-width or arbitrary edges), any stream split into batches by interleaved workers, failures and retries of batches.',
 'No test of this part exists.',
 ['src/pyhipp/stats/binning.py'],[('locate + accumulate','stats/binning.py Bins.locate, BinnedData.add')],['accumulated data'])
prop('C13','Random streams are reproducible and isolated',
 'A generator created from a seed yields the same stream of variates for the same sequence of requests, whatever other generators, threads, failed requests or global random state do in between; two generators created from one another share one stream, two created from seeds do not influence each other. Requests that fail do not advance or corrupt the stream, and drawing never modifies arguments except the array passed for in-place shuffling.',
 ['schedules','histories','fault_sequences'],
 'Any interleaving of clients drawing from own and shared generators with any request history, including failing requests and reseeding of global state.',
 'No test of this part exists.',
 ['src/pyhipp/stats/random.py'],[('generator wrapping','stats/random.py Rng.__init__')],['variates drawn'])
prop('C14','Resampling statistics are reproducible and keep rows together',
 'Bootstrap resampling with a given seed and inputs always produces the same result, keeps the rows of the columns of each dataset together, respects the requested sample sizes, calls the statistic exactly once per resample with the fixed arguments exactly as given, reports mean and spread over exactly those resamples, and modifies neither the datasets nor the fixed arguments. Noise added with a given generator is reproducible and leaves its input unchanged. This holds however several computations are interleaved, and if the statistic fails the error reaches the caller and a later identical call gives the identical result.',
 ['schedules','fault_sequences','inputs','histories'],
 'Any datasets and statistics, any interleaving of several resampling clients, a statistic that fails at any resample, interrupts at any line.',
 'No test of this part exists.',
 ['src/pyhipp/stats/sampling.py','src/pyhipp/astro/stats/lss.py'],[('shared row index per dataset','stats/sampling.py Bootstrap.__resample'),('own generator per call','stats/sampling.py Bootstrap.resampled_call')],['returned statistics','calls received by the statistic'])
prop('C15','Caches and lazy values never mix, lose or invent entries',
 'A cached lookup returns the value computed for exactly that key (and sub-key); once a lookup has completed, later lookups of it return that same value without computing again, entries stored explicitly are returned as stored, and no entry disappears. A computation that fails or is interrupted propagates its error and caches nothing, so the next lookup computes afresh. Lazily computed properties of immutable objects equal their eagerly computed values whoever asks first, also when the first attempt failed; all of this under any interleaving of client threads.',
 ['schedules','fault_sequences','histories'],
 'Any interleaving of client threads over a few keys, with fallbacks that fail, are interrupted or re-enter, in any history.',
 'Tests do not use the caches concurrently and never make a fallback fail.',
 ['src/pyhipp/core/abc.py','src/pyhipp/stats/binning.py','src/pyhipp/field/cubic_box/cosmic_web.py','src/pyhipp/stats/summary.py'],[('get-or-compute','core/abc.py HasCache, HasMultiCache'),('cached_property','stats/binning.py, cosmic_web.py, summary.py')],['lookup results and number of computations'])
prop('C16','Predefined cosmologies load correctly or raise, and can be retried',
 'Asking for a predefined cosmology by name gives the model described by its data file, the same object every time; its tabulated halo quantities equal the interpolation of its data table and are refused outside it. If the configuration or data file cannot be opened, read or parsed, or the load is interrupted, the request raises, nothing wrong or partial is kept, no file stays open, and the next request succeeds and gives the right values. An unknown name raises and does not affect known ones.',
 ['fault_sequences','histories','schedules'],
 'Any history of requests by interleaved clients with open/read errors, short reads and interrupts at any point of any load.',
 'Tests load the predefined models on a healthy disk in one thread.',
 ['src/pyhipp/astro/cosmology/model.py','src/pyhipp/astro/cosmology/halo_theory.py'],[('cache of loaded models','model.py _Predefined'),('lazy table load','halo_theory.py __interp')],['model parameters and interpolated values'])
prop('C17','Nested-key dictionaries behave as nested dictionaries',
 'A dictionary with nested-path and multiple-key access returns, sets and deletes exactly the addressed items: lookups by path follow the nesting, a tuple of keys acts on each in order, mappings given to the constructor, update or union contribute their items under their keys as they are, and copies and unions are new dictionaries that share no top-level structure with their sources. A failing or interrupted update changes nothing but a prefix of the addressed items and never touches others; independent dictionaries built from the same source never influence one another.',
 ['histories','fault_sequences','schedules'],
 'Any history of operations by interleaved clients on dictionaries created from common sources, with missing keys, failing sources and interrupts at any line.',
 'Two constructor tests exist; no history, failure or aliasing is tested.',
 ['src/pyhipp/core/containers/data_dict.py'],[('item access','core/containers/data_dict.py __getitem__, __setitem__, __delitem__'),('copying','data_dict.py __init__, copy, __or__')],['contents of every live dictionary after each step'])
prop('C18','Column tables own their data and keep rows aligned',
 'A table built, assigned, updated, copied, sub-selected, concatenated or exported with copying owns its columns: later changes of the sources, of other tables or of exported data never show through, under any interleaving of clients. Row and column selection, concatenation and stacking return exactly the selected rows and columns in order, without modifying their operands. A failing or interrupted operation leaves the table with each column wholly old or wholly new.',
 ['histories','schedules','fault_sequences'],
 'Any history over several tables sharing sources, by interleaved clients that mutate sources and results in between, with failing arguments and interrupts at any line.',
 'No test of this part exists.',
 ['src/pyhipp/core/containers/data_table.py'],[('copying on construction and assignment','data_table.py __init__, __setitem__, update'),('selection','data_table.py subset, subcol, concat')],['contents of every live table after each step'])
prop('C19','Log lines are complete, named, timed and switchable',
 'When verbose, each log call writes exactly one line holding its text, prefixed by the object’s name and, on request, by the time of the call as the clock shows it; when not verbose it writes nothing. Switching verbosity affects only that object and only later calls; a failing output stream raises to the caller, and once it works again later calls write complete lines. Logging returns the object itself so calls can be chained.',
 ['schedules','fault_sequences','histories'],
 'Any clock value and jump, any history of calls and switches on several objects by clients interleaved between lines, output failing at any write.',
 'No test of logging exists.',
 ['src/pyhipp/core/abc.py'],[('prefix and print','core/abc.py HasLog.log')],['text received by the output stream'])
prop('C20','Parameter lists stay consistent by name and by position',
 'In a list of named parameters, access by name, access by position, iteration, the tuple of values and the printed form always describe the same parameters: after replacing a parameter its new name finds the new parameter and its old name finds nothing, unless another holds it. Setting all values with a wrong number of values is rejected without change. A parameter’s value is its own copy of what was given, and after a failed or interrupted replacement a repeat of it succeeds and restores agreement.',
 ['histories','fault_sequences','inputs'],
 'Any history of construction, replacement and value assignment with failures, and interrupts at any line followed by a retry.',
 'No test of parameter lists beyond reading a predefined model.',
 ['src/pyhipp/astro/cosmology/param.py','src/pyhipp/core/abc.py'],[('name index','astro/cosmology/param.py ParamList'),('value copy','core/abc.py HasValue')],['lookups after each step'])
prop('C21','Plot configurations of different clients do not leak into one another',
 'A plot configuration object starts from the library defaults, is changed only by updates made on it, and applying it sets exactly its values globally; updating or applying one configuration never changes the defaults, the named style sheets or another configuration, whatever the interleaving of clients or failures while applying.',
 ['histories','schedules','fault_sequences'],
 'Any history of creation, update, style-sheet use and application on several configurations by interleaved clients, with failing updates and interrupts.',
 'No test of plotting exists.',
 ['src/pyhipp/plot/runtime_config.py'],[('per-instance configuration','plot/runtime_config.py RuntimeConfig')],['configuration dictionaries and global parameters'])
prop('C22','Drawing calls hand exactly the given data and the axes’ own style to the backend',
 'Every drawing call through an axes wrapper reaches the wrapped Matplotlib axes once with exactly the data given and the colours, widths and styles currently set on that wrapper (its formatters, colour and default-style calls), overridden by explicit keywords. Frame settings, labels, limits, legends, figures, subplots, subfigures, colour bars and secondary axes receive what was asked; an array of axes applies the call to each member. Styles set on one axes never change another’s, nor the caller’s dictionaries, colours or arrays. An unknown style key or name is rejected and never stored; a backend failure is raised to the caller and a retry succeeds.',
 ['histories','schedules','fault_sequences'],
 'Any history of style settings and drawing calls on several axes by interleaved clients sharing dictionaries and colours, with unknown keys, backend calls that fail and interrupts at any line followed by a retry.',
 'No test of plotting exists; leaks of style between axes need a history over more than one of them.',
 ['src/pyhipp/plot/axes.py','src/pyhipp/plot/artist_formatter.py','src/pyhipp/plot/figure.py','src/pyhipp/plot/color.py','src/pyhipp/plot/two_dim.py','src/pyhipp/astro/plot/shortcuts.py'],[('style assembly and pass-through','plot/axes.py, artist_formatter.py'),('subplots and figures','plot/figure.py, shortcut.py')],['calls received by the Matplotlib axes and figure objects'])
prop('C23','Estimators answer every query from exactly the selected training points',
 'A fitted regression or density estimator answers each query with the requested reductions (count, sum, mean, deviation, quantiles …) or density over exactly the neighbours selected from its own training data (the k nearest, or all within the radius; with the kernel, weights and mask given), independently of other queries, other estimators, refits of others, failures and interrupts, and under any interleaving of clients. An empty selection gives the fill value. A refit answers from the new data alone. The caller’s arrays and answers given earlier are never changed. A failing reduction or kernel is raised, and a repeat of the request succeeds.',
 ['inputs','histories','schedules','fault_sequences'],
 'Any training sets, weights, masks, neighbour numbers, radii and kernels, any history of fits, refits and queries by interleaved clients on common and own estimators, with failing callbacks and interrupts.',
 'The tests cover none of these estimators; neighbour sets and empty selections depend on data a handful of samples does not meet.',
 ['src/pyhipp/stats/regression.py','src/pyhipp/stats/density_estimation.py','src/pyhipp/stats/reduction.py','src/pyhipp/stats/kernel.py','src/pyhipp/stats/preprocessing.py','src/pyhipp/core/dataproc/grid.py'],[('neighbour selection and reduction','stats/regression.py, reduction.py'),('density from neighbour distances','stats/density_estimation.py')],['estimates returned for each query'])
prop('C24','Field results are those of the given field, in memory and through files',
 'Smoothing, tidal tensors, web classification, interpolation, transforms and neighbour searches return the values defined by the field, points and parameters they are given, for any grid size: smoothing multiplies each Fourier mode by its window, the tidal eigenvalues are those of the smoothed density contrast, web types count the eigenvalues above the threshold, interpolation is periodic and exact at grid points, neighbour queries return every point within the radius. Inputs and earlier results are never changed, whoever else uses the same fields and operators. A dumped result read back, also by a classifier or interpolator after a failed dump was repeated, equals the result. Ill-formed fields and requests are rejected.',
 ['inputs','histories','schedules','fault_sequences'],
 'Any grid size, box, field, points and parameters; any history by interleaved clients sharing fields, operators, classifiers and trees; interrupts at any line and read, write and open errors followed by a repeat.',
 'No test exercises fields; odd grid sizes, wrap-around and dumps that fail half-way are not met by examples.',
 ['src/pyhipp/field/cubic_box/smoothing.py','src/pyhipp/field/cubic_box/gravity.py','src/pyhipp/field/cubic_box/cosmic_web.py','src/pyhipp/field/cubic_box/fft.py','src/pyhipp/field/cubic_box/field.py','src/pyhipp/field/cubic_box/mesh.py','src/pyhipp/field/neighbor/kd_tree.py','src/pyhipp/field/neighbor/kd_mesh.py'],[('Fourier operators','smoothing.py, gravity.py, fft.py'),('classifier and interpolator, from memory or file','cosmic_web.py'),('neighbour queries','field/neighbor')],['arrays returned, arrays in the dump files'])
prop('C25','Array helpers return their defined values and leave other arrays alone',
 'Bounds, safe logarithms and divisions, norms, masks, periodic-box shifts, polar frames, chunk ranges, filters, offsets, bin edges, array objects and point groups give the values their definitions state, for array-likes of any size and kind. The copying variant of a helper never changes its argument nor shares memory with it; the in-place variant changes exactly the selected elements and, repeated after an interrupt, ends in the same state. Copies of groups and arrays are independent of the original. Point groups are closed, contain identity and inverses, and preserve lengths. Ill-formed requests are rejected and change nothing.',
 ['inputs','histories','schedules','fault_sequences'],
 'Any arrays (empty, integer, lists), parameters and variant; any history by interleaved clients on common arrays, groups and dictionaries; interrupts at any line followed by a repeat.',
 'No test calls most of these helpers; empty input, exact box edges, sharing between copies and interrupted in-place work are not sampled.',
 ['src/pyhipp/core/dataproc/num.py','src/pyhipp/core/dataproc/mask.py','src/pyhipp/core/dataproc/frame.py','src/pyhipp/core/dataproc/iter.py','src/pyhipp/core/dataproc/filter.py','src/pyhipp/core/dataproc/data_structs.py','src/pyhipp/core/arrays/array.py','src/pyhipp/core/arrays/dtype.py','src/pyhipp/stats/binning.py','src/pyhipp/group_theory/point_group.py'],[('array helpers','core/dataproc'),('array objects','core/arrays'),('bin edges','stats/binning.py'),('point groups','group_theory/point_group.py')],['arrays returned and arrays given'])
prop('C26','Interpolation, units, angles and cosmology keep their defining relations',
 'Searches in sorted tables, linear and bilinear interpolation and its derivative, the transform of a sample to a normal variable and back, sexagesimal angles (of either sign), unit systems, cosmological densities, times and distances, virial and NFW relations, transfer functions, growth and power spectra give the values their definitions state, in the stated units, whatever was computed before and whoever uses the same objects. Setting a cosmology again leaves nothing of the old one; a rejected setting changes nothing. The power spectrum has the requested sigma_8; inverse relations invert. Ill-formed tables and requests are rejected. The arguments of the caller are not changed.',
 ['inputs','histories','schedules','fault_sequences'],
 'Any tables, samples, units, redshifts, masses and cosmologies in the stated domains; any history of settings and queries by interleaved clients on common and own objects; interrupts at any line followed by a repeat.',
 'Tests sample one cosmology and no interpolation edge; re-set transfer functions, rejected settings, interrupted construction and end points are not met by examples.',
 ['src/pyhipp/numerical/interpolate.py','src/pyhipp/stats/prob_dist.py','src/pyhipp/stats/stacking.py','src/pyhipp/astro/coords/cvt.py','src/pyhipp/astro/quantity/unit_system.py','src/pyhipp/astro/cosmology/model.py','src/pyhipp/astro/cosmology/halo_theory.py','src/pyhipp/astro/cosmology/flat_lambda_cdm_nr.py','src/pyhipp/astro/cosmology/power_spectrum.py'],[('interpolation','numerical/interpolate.py'),('units','astro/quantity/unit_system.py'),('cosmology','astro/cosmology')],['values returned, attributes of the objects'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
