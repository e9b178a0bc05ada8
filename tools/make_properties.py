"""Regenerate properties.jsonl (kept as a script so that wording stays reviewable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

prop("P01", "Every patch is internally consistent",
 "Any patch obtained through the public API, after any sequence of operations, has a data array whose shape equals the lengths of its dimensional coordinates in dimension order, non-dimensional coordinates whose shapes match the dimensions they belong to, and metadata whose dimension names and per-coordinate summaries (minimum, maximum, step, units, length, type) equal those of the coordinates actually held. This also holds for patches returned by readers and by spools.",
 ["inputs","programs"], "for every patch (0-4 dimensions, every coordinate kind, dtype and metadata) and every chain of public operations",
 "Tests check shapes of particular outputs of particular calls; chains of operations over degenerate, reversed, irregular or partial coordinates are never sampled.",
 ["dascore/core/patch.py","dascore/core/coordmanager.py","dascore/core/attrs.py","dascore/proc/*.py","dascore/transform/*.py"],
 [("constructor reconciles data, coords, dims and attrs","dascore/core/patch.py"),("coordinate manager validators","dascore/core/coordmanager.py"),("attrs conform to coords","dascore/core/attrs.py")],
 observe=["every patch value returned by a public call","patch constructors (wrapped by the monitor)"])
prop("P02", "Operations never modify their inputs",
 "No patch, spool, coordinate or processing operation changes the patch, spool, coordinates, metadata, arrays, mappings or other arguments it is given: every observable value of the inputs is the same after the call as before, whether the call succeeds or raises. Patches derived from one another behave as independent values.",
 ["inputs","programs"], "for every public operation, argument form and input, including operations that raise midway",
 "Tests compare an input before and after for a few methods; in-place aliasing only appears for particular dtypes, memory layouts, masks or no-op fast paths.",
 ["dascore/core/patch.py","dascore/proc/*.py","dascore/transform/*.py","dascore/core/spool.py","dascore/utils/*.py"],
 [("patch functions return new patches","dascore/utils/patch.py"),("frozen models","dascore/utils/models.py")],
 observe=["deep fingerprints of all inputs before/after each call","read-only input buffers"])
prop("P03", "Selection keeps exactly the requested labels",
 "Selecting from a patch by value range, relative range, sample index, index array, value array, boolean mask or quantity keeps exactly those entries whose coordinate satisfies the documented condition (ranges are inclusive, open or missing bounds are unbounded), in the original order, and every retained data value keeps all of the coordinate values it had before. Nothing else is dropped, duplicated or shifted.",
 ["inputs"], "for every coordinate kind (even, reversed, monotonic, unsorted, NaN-containing, string, multi-dimensional), bounds on, between and beyond labels, and combination of dimensions",
 "Boundary behaviour depends on exact placement of bounds relative to labels, direction of the coordinate and floating/ns rounding; tests sample a handful of bounds.",
 ["dascore/core/coords.py","dascore/core/coordmanager.py","dascore/proc/coords.py"],
 [("index computation for ranges and samples","dascore/core/coords.py"),("joint indexing of data and coords","dascore/core/coordmanager.py")],
 observe=["Patch.select / coordinate select results against brute force over labels"])
prop("P04", "Rearranging a patch never separates a value from its labels",
 "Transposing, sorting, ordering, flipping, rolling with coordinate update, renaming, swapping or adding and removing dimensions, squeezing, padding, aligning to a coordinate, broadcasting or attaching and dropping coordinates leaves every original data value attached to exactly the coordinate values it had (up to the documented relabelling), neither losing nor inventing values. Values introduced by padding or alignment are exactly the requested fill and sit only at labels outside the original data.",
 ["inputs","programs"], "for every patch, dimension order, coordinate kind and chain of rearrangements",
 "A wrong axis, direction or associated coordinate gives a well-formed patch; tests mostly use square-ish two-dimensional examples with one ordering.",
 ["dascore/core/coordmanager.py","dascore/proc/coords.py","dascore/proc/basic.py","dascore/proc/align.py"],
 [("index arrays applied jointly to data and all associated coordinates","dascore/core/coordmanager.py")],
 observe=["multiset of (labels -> value) before and after"])
prop("P05", "Coordinates faithfully represent their values",
 "A coordinate built from an array holds exactly those values (to the stated snapping tolerance), and its length, minimum, maximum, step, ordering flags, type, units, indexing, slicing and equality always agree with that array. Sorting, snapping, re-anchoring, changing length, updating, unit conversion and index lookup act as the corresponding operation on the plain array, and labels stay exact however far from the origin (nanosecond times, long arrays).",
 ["inputs"], "for every dtype, direction, length (including 0 and 1), step and magnitude, and any chain of coordinate operations",
 "The compact range representation reproduces values by arithmetic whose rounding depends on start, step and length; tests use short, round-number ranges.",
 ["dascore/core/coords.py"],
 [("range / monotonic / array / partial coordinate classes and coordinate factory","dascore/core/coords.py")],
 observe=["coordinate attributes against the materialised array"])
prop("P06", "Patch arithmetic aligns by labels and matches array arithmetic",
 "Arithmetic, comparison and NumPy functions on a patch with a scalar, array or other patch (in either operand order) give exactly what NumPy gives on the label-aligned data: two patches are combined only where their coordinate labels coincide, irrespective of dimension order or extra length-one or missing dimensions. The result carries the aligned coordinates and the metadata of its operands.",
 ["inputs"], "for every operator, operand kind and order, dtype, overlap pattern and dimension order",
 "Alignment errors need partially overlapping, reordered or differently dimensioned operands and non-commutative operators; tests mostly combine identical patches.",
 ["dascore/utils/array.py","dascore/utils/patch.py","dascore/utils/coordmanager.py","dascore/core/patch.py"],
 [("patch alignment and coordinate merge","dascore/utils/patch.py"),("ufunc dispatch","dascore/utils/array.py")],
 observe=["results of operators against NumPy on label-joined arrays"])
prop("P07", "Unit handling preserves physical quantities",
 "Converting or simplifying the units of data or coordinates changes numbers and units together so that the physical quantity of every value is unchanged and converting back restores the original; setting units never changes numbers; operations and selections given quantities in any compatible unit act as if given the equivalent value in the patch's own units. Incompatible units are refused.",
 ["inputs"], "for every pair of compatible units (scaled, compound, offset temperatures), dtype and coordinate kind",
 "Tests try a few unit pairs with multiplicative factors; direction of conversion, offsets, cached factors and composite units are not covered.",
 ["dascore/units.py","dascore/proc/units.py","dascore/core/coords.py","dascore/utils/array.py"],
 [("conversion factors","dascore/units.py"),("coordinate unit conversion","dascore/core/coords.py")],
 observe=["values x units before/after, computed independently with the unit library"])
prop("P08", "Chunking and merging conserve samples",
 "Merging or re-chunking a spool yields patches which together contain exactly the samples of the source patches within the requested extent: none lost, duplicated (except for requested overlap), reordered or relabelled, and never bridging a gap larger than the tolerance or mixing patches of different streams, sampling or metadata groups. Each segment has exactly the requested length and overlap, with partial segments (of more than one sample) kept or dropped as requested, whatever the order, overlap or nesting of the source patches.",
 ["inputs","histories"], "for every layout of source patches (gaps, overlaps, jitter, shuffled, mixed groups), chunk length, overlap, tolerance and dimension",
 "Loss or duplication arises at particular chunk/patch boundary alignments; tests chunk a few contiguous example spools.",
 ["dascore/core/spool.py","dascore/utils/chunk.py","dascore/utils/patch.py","dascore/utils/coordmanager.py"],
 [("chunk plan over contents table","dascore/utils/chunk.py"),("segment assembly","dascore/core/spool.py"),("merge/concatenate/stack of patches","dascore/utils/patch.py")],
 observe=["(label -> value) maps of source and resulting patches"])
prop("P09", "A spool's contents table matches the patches it yields",
 "For every spool, however obtained by selection, sorting, slicing, splitting, indexing, chunking or unpacking, its length, its contents table and the patches it yields agree row by row in number, order, extent, sampling and attributes. Selecting from a spool keeps exactly the patches that match the condition, trimmed to the requested extent, whether it is backed by memory, a file or a directory.",
 ["inputs","histories"], "for every backing store, composition of spool operations and query",
 "The table and the data follow separate code paths which agree on simple examples; compositions (select after chunk after sort, arrays, wildcards) are barely tested.",
 ["dascore/core/spool.py","dascore/clients/dirspool.py","dascore/clients/filespool.py","dascore/utils/pd.py"],
 [("three coordinated tables with lazy loading","dascore/core/spool.py"),("dataframe filtering","dascore/utils/pd.py")],
 observe=["get_contents() rows against yielded patches and a reference list model"])
prop("P10", "Written patches read back identically",
 "Any patch or spool written to a supported writable format and read back yields the same patches: data values and type, dimensions, all coordinates with units, and metadata, within what the format can store. Writing several patches, or adding patches to an existing file, never loses or alters patches already in it.",
 ["inputs","histories"], "for every patch (dtypes, coordinate kinds, unicode or empty metadata, odd shapes) and sequence of writes to one target",
 "Tests round-trip example patches once; collisions, repeated writes, special values and unusual coordinates are not sampled.",
 ["dascore/io/dasdae","dascore/io/pickle","dascore/io/wav","dascore/io/rsf","dascore/io/segy","dascore/io/core.py","dascore/utils/hdf5.py"],
 [("format writers and readers","dascore/io")],
 observe=["patch before write vs after read"])
prop("P11", "Scanning, reading and partial reading agree",
 "For every supported format and file, scanning reports exactly the patches that reading yields, with the same extents, sampling, dimensions and metadata and without loading data; and reading with a coordinate range gives exactly what reading everything and then selecting that range gives. Both reflect what the file actually stores.",
 ["inputs"], "for every reader, file content (shape, start, step, metadata) and range, including ranges that miss the file",
 "Vendor example files are unavailable offline and cover one file per format; start/stop/step arithmetic and partial slicing vary by file content.",
 ["dascore/io/*/core.py","dascore/io/*/utils.py","dascore/io/core.py"],
 [("per-format attribute/coordinate extraction shared by scan and read","dascore/io/*/utils.py")],
 observe=["dc.scan / dc.read results on files synthesised independently by the harness"])
prop("P12", "File formats are recognised correctly and strangers are left alone",
 "Format detection names the true format and version of every file written by a supported writer and every structurally valid vendor file, regardless of file name, extension or handle type, and reports unknown for anything else. Empty, truncated, corrupted or foreign files make single-file calls raise a documented error, never crash, hang or yield data, and never prevent the remaining files in a directory from being scanned.",
 ["inputs","fault_sequences"], "for every file content including arbitrary truncations and byte corruptions, names and mixtures of files in a directory",
 "Tests probe the available files and a few junk ones; readers run in an order and on inputs that depend on every other reader's behaviour.",
 ["dascore/io/core.py","dascore/io/*/core.py","dascore/utils/io.py"],
 [("format manager iterating readers","dascore/io/core.py")],
 observe=["dc.get_format, dc.scan, dc.read outcomes"])
prop("P13", "The directory index reflects the directory",
 "After an update, a directory spool lists exactly the patches with an absolute time in the readable files of the directory with their current contents (only removals need the index to be rebuilt), whatever sequence of file additions, replacements, index updates, queries, cache hits, and re-openings by new processes preceded it; querying the index equals filtering a full scan. An interrupted or failed update never leaves the index unusable or hides files from later updates.",
 ["histories","fault_sequences","crash_points"], "for every history of directory changes, updates, queries, and interruption points",
 "Tests run short fixed histories; caching, timestamps and incremental appends interact over histories and failures.",
 ["dascore/io/indexer.py","dascore/clients/dirspool.py","dascore/utils/hdf5.py"],
 [("incremental index update by modification time","dascore/io/indexer.py"),("index store","dascore/utils/hdf5.py")],
 observe=["spool contents after each history step vs independent full scan"])
prop("P14", "Time conversions are exact and invertible",
 "Converting between times or durations and numbers, strings, datetimes, arrays and series preserves the instant to the nanosecond wherever the representation allows, is invertible, treats scalars and arrays alike, maps every null to null, and preserves ordering and length.",
 ["inputs"], "for every representable instant, duration, resolution, container and null",
 "Rounding and resolution errors appear only for particular magnitudes, signs and units; tests use a few dates.",
 ["dascore/utils/time.py"], [("type-dispatched conversion functions","dascore/utils/time.py")],
 observe=["conversion results vs exact integer arithmetic"])
prop("P15", "Transforms obey their mathematical definitions and invert",
 "Forward Fourier and short-time transforms equal the discretised transform of the data along the named dimensions with correct frequency labels, scaling and units, and their inverses restore the original patch, data, coordinates and metadata; integration and differentiation equal their numerical definitions on the actual coordinate spacing and undo one another where they should; spectral outputs satisfy energy conservation.",
 ["inputs"], "for every shape (odd, even, prime), dimension subset and order, sampling direction, real or complex data and padding option",
 "Scaling, shift and label conventions can be wrong in a way that cancels in the tested round trip or shape.",
 ["dascore/transform/fourier.py","dascore/transform/integrate.py","dascore/transform/differentiate.py","dascore/transform/hilbert.py","dascore/utils/patch.py"],
 [("dft/idft/stft/istft","dascore/transform/fourier.py"),("integrate / differentiate","dascore/transform/integrate.py, differentiate.py")],
 observe=["transform outputs vs direct evaluation of the definition"])
prop("P16", "Filters act along the named dimension exactly as specified",
 "Every filtering, detrending, normalising, despiking and envelope operation produces the reference result of its algorithm applied along the dimension named by label, using that dimension's actual sampling interval and the requested cutoffs or window, independent of the order of the patch's dimensions, memory layout, or how the argument is expressed (number, quantity, samples). Coordinates are left unchanged.",
 ["inputs"], "for every dimension order, dtype, sampling interval, window or cutoff expression and patch content",
 "A wrong axis, sampling rate or unit gives plausible output; tests check shape and a few spectra on one layout.",
 ["dascore/proc/filter.py","dascore/proc/hampel.py","dascore/proc/wiener.py","dascore/proc/detrend.py","dascore/proc/whiten.py","dascore/proc/basic.py","dascore/transform/stalta.py","dascore/transform/kurtosis.py","dascore/utils/moving.py","dascore/utils/signal.py"],
 [("axis, rate and window derivation from coordinates","dascore/utils/patch.py")],
 observe=["operation output vs independent SciPy/NumPy evaluation and vs transposed input"])
prop("P17", "Aggregations and rolling windows compute the stated statistic",
 "Reducing a patch along any dimensions gives the named statistic of exactly the values sharing the remaining labels, ignoring NaN where documented, with the reduced coordinate as requested; a rolling window of given length, step and alignment reports at each label the statistic of exactly the window ending at or centred on that label and null where the window is incomplete, identically for every computing engine.",
 ["inputs"], "for every statistic, dimension subset, reduction mode, window, step, alignment, engine and NaN pattern",
 "Window alignment, step and edge handling vary with sizes; tests check selected sizes and rarely exact labels.",
 ["dascore/proc/aggregate.py","dascore/proc/rolling.py","dascore/utils/array.py","dascore/utils/pd.py","dascore/core/coords.py"],
 [("aggregator application","dascore/utils/array.py"),("numpy and pandas rollers","dascore/proc/rolling.py")],
 observe=["results vs brute force by label"])
prop("P18", "Resampling relabels consistently with the signal",
 "Decimation keeps exactly every n-th (filtered) sample with its own label; interpolation evaluates the data at exactly the requested labels and reproduces the original at original labels; resampling yields the requested sampling interval starting at the original start, with values equal to the underlying band-limited signal at those labels. Units, other dimensions and non-affected coordinates are unchanged.",
 ["inputs"], "for every factor, target grid, sampling interval, direction, dtype and dimension",
 "Label drift only shows for non-integer ratios, long or offset coordinates; tests compare lengths.",
 ["dascore/proc/resample.py","dascore/core/coords.py","dascore/core/coordmanager.py","dascore/compat.py"],
 [("decimate / interpolate / resample","dascore/proc/resample.py")],
 observe=["(label, value) pairs of outputs vs analytic signals"])
prop("P19", "Localised edits change only the region they designate",
 "Tapering, muting, masking, filling or dropping nulls change data only where the request designates and as designated: values outside the region are unchanged bit for bit, values inside follow the stated rule, and inverted requests are the complement. Regions are measured on coordinate labels and so do not depend on dimension order, argument order or units.",
 ["inputs"], "for every region expression (absolute, relative, samples, lines, slopes, several windows), dimension order and coordinate kind",
 "Off-by-one edges and axis mix-ups need specific bounds or orders; tests check gross effects.",
 ["dascore/proc/taper.py","dascore/proc/mute.py","dascore/proc/basic.py"],
 [("taper windows and envelopes","dascore/proc/taper.py"),("mute geometry","dascore/proc/mute.py"),("where/fillna/dropna","dascore/proc/basic.py")],
 observe=["cell-by-cell comparison with a label-based reference mask"])
prop("P20", "Processing history and metadata are carried faithfully",
 "Each processing operation that documents itself adds exactly one history entry naming the operation and its arguments, after the existing entries (and those of steps it is composed of), and nothing else rewrites history; attributes unrelated to an operation, including user-defined ones, survive it unchanged, and attributes that describe the data (units, type) change only as the operation implies.",
 ["programs","inputs"], "for every operation, argument form, nesting and chain of operations on patches with arbitrary metadata",
 "Tests check a few functions; nested internal calls, no-op shortcuts and attribute rebuilds each can add, lose or reset entries.",
 ["dascore/utils/patch.py","dascore/core/attrs.py","dascore/proc/*.py","dascore/transform/*.py"],
 [("patch function decorator","dascore/utils/patch.py"),("attribute conformance","dascore/core/attrs.py")],
 observe=["attrs before/after each call in random chains"])
prop("P21", "Mapping and concurrent use give each patch exactly one result in order",
 "Mapping a function over a spool, serially or with any executor and batch size, applies it exactly once per patch and returns the results in spool order; using the same patches, coordinates, spools, readers, unit and format registries from several threads at once gives the same results as sequential use.",
 ["schedules","configurations"], "for every spool length, batch size, executor, and interleaving of threads sharing objects and caches",
 "Tests map once with a fixed pool; lazy caches and registries race only under particular interleavings.",
 ["dascore/utils/misc.py","dascore/core/spool.py","dascore/core/coords.py","dascore/io/core.py","dascore/units.py"],
 [("spool splitting and mapping","dascore/utils/misc.py"),("lazy caches","dascore/utils/misc.py")],
 observe=["per-patch call log with unique ids; results under stressed thread schedules vs sequential"])
prop("P22", "Equality and conversions are trustworthy",
 "Patches, coordinates, spools and metadata compare equal exactly when their observable contents are equal, so equality is reflexive, symmetric and detects any single change; copying, pickling, and conversion to and from mappings, tables, array-labelled and stream objects of other libraries return an equal object.",
 ["inputs"], "for every object content (NaN, NaT, strings, empty, private coordinates) and every single-field perturbation",
 "A comparison that ignores some field passes every test that relies on it; tests compare unchanged or obviously different objects.",
 ["dascore/core/patch.py","dascore/proc/basic.py","dascore/core/coords.py","dascore/core/coordmanager.py","dascore/core/spool.py","dascore/utils/io.py","dascore/utils/misc.py"],
 [("equality implementations","dascore/proc/basic.py, core/*.py"),("external conversion","dascore/utils/io.py")],
 observe=["== on copies and single perturbations; conversion round trips"])
prop("P23", "Correlation and array-processing results equal their definitions",
 "Correlating a patch with its own channels gives, at each lag label, the sum of products at that lag for every source and receiver; slant stacks, dispersion images, strain-rate and phase conversions, band-energy and phase-weighted stacks equal direct evaluation of their published definitions with labels in the correct units, regardless of dimension order and of whether sampling is even or irregular.",
 ["inputs"], "for every geometry (even, irregular), dimension order, shape, units and source set",
 "The general code paths (irregular spacing, swapped dimensions, several sources) run on data whose correct answer no test computes.",
 ["dascore/proc/correlate.py","dascore/transform/taup.py","dascore/transform/dispersion.py","dascore/transform/strain.py","dascore/transform/fbe.py","dascore/transform/hilbert.py"],
 [("frequency-domain correlation","dascore/proc/correlate.py"),("tau-p kernels","dascore/transform/taup.py")],
 observe=["outputs vs brute-force loops over labels"])
prop("P24", "Reading leaves no trace and leaks nothing",
 "Detecting formats, scanning, reading and spooling never modify, truncate or re-timestamp the files they inspect, and every file handle the library opens is closed when the call returns or raises. Handles passed in by the caller remain open and usable.",
 ["inputs","fault_sequences"], "for every reader, file (valid, foreign or damaged), handle type and failing call",
 "Leaks and stray writes do not change results, so tests that only look at results cannot see them, especially on error paths.",
 ["dascore/io/core.py","dascore/utils/io.py","dascore/utils/hdf5.py","dascore/io/*/core.py"],
 [("resource manager and type casting of file handles","dascore/utils/io.py, dascore/io/core.py")],
 observe=["open file descriptors, opened-file audit events, hashes and stat of input files"])
prop("P25", "Requests that cannot be honoured are refused",
 "A request naming a missing dimension or coordinate, inconsistent shapes, incompatible units or sampling, or out-of-range or malformed parameters raises an error rather than returning a result, never returns a partially applied result, and leaves later operations unaffected. An empty but valid selection returns an empty patch rather than an error or other data.",
 ["inputs"], "for every public operation and every way of making its request invalid",
 "Silent acceptance returns a plausible patch; tests cover a few error branches per function.",
 ["dascore/proc/*.py","dascore/transform/*.py","dascore/core/*.py","dascore/utils/patch.py"],
 [("argument validation helpers","dascore/utils/patch.py, dascore/utils/misc.py")],
 observe=["outcome (error or result) of systematically invalidated calls"])
prop("P26", "Plots show the data at its own labels",
 "Visualising a patch places each data value at its own coordinate labels with the correct orientation, labels and units, scales colours to the requested range, marks gaps rather than smearing across them, and neither alters the patch nor depends on its dimension order.",
 ["inputs"], "for every two-dimensional patch (datetime, numeric, reversed, irregular, gapped axes) and plot option",
 "Tests check that an axis is returned and some labels; the mapping from value to pixel position is not compared with the patch.",
 ["dascore/viz/waterfall.py","dascore/viz/wiggle.py","dascore/viz/spectrogram.py","dascore/utils/plotting.py","dascore/utils/gaps.py"],
 [("image/mesh construction and axis labelling","dascore/viz/waterfall.py")],
 observe=["matplotlib artists (arrays, extents, limits, labels) vs patch"])
pathlib.Path(__file__).parent.parent.joinpath("properties.jsonl").write_text("".join(json.dumps(p)+"\n" for p in P))
