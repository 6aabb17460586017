#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run me to regenerate it)."""
import json, pathlib

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=False):
    a = {"files": files, "mechanism": mechanism}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    if hook:
        a["hook_needed"] = True
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


prop("C01", "Two-pass sector reading delivers every frame once, intact, under any schedule",
     "Reading a set of version-5 sector files with the multi-threaded two-pass reader hands the consumer every recorded frame exactly once, "
     "under its own scan position and frame number, with every pixel equal to the value stored in that sector's file and zero where no sector was recorded, "
     "and marks it complete exactly when all four sectors are present. Loading single frames by position and the scan size / frame count queries agree with that. "
     "This holds for every thread count, order of the records within and across the files, split of a sector over several files, set of missing sectors, and thread schedule, without data races or deadlock.",
     ["schedules", "inputs"],
     "Every interleaving (within a preemption bound) of 1-3 workers and the consumer, over small data sets that vary frames per position, record order, missing sectors and file splits.",
     "The repository's reader tests need data that is downloaded, run one schedule each, and never vary missing sectors or record order.",
     ["stempy/reader.h", "stempy/reader.cpp", "thirdparty/ThreadPool/ThreadPool.h"],
     ["two-pass reader: per-position map of sector locations guarded by per-position mutexes, per-stream mutex around seek+read, atomic work counter"],
     [("scan map", "scan position -> frame number -> location of each of the four sectors"), ("work counter", "next file / scan position to process")],
     ["blocks handed to the readAll functor", "loadFrames results"], True)

prop("C02", "Single-pass threaded sector reading delivers every complete frame once, intact",
     "Reading version-4 or version-5 sector files with the single-pass multi-threaded reader hands the consumer every frame whose four sectors were all recorded exactly once, "
     "with its own scan position, frame number and pixel-exact content, and marked complete; frames with a missing sector are not handed over. "
     "The read terminates with all files consumed for every thread count, arrangement of the records over the files and thread schedule, without data races or deadlock.",
     ["schedules", "inputs"],
     "Every interleaving (within a preemption bound) of 1-3 workers over small data sets.",
     "No repository test exercises the threaded reader without downloaded data, and none can control the schedule.",
     ["stempy/reader.h", "stempy/reader.cpp"],
     ["frame cache keyed by frame number with double-checked allocation and an atomic sector counter; priority queue of streams; removal of exhausted streams"],
     [("frame cache", "partially assembled frames"), ("stream queue", "streams not being read at the moment, by number of reads")],
     ["blocks handed to the readAll functor"], True)

prop("C03", "Threaded electron counting equals counting every frame on its own",
     "Counting electrons with a threaded reader yields, for every scan position, exactly one event list per recorded frame of that position, equal to the events of that frame counted alone with the reported thresholds; "
     "no frame is lost, counted twice or attributed to another position, whether it was used as a threshold sample, was incomplete or arrived last, and positions with fewer frames are padded with empty lists. "
     "This holds for every thread count, number of sample frames up to the number of complete frames, reader kind and thread schedule, without data races.",
     ["schedules", "inputs"],
     "Every interleaving (within a preemption bound) of the workers and the counting thread, for sample sizes from one to all complete frames, one or more frames per position, incomplete frames present or absent.",
     "The only counting tests use downloaded data and a single schedule; a lost or duplicated sample frame changes a few events among millions.",
     ["stempy/electron.cpp", "stempy/electronthresholds.cpp", "stempy/reader.h"],
     ["sample collection under a mutex and condition variable, switch to counting through an atomic flag, per-position mutex around the event lists"],
     [("sample blocks", "frames held back to compute the thresholds"), ("events", "per position, per frame lists of pixel indices")],
     ["result of electronCount(reader, options)"], True)

prop("C04", "Threaded electron counting always returns or raises, never hangs or crashes",
     "A call that counts electrons with a threaded reader terminates under every schedule: it returns a result, or raises an error when the thresholds cannot be determined "
     "(fewer complete frames than requested samples, a sample size below one, an optimisation that fails) or a file cannot be read. "
     "After an error no worker is left blocked or touching freed state, and the same reader can be asked to count again.",
     ["schedules", "fault_sequences", "configurations"],
     "Every interleaving (within a preemption bound), combined with sample sizes below, at and above the number of complete frames, degenerate sample data, and repeated calls on one reader.",
     "A hang or use-after-free depends on when the failing thread runs relative to the waiting one; tests see only the successful path.",
     ["stempy/electron.cpp", "stempy/reader.h", "stempy/electronthresholds.cpp"],
     ["condition-variable wait for samples, deferred completion future, thread-pool shutdown"],
     None, ["return/exception of electronCount(reader, options)"], True)

prop("C05", "Raw STEM images, histograms and radial sums do not depend on blocks or schedules",
     "The virtual STEM images computed from raw detector blocks contain, for each pair of radii and each scan position, the sum of the detector values inside that annulus over the frames of that position, "
     "and the radial sum contains for each radius and position the sum of the values whose distance from the centre, rounded up, is that radius. "
     "The result is the same for every grouping of frames into blocks, order of blocks, number of radii and schedule of the worker pool, without data races.",
     ["schedules", "inputs"],
     "Every interleaving (within a preemption bound) of the two pool workers and the submitting thread; all orders and groupings of a few frames.",
     "The existing radial-sum test covers sparse data only; raw reductions have no offline test and nothing controls the pool.",
     ["stempy/image.cpp", "stempy/image.h", "stempy/mask.cpp", "thirdparty/ThreadPool/ThreadPool.h"],
     ["thread pool of two workers writing into shared images; atomic add for radial sums"],
     None, ["returned images"], True)

prop("C06", "Rewinding or re-querying a reader never changes what is read next",
     "Whatever sequence of complete or partial reads, rewinds, frame-count or scan-size queries, single-frame loads and full reads was performed on a reader, "
     "the next full read after a rewind (or, for the two-pass reader, any full read or single-frame load) delivers exactly what a fresh reader on the same files delivers. "
     "A frame never contains data left over from an earlier pass.",
     ["histories", "inputs"],
     "All operation sequences up to a bounded depth over every reader kind and small data sets with complete and incomplete frames.",
     "Tests use each reader for one pass; leftovers need a specific earlier operation.",
     ["stempy/reader.h", "stempy/reader.cpp"],
     ["stream positions, partial-frame cache, scan map, worker futures and counters kept across calls"],
     [("partial-frame cache", "frames whose sectors have not all been seen")],
     ["blocks returned by read(), readAll() and loadFrames()"])

prop("C07", "Block files are read back exactly, in order, however they are split over files",
     "Reading block-format files (versions 1, 2 and 3) returns the recorded blocks exactly once, in file order, with the recorded scan size, frame size, image numbers and pixel values, for every distribution of blocks over a list of files. "
     "If the data ends inside a block the read raises an error at that block instead of returning altered or uninitialised data, whatever the truncation point and whether or not more files follow.",
     ["inputs", "crash_points"],
     "Every split of a short block sequence over up to three files (empty files included) and every truncation point of a file at all structural boundaries and around them.",
     "No offline test reads a block file; truncation and multi-file hand-over are untested.",
     ["stempy/reader.cpp", "stempy/reader.h"],
     ["end-of-file handling: open the next file and retry the read"],
     None, ["blocks returned by read()"], True)

prop("C08", "Sequential sector reading assembles every frame from its own sectors",
     "Reading version-4 or version-5 sector files sequentially returns every frame of the recording exactly once, first those whose four sectors were found and at the end those with missing sectors, "
     "each with its own scan position, every sector placed at its own location in the frame and zeros for missing sectors. "
     "The fraction of data reported as captured equals the recorded sectors divided by four per scan position.",
     ["inputs"],
     "All subsets of recorded sectors of a few scan positions, record orders and distributions over files.",
     "Only fully recorded downloaded data is used by tests; sector loss, which real detectors show, is not.",
     ["stempy/reader.cpp"],
     ["partial-frame cache, round-robin over streams, sector placement for the two layouts"],
     None, ["blocks returned by read()", "dataCaptured()"], True)

prop("C09", "A truncated or unreadable sector file damages only the frames it cuts",
     "When sector files end early at any byte, every reader still delivers all frames whose recorded data is intact pixel-exactly and at their own positions, and terminates normally or with an error. "
     "The record that was cut is never reported as part of a complete frame, and no position outside the recorded ones receives data.",
     ["crash_points", "schedules"],
     "Every truncation point (each record boundary, each header byte, several data bytes) of each file of a small recording, for each sector reader, and for the threaded readers the bounded schedules.",
     "A recording interrupted at a chosen byte does not occur in the test data.",
     ["stempy/reader.cpp", "stempy/reader.h"],
     ["unchecked stream reads and seeks on ifstreams whose fail state is sticky"],
     None, ["blocks delivered by readers"], True)

prop("C10", "Electron events are exactly the strict local maxima between the thresholds",
     "For given thresholds, optional dark reference and optional gain, the events of a frame are exactly the pixels whose corrected value (value minus dark, times gain, or without a gain the difference in whole detector units, never below zero) lies strictly between the background (at least zero) and x-ray thresholds "
     "and strictly exceeds the corrected, thresholded values of all neighbours that exist inside the frame, in row-major order, in every frame of at least two by two pixels; nothing outside the frame is ever read. "
     "Each frame's events are stored under that frame's own image number, for square and non-square frames.",
     ["inputs"],
     "All frames of small shapes over small value alphabets, for all threshold / dark / gain configurations, and for real-size frames a covering family.",
     "The space of neighbourhoods (4^9 for one 3x3 window) is untouched by tests, which compare nothing offline.",
     ["stempy/electron.cpp", "python/stempy/image/__init__.py", "python/image.cpp"],
     ["per-pixel correction and thresholding, eight-neighbour comparison with edge handling, row-dark variant"],
     None, ["electron_count results"])

prop("C11", "Threshold statistics are those of the sampled pixels and stay memory-safe",
     "The electron-counting thresholds are derived from the sampled, dark- and gain-corrected pixels: reported minimum, maximum (rounded up to a whole unit), mean and (unbiased) variance are theirs, the x-ray threshold is mean plus n sigma times the standard deviation, and the background threshold is the fitted mean plus n sigma times the fitted deviation. "
     "The samples are whole frames drawn from all recorded frames, any of which can be drawn. For every sample the computation returns such a result or raises an error, and never reads or writes outside its buffers.",
     ["inputs"],
     "All small sample sets over small alphabets incl. constant data, outliers on both sides, corrected values below zero.",
     "Not covered by any offline test; degenerate samples are rare.",
     ["stempy/electronthresholds.cpp", "python/image.cpp"],
     ["histogram range computation and binning, Levenberg-Marquardt fit"],
     None, ["calculateThresholds results"])

prop("C12", "Virtual detectors select exactly the pixels of their annulus",
     "An annular detector selects exactly the pixels whose distance from the centre lies in [inner, outer), for any non-negative radii and any centre, with the frame centre as the default centre. "
     "The virtual STEM image of electron-counted data counts, per scan position, exactly the events inside the annulus over all frames of that position, up to one fixed weight per event, and equals the image of the equivalent dense 0/1 frames.",
     ["inputs"],
     "All centres and radii on small frames (square and not), all small event sets and frame stacks.",
     "Tests compare a handful of downloaded results.",
     ["stempy/mask.cpp", "stempy/image.cpp", "python/stempy/image/__init__.py", "python/image.cpp"],
     ["mask construction and masked accumulation"],
     None, ["create_stem_images / createAnnularMask results"])

prop("C13", "Averages, maxima and dumps of raw blocks equal the per-pixel reference",
     "The average frame, the maximum diffraction pattern and the STEM-image histogram computed from blocks of raw frames equal the per-pixel mean, the per-pixel maximum and exact bin counts of all frames, with dark subtraction where given. "
     "This holds for every grouping of frames into blocks, every order, and every memory layout in which the caller provides the arrays, and does not modify the caller's data.",
     ["inputs"],
     "All groupings and orders of a few small frames over a small alphabet, several array layouts.",
     "No offline test calls these functions.",
     ["stempy/image.cpp", "python/pyreader.cpp", "python/image.cpp", "python/stempy/image/__init__.py"],
     ["accumulation loops over blocks; conversion of caller arrays"],
     None, ["returned images / histograms"])

prop("C14", "Converting raw data to HDF5 stores each frame at its own scan position",
     "After converting sector files or blocks to an HDF5 file and reading that file back, the pixel values found at each scan position are those recorded for it, in both supported layouts, and positions with no data read as zero. "
     "Reading the converted frames back through the block reader yields each image exactly once with its own image number, for any number of frames relative to the read block size. "
     "STEM images and their names are saved as given, next to what the file already has, and inconsistent ones are rejected without changing it.",
     ["inputs"],
     "All small recordings (scan shapes, orders of arrival, missing positions), all numbers of frames around the block size.",
     "Conversions are only tested with downloaded data.",
     ["stempy/reader.cpp", "python/stempy/io/__init__.py", "h5cpp/h5readwrite.cpp"],
     ["dataset creation from the first header, hyperslab writes by position"],
     None, ["HDF5 file contents"])

prop("C15", "What was handed to Python stays valid and unchanged whatever happens afterwards",
     "Blocks, frames, images, radial sums and event lists obtained in Python keep their content, and stay valid memory, whatever is done afterwards with the reader they came from: reading on, rewinding, computing images, counting, loading frames, deleting the reader or dropping other results. "
     "Results that are returned to the caller are the caller's: writing to them changes no other result and nothing a reader returns later.",
     ["histories"],
     "Every sequence of operations up to a depth on every kind of reader, everything obtained so far compared after every operation.",
     "Tests use one result at a time and never keep results across operations on the reader, where a buffer that is reused or released shows.",
     ["python/io.cpp", "python/image.cpp", "python/pyreader.cpp", "python/stempy/io/__init__.py", "python/stempy/image/__init__.py", "stempy/reader.cpp"],
     ["buffer protocol on shared blocks", "event vectors moved into NumPy arrays owned by a capsule", "ImageArray keeping its C++ object"],
     [("held results", "everything returned to the caller and not dropped yet")],
     ["arrays returned by read, read_frames, electron_count, create_stem_images, radial_sum, calculate_average"], True)

prop("C16", "Reading and counting from Python gives the same with every backend and option",
     "electron_count returns, for every kind of reader and every combination of dark reference, gain, row dark, number of threshold blocks and scan size, a sparse array with the scan shape and frame shape of the data, whose events for each scan position are those of its frames on their own at the reported thresholds, and whose metadata records the thresholds; the caller's arrays are not modified and their type and memory layout do not matter. "
     "read_frames returns for a position (index or row and column) the frames a NumPy index into its frames selects, in that order, and raises an error for positions and indices that do not exist. reader() returns a reader of the requested kind that delivers the recorded data, or raises an error.",
     ["inputs", "histories"],
     "Every backend with every combination of options on small recordings; every position form and every integer, slice, list and mask up to a size.",
     "The Python tests count downloaded data with one set of options; most of the combinations are not run at all.",
     ["python/stempy/image/__init__.py", "python/stempy/io/__init__.py", "python/image.cpp", "python/io.cpp", "stempy/electron.cpp"],
     ["options copied field by field into C++ structures", "positions unravelled in Python", "index applied to an arange of frame numbers"],
     None, ["electron_count", "SectorThreadedMultiPassReader.read_frames", "reader"], True)

prop("C17", "Dense centre of mass, bad-sector repair and phase integration follow their definitions",
     "The centre of mass of dense frames is the intensity-weighted mean column and row, for any content, element type and layout, and agrees with that of the same counts as sparse data. "
     "Repairing bad sectors changes exactly the positions whose horizontal centre of mass is outside of the cut-offs, wherever in the scan they lie, each to the median of the usable values around it. "
     "The phase is the real part of the regularised Fourier integral of the rotated, optionally flipped, centre of mass, for every scan shape.",
     ["inputs"],
     "Every content of small frames and scans, every place of a bad position or an impulse in larger ones.",
     "The tests do not call these functions except for one dense centre of mass.",
     ["python/stempy/image/__init__.py"],
     ["3x3 neighbourhood of a position", "Fourier coordinates of the scan axes"],
     None, ["com_dense", "filter_bad_sectors", "phase_from_com"])

prop("C18", "Reading and counting distributed over several MPI processes gives what one process gives",
     "In the MPI build, reading sector files with the multi-pass reader on several ranks hands every recorded frame to the consumer of exactly one rank, once, with its position, number and pixels, "
     "and counting electrons on several ranks returns on the first rank, for any number of ranks, workers, sample frames and frames per position, the events of every frame of the scan exactly once, at the thresholds calculated there; "
     "each operation can be repeated after a rewind and mixed with the others. Ranks call the same collective operations in the same order with fitting sizes, and no schedule of the ranks and their workers deadlocks, races or changes the result.",
     ["schedules", "inputs", "histories"],
     "1 to 6 ranks with 1 to 3 workers each; every interleaving (within a deviation bound) of two ranks with one or two workers and of three with one; every distribution of up to two frames over three positions; every history of three operations.",
     "The repository has no test of the MPI build at all, and with MPI the order of messages and workers cannot be controlled.",
     ["stempy/reader_mpi.cpp", "stempy/electron_mpi.cpp", "stempy/reader.h", "stempy/reader.cpp", "stempy/electron.cpp"],
     ["partition of the streams and of the scan positions by rank; allgather of the scan map; gather of sample blocks, broadcast of thresholds, gather of the events"],
     [("m_scanMapOffset, m_scanMapSize", "the share of the scan positions of this rank")],
     ["blocks handed to the readAll functor on each rank", "result of electronCount on rank 0"], True)

prop("C19", "The HDF5 layer stores what it is given and returns what is stored",
     "After any sequence of creating groups and data sets, writing them whole or in parts, and setting attributes, through the HDF5 layer (h5cpp), the file holds exactly what the calls that reported success wrote, with its type, shape, chunks and values, "
     "and calls that reported failure changed nothing; a call succeeds exactly when its target exists, is of the right kind, is not already taken and contains the addressed part. "
     "The queries, and reading whole data sets, strided parts and attributes, return what the file holds, whoever wrote it, and fail for another type, a part outside of the data set, several values where one is asked for, missing objects and files that are not open, without touching other memory.",
     ["histories", "inputs"],
     "All histories of three operations; all types, small shapes, parts and chunks; files from another writer.",
     "The repository has no test of this layer, and conversions only use a few of its calls in one order.",
     ["h5cpp/h5readwrite.cpp", "h5cpp/h5readwrite.h", "h5cpp/h5typemaps.h", "h5cpp/hidcloser.h"],
     ["type maps between C++, enumeration and HDF5 types; hyperslab selection for partial reads and updates; closing of identifiers"],
     None, ["return values of the layer", "HDF5 file contents"])

prop("C20", "Indexing a sparse array gives what indexing its dense form gives",
     "Indexing a sparse array with integers, slices, boolean masks or index arrays over scan and frame axes, in any supported combination, "
     "yields the same values as indexing the dense four-dimensional array it represents (the scan part of the index applied to the scan axes and the frame part to the frame axes, each with NumPy's rules), sparse results included, and raises an error for anything it does not support. "
     "Indexing never changes the indexed array.",
     ["inputs"],
     "All index expressions from a bounded grammar applied to small arrays of several shapes, numbers of frames and event contents.",
     "Tests check a few fixed index expressions on one array.",
     ["python/stempy/io/sparse_array.py"],
     ["__getitem__ and its scan/frame slicing helpers"],
     None, ["SparseArray.__getitem__"])

prop("C21", "Reductions of sparse arrays equal those of the dense array",
     "Sums, means, minima and maxima of a sparse array over any supported choice of axes, with or without an explicit dtype, equal those of the dense array it represents, for any number of frames per scan position, "
     "with and without pixels that several frames of a position share, and for every element type, up to rounding.",
     ["inputs"],
     "All small arrays over a bounded family of shapes and event contents, all axis choices.",
     "Tests run each on one random array.",
     ["python/stempy/io/sparse_array.py"],
     ["sparse specialisations of max, min, sum and mean"],
     None, ["SparseArray methods"])

prop("C22", "Binning and reshaping sparse data conserve every count at the right place",
     "Binning the scan or the frames of a sparse array, reshaping its scan, and expanding or collapsing several frames per position yield an array whose dense form equals the binned or reshaped dense original; the total number of counts is preserved exactly. "
     "This holds for in-place and copying variants, and the copying variants leave the original untouched.",
     ["inputs"],
     "All small arrays, shapes (square and not), bin factors and frame counts, in-place or not.",
     "Tests use one shape and one bin factor.",
     ["python/stempy/io/sparse_array.py"],
     ["index arithmetic of bin_scans / bin_frames"],
     None, ["bin_scans, bin_frames, reshape"])

prop("C23", "Any sequence of sparse-array operations stays consistent with the dense array",
     "After any sequence of slicing, in-place or copying binning, reshaping, conversion, copying and saving/loading, a sparse array still represents exactly the dense array obtained by the same sequence, "
     "earlier copies are unaffected, and images computed from it are those of its current content.",
     ["histories"],
     "All operation sequences up to a bounded depth from several initial arrays (breadth-first, deduplicated on content).",
     "Tests exercise single operations on fresh arrays.",
     ["python/stempy/io/sparse_array.py", "python/stempy/image/__init__.py"],
     ["cached derived state and shared underlying arrays"],
     None, ["dense form, create_stem_images"])

prop("C24", "Electron-counted data survives saving and loading, and old files still load",
     "Writing electron-counted data to HDF5 and reading it back gives the same scan shape (one-dimensional scans included), frame shape, events of every frame of every scan position (empty ones included) and metadata. "
     "Files in the two earlier layouts load to the same events, with several frames per position kept apart, and the fly-back column is dropped or kept exactly as asked.",
     ["inputs", "configurations"],
     "All small arrays (scan shapes, frames per position, empty positions), both older layouts, both fly-back settings.",
     "Tests load a few downloaded files.",
     ["python/stempy/io/sparse_array.py", "python/stempy/io/compatibility.py", "python/stempy/io/__init__.py"],
     ["HDF5 layout, migration of older layouts"],
     None, ["from_hdf5 / write_to_hdf5 / load_electron_counts / save_electron_counts"])

prop("C25", "Centre of mass, radial and detector sums of sparse data equal the dense ones",
     "Centre of mass, radial sum, virtual dark/bright field, real-space masked sum and the summed pattern of electron-counted data equal the values computed from the dense frames, summed over all frames of a position, "
     "for any number of frames per position, empty positions included, for rectangular two-dimensional scans and rectangular frames; cropping uses exactly the events inside the crop window around the centre. ",
     ["inputs"],
     "All small sparse arrays over a bounded family of scan shapes, frame shapes, crop settings and event sets.",
     "Tests compare one synthetic case per function.",
     ["python/stempy/image/__init__.py", "stempy/image.cpp"],
     ["index to row/column arithmetic, per-position accumulation"],
     None, ["com_sparse, radial_sum_sparse, virtual_darkfield, mask_real_space, calculate_sum_sparse"])

prop("C26", "Looking up a scan finds the file of exactly that scan",
     "Looking up a scan by scan number, identifier or both in a directory returns a file of the requested kind that belongs to exactly that scan, preferring the newest naming scheme with a match, and raises an error when none or several match. "
     "Files of other scans, whatever their names share with it, never affect the answer.",
     ["inputs"],
     "All subsets of a family of colliding file names, all queries.",
     "Tests use one directory listing.",
     ["python/stempy/contrib/__init__.py"],
     ["glob patterns"],
     None, ["get_scan_path"])


prop("C27", "What a call returns does not depend on what was called before in the process",
     "Every function of the Python interface returns what it returns in a new process for the same arguments, whichever other functions were called, readers used and arrays created, kept, changed or deleted before: reading, images, counting, sparse-array operations, centre of mass, saving, loading and looking up files. "
     "Two readers that are in use at the same time do not influence each other, in whatever order their operations are interleaved. "
     "No call changes the arrays it was given (except filter_bad_sectors, which repairs its argument) or a setting of the process, and writing into what was returned does not change what later calls return.",
     ["histories"],
     "All ordered pairs out of a pool of about 200 calls, all triples of the variants of one function, all interleavings of two readers' operations.",
     "Tests make one call on fresh data each.",
     ["python/stempy/image/__init__.py", "python/stempy/io/__init__.py", "python/stempy/io/sparse_array.py", "python/image.cpp", "python/io.cpp", "python/pyreader.cpp", "stempy/image.cpp", "stempy/electron.cpp", "stempy/reader.cpp", "stempy/mask.cpp"],
     ["anything with static or module-level state, caches, shared default arguments"],
     None, ["all public functions"])
prop("C28", "Calls in progress do not disturb each other, and an error ends one call only",
     "While a call waits for its data (a Python data set that it asks for frames, a file whose data has not arrived), other Python threads run, and any other call, made by the data set itself or by another thread, "
     "returns what it returns alone; so does the call that was waiting. This holds for every interleaving of several such calls, also on the same data set and with the same dark reference. "
     "When the data set raises, the call ends with exactly that error; when it returns too few or misshapen frames, the call ends with an error; memory stays valid, "
     "the reader goes on with the frames that it did not get, and after a reset every call on it, and on other readers, returns what it always does.",
     ["schedules", "histories"],
     "All calls that read from a Python data set x their accesses x other calls x threads; all interleavings of two and three threads; all accesses x kinds of errors; readers of files x arrival of the data.",
     "Tests make one call at a time, from data that is there and has no errors.",
     ["python/pyreader.h", "python/pyreader.cpp", "python/image.cpp", "python/io.cpp", "stempy/image.cpp", "stempy/electron.cpp", "stempy/reader.cpp", "python/stempy/image/__init__.py"],
     ["gil_scoped_release of the bindings, gil_scoped_acquire of PyReader and DataHolder, static and thread_local data, order of the updates in PyReader::read"],
     None, ["all functions that take a reader"])

prop("C29", "Pipeline functions get all their parameters and keep their description",
     "A function marked with any number of parameter(...) and pipeline(...) decorators, in any order, is called exactly once per call with the positional arguments as given, every keyword argument as given (None, zero and empty values included) "
     "and the recorded default of every parameter that was not given; its result is returned. Its PARAMETERS list exactly its own parameters, in the order of application (a name applied twice: the one applied last), with type, label, description and default; "
     "NAME, DESCRIPTION, INPUT, OUTPUT and AGGREGATION are those of the pipeline decorator applied last; its name, text and attributes stay. Functions do not share parameters, and calls do not change what later calls get.",
     ["inputs", "histories"],
     "All stacks of decorators up to a depth, all subsets of the keyword arguments, all interleavings of building two functions.",
     "No test covers the decorators.",
     ["python/stempy/pipeline/__init__.py"],
     ["wrapper per parameter, shared PARAMETERS table"],
     None, ["pipeline, parameter"])

prop("C30", "Arguments that do not fit together end in an error, all others are used as they are",
     "STEM images (of readers, data sets, sparse arrays and event lists), their histograms, radial sums, averages, maximum patterns and electron counts accept every set of arguments that fits together and return its result; "
     "radii, scan sizes, centres, dark references, gains, numbers of samples, blocks and bins, image numbers, frames of one block that differ in size from those of the others and events outside of the frame that do not fit "
     "end in an exception: never in a result, an access outside of the arrays, a crash or a hang. Arguments are not changed, and an error does not change what the same or another call returns afterwards. "
     "A scan size with a zero stands for the one of the reader.",
     ["inputs", "configurations"],
     "All combinations of fitting and not fitting values of all arguments of the functions.",
     "Tests pass valid arguments.",
     ["stempy/image.cpp", "stempy/image.h", "stempy/electron.cpp", "stempy/electronthresholds.cpp", "python/image.cpp", "python/pyreader.cpp", "python/stempy/image/__init__.py"],
     ["sizes that are taken from the first block, raw pointers to arrays of the caller"],
     None, ["create_stem_images, create_stem_histogram, radial_sum, calculate_average, maximum_diffraction_pattern, electron_count, PyReader"])


out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
