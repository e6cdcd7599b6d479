"""Writes /verif/properties.jsonl (kept as code so the file stays well formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

NODATA = 'The tests that reach this need data files and fixed reference numbers of one configuration; '
p('C01', 'Distribution over MPI ranks is an exact partition of the grid',
  'For any array shape and any number of ranks (including more ranks than points), distributing an array gives every rank one contiguous slab of the chosen axis; the slabs are disjoint, in rank order, differ in size by at most one, and concatenated they are the original array, element for element. The slab of a data record (spatial axes only, never time), of its weights and of its modes is the same on a given rank, and the axis chosen is the largest one. Without a communicator the array comes back whole.',
  ['inputs', 'configurations'], 'all array shapes, axes, dtypes, rank counts and ranks',
  'The one MPI run of the suite uses 2 ranks and sizes that divide; uneven remainders, zero-size slabs and every axis are never enumerated.',
  ['pyspod/utils/parallel.py', 'pyspod/spod/base.py', 'pyspod/utils/reader.py'],
  [('_blockdist', 'utils/parallel.py'), ('distribute, distribute_data, distribute_dimension', 'utils/parallel.py')],
  ['return values of distribute* on every rank'])
p('C02', 'Parallel batch SPOD gives the serial result',
  'For every data set, parameter set and number of MPI ranks, a distributed batch SPOD fit produces the same frequencies, eigenvalues, weights, time mean, number of blocks and (up to one unit complex phase per mode) the same stored modes as the serial fit of the same data. This includes ranks that own one point or none, several variables, and both ways of storing modes (one file per frequency, or one file per mode).',
  ['schedules', 'configurations', 'inputs'], 'all data, parameters, rank counts 1..n, message orders',
  NODATA + 'two ranks and even splits; they cannot quantify over partitions.',
  ['pyspod/spod/standard.py', 'pyspod/spod/base.py', 'pyspod/utils/parallel.py', 'pyspod/utils/reader.py', 'pyspod/utils/weights.py'],
  [('allreduce of the weighted inner-product matrix', 'spod/standard.py _compute_standard_spod'), ('collective mode writer; point-to-point mode shuffle of savefreq_disk2', 'spod/standard.py'), ('distribution of data and weights', 'spod/base.py _initialize')],
  ['eigs, freq, weights, eigs_freq.npz, modes/*.npy, ltm_modes.npy of serial and parallel runs'])
p('C03', 'Collective .npy files hold exactly the distributed array',
  'Saving an array distributed along any axis over any number of ranks (slabs of any sizes, including empty ones) produces one file that numpy loads as exactly the concatenation of the slabs, with the same dtype and values, whatever the memory layout of the slabs and whatever longer file stood there before. Loading that or any other .npy file collectively along any axis, with default or explicit counts, gives each rank its contiguous share, and the shares together are the file.',
  ['inputs', 'configurations', 'histories'], 'all shapes, axes, dtypes, byte orders, memory orders, slab sizes, rank counts, previous file contents',
  'One random 2-rank round trip exists; axis, empty slab, dtype, layout, truncation and default-count cases are not enumerated.',
  ['pyspod/utils/parallel.py'],
  [('npy_save: header on rank 0, scan of offsets, subarray file view, truncate', 'utils/parallel.py'), ('npy_load', 'utils/parallel.py')],
  ['bytes of the file, numpy.load, arrays returned by npy_load'])
p('C04', 'Collective operations match on every rank; no schedule deadlocks',
  'In every distributed operation of the library (fit, streaming fit, projection, reconstruction, POD, readers, .npy I/O) all ranks issue the same sequence of collective operations with the same roots, reduction operators and compatible sizes, and every point-to-point send has exactly one matching receive large enough for it, so that under every interleaving of the ranks the operation completes. Decisions that depend on files on disk are the same on every rank under every interleaving, and every directory or file one rank creates exists before another rank uses it. A file that some rank cannot read stops all ranks with an error; no rank is left waiting for it.',
  ['schedules', 'configurations'], 'all interleavings of the ranks, rank counts, parameter sets and on-disk states',
  'A test sees the one interleaving the machine happens to produce; a rank-dependent collective, or a file test racing with a writer, hangs only under others.',
  ['pyspod/utils/parallel.py', 'pyspod/spod/base.py', 'pyspod/spod/standard.py', 'pyspod/spod/streaming.py', 'pyspod/spod/utils.py', 'pyspod/pod/base.py', 'pyspod/pod/standard.py', 'pyspod/pod/utils.py', 'pyspod/utils/reader.py', 'pyspod/utils/weights.py'],
  [('collectives and barriers', 'all of the above'), ('Isend/Irecv exchange', 'reader.get_data_for_time, standard.savefreq_disk2'), ('_are_blocks_present', 'spod/base.py')],
  ['per-rank log of communicator, MPI.File and file-system calls'])
p('C05', 'The time record is cut into the right blocks',
  'With a record of nt snapshots, a block length and an overlap percentage, the batch analysis uses exactly floor((nt - novlp)/(n_dft - novlp)) blocks with novlp = ceil(n_dft*overlap/100); block i consists of the n_dft consecutive snapshots starting at i*(n_dft - novlp), all inside the record. The same blocks, unaltered by the processing of other blocks, are used whether the record comes as one array, as several consecutive data sets, or as the chunked in-memory form of the file readers, and the block average of the mean uses every snapshot once.',
  ['inputs', 'configurations'], 'all nt, n_dft, overlap, splits of the record into data sets or chunks',
  NODATA + 'an off-by-one at the end of the record, at a data-set boundary or in an overlap changes values too little, or in configurations not tested.',
  ['pyspod/spod/base.py', 'pyspod/spod/standard.py', 'pyspod/utils/reader.py'],
  [('n_blocks, n_overlap', 'spod/base.py'), ('_compute_blocks/_get_block', 'spod/standard.py'), ('long_t_mean', 'spod/base.py')],
  ['per-block Fourier coefficients (saved FFT blocks) and block contents, ltm_modes.npy'],
  None)
p('C06', 'Readers deliver every snapshot, point and variable exactly once',
  'For any division of a record into consecutive in-memory data sets, netCDF files or MATLAB files, any number of variables, ranks and reader processes, and any requested time window, the values a rank receives are exactly the values of its own points for the requested times, in time order, with each variable in its own slot. The reported record length, spatial shape and the real/complex nature are those of the whole record, and asking for one snapshot at a time gives the same values as reading the whole record.',
  ['inputs', 'configurations', 'schedules'], 'all splits, shapes, variables, windows, rank and reader counts',
  'The suite exercises one or two equal files with data that is not available; windows that cross files, uneven shares and reader counts are not enumerated.',
  ['pyspod/utils/reader.py', 'pyspod/utils/parallel.py'],
  [('reader_1stage', 'utils/reader.py'), ('reader_2stage', 'utils/reader.py'), ('reader_mat', 'utils/reader.py')],
  ['arrays returned by get_data(), get_data(ts), get_data_for_time(ts, te); nt, shape, xshape, is_real'])
p('C07', 'Eigenvalues are those of the weighted cross-spectral density',
  'At every frequency the reported eigenvalues are real, non-negative, in decreasing order, and are the eigenvalues of the block-averaged weighted cross-spectral density of the mean-removed, Hamming-windowed, gain-corrected blocks; in particular they sum to the block-averaged weighted spectral energy, with interior frequencies of a one-sided spectrum counted twice. This holds for longtime, blockwise and zero mean, user weights, weights normalised by variance, data normalised by variance, and single or double precision.',
  ['inputs', 'configurations'], 'all data records, weights and parameter combinations',
  NODATA + 'a few min/max values; no test relates eigenvalues to the energy of the data.',
  ['pyspod/spod/standard.py', 'pyspod/spod/base.py', 'pyspod/utils/weights.py'],
  [('_compute_blocks', 'spod/standard.py'), ('_compute_standard_spod', 'spod/standard.py'), ('select_mean, define_weights', 'spod/base.py')],
  ['eigs attribute and eigs_freq.npz'])
p('C08', 'Stored modes are weighted-orthonormal eigenvectors in eigenvalue order',
  'At every frequency the stored modes belonging to non-negligible eigenvalues have unit weighted norm, are mutually orthogonal in the weighted inner product, and mode k is an eigenvector of the weighted cross-spectral density for the k-th eigenvalue, laid out over space and variables like the data. Exactly min(requested, number of blocks) modes are stored for every frequency, and the leading ones are kept when fewer are requested. The orthogonality check answers accordingly: for any choice of modes and any number of ranks its values are their weighted inner products and its verdicts say which of them are as for orthonormal modes.',
  ['inputs', 'configurations'], 'all data records, weights and parameter combinations',
  NODATA + 'they compare a few magnitudes of one data set.',
  ['pyspod/spod/standard.py', 'pyspod/spod/utils.py', 'pyspod/utils/postproc.py'],
  [('mode computation, scaling, truncation and saving', 'spod/standard.py _compute_standard_spod'), ('check_orthogonality', 'spod/utils.py')],
  ['modes/*.npy through get_modes_at_freq, eigs, check_orthogonality'])
p('C09', 'The frequency axis is the axis of the transform',
  'Entry k of the frequency axis is the physical frequency at which the coefficients, eigenvalues and modes of index k were computed: a pure oscillation on the grid of the block length puts its energy at the entry whose frequency it has, for any time step. Real data without the full-spectrum option give n_dft//2+1 non-negative frequencies, complex data without it n_dft signed frequencies, the full-spectrum option n_dft frequencies k/(n_dft*dt); and the stored axis, eigenvalues and modes always have equally many frequencies.',
  ['inputs', 'configurations'], 'all even block lengths, time steps, spectrum types, oscillation frequencies',
  NODATA + 'no test relates the axis to the transform.',
  ['pyspod/spod/base.py', 'pyspod/spod/standard.py'],
  [('get_freq_axis', 'spod/base.py'), ('rfft/fft choice', 'spod/standard.py _compute_blocks')],
  ['freq, eigs, n_freq, eigs_freq.npz'])
p('C10', 'Stored results always describe the latest fit',
  'After any sequence of fits into the same or different result directories, the files of a result directory (modes of every frequency, eigenvalues, frequencies, weights, parameters) that the library reads back describe the latest fit into that directory, and the in-memory attributes of an analysis object describe its own latest fit. Reading, plotting or changing a returned array never alters stored results, and reading works the same from any current directory and any number of times.',
  ['histories'], 'all sequences of fits (any parameters), reads and modifications of what was read',
  'Every test fits into a fresh directory and removes it.',
  ['pyspod/spod/base.py', 'pyspod/spod/standard.py', 'pyspod/utils/postproc.py', 'pyspod/spod/utils.py'],
  [('_store_and_save', 'spod/base.py'), ('get_modes_at_freq, get_all_modes, get_data_from_file', 'utils/postproc.py')],
  ['files in the result directory; post.get_modes_at_freq/get_all_modes'],
  None, [('result directory', 'what the latest fit left', 'savedir_sim')])
p('C11', 'Saving and reusing FFT blocks never changes the results',
  'A fit that saves its FFT blocks, and a later fit of the same record with block reuse on, give the same eigenvalues and modes as a fit that does neither, serial or parallel, with the same or another number of ranks. If the block store is incomplete, for instance because an earlier run was interrupted at any file, blocks are recomputed and the result is still the same.',
  ['crash_points', 'histories', 'configurations'], 'all subsets of block files present at start, all points at which the saving run stops between files, rank counts',
  'One test reuses a complete store, on data that is not available; no test removes a block file or interrupts a run.',
  ['pyspod/spod/standard.py', 'pyspod/spod/base.py'],
  [('_are_blocks_present', 'spod/base.py'), ('block save and load paths of fit', 'spod/standard.py')],
  ['eigs, modes, files in blocks/'])
p('C12', 'SPOD coefficients are the weighted oblique projection; reconstruction inverts it',
  'For any data and any band of frequencies the expansion coefficients are the weighted least-squares coefficients of the mean-removed data in the stored modes of exactly that band (residual weighted-orthogonal to every one of these modes), and the reconstruction at any list of times is those modes times the coefficients plus the time mean, so data in the span of the modes is reproduced. Coefficients, stored auxiliary files and reconstruction are the same for any number of ranks, and the methods of an analysis object give what these functions give for the results or coefficients directory handed to them, whatever was projected before.',
  ['inputs', 'configurations', 'schedules', 'histories'], 'all data, weights, bands, time selections, rank counts; all histories of projections and reconstructions',
  NODATA + 'error norms of one data set and all frequencies.',
  ['pyspod/spod/utils.py', 'pyspod/spod/base.py'],
  [('compute_coeffs_op, _oblique_projection, _get_modes', 'spod/utils.py'), ('compute_reconstruction, _compute_rec_op', 'spod/utils.py')],
  ['coeffs.npy, modes_r.npy, ltm.npy, params_coeffs.yaml, reconstructed.npy'])
p('C13', 'Analyses are repeatable and leave the caller\'s inputs untouched',
  'Fitting (batch SPOD, streaming SPOD, POD), projecting and reconstructing never modify the data, weights, coefficients, indices or other arguments passed in, and never change the numerical parameters in the parameter dictionary; neither do the post-processing functions. Repeating the same analysis with the same objects, or from a fresh object, gives the same results whatever was run in between.',
  ['histories', 'inputs'], 'all sequences of analyses and post-processing calls sharing data, weights, parameter and argument objects',
  'No test uses its inputs twice.',
  ['pyspod/spod/base.py', 'pyspod/spod/standard.py', 'pyspod/spod/streaming.py', 'pyspod/pod/base.py', 'pyspod/utils/weights.py', 'pyspod/spod/utils.py', 'pyspod/pod/utils.py', 'pyspod/utils/postproc.py', 'pyspod/utils/errors.py', 'pyspod/emulation/base.py'],
  [('define_weights, apply_normalization', 'spod/base.py, utils/weights.py'), ('copy in _get_block', 'spod/standard.py'), ('params handling', 'spod/base.py __init__, _store_and_save')],
  ['inputs before and after each call, results of repeated calls'])
p('C14', 'Streaming SPOD is orthonormal, complete and independent of how data arrives',
  'For a record given as one data set or as several consecutive ones, on one or several ranks, streaming SPOD consumes every snapshot exactly once in order and gives the same eigenvalues and modes (up to phase). The modes are orthonormal in the weighted inner product, the eigenvalues are real, non-negative and decreasing, their number is the requested number of modes at each frequency, and the number of basis updates is the number of complete sliding windows its schedule defines. The stored time mean is the mean of all snapshots.',
  ['inputs', 'configurations', 'schedules'], 'all records, splits, overlaps, numbers of modes >= 2, rank counts',
  NODATA + 'one split and two ranks.',
  ['pyspod/spod/streaming.py', 'pyspod/utils/reader.py', 'pyspod/spod/base.py'],
  [('block slots and DFT accumulation', 'spod/streaming.py fit'), ('rank-one SVD update', 'spod/streaming.py fit'), ('snapshot reads', 'utils/reader.py get_data(ts)')],
  ['eigs, modes, snapshot requests made to the reader'])
p('C15', 'POD modes carry the energy; projection and reconstruction are consistent',
  'POD eigenvalues are real, non-negative and decreasing and sum to the weighted energy of the mean-removed record; the stored modes are orthonormal in the weighted inner product; the coefficients of mode i are the weighted projections of the mean-removed data, have energy equal to the i-th eigenvalue, are mutually uncorrelated, and reconstruct the best approximation of the data. The results are the same for any number of ranks and any split of the record into consecutive data sets, for one or several variables, and the methods of an analysis object give what the functions give for the directory handed to them, whatever was projected before.',
  ['inputs', 'configurations', 'schedules', 'histories'], 'all records, weights, numbers of modes, splits, rank counts; all histories of projections and reconstructions',
  NODATA + 'error norms of one data set.',
  ['pyspod/pod/standard.py', 'pyspod/pod/base.py', 'pyspod/pod/utils.py'],
  [('fit', 'pod/standard.py'), ('_initialize', 'pod/base.py'), ('compute_coeffs_op, compute_reconstruction', 'pod/utils.py')],
  ['eigs, modes.npy, coeffs.npy, reconstructed.npy'])
p('C16', 'Variance normalisation does not depend on the partition',
  'The mean, variance and count computed collectively equal those of the undivided array for every division over ranks, including ranks with one value or none and every order in which partial results are merged. With weight normalisation each variable\'s weights are divided by exactly that variable\'s variance over space and time, in serial and in parallel.',
  ['schedules', 'inputs', 'configurations'], 'all arrays, all partitions, all merge trees of the reduction',
  'No passing test runs the parallel normalisation; merge order is chosen by the MPI library.',
  ['pyspod/utils/parallel.py', 'pyspod/utils/weights.py'],
  [('pvar and its merge operator', 'utils/parallel.py'), ('apply_normalization', 'utils/weights.py')],
  ['return value of pvar on every rank; weights after normalisation'])
p('C17', 'Emulation scaling is invertible and bounded',
  'For real and complex coefficient matrices and each normalisation option, the scaling vector has one entry per row; scaling and then descaling gives back the data up to rounding (also for rows that are entirely zero or purely real), and acts on every row and on real and imaginary parts independently. With a maximum-type normalisation the scaled training data never exceed one in magnitude (real and imaginary parts separately).',
  ['inputs', 'configurations'], 'all matrices, data types, normalisation options',
  'The only test of this trains a network on data that is not available.',
  ['pyspod/emulation/base.py'], [('scaler, scale_data, descale_data', 'emulation/base.py')],
  ['vectors and matrices returned'])
p('C18', 'Emulation sequences and predictions are aligned in time',
  'Every training pair consists of n_seq_in consecutive snapshots and the n_seq_out consecutive snapshots that start fh steps after the last input snapshot, all rows (features) in order, and the pairs enumerate consecutive start times. Inference copies the initial n_seq_in snapshots and writes the prediction made from the true inputs at times t-n_seq_in..t-1 exactly at times t..t+n_seq_out-1, real and imaginary parts from their own networks.',
  ['inputs', 'configurations'], 'all lengths, n_seq_in, n_seq_out, fh, features, real/complex',
  'The only test trains a network on data that is not available and checks two numbers.',
  ['pyspod/emulation/neural_nets.py'], [('extract_sequences', 'emulation/neural_nets.py'), ('model_inference', 'emulation/neural_nets.py')],
  ['arrays returned by extract_sequences and model_inference; inputs passed to the network'])
p('C19', 'Invalid configurations are rejected, valid ones are not',
  'A fit refuses, with an exception and before any result file is written, block lengths below 4, overlaps that leave no stride, records too short for two blocks, unknown mean types, weights whose size differs from space times variables, data sets of different spatial shape, and contradictory mode-storage options; the same configuration with the offending value repaired is accepted. Configuration files yield exactly the required and optional keys and values written in them.',
  ['configurations'], 'all parameter combinations around each limit',
  'The suite checks a handful of invalid values one at a time.',
  ['pyspod/spod/base.py', 'pyspod/utils/reader.py', 'pyspod/utils/io.py'],
  [('checks in __init__ and _initialize', 'spod/base.py'), ('define_weights, select_mean', 'spod/base.py'), ('read_config', 'utils/io.py')],
  ['exception or success, files in the result directory, dictionary returned'])
p('C20', 'Confidence bounds bracket every eigenvalue',
  'For every confidence level in [0.6, 1) and every eigenvalue the stored lower bound is at most the eigenvalue and the stored upper bound at least the eigenvalue, both scale with the eigenvalue by factors that depend only on the number of blocks and the level, and raising the level never narrows the interval.',
  ['inputs', 'configurations'], 'all records, confidence levels, block counts',
  'No test reads the bounds.',
  ['pyspod/spod/base.py', 'pyspod/spod/standard.py'],
  [('_xi2_upper/_xi2_lower', 'spod/base.py'), ('_eigs_c', 'spod/standard.py'), ('_store_and_save', 'spod/base.py')],
  ['eigs, eigs_c_l, eigs_c_u of eigs_freq.npz'])
p('C21', 'Nearest-frequency and nearest-coordinate lookups agree with the axes',
  'Looking up a frequency or a coordinate tuple returns an index and a value such that the axis at that index is that value and no other entry of the axis is closer to the request, in any number of space dimensions, for unsorted or signed axes, lists or arrays.',
  ['inputs'], 'all axes, requests, dimensions',
  'The suite looks up one point on one grid.',
  ['pyspod/utils/postproc.py', 'pyspod/spod/base.py'],
  [('find_nearest_freq, find_nearest_coords', 'utils/postproc.py')], ['values and indices returned'])
p('C22', 'Error norms are norms of the difference',
  'Each error measure (l1, l2, linf, their relative forms, and h1) is non-negative, is zero when the data equal the reference, equals its defining formula on the entrywise (or time-derivative) difference, so that errors of opposite sign never cancel, whatever the number type of the data (real, complex, signed or unsigned integers), and does not depend on the order in which space is laid out.',
  ['inputs'], 'all data and reference arrays of any number type', 'Tests compare a few numbers for one data set.',
  ['pyspod/utils/errors.py'], [('compute_l_errors, compute_h_errors', 'utils/errors.py')], ['returned numbers'])
p('C23', 'Geospatial weights are the areas of the grid cells',
  'For every grid of at least three latitudes from pole to pole, equidistant longitudes, levels and variables, and every radius, the trapezoidal geospatial weight of a point is the area of its cell on the sphere (radius squared times cosine of the latitude times the latitude and longitude spacing): never negative, symmetric about the equator, the same for every longitude, level and variable, one weight per point and variable laid out like the data, and a fit applies to each point the weight computed for that point.',
  ['inputs', 'configurations'], 'all grid sizes, numbers of levels and variables, radii, analyses, ranks',
  'Two tests compare three numbers of one fit with one variable.',
  ['pyspod/utils/weights.py'], [('geo_trapz_2D, geo_trapz_3D', 'utils/weights.py'), ('define_weights', 'spod/base.py'), ('define_weights', 'pod/base.py')],
  ['arrays returned; weights.npy of a fit'])
p('C24', 'Plots and derived quantities show the data they name',
  'Every figure, film and series made from results shows exactly the data asked for: modes of the frequency nearest to the one requested, in the requested order and number; every plotted value at the coordinates of its own grid point (modes and data of 2 and 3 space dimensions, every slice, axis order given by the caller, half-rotation and frequency-shift options), the marked maximum where the maximum is; eigenvalues, energy spectra, coefficients, tracers films and the pages of a report over exactly the requested window, variables and files, with tracers of a mode oscillating at the frequency of that mode; everything drawn lies within the limits of its axes and the range of its colours, ticks are where asked for; the caller\'s arrays are left as they were. The class methods show the same as the functions they wrap, for the results of the fit.',
  ['inputs', 'configurations'], 'all modes, grids, axis orders, windows, frequencies, options',
  'The suite calls a few plot functions with one data set and looks at none of the figures.',
  ['pyspod/utils/postproc.py', 'pyspod/spod/base.py'],
  [('plot_*, generate_*, get_*', 'utils/postproc.py'), ('plot_* and generate_* wrappers', 'spod/base.py')],
  ['artists (points, colours, lines, titles) in the figures; frames of films; files written'])
p('C25', 'Convolution coefficients follow the modes at every snapshot',
  'The coefficient that the continuously-discrete (convolution) expansion gives for a mode of the band, at any snapshot, is the weighted inner product of that mode with the Fourier coefficient, at the frequency of the mode, of the Hamming-windowed mean-removed record centred on the snapshot (half a window before it, zero outside the record); where the window leaves the record it is multiplied by one real factor, the same for every frequency and mode, never below one, that makes up for the part of the window lost. There is a coefficient for every frequency of the band, snapshot and stored mode, for any record of the same grid (also another one than that of the fit, shorter or complex), any band and order of frequencies, weights and data kind. Over the blocks of the fit itself the coefficients of two modes are uncorrelated and their mean square is the eigenvalue, and any number of ranks gives the same coefficients.',
  ['inputs', 'configurations'], 'all records, bands, window lengths, weights, rank counts',
  NODATA + 'the convolution is run for one record and compared with three numbers.',
  ['pyspod/spod/utils.py'], [('compute_coeffs_conv', 'spod/utils.py'), ('_hamming_window', 'spod/utils.py')], ['coeffs.npy'])
p('C26', 'An analysis object describes the record and results of its latest fit',
  'After any history of fits, projections and reconstructions on any number of analysis objects, what an object says about itself - length, shape, grid, points and variables of the record, time step, numbers of blocks, frequencies and modes, eigenvalues, frequency axis, weights, parameters stored, directories and files named - is, on every rank, that of its own latest fit (projection, reconstruction), as its parameters and that record determine it: nothing is left over from an earlier fit or another object built from the same parameters. Its getters (snapshots, modes of a frequency, nearest frequency and coordinates) answer for that fit.',
  ['histories', 'inputs', 'configurations'], 'all histories of fits with records of any length, grid and kind, parameters, rank counts',
  'Tests fit each object once and look at few attributes.',
  ['pyspod/spod/base.py', 'pyspod/pod/base.py', 'pyspod/utils/reader.py'], [('_initialize, _store_and_save, getters', 'spod/base.py'), ('_initialize, getters', 'pod/base.py'), ('shape, dim, nt', 'utils/reader.py')], ['attributes and getters of analysis objects; params_modes.yaml, eigs_freq.npz, weights.npy'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P))
