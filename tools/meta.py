"""Texts of the properties; tools/gen.py turns them into properties.jsonl and MANIFEST.json."""
RECON = ['source/tomopy/recon/algorithm.py', 'source/tomopy/util/extern/recon.py', 'source/tomopy/util/mproc.py', 'source/libtomo/recon/utils.c']
TESTS = 'The tests compare one stored phantom result per routine (one size, one angle set, one thread count, loose tolerance); '
PROPS = [
 dict(id='C01', title='Forward projection is the exact line integral through the voxels',
  statement='Every projection value equals the sum over voxels of voxel value times the length of the ray inside that voxel, for the parallel-beam ray given by the angle, detector bin and rotation centre (transmission mode returns exp of minus that sum). Each slice is projected on its own, the result is linear in the object, and padding, sinogram ordering, chunking and worker count change only the layout they are documented to change.',
  over=['inputs', 'configurations', 'schedules'], forall='all voxel values, angles of any sign and any number of turns, object shapes (square or not), centres, paddings, chunk sizes and worker orders',
  why=TESTS + 'they never look at a single ray, at angles beyond one turn, at rectangular objects or at the centre.',
  files=['source/tomopy/sim/project.py', 'source/libtomo/recon/project.c', 'source/libtomo/recon/utils.c', 'source/tomopy/util/mproc.py'],
  mech=[('project', 'source/tomopy/sim/project.py'), ('ray tracing: preprocessing, calc_quadrant, calc_coords, trim_coords, sort_intersections, calc_dist, calc_simdata', 'source/libtomo/recon/utils.c')]),
 dict(id='C02', title='Back projection (fbp) is the adjoint of forward projection',
  statement='Back projection adds to each pixel the measured value of every ray weighted by exactly the length with which forward projection weights that pixel, so that the two operators are transposes of each other for the same angles, centre and grid. The start image is added to, and each slice uses its own data and rotation centre.',
  over=['inputs', 'configurations', 'schedules'], forall='all measured values and start images, angle sets, per-slice centres, rectangular grids, chunkings and worker orders',
  why=TESTS + 'adjointness is a statement about all data and all rays, which one stored image does not settle.',
  files=RECON + ['source/libtomo/recon/fbp.c'], mech=[('fbp', 'source/libtomo/recon/fbp.c'), ('recon', 'source/tomopy/recon/algorithm.py')]),
 dict(id='C03', title='ART, SIRT and BART perform the documented linear updates',
  statement='ART visits the rays in order and moves the image by the ray residual divided by the squared ray norm along the ray; SIRT averages these corrections over all rays of a pixel before applying them; BART does so per ordered subset. Data consistent with the image is left unchanged, n iterations equal one iteration applied n times, and the subsets partition the projections in the given order.',
  over=['inputs', 'configurations', 'schedules'], forall='all measured values and start images, iteration counts, subset counts, subset permutations, angle sets, grids and centres',
  why=TESTS + 'no test checks an update, a subset that does not divide the number of projections, or a permutation.',
  files=RECON + ['source/libtomo/recon/art.c', 'source/libtomo/recon/bart.c'], mech=[('art', 'source/libtomo/recon/art.c'), ('sirt (one subset)', 'source/libtomo/recon/bart.c'), ('bart', 'source/libtomo/recon/bart.c')]),
 dict(id='C04', title='MLEM and OSEM perform the expectation-maximisation update',
  statement='Each iteration multiplies every pixel by the ray-length-weighted mean of measured over re-projected values of the rays through it, over all projections (MLEM) or over each ordered subset in turn (OSEM); pixels no ray crosses keep their value. Non-negative data and start images give non-negative images, and n iterations equal one iteration applied n times.',
  over=['inputs', 'configurations', 'schedules'], forall='all non-negative measured values, positive start images, iteration counts, subsets, angle sets, grids and centres',
  why=TESTS + 'no test checks an update against its definition.',
  files=RECON + ['source/libtomo/recon/osem.c'], mech=[('mlem (one subset)', 'source/libtomo/recon/osem.c'), ('osem', 'source/libtomo/recon/osem.c')]),
 dict(id='C05', title='The penalised likelihood methods solve their surrogate in every pixel',
  statement='After each update of the PML and OSPML methods every pixel is the positive root of its quadratic surrogate: likelihood terms over the rays of the projection set or subset, and the quadratic or hybrid neighbourhood penalty with weights normalised over the neighbours a pixel really has (3 at corners, 5 at edges, 8 inside). n iterations equal one iteration applied n times.',
  over=['inputs', 'configurations', 'schedules'], forall='all positive measured values and start images, regularisation parameters, subsets, grids, angle sets and centres',
  why=TESTS + 'borders, rectangular grids, weights and penalties are never looked at separately.',
  files=RECON + ['source/libtomo/recon/ospml_quad.c', 'source/libtomo/recon/ospml_hybrid.c'],
  mech=[('ospml_quad', 'source/libtomo/recon/ospml_quad.c'), ('ospml_hybrid', 'source/libtomo/recon/ospml_hybrid.c')]),
 dict(id='C06', title='Gradient descent, Tikhonov and total variation follow their iterations',
  statement='The gradient method descends along the gradient of the squared residual with the given or Barzilai-Borwein step, the Tikhonov method adds the gradient of the squared distance to the prior image of the same slice, and total variation performs the Chambolle-Pock iteration with its gradient and divergence as negative adjoints on rectangular grids too. Every slice is treated alike wherever the work is cut.',
  over=['inputs', 'configurations', 'schedules'], forall='all measured values, start and prior images, step sizes, regularisation weights, grids, angle sets, chunkings',
  why=TESTS + 'rectangular grids, several chunks with a prior image, and the step rule are not reached.',
  files=RECON + ['source/libtomo/recon/grad.c', 'source/libtomo/recon/tikh.c', 'source/libtomo/recon/tv.c'], mech=[('grad', 'source/libtomo/recon/grad.c'), ('tikh', 'source/libtomo/recon/tikh.c'), ('tv', 'source/libtomo/recon/tv.c')]),
 dict(id='C07', title='Vector fields are projected and reconstructed by their own definition',
  statement='Projecting a vector field gives, per ray, the integral of the field component along the ray through the voxels, for every choice of tilt axis; the vector reconstruction averages the ray residuals per voxel along the ray direction into the two components its data set sees. Each data set uses its own angles and rotation centres, each slice its own data, and voxels no ray crosses keep their value.',
  over=['inputs', 'configurations', 'schedules'], forall='all field components and measured values, angle sets, tilt axes, centres per slice, iteration counts, paddings and orderings',
  why=TESTS + 'the second and third data set, the tilt axes, centres and uncrossed voxels are not examined.',
  files=['source/tomopy/sim/project.py', 'source/tomopy/recon/vector.py', 'source/libtomo/recon/project.c', 'source/libtomo/recon/vector.c', 'source/libtomo/recon/utils.c'],
  mech=[('project2, project3', 'source/tomopy/sim/project.py'), ('vector, vector2, vector3', 'source/tomopy/recon/vector.py'), ('vector updates', 'source/libtomo/recon/vector.c')]),
 dict(id='C08', title='Gridrec is filtered Fourier gridding of each sinogram on its own',
  statement='Gridrec returns, per slice, the inverse transform of the filtered projections gridded in Fourier space at their own angle about the slice\'s own rotation centre, with the named filter equal to its documented frequency response and custom filters applied per frequency (and per projection). The result is linear in the data, ignores the start image, is unaffected by neighbouring slices, projection order or full turns, agrees for opposite views, and a smaller grid is the central crop of a larger one.',
  over=['inputs', 'configurations', 'schedules'], forall='all measured values and custom filter coefficients, angle sets, centres per slice, odd and even slice counts, grids, filters, chunkings',
  why=TESTS + 'cross-talk between the two slices processed as one complex signal, per-slice centres, grids and filter parameters are not examined.',
  files=['source/tomopy/recon/algorithm.py', 'source/tomopy/util/extern/gridrec.py', 'source/libtomo/gridrec/gridrec.c', 'include/libtomo/filters.h'],
  mech=[('gridrec', 'source/libtomo/gridrec/gridrec.c'), ('filters', 'include/libtomo/filters.h'), ('recon', 'source/tomopy/recon/algorithm.py')]),
 dict(id='C09', title='A reconstruction does not depend on how the work is cut or handed over',
  statement='For every algorithm the reconstruction of a set of slices is the slice-by-slice reconstruction put together again: chunk size, number of workers, the order in which workers finish, the number of slices and the rest of the batch make no difference. A sinogram-ordered input, a scalar or list form of the same centre, positional or keyword regularisation parameters, a user supplied method and a start image keep their documented meaning.',
  over=['inputs', 'configurations', 'schedules'], forall='all measured values, slice counts, chunk sizes, worker counts, completion orders and equivalent argument forms, for each algorithm',
  why=TESTS + 'a single chunking of one data set is compared with a stored result.',
  files=RECON, mech=[('recon, _init_recon, _dist_recon', 'source/tomopy/recon/algorithm.py'), ('get_worker_ncore_slices', 'source/tomopy/util/mproc.py')]),
 dict(id='C10', title='Work is split into an exact partition and put together in place',
  statement='For every axis length, number of workers and chunk size the pieces handed to workers are non-empty, contiguous, in order, disjoint and cover the axis, with as many workers as documented. Distributing a function over an axis equals applying it to each piece, keeps data types, leaves inputs alone and accepts arrays already in shared memory, views and scalars.',
  over=['inputs', 'configurations', 'schedules'], forall='all axis sizes, worker counts, chunk sizes, array values, memory layouts and completion orders',
  why='The tests split one array four ways with one worker count; uneven remainders, more workers than work, several arrays and views of shared memory are not reached.',
  files=['source/tomopy/util/mproc.py'], mech=[('get_ncore_slices, get_worker_ncore_slices', 'source/tomopy/util/mproc.py'), ('distribute_jobs, get_shared_mem, on_shared_mem', 'source/tomopy/util/mproc.py')]),
 dict(id='C11', title='Flat-field normalisation computes the documented formula everywhere',
  statement='Every normalised value is (projection - dark) / (flat - dark) of its own pixel with the averaged frames, never dividing by less than the documented floor and cut off where asked; with flats taken during the scan each projection uses the group nearest to it. Air-region and background normalisation divide each row by its own air value, or the line between both ends; the minus logarithm is taken elementwise, and none of this depends on the number of workers.',
  over=['inputs', 'configurations', 'schedules'], forall='all projection, flat and dark values, data types, numbers of frames, averaging modes, cut-offs, regions of interest, air widths and worker counts',
  why='The tests compare one stored data set with one set of arguments; dark equal to flat, several groups of flats, cut-offs, output arrays and worker counts are not reached.',
  files=['source/tomopy/prep/normalize.py', 'source/libtomo/prep/prep.c', 'source/tomopy/util/extern/prep.py'],
  mech=[('normalize, normalize_nf, normalize_roi, normalize_bg, minus_log', 'source/tomopy/prep/normalize.py'), ('normalize_bg', 'source/libtomo/prep/prep.c')]),
 dict(id='C12', title='Filters and pointwise corrections act slice by slice as documented',
  statement='Gaussian, median, Sobel and outlier filters apply their documented window and boundary rule to each slice along the chosen axis and to nothing else, whichever the number of threads, memory layout, data type or output array; an outlier is replaced exactly when it deviates by at least the given difference. Clipping, range adjustment, NaN replacement, circular masks and non-finite repair change exactly the values they name, and a failure inside a worker thread reaches the caller.',
  over=['inputs', 'configurations', 'schedules'], forall='all array values, thresholds and limits, kernel sizes, axes, data types, output arrays, memory layouts, worker counts and completion orders',
  why='The tests compare the sum or one stored image per filter with default arguments; axes, views, output arrays, more workers than slices and worker failures are not reached.',
  files=['source/tomopy/misc/corr.py'], mech=[('gaussian_filter, median_filter, sobel_filter', 'source/tomopy/misc/corr.py'), ('remove_outlier, remove_outlier1d, remove_nan, remove_neg, adjust_range, circ_mask', 'source/tomopy/misc/corr.py'), ('median_filter_nonfinite, enhance_projs_aps_1id', 'source/tomopy/misc/corr.py')]),
 dict(id='C13', title='The 3D median filter and dezinger use the cube around each voxel',
  statement='Every voxel of the 3D median filter is the median of the cube of the given size around it, an index outside the volume being replaced by that of the centre; the dezinger replaces a voxel by that median exactly when it deviates from it by at least the threshold and keeps it otherwise. Float and 16-bit data, odd and even sizes, flat volumes, views and any number of workers give the same result and leave the input alone.',
  over=['inputs', 'configurations'], forall='all voxel values and thresholds, data types, kernel sizes, shapes, memory layouts and worker counts',
  why='The tests compare the result for one stored volume; borders, thin volumes, converted data types and views are not reached.',
  files=['source/tomopy/misc/corr.py', 'source/libtomo/misc/median_filt3d.c'],
  mech=[('median_filter3d, remove_outlier3d', 'source/tomopy/misc/corr.py'), ('medianfilter_main_float, medianfilter_main_uint16', 'source/libtomo/misc/median_filt3d.c')]),
 dict(id='C14', title='Inpainting fills exactly the masked values from known neighbours',
  statement='Inpainting leaves every value outside the mask as it is and fills the masked ones layer by layer from the known values in the window: their distance-weighted mean, their median, or one of them picked at random. Two-dimensional images and three-dimensional volumes, or single slices along any axis, follow the same rule, and the input stays as it is.',
  over=['inputs', 'configurations', 'schedules'], forall='all known values, masks, window sizes, iteration counts, slicing axes and random numbers',
  why='The tests compare one stored image per variant; single values, masks at borders, axes of length one and values of both signs are not reached.',
  files=['source/tomopy/misc/corr.py', 'source/libtomo/misc/inpainter.c'],
  mech=[('inpainter_morph', 'source/tomopy/misc/corr.py'), ('eucl_weighting_inpainting_2D/3D, median_rand_inpainting_2D/3D', 'source/libtomo/misc/inpainter.c')]),
 dict(id='C15', title='Stripe detection weights and masks follow the published 3D method',
  statement='Stripe detection gives every voxel the ratio between its horizontal gradient and the mean gradient of its neighbourhood, reduced by the order statistic over the vertical window, with mirrored neighbours at the borders and no access outside the volume. The mask marks exactly the runs of low weights that are long and deep enough, and closes gaps up to the stripe width.',
  over=['inputs', 'configurations', 'schedules'], forall='all voxel values and thresholds, window sizes, lengths, depths, widths, sensitivities and volume shapes (axes of length one included)',
  why='The tests count marked voxels of one stored volume; borders, short axes, flat regions and single runs are never looked at.',
  files=['source/tomopy/prep/stripe.py', 'source/libtomo/prep/stripes_detect3d.c'],
  mech=[('stripes_detect3d, stripes_mask3d', 'source/tomopy/prep/stripe.py'), ('stripesdetect3d_main_float, stripesmask3d_main_float', 'source/libtomo/prep/stripes_detect3d.c')]),
 dict(id='C16', title='Stripe removal computes its published correction in every sinogram',
  statement='Each stripe removal method replaces every sinogram by its documented correction: column means smoothed along the detector, vertical wavelet bands damped in Fourier space, regularised differences, or sorting, filtering, fitting, detection and interpolation of stripes. Each sinogram is corrected from its own data alone, for every window size, padding, threshold and worker schedule, and the input stays as it is.',
  over=['inputs', 'configurations', 'schedules'], forall='all sinogram values (all of them for the linear and small cases, one free value in fixed sinograms for the others), window sizes, levels, thresholds, blocks and worker orders',
  why='The tests compare the result for one stored array; the position of a value, borders, odd and even windows, incomplete blocks and several slices are never looked at.',
  files=['source/tomopy/prep/stripe.py', 'source/libtomo/prep/stripe.c', 'source/tomopy/util/mproc.py'],
  mech=[('remove_stripe_fw, remove_stripe_ti, remove_stripe_based_sorting, remove_stripe_based_filtering, remove_stripe_based_fitting, remove_large_stripe, remove_dead_stripe, remove_all_stripe, remove_stripe_based_interpolation', 'source/tomopy/prep/stripe.py'), ('remove_stripe_sf', 'source/libtomo/prep/stripe.c')]),
 dict(id='C17', title='Padding, resampling, joining and trimming move values exactly',
  statement='Padding puts the array unchanged in the middle of the constant or of its repeated edge values. Downsampling gives the mean of each complete bin of neighbouring values along the axis and upsampling repeats each value, a full turn is joined into half a turn with weights that add up to one, and trimming copies the detector columns of the circle. The input stays as it is.',
  over=['inputs', 'configurations'], forall='all values of all supported types, axes, paddings, levels (dividing the axis or not), overlaps, circles and array shapes',
  why='The tests compare one stored array for one setting each; remainders, empty and single-pixel overlaps, other axes and types are never reached.',
  files=['source/tomopy/misc/morph.py', 'source/libtomo/misc/morph.c'],
  mech=[('pad, downsample, upsample, sino_360_to_180, trim_sinogram', 'source/tomopy/misc/morph.py'), ('downsample, upsample, sample', 'source/libtomo/misc/morph.c')]),
 dict(id='C18', title='Ring removal subtracts the filtered polar deviation from every slice',
  statement='Every pixel loses the azimuthal mean of the clipped, thresholded deviation from the radial median at its polar position, with window widths that grow in three radial zones and either wrapped or reflected angles; pixels outside the largest circle stay as they are. Each slice is corrected on its own, for every centre, ring width and angle, and no access leaves the slice.',
  over=['inputs', 'configurations', 'schedules'], forall='all values of a pixel in fixed slices, ring widths, thresholds, clipping limits, angles, boundary modes, centres, slice shapes and worker orders',
  why='No test calls it with small slices, wide rings, other centres or the reflecting mode.',
  files=['source/tomopy/misc/corr.py', 'source/libtomo/misc/remove_ring.c'],
  mech=[('remove_ring', 'source/tomopy/misc/corr.py'), ('polar_transform, ring_filter, inverse_polar_transform', 'source/libtomo/misc/remove_ring.c')]),
 dict(id='C19', title='Phase retrieval applies the Paganin filter to each projection',
  statement='Each retrieved projection is the real part of the circular convolution of the edge-extended projection with the low-pass filter 1 / (wavelength * distance * w^2 / (4 pi) + alpha), scaled to one at its peak, on frequencies evenly spaced over the band of the detector. Uniform projections stay as they are, odd and even sizes, padded or not, follow the same rule, each projection is treated on its own for any number of workers, and the input stays as it is.',
  over=['inputs', 'configurations', 'schedules'], forall='all projection values, odd and even sizes, with and without padding, listed settings of pixel size, distance, energy and regularisation, and worker counts',
  why='The test compares one stored data set for one setting; unpadded and odd-sized projections are never retrieved.',
  files=['source/tomopy/prep/phase.py', 'source/tomopy/util/mproc.py'],
  mech=[('retrieve_phase, _retrieve_phase, _calc_pad, _paganin_filter_factor, _reciprocal_grid', 'source/tomopy/prep/phase.py')]),
 dict(id='C20', title='Results depend on values, not on memory layout or number type',
  statement='Every reconstruction, projection, preparation, correction and resampling function gives the same result for the same numbers whether they are stored in C or Fortran order, as a strided, reversed or partial view of a larger array, in another number type or, where an array of parameters is expected, in a list. Arrays handed over as data, angles, centres, masks or parameters are left unchanged.',
  over=['inputs', 'configurations'], forall='all values of the arrays (one symbolic value in the methods that compare data), memory layouts and number types',
  why='The tests hand over freshly loaded contiguous arrays only.',
  files=['source/tomopy/util/dtype.py', 'source/tomopy/recon/algorithm.py', 'source/tomopy/recon/vector.py', 'source/tomopy/sim/project.py', 'source/tomopy/util/mproc.py', 'source/tomopy/util/extern/recon.py', 'source/tomopy/misc/corr.py', 'source/tomopy/misc/morph.py', 'source/tomopy/prep/normalize.py', 'source/tomopy/prep/stripe.py'],
  mech=[('as_c_float_p, as_c_int_p, as_float32, as_sharedmem', 'source/tomopy/util/dtype.py'), ('init_tomo, recon', 'source/tomopy/recon/algorithm.py'), ('distribute_jobs', 'source/tomopy/util/mproc.py')]),
 dict(id='C21', title='Geometric corrections show each projection pixel where they say',
  statement='Distortion correction takes each pixel from the position the polynomial model gives, interpolated between its four neighbours and clipped at the border, and a single corrected sinogram equals the row of the corrected projections. Shifting and jittering move each projection by its own offset and keep its scale, scaling maps the largest magnitude to one, blurring fades the values with the radius, and cropping to the slits returns the window between the corners.',
  over=['inputs', 'configurations', 'schedules'], forall='all projection values (one symbolic value in the image shifts), listed distortion models, centres inside and outside, offsets, radii, corners and worker counts',
  why='The tests compare one stored stack for one setting each; other centres, single rows, chunks of one and the agreement between projections and sinograms are never looked at.',
  files=['source/tomopy/prep/alignment.py'],
  mech=[('distortion_correction_proj, distortion_correction_sino, _unwarp_image_backward', 'source/tomopy/prep/alignment.py'), ('shift_images, add_jitter, scale, blur_edges, add_noise, remove_slits_aps_1id', 'source/tomopy/prep/alignment.py')]),
 dict(id='C22', title='Simulated artefacts, probes and propagation follow their formulas',
  statement='Each simulated artefact adds exactly what its parameters say to the seeded random draws: Gaussian noise with its mean and deviation, one ring factor per detector pixel, impulses at the drawn positions only and a drift that varies over the scan. Angles are evenly spaced between their limits, propagation in the near field follows the transport of intensity, probes are Gaussian, and scanning returns one intensity per scan position in scan order.',
  over=['inputs', 'configurations'], forall='all tomogram values, levels, amplitudes, limits, images, probes and objects, scan steps that divide the object or not, and numbers of angles',
  why='The tests check one stored array per function at most; parameters, scan orders, the far field and the untouched input are never checked.',
  files=['source/tomopy/sim/project.py', 'source/tomopy/sim/propagate.py'],
  mech=[('add_gaussian, add_rings, add_zingers, add_salt_pepper, add_drift, angles', 'source/tomopy/sim/project.py'), ('propagate_tie, probe_gauss, calc_intensity', 'source/tomopy/sim/propagate.py')]),
 dict(id='C23', title='Rotation axis helpers score and show the slice they are asked for',
  statement='The entropy search minimises the entropy of the 64-bin histogram of the slice reconstructed with each tried centre inside the circular mask of the given ratio; the Fourier search returns the candidate whose joined sinogram has the least energy in the double wedge; the correlation search returns the axis that maps one projection onto the mirrored other. Written images are the slice reconstructed with each listed centre, with any algorithm, and a slice counts as empty exactly when its relative deviation is below the threshold.',
  over=['inputs', 'configurations', 'schedules'], forall='all values of the slice or projections (one symbolic value in the searches), slices, orders of the axes, centres, ranges, steps, masks and algorithms',
  why='The tests run one phantom with default arguments: ratios, ranges, other slices, algorithms and number types are not reached.',
  files=['source/tomopy/recon/rotation.py', 'source/tomopy/recon/algorithm.py', 'source/tomopy/misc/corr.py'],
  mech=[('find_center, find_center_vo, find_center_pc, write_center, mask_empty_slice', 'source/tomopy/recon/rotation.py'), ('recon', 'source/tomopy/recon/algorithm.py'), ('circ_mask', 'source/tomopy/misc/corr.py')]),
 dict(id='C24', title='Failures reach the caller and refusals change nothing',
  statement='A failure in any piece of distributed work reaches the caller, whichever pieces fail and in whatever order they end, and the environment, the threads of the expression engine and the library settings are afterwards as they were, so that the next call works. Unknown algorithms, keywords, modes and types, wrong numbers of angles or centres, empty or flat arrays and parameters outside of their documented range are refused with the same ValueError each time, before anything is computed or changed.',
  over=['inputs', 'configurations', 'schedules', 'fault_sequences'], forall='all subsets of failing pieces, data values, worker counts, piece sizes, thread limits, completion orders and whole-number parameters',
  why='The tests never make a call fail: no exception in a worker, no refused argument and no state after them is ever looked at.',
  files=['source/tomopy/recon/algorithm.py', 'source/tomopy/util/mproc.py', 'source/tomopy/prep/normalize.py', 'source/tomopy/prep/stripe.py', 'source/tomopy/misc/corr.py', 'source/tomopy/misc/morph.py'],
  mech=[('recon, _dist_recon, _get_func', 'source/tomopy/recon/algorithm.py'), ('distribute_jobs, set_numexpr_threads', 'source/tomopy/util/mproc.py'), ('stripes_detect3d, stripes_mask3d', 'source/tomopy/prep/stripe.py'), ('remove_ring, inpainter_morph, median_filter3d, remove_outlier3d', 'source/tomopy/misc/corr.py'), ('pad', 'source/tomopy/misc/morph.py')]),
 dict(id='C25', title='The C libraries stay inside their arrays and give memory back',
  statement='Whatever the sizes of the data, the grid, the window, the blocks, the margin and wherever the rotation centre lies, the compiled reconstruction, projection, filter, inpainting, resampling and ring routines read and write only inside the arrays they are given or allocate, never use memory they have not written or have freed, and give back every block they allocate by the end of the call.',
  over=['inputs', 'configurations'], forall='all shapes up to the bound, grids, windows, blocks, paddings, axes, centres of a list and data values, all as symbolic numbers',
  why='The tests use one shape per function, for which an index one past the end lands in mapped memory unnoticed; leaks are never measured.',
  files=['source/libtomo/recon/utils.c', 'source/libtomo/recon/art.c', 'source/libtomo/recon/bart.c', 'source/libtomo/recon/fbp.c', 'source/libtomo/recon/grad.c', 'source/libtomo/recon/osem.c', 'source/libtomo/recon/ospml_hybrid.c', 'source/libtomo/recon/ospml_quad.c', 'source/libtomo/recon/project.c', 'source/libtomo/recon/tikh.c', 'source/libtomo/recon/tv.c', 'source/libtomo/recon/vector.c', 'source/libtomo/gridrec/gridrec.c', 'source/libtomo/prep/prep.c', 'source/libtomo/prep/stripe.c', 'source/libtomo/misc/morph.c', 'source/libtomo/misc/inpainter.c', 'source/libtomo/misc/median_filt3d.c', 'source/libtomo/misc/remove_ring.c'],
  mech=[('reconstruction and projection loops', 'source/libtomo/recon/utils.c'), ('gridrec', 'source/libtomo/gridrec/gridrec.c'), ('normalize_bg, remove_stripe_sf', 'source/libtomo/prep/prep.c')]),
 dict(id='C26', title='Parallel loops and thread pools give the result of one thread',
  statement='The filters and reconstructions that share their work among threads return, for every number of threads and every interleaving of them, exactly what one thread returns. No two pieces of the work, whether iterations of a parallel loop or slices handed to a pool, write the same memory, and none reads what another one writes.',
  over=['inputs', 'configurations', 'schedules'], forall='all pairs of loop iterations or pool tasks and all interleavings of them, for all volume shapes up to the bound, kernel sizes, radii, masks, axes, chunk sizes and algorithms',
  why='A race shows only under an unlucky interleaving; the tests run a small number of threads once and compare to a tolerance.',
  files=['source/libtomo/prep/stripes_detect3d.c', 'source/libtomo/misc/median_filt3d.c', 'source/libtomo/misc/inpainter.c', 'source/libtomo/misc/remove_ring.c', 'source/libtomo/gridrec/gridrec.c', 'source/libtomo/recon/utils.c', 'source/tomopy/recon/algorithm.py', 'source/tomopy/misc/corr.py'],
  mech=[('parallel loops of the stripe detection', 'source/libtomo/prep/stripes_detect3d.c'), ('parallel loops of the median filters', 'source/libtomo/misc/median_filt3d.c'), ('parallel loops of the inpainter', 'source/libtomo/misc/inpainter.c'), ('_dist_recon', 'source/tomopy/recon/algorithm.py'), ('gaussian_filter, median_filter, sobel_filter, remove_outlier1d, remove_ring', 'source/tomopy/misc/corr.py')]),
 dict(id='C27', title='A phantom is the sum of the ellipsoids it is made of',
  statement='Every voxel of a phantom is the sum of the intensities of the ellipsoids that contain its centre, on a grid that spans -1 to 1 along each axis of a cube or box, each ellipsoid being turned by its three Euler angles (z-x-z) and then given its centre and semi-axes in the turned frame. Overlapping, repeated and negative ellipsoids add up, the parameters handed in are left as they were, and the Shepp-Logan head is the phantom of its ten ellipsoids with negative values set to zero.',
  over=['inputs', 'configurations'], forall='all intensities, centres, semi-axes and rotation angles, numbers of overlapping ellipsoids, box sizes and data types',
  why='The tests look at the shape, type and minimum of shepp3d only; boxes, other ellipsoids, their rotation and the parameters handed in are not looked at.',
  files=['source/tomopy/misc/phantom.py'],
  mech=[('phantom, _ellipsoid, _transform, _rotation_matrix', 'source/tomopy/misc/phantom.py'), ('shepp3d', 'source/tomopy/misc/phantom.py')]),
 dict(id='C28', title='Wrapped back ends reconstruct each slice with its own data and axis',
  statement='Handed over to ASTRA or lprec, every slice is reconstructed once, from its own sinogram and start image, with the angles, the method, the number of iterations and the options the user gave, into its own place, whichever of the listed devices does the work and in whatever order they finish. With ASTRA each slice is moved to its own rotation axis, by whole bins with zeros moving in on the CPU and exactly on devices, no object of the library is left behind, the data and extra options stay as they were, and a failure of any slice on any device reaches the caller. UFO is fed every sinogram in turn with the common axis and angle step, the middle of what it returns becomes the slice, buffers are copied before they are given back and its input is ended.',
  over=['inputs', 'configurations', 'schedules', 'fault_sequences'], forall='all measured values and start images, rotation centres per slice, device lists, chunkings, options, subsets of failing slices and orders of completion',
  why='None of the back ends is installed where the tests run, so these wrappers are never executed by them.',
  files=['source/tomopy/recon/wrappers.py', 'source/tomopy/recon/algorithm.py', 'source/tomopy/util/mproc.py'],
  mech=[('astra, astra_rec', 'source/tomopy/recon/wrappers.py'), ('ufo_fbp, ufo_dfi, _process_data', 'source/tomopy/recon/wrappers.py'), ('lprec, lpmultigpu', 'source/tomopy/recon/wrappers.py'), ('recon, _dist_recon', 'source/tomopy/recon/algorithm.py')]),
 dict(id='C29', title='Alignment loops register, move and add up what they say',
  statement='In every iteration of the alignment loops each padded projection is compared with the simulation at its own angle of the reconstruction from the current projections (sequential: a new one; joint: continued from the last), both blurred at the edges as asked, and is moved by what the registration reports: sequentially on top of earlier moves, jointly from the original by the total. The totals per projection and the size of the shifts of each iteration are returned, with the moved projections (sequential) or the padded originals (joint) in the units of the input, which stays as it was.',
  over=['inputs', 'configurations', 'histories'], forall='all projection values, shifts per projection and iteration, paddings, blur radii, centres, algorithms and numbers of iterations',
  why='The tests run neither loop; their result is the end of many steps, each of which can be off without failing.',
  files=['source/tomopy/prep/alignment.py', 'source/tomopy/recon/algorithm.py', 'source/tomopy/sim/project.py'],
  mech=[('align_seq', 'source/tomopy/prep/alignment.py'), ('align_joint', 'source/tomopy/prep/alignment.py'), ('scale, blur_edges', 'source/tomopy/prep/alignment.py')]),
 dict(id='C30', title='Slit boxes are found, and images that drifted are moved back',
  statement='The corner finder gives the four corners of a bright box on a dark frame, in the order upper left, lower left, lower right, upper right, wherever the box is and whichever the shape of the image. Correcting drift moves every image so that its corners fall on the reference corners, returns the corners found and the transforms, retries with larger kernels while the corners are far off or unstable, and leaves an image whose corners are never found in place; the transform between point sets is exact for affine images of the points and the least squares fit otherwise.',
  over=['inputs', 'configurations', 'histories'], forall='all pixel values, drifts of each image (shift, rotation, stretch), sequences of failed and successful searches, entries of the transform, and positions and shapes of the box',
  why='The tests do not run these helpers; symmetric or square examples hide exchanged axes and directions.',
  files=['source/tomopy/prep/alignment.py', 'source/tomopy/misc/npmath.py'],
  mech=[('detector_drift_adjust_aps_1id, _calc_proj_cnrs', 'source/tomopy/prep/alignment.py'), ('find_slits_corners_aps_1id', 'source/tomopy/prep/alignment.py'), ('calc_affine_transform', 'source/tomopy/misc/npmath.py')]),
 dict(id='C31', title='The cumulative distribution of data is a staircase from zero to one',
  statement='The empirical cumulative distribution of a data set has one step per value, at the values in increasing order, each given with the height before and after it; the heights rise evenly from zero to one. Asked for fewer steps than there are values it keeps the smallest and every k-th value after it, never more than asked for, and still ends at one. The data stay as they were, and no data give empty results.',
  over=['inputs', 'configurations'], forall='all data values in any order, with or without ties, lengths and numbers of steps',
  why='No test calls it; order, ties and rounding of the step size decide it, not one sample.',
  files=['source/tomopy/misc/npmath.py'],
  mech=[('discrete_cdf', 'source/tomopy/misc/npmath.py')]),
]
