"""What each property is compared with."""
ORACLE = dict(
 C01="an independent ray tracer (props/_spec.py, exact clipping of the line against every pixel in double precision) gives the system matrix; the solver is asked for voxel values in the box for which any projection value differs from the matrix product by more than the tolerance (linear real arithmetic; the exponential of transmission mode is compared through its argument). Angles cover all quadrants, exact multiples of 90 degrees, negative and many-turn angles; centres scalar and per slice.",
 C02="the transpose of the same independent matrix, plus the start image; all data and start pixels symbolic, one linear query per pixel.",
 C03="the textbook update (Kaczmarz row by row; block averages) over the independent matrix, symbolic in data and start image; fixed-point and iteration-composition identities as separate queries.",
 C04="the multiplicative update evaluated on the independent matrix with a fixed positive start image, so that the query stays linear in the data; n iterations equal n single iterations by structural identity or interval-bounded query; non-negativity as a query.",
 C05="coefficients E, F, G of the surrogate from the independent matrix and a neighbour list with weights 1/side and 1/diagonal normalised over existing neighbours; the query asserts that 2F y^2 + G y + E = 0 and y >= 0 for the value written, with the square root generalised to a bounded symbol whose square is its argument.",
 C06="the iterations written out over the independent matrix and its transpose (gradient, Barzilai-Borwein quotient, Tikhonov term, Chambolle-Pock primal and dual steps); linear queries for fixed steps, one free measurement (rational functions turned into polynomial signs) for the adaptive step.",
 C07="line integral of the component along the ray by the independent tracer applied to the planes the tilt axis selects; the reconstruction update averages residual times direction over the rays of a voxel.",
 C08="direct gridding: double-precision DFT of the zero padded, filtered projection, Kaiser-type window evaluated exactly from the prolate expansion, inverse DFT and division by the window transform; impl and spec are both linear in the data, so each pixel is one linear query; slices other than the own must have coefficient zero.",
 C09="the algorithm applied to every slice alone; the two runs must be equal for all data (linear query, or structural equality of the terms for the non-linear ones), over chunkings, worker counts and completion orders executed by the stand-in executor.",
 C10="partition predicates over symbolic integers (non-empty, ordered, disjoint, covering, documented count), decided path by path; array results equal the function applied to the whole axis, with every element symbolic, shared memory modelled as aliased buffers.",
 C11="the documented formula per pixel; floors and cut-offs become piecewise cases decided by the solver with all frames symbolic.",
 C12="definitions of the filters (order statistics as canonical rank terms, Gaussian and Sobel weights as linear maps, thresholds as case distinctions) per slice and axis.",
 C13="rank term of the clipped cube around every voxel, and the replacement rule of dezinger with a symbolic threshold.",
 C14="the set of filled pixels from the mask alone (breadth-first layers), every filled value as a convex combination, mean or order statistic of the known values of its window; random choices are fresh symbols per draw.",
 C15="the published ratio of smoothed gradients across and along the stripe with the order statistic the code documents, and a reference of the mask (connected features, shortness and depth limits) with symbolic weights and threshold.",
 C16="a reference implementation per method written from the papers (Fourier-wavelet damping, smoothing, sorting, fitting, large, dead, interpolation, based on filtering), with branches decided on both sides; methods that divide by data with one free value, decided as polynomial sign conditions.",
 C17="index maps (which output element shows which input element with what weight) written independently of the code, with every value symbolic.",
 C18="polar resampling, median and mean deviation, threshold and azimuthal smoothing written from the documentation, branches decided on both sides.",
 C19="Paganin's filter from the physical formula, applied by a direct DFT to the edge-padded projection; linear queries in all pixels.",
 C20="the same call on a contiguous array of the documented type; outputs must agree for all values, inputs must come back unchanged.",
 C21="position maps from the correction model and scipy's linear interpolation as a matrix; per-pixel linear queries, clipping decided path by path.",
 C22="the formulas of the artefacts with parameters symbolic; random draws as shared fixed arrays; propagation as a linear map (DFT) in the wave.",
 C23="reference scores (entropy of the histogram, Nghiem Vo metric, phase correlation) of the slices a user asks for; the search itself executed with scores as symbolic values.",
 C24="an exception injected in any subset of tasks must reach the caller, and process state (environment, tables, thread pools, arrays) must be as before; refusals checked for every whole-number parameter.",
 C25="the IR executor checks each load and store against the allocation it belongs to, with sizes symbolic and concretised by the solver; repeated calls must not add blocks. Replays run under AddressSanitizer.",
 C26="for each pair of iterations of an OpenMP loop (or tasks of a thread pool) the solver is asked for iteration numbers with overlapping byte addresses of which one is written; replays run the region under ThreadSanitizer with a stand-in runtime that picks the schedule. Reported results of one and six workers must also be equal.",
 C27="the quadratic form of each ellipsoid written from the parameters (rotation as a product of three matrices); each voxel must be the sum of the intensities of those whose form is at most one there, for all parameter values.",
 C28="a stand-in for the wrapped library that turns exactly the arrays, geometry and options it is handed into weighted sums which tell every pixel, angle and bin apart; the result must equal these sums of the user's data for all values, with the rotation centre symbolic (the code's rounding decided path by path) and failures decided by symbolic values.",
 C29="the loop written out again with the registration replaced by a table of shifts: the images handed to the registration (through the real reconstruction and projection, checked by C01 to C09), the totals, norms and results must agree for all values.",
 C30="spline matrices of the inverse drift built from unit images, residuals of the least squares problem, and the known edges of the box; corner searches decided path by path over the symbolic pixels.",
 C31="order statistics of the symbolic values written as ranks; every value and height of the staircase must equal them for all data.",
)
