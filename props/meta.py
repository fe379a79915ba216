"""What is claimed, per property: the source of properties.jsonl and MANIFEST.json (see tools/gen.py)."""

ALL = {}


def P(pid, title, statement, over, text, why, files, mech, state=(), observe=(), note='', technique=''):
    ALL[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                    state=state, observe=observe, note=note, technique=technique)


KDE, KER, SAM, UTI, PLO, INI = ['kalepy/%s.py' % x for x in ('kde', 'kernels', 'sample', 'utils', 'plot', '__init__')]

P('C01', 'The density is the weighted sum of normalised kernels at the data points',
  "The density estimate at any point equals the sum over the data points of their weight times the chosen kernel (Gaussian, "
  "box, parabola or triweight, normalised to unit integral in the data's dimension) evaluated at the separation "
  "measured with the kernel matrix, which is the data covariance scaled by the squared bandwidth. Kernels of bounded "
  "support contribute nothing beyond it, and points are returned in the order in which they were given.",
  ['inputs', 'configurations'], "all data positions, weights, bandwidths, covariances and evaluation points, every kernel, 1-3 dimensions",
  "tests compare a few fixed random data sets with scipy and loose tolerances, mostly for the Gaussian kernel",
  [KDE, KER], [('KDE.density / Kernel.density', KER), ('_evaluate_numba', KER), ('matrix, norm', KER)],
  observe=['kalepy.KDE(...).density(points)'])

P('C02', 'Weights count linearly; probability densities are divided by their total',
  "The density estimate is linear in the weights: scaling them all scales the density and leaves the probability density unchanged, a point of "
  "weight zero is as good as absent, an integer weight is as good as repeating the point, and densities of joined data sets add up. The probability density "
  "(method, flag, function, grid or subset of parameters, with or without reflection) is the density divided by the total weight, or the number of points without weights. "
  "Equal weights of any value give the same covariance, effective number, bandwidth and probability density as none.",
  ['inputs', 'configurations'], "all data, positive or zero weights, scale factors and points, every kernel, 1-3 dimensions",
  "tests use one or two random sets of weights, and only compare relative to scipy for the Gaussian kernel",
  [KDE, KER, INI], [('KDE.density/pdf', KDE), ('Kernel.density', KER), ('density, pdf functions', INI), ('neff', KDE)],
  state=[('_weights, _neff', 'weights and effective number of data points', KDE)],
  observe=['KDE.density/pdf(points)', 'kalepy.density', 'kalepy.pdf'])

P('C03', 'Kernel functions are normalised, symmetric and respect their support',
  "Each kernel function (Gaussian, box, parabola or Epanechnikov, triweight) is a non-negative function of the distance to the origin alone, does not "
  "increase with it, and equals its profile divided by that profile's integral in the number of dimensions of the points. Finite kernels are positive within and zero outside of the unit ball, "
  "and `inside` tells exactly which points those are (all, for the Gaussian); evaluation on a grid equals evaluation at each of its points. Kernels are found by name in any case, by class or by default, and unknown ones are refused.",
  ['inputs', 'configurations'], "all points in 1-4 dimensions, norms up to 8 dimensions, every kernel and every way of naming it",
  "tests integrate numerically on single grids and check names one by one",
  [KER], [('Distribution.evaluate/grid/inside/norm', KER), ('_Box/_Parabola/_Triweight', KER), ('get_distribution_class', KER)],
  observe=['kernels.get_distribution_class(name).evaluate(points)', '.inside(points)', '.norm(ndim)'])

P('C04', 'Reflecting boundaries fold the density back and close the other side',
  "With reflecting boundaries the density at a point inside of all of them is the plain density plus the densities of the mirror images of the data in each boundary, "
  "and the density outside of any boundary is zero; so it doubles at a boundary. This holds however the boundaries are given (constructor, call overriding it, function; lower, upper or both, per dimension), "
  "`True` places them at the extremes of the data enclosing all of it, `False` turns them off, and boundaries in the wrong order or number are refused.",
  ['inputs', 'configurations'], "all data, weights, points and boundary positions, every kernel, 1-3 dimensions, every combination of lower and upper boundaries",
  "tests check the total mass and one random data set per configuration",
  [KDE, KER], [('Kernel.density with reflect', KER), ('KDE.density reflect handling', KDE), ('_check_reflect', KER)],
  state=[('_reflect', 'boundaries per dimension', KDE)],
  observe=['KDE(data, reflect=...).density(points)', 'KDE.density(points, reflect=...)'])

P('C05', 'The density of a subset of the parameters is the marginal one',
  "The density for a subset of the parameters, in any order, is the estimate of just those parameters with the matching part of the kernel matrix, weights, and reflecting "
  "boundaries, which is the marginal of the full estimate for a Gaussian kernel. Points and grids are given and returned in the order in which the parameters are asked for, the "
  "default grid being the estimate's own one of those parameters; a wrong number of coordinates is refused.",
  ['inputs', 'configurations'], "all data, weights and points in 2-3 dimensions, every subset and order of the parameters, every kernel, with and without reflection",
  "tests try a few parameter selections of single data sets and never check reordered parameters against values",
  [KDE, KER], [('KDE.density params', KDE), ('Kernel.density params', KER), ('matrix sub-selection', KER)],
  observe=['KDE.density(points, params=...)', 'KDE.density(params=...)'])

P('C06', 'Grids, default points and input forms all evaluate the same density',
  "Evaluation on a grid returns at each grid vertex (first dimension first) exactly the density of that single point, with the grids unchanged. Without points the "
  "estimate's own grid is used, which covers the data and kernel width, and ends exactly at the given extrema or reflecting boundaries with evenly spaced edges. Lists, tuples, integer arrays, flat or nested 1-D points all "
  "give the same result as float arrays, and points of the wrong dimension are refused.",
  ['inputs', 'configurations'], "all data, weights and grid positions in 1-3 dimensions, every kernel; all positions of extrema and boundaries of a data set",
  "tests compare grid and points for a couple of data sets and hardly vary the form of the input",
  [KDE, KER, UTI], [('KDE.density grid', KDE), ('KDE.points, _finalize', KDE), ('meshgrid', UTI), ('parse_edges', UTI)],
  state=[('_points', 'default grid of the estimate', KDE)],
  observe=['KDE.density(edges, grid=True)', 'KDE.density()', 'KDE.points'])

P('C07', 'The estimate follows shifts, rescaling and reordering of the data',
  "The estimate moves along when the data and points are shifted, and is divided by the scale factor when they are stretched or mirrored (with "
  "bandwidth and covariance taken from the data, or scaled along). Neither the order of the data points (with their weights) nor the order of the dimensions matters, and "
  "the density at each point does not depend on the other points of the same call.",
  ['inputs'], "all data, weights, points, shifts and positive or negative scales, all permutations, every kernel, 1-3 dimensions",
  "tests never compare two related estimates",
  [KDE, KER, UTI], [('KDE.__init__', KDE), ('Kernel.density', KER), ('_compute_bandwidth', KDE)],
  observe=['KDE.density(points)', 'KDE.bandwidth', 'KDE.covariance'])

P('C08', 'The kernel matrix is the covariance scaled by the bandwidth as specified',
  "Scott's and Silverman's bandwidths are the powers of the effective number of data points (the squared total of the weights over the total of the squares, unless given) for the number of dimensions; a bandwidth may "
  "also be a number for all, a number or rule per dimension, or a matrix, and is multiplied by the rescaling factor. The kernel matrix is the covariance (of the weighted data unless given) times the squared bandwidth element by element. "
  "Malformed bandwidths and unknown rules are refused.",
  ['inputs', 'configurations'], "all weights, effective numbers, bandwidths, rescaling factors, given covariances, and 1-D (bounded 2-D) data; 1-4 dimensions",
  "tests compare with scipy for two rules and otherwise only check that calls do not fail",
  [KDE, KER], [('KDE._compute_bandwidth/_set_bandwidth', KDE), ('KDE.__init__ covariance', KDE), ('Kernel.__init__ matrix', KER)],
  state=[('_bandwidth, _covariance, kernel.matrix', 'what the kernel is made of', KDE)],
  observe=['KDE.bandwidth', 'KDE.covariance', 'KDE.neff', 'KDE.kernel.matrix'])

P('C09', 'Resampled points are weighted data points plus kernel noise',
  "Each point drawn from an estimate is a data point, chosen with probability its weight over the total (uniformly without weights), plus noise of the chosen "
  "kernel with the kernel matrix as given by the bandwidth and covariance. Kept parameters are exactly those of the chosen data point, in the same row, with the noise of the others conditional on nothing else. "
  "The number of points is the one asked for (default: that of the data), and shapes, squeezing and parameter names work alike for the class and the function.",
  ['inputs'], "all data, weights, bandwidths and all values of the random draws, 1-3 dimensions, every kernel, every form of keep",
  "tests compare histograms of single seeds, mostly in one dimension, and cannot see which data point and which draw a value came from",
  [KDE, KER, INI], [('KDE.resample', KDE), ('Kernel.resample/_resample_clear', KER), ('resample', INI)],
  observe=['KDE.resample(size, keep)', 'kalepy.resample(data, ...)'])

P('C10', 'Resampling with reflection stays within the boundaries',
  "With reflecting boundaries all drawn points lie within them, each of them is a drawn candidate (data point or mirror image plus kernel noise) which falls within, and "
  "every candidate which does is equally eligible, so that the points follow the reflected density. Exactly the requested number is returned, with kept parameters taken "
  "from the data points unchanged; data, reflect and weights are not modified.",
  ['inputs', 'configurations'], "all data, weights, boundaries (lower, upper, both, some dimensions) and all values of the random draws, 1-2 dimensions",
  "tests check the range of values for single seeds",
  [KDE, KER], [('KDE.resample reflect', KDE), ('Kernel._resample_reflect', KER)],
  observe=['KDE.resample(size, reflect=...)'])

P('C11', 'Kernel noise is drawn from the kernel itself',
  "The points drawn from a kernel (of any covariance and dimension) are the linear transformation of points from the standard kernel by a square root of the kernel matrix: "
  "Gaussian noise for the Gaussian kernel, and points from within the unit ball, isotropic and with the radial distribution of the density, for the finite ones. The number of points is exact, "
  "dimensions kept fixed have exactly no noise, and the interpolated cumulative profile used for sampling is the integral of the kernel.",
  ['inputs'], "all values of the random draws (on every cell of the tabulated profile) and kernel covariances in 1-3 dimensions",
  "tests compare histograms of one-dimensional samples to the kernel",
  [KER], [('Distribution.sample/_sample', KER), ('Kernel.sample', KER), ('add_cov', UTI)],
  observe=['kernels.Gaussian/Box_Asym/Parabola/Triweight.sample(...)', 'KDE(...).kernel.sample(...)'])

P('C12', 'Samples of a gridded density fall into cells by their mass',
  "Each point drawn from a gridded density lies in the grid, and falls into a cell with probability that cell's mass over the total (the given mass, or the trapezoid mass of the density), never into one of zero mass, "
  "whether or not it is interpolated within the cell. The number of points is as requested, the total mass rounded down if not, and grids, densities "
  "or masses that do not match are refused.",
  ['inputs', 'configurations'], "all non-negative densities, masses, edges, and all values of the random draws, 1-3 dimensions",
  "tests compare histograms of single smooth densities with loose tolerances",
  [SAM, INI], [('Sample_Grid.sample/_random_bins', SAM), ('sample_grid', SAM)],
  state=[('_csum, _data_mass', 'cumulative masses of the sorted cells', SAM)],
  observe=['sample.Sample_Grid(edges, dens, mass).sample(n)', 'kalepy.sample_grid(edges, dens, n)'])

P('C13', 'Within a cell samples follow the linear density, or none',
  "Within its cell a drawn point is uniform without interpolation; with it, it follows the density relative to that bin's average: it is the image of a uniform draw which moves towards the denser side, "
  "increases with the draw, covers the cell from edge to edge, and is uniform for a constant density. A point never leaves its cell.",
  ['inputs'], "all densities, edges and values of the random draws, 1-3 dimensions",
  "tests compare histograms of single smooth densities with loose tolerances",
  [SAM], [('Sample_Grid._intrabin_linear_interp', SAM), ('_grad_along, sample', SAM)],
  observe=['sample.Sample_Grid(...).sample(n, interpolate=...)'])

P('C14', 'Outlier samples represent dense cells by one weighted point each',
  "Cells above the threshold are represented by one point each, at the centre of mass of the cell and with its mass as weight; all others by as many points of unit weight as their total mass rounds to, which "
  "lie within these cells only, in proportion to their mass. With the Poisson options the weights or the number are Poisson draws with exactly these means; requests for a number of points or for scalars that were not given are refused.",
  ['inputs', 'configurations'], "all densities, masses, thresholds and values of the random draws, 1-2 dimensions",
  "tests compare the histogram of one sample with the density",
  [SAM, UTI], [('Sample_Outliers.sample', SAM), ('sample_outliers', SAM), ('centroids', UTI)],
  observe=['sample.Sample_Outliers(...).sample()', 'kalepy.sample_outliers(...)'])

P('C16', 'Trapezoid integration gives cell masses and totals exactly',
  "The mass of a grid cell is the mean of the density at its corners times the cell volume, along all the axes or only "
  "the requested ones (in any order, negative numbers included), for uniform and non-uniform grids; the integral is the total of these "
  "masses; the cumulative integral at a grid point is the total of the masses of the cells below it, with zero at the lower edges. "
  "The inputs are not modified, and grids which do not fit the density are refused.",
  ['inputs', 'configurations'], "all densities and grid edges (uniform or not), any number of axes up to three, all subsets of axes",
  "tests use single analytic functions on fine grids, and never partial, negative or reordered axes with non-uniform edges",
  [UTI], [('trapz_dens_to_mass', UTI), ('trapz_nd', UTI), ('cumtrapz', UTI), ('cumsum', UTI)],
  observe=['utils.trapz_nd', 'utils.trapz_dens_to_mass', 'utils.cumtrapz', 'utils.cumsum'])

P('C17', 'The cumulative distribution of an estimate is a proper one',
  "The cumulative distribution of a density estimate is zero at and below the lower corner of its grid, one at and above the upper one, never decreases "
  "along any coordinate, and stays within [0, 1] everywhere, outside of the grid included. At the grid points it is the "
  "fraction of the trapezoid integral of the density below the point and it is linear in between; earlier uses of the estimate do not change it.",
  ['inputs', 'histories'], "all weights and query points (and data positions in 1-D), every kernel, 1-3 dimensions",
  "tests compare a few percent with an empirical distribution inside the grid",
  [KDE, UTI], [('KDE.cdf', KDE), ('cumtrapz', UTI)], state=[('_cdf_grid/_cdf_func', 'cached cumulative grid', KDE)],
  observe=['KDE.cdf(points)'])

P('C18', 'Centroids of grid cells are the centres of mass of the density',
  "The centroid of each grid cell lies within the cell, for every non-negative density, and it is the centre of mass of the piecewise (multi-)linear density, "
  "so it is the middle for a constant density and shifts towards the denser side.",
  ['inputs'], "all non-negative densities and increasing grid edges in 1-3 dimensions",
  "the tests check one or two random grids in a Monte-Carlo fashion",
  [UTI], [('centroids', UTI)], observe=['utils.centroids(edges, dens)'])

P('C19', 'Weighted quantiles follow the weighted distribution of the values',
  "A quantile at fraction f is the piecewise-linear interpolation of the sorted values against their cumulative weight fraction, each value "
  "placed at the middle of its own weight, and clamped to the smallest and largest value; it never decreases with f, does not depend on the order of the values or the scale of "
  "the weights, equal weights are the same as none, and it works alike along any axis. The interquartile range is the difference of the quantiles at 3/4 and 1/4 (of the log10 values if requested), and fractions outside of [0, 1] as well as weights that do not fit the values are refused.",
  ['inputs', 'configurations'], "all distinct values, positive weights and fractions; 1-D and 2-D inputs, every axis",
  "tests sample a few random arrays without weights or axis",
  [UTI], [('quantiles', UTI), ('iqrange', UTI)], observe=['utils.quantiles', 'utils.iqrange'])

P('C15', 'Sampled scalars belong to the sampled cell; portions weight the cells',
  "Scalars given with a gridded density are returned for each sampled point as the average of those at the corners of its own cell (the given values per cell, if given like masses), "
  "with interpolation as the multilinear value at the point itself for a constant density and unit cells. Proportional sampling draws cells by the mass of the portion (or the given mass), and returns "
  "as the weight of each point the average over its cell's corners of the density relative to the portion (zero where there is no portion); cells without mass are never drawn.",
  ['inputs', 'configurations'], "all densities, scalars, portions and values of the random draws, 1-3 dimensions",
  "tests compare histograms of single smooth densities with loose tolerances",
  [SAM, INI], [('Sample_Grid.sample scalars', SAM), ('sample_grid_proportional', SAM)],
  observe=['kalepy.sample_grid(..., scalar_dens=...)', 'kalepy.sample_grid_proportional(edges, dens, portion, n)'])

P('C20', 'Bounds select exactly the points within; extrema enclose the data',
  "The selection of points within bounds is exactly those strictly between all of the given bounds (any side may be missing), and that of the points outside those strictly beyond any of them, in any number of dimensions. "
  "The extrema of data are its smallest and largest (positive, if requested) values, widened by the stretch, by previous extrema, and limited, in this order of steps; "
  "extrema which are not given are filled in from the data of that dimension, and the given ones are kept.",
  ['inputs', 'configurations'], "all data, bounds, stretches (linear and logarithmic), previous extrema and limits, every combination of those missing",
  "tests try single data sets with a few combinations of options",
  [UTI, KDE], [('bound_indices', UTI), ('minmax', UTI), ('KDE extrema', KDE)],
  observe=['utils.bound_indices', 'utils.minmax', 'KDE.extrema'])

P('C21', 'Midpoints, bins, subdivisions and spacings are where they should be',
  "Midpoints are the averages of neighbouring values (geometric ones if logarithmic) along each of the requested axes, of all of them by default, and bins are given by their lower edge, centre, upper edge and width. "
  "Subdivision keeps all of the given edges and divides each interval evenly, in linear or logarithmic terms. Spacings span the extremes of the data (positive ones if logarithmic) or the given ones evenly with the requested number of points, or at most the "
  "requested distance; grids of points enumerate all combinations with the first dimension first.",
  ['inputs', 'configurations'], "all values of 2-4 points in 1-3 dimensions, every subset of axes, linear and logarithmic",
  "tests use one or two arrays per function, mostly along one axis",
  [UTI], [('midpoints', UTI), ('bins', UTI), ('subdivide', UTI), ('spacing', UTI), ('meshgrid', UTI)],
  observe=['utils.midpoints', 'utils.bins', 'utils.subdivide', 'utils.spacing', 'utils.meshgrid'])

P('C22', 'Grid edges are the given ones, or evenly spaced and cover the data',
  "Edges that are given are used unchanged; a number of edges gives that many bins, evenly spaced between the extrema (those of the data unless given) widened by "
  "the padding. Otherwise the number follows from the bin width, the smaller one of the Sturges and Freedman-Diaconis rules for the weighted data (in terms of the effective number of points), "
  "or from the bandwidth, divided by the refinement and limited as requested; limits which are not finite are replaced by the extent of the finite data; each dimension is treated on its own, and malformed edges are refused.",
  ['inputs', 'configurations'], "all data, weights, extrema, paddings, refinements and bandwidths of 3-4 points in 1-3 dimensions",
  "tests use single random data sets and check the number of edges in a few configurations",
  [UTI], [('parse_edges', UTI), ('_guess_edges, _get_edges_1d', UTI), ('spacing', UTI)],
  observe=['utils.parse_edges(data, edges, extrema, weights, ...)', 'KDE.points'])

P('C23', 'Histograms count every value in its own bin, with its weight',
  "Each value counts with its weight in the bin whose lower edge it is at or above and whose upper edge it is below, the last bin including its upper edge, and values outside of all the bins in none. "
  "Densities are divided by the bin widths, probabilities by the total, and both for a probability density which integrates to one. Bins that are given (as edges or a number, or automatic) are those returned, "
  "in whatever form data and weights are given.",
  ['inputs', 'configurations'], "all values, weights and edges of 1-4 values and bins, every combination of normalisations",
  "tests compare single random arrays with numpy",
  [UTI], [('histogram', UTI)], observe=['utils.histogram(data, bins, weights, density, probability)'])

P('C24', 'An estimate from a histogram is one of points at the bin centres',
  "A density estimate from a histogram is the one of data points at the centres of its bins, weighted by their counts (in whatever units), in any number of dimensions and for edges of any widths. "
  "Without a given bandwidth it is the average width of the bins in each dimension, in units of the data; a given one, "
  "kernel and reflection are used as for any estimate, and mismatched edges are refused.",
  ['inputs', 'configurations'], "all counts, edges, bandwidths and evaluation points for histograms of 1-3 dimensions",
  "tests use a single histogram and compare with loose tolerances",
  [KDE], [('KDE.from_hist', KDE)], observe=['KDE.from_hist(edges, hist).density(points)'])

P('C25', 'Contours enclose the fractions asked for, of the density as given',
  "Contour lines are drawn of exactly the density values given, each at its own position (the centre of its bin), first parameter along the horizontal axis, surrounded by the lowest value where padding is asked for. "
  "The level of each quantile is the smallest of the values such that the values down to it sum up to no more than that fraction of their total (the largest value if there is none), in ascending order, by default for 0.5, 1, 1.5 and 2 sigmas; levels which are given are used as they are. "
  "Contours of data points are those of their weighted histogram. Smoothing and upsampling are linear in the values, whatever their type: they keep constant densities and, for upsampling, the values at the first and last points.",
  ['inputs', 'configurations'], "all densities, quantiles, weights and edges of grids of up to 2x3 cells, paddings 0-2",
  "tests only draw figures of single data sets without looking at the levels",
  [PLO, UTI], [('_dfm_levels', PLO), ('draw_contour2d', PLO), ('contour', PLO), ('_pad_hist', PLO)],
  observe=['kalepy.plot.draw_contour2d (levels, positions and values handed to the axes)', 'kalepy.plot.contour'])

P('C26', 'Estimates are built of exactly the valid data and weights given',
  "Weights are accepted exactly if there is one per data point and they are all finite, not negative and not all zero, by the estimate and the functions alike; anything else, and data without any points, is refused with an error. "
  "The estimate keeps exactly the data, weights, covariance and bandwidth given, in whatever form (lists, arrays, integers, one row per parameter). "
  "What cannot be answered is refused: points with another number of coordinates than the parameters asked for, unknown parameters, cumulative distributions of parameters or with boundaries.",
  ['inputs', 'configurations'], "all weights (of any sign, zero, infinite, not a number), all data of 1-4 points in 1-3 dimensions, every kernel and every way in",
  "tests try one or two invalid arguments",
  [KDE, KER, INI], [('KDE constructor', KDE), ('Kernel.density', KER), ('density, pdf, resample functions', INI)],
  state=[('dataset, weights, covariance, bandwidth', 'what the estimate is of', KDE)],
  observe=['KDE(data, weights=...)', 'kalepy.density/pdf/resample(data, weights=...)', 'KDE.dataset, .weights, .ndim, .ndata'])

P('C27', 'Asking does not change anything: answers do not depend on the history',
  "Whatever has been asked of an estimate before (densities with or without boundaries and parameters, cumulative distributions, points, samples, plots), each further answer is the same as that of a new estimate, given the same random draws, "
  "and its data, weights, matrix, extrema and boundaries, like all of the arguments given, are left as they were. The same holds for samplers on grids, for the functions, between different estimates, and for results changed by the caller. "
  "Settings of a corner plot are not modified, nor carried over to the next one.",
  ['histories', 'inputs'], "all histories of one (thorough: two) requests of 18-22 kinds before the one compared, all data or weights, points and random draws",
  "tests use each object once or twice, in one order, and do not look at it afterwards",
  [KDE, KER, SAM, PLO, UTI], [('KDE methods and caches', KDE), ('Kernel caches', KER), ('Sample_Grid/Sample_Outliers', SAM), ('Corner methods', PLO)],
  state=[('_points, _cdf_grid, _cdf_func', 'caches of an estimate', KDE), ('_norm, _matrix_inv', 'caches of a kernel', KER), ('_csum, _idx, _scalar_mass', 'state of a sampler', SAM)],
  observe=['sequences of KDE.density/pdf/cdf/points/resample', 'Sample_Grid.sample twice', 'Corner.plot twice'])

P('C28', 'One-dimensional plots show the histogram, density and intervals as they are',
  "Histograms are drawn as the outline of every bin from its lower to its upper edge at its height, empty or masked bins only hidden when asked for, along either axis. Densities are those of the estimate (of the right parameter, and weights), scaled only as asked for, confidence bands lie between the weighted quantiles at (1 -+ q)/2 with the line at the median, "
  "and every point of a carpet at its own position, no more than allowed, heavier ones not smaller. Exactly the elements asked for are drawn, and weights that do not fit the data are refused, by default the density of estimates and the histogram of data.",
  ['inputs', 'configurations'], "all data, weights, edges, counts, quantiles and scale factors of 2-4 points and 1-3 bins, every combination of elements, with and without rotation",
  "tests only draw figures of single data sets and do not look at what is drawn",
  [PLO, UTI], [('dist1d', PLO), ('hist1d, draw_hist1d', PLO), ('confidence', PLO), ('carpet', PLO)],
  observe=['kalepy.plot.dist1d, hist1d, confidence, carpet (what is handed to the axes)'])

P('C29', 'Covariance helpers: correlating, whitening, holding fixed, inverting',
  "Adding a covariance to uncorrelated points is a linear map whose square is that covariance, and removing it is the inverse of that; removing the points' own covariance leaves uncorrelated points of unit variance. "
  "Holding parameters fixed sets exactly their rows and columns of the matrix to zero, and is refused for parameters with boundaries. The inverse of a matrix times the matrix is unity, or the pseudo-inverse of a singular one, and none of these modify their arguments.",
  ['inputs', 'configurations'], "all points and all covariances in 1-2 dimensions (fixed ones in 3), every choice of parameters held fixed",
  "tests check one random matrix",
  [UTI], [('add_cov, rem_cov', UTI), ('cov_keep_vars', UTI), ('matrix_invert', UTI)],
  observe=['utils.add_cov', 'utils.rem_cov', 'utils.cov_keep_vars', 'utils.matrix_invert'])

P('C30', 'Corner and two-dimensional plots show the right parameters, data and weights',
  "In a corner plot the panel in row i and column j shows parameter j along the horizontal and i along the vertical axis, diagonal panels their own parameter (the last one rotated if asked for), of the data and weights given (also when given on construction). "
  "Two-dimensional panels draw the elements asked for, of the parameters asked for in their order: weighted histogram in the given edges (if asked for, without the bins that hold less than one point's weight), points, weighted medians, contours of the estimate's density for the fractions asked for. "
  "Targets and their limits are drawn at their values with the allowed side shaded in all panels of the parameter; labels and ticks stand at the axes of their own parameters, the legend where asked for or at an unused panel. "
  "Limits of the axes are those given, otherwise enclose all that was drawn.",
  ['inputs', 'configurations'], "all weights, targets and limits, 2-3 parameters, every pair and order of parameters, estimates and data, given early or late",
  "tests only draw figures of single data sets and do not look at what is drawn",
  [PLO], [('Corner.plot/plot_kde/plot_data/hist/clean/target', PLO), ('dist2d, hist2d', PLO), ('_set_corner_axes_extrema', PLO)],
  state=[('_limits', 'extent of each parameter', PLO)],
  observe=['kalepy.Corner, kalepy.plot.dist2d, hist2d (what is handed to the axes)', 'kalepy.corner'])


P('C34', 'Results depend on the values given, not on how they are stored',
  "Densities, samples, helper functions and plots give the same results for the same numbers however these are handed over: in C or Fortran order, as reversed or strided views, read-only arrays, (nested) lists or tuples where documented as array_like, "
  "integers instead of equal reals, or the same array given in several roles (as data, points, weights, edges of several dimensions, density and scalar).",
  ['inputs', 'configurations'], "all values, every such way of storing them, 1-3 dimensions, all functions, and all random draws (the same for both)",
  "tests use freshly made contiguous arrays of reals",
  [INI, KDE, KER, SAM, UTI, PLO], [('KDE, density, pdf, resample', KDE), ('Kernel.density/resample', KER), ('Sample_Grid, Sample_Outliers', SAM), ('trapz_dens_to_mass, centroids, quantiles, cumsum, minmax...', UTI), ('draw_hist1d, draw_contour2d, dist2d, Corner.plot_data', PLO)],
  observe=['kalepy.density/pdf/resample/KDE', 'kalepy.sample.sample_grid, sample_outliers, sample_grid_proportional', 'kalepy.utils.*', 'kalepy.plot.* (what is handed to the axes)'])


P('C35', 'Nested arrays are flattened and described, and summaries report the data',
  "flatten gives the values of nested lists and arrays in their order, whether jagged or not, and flatlen their number; really1d is true for exactly the flat ones, isjagged for exactly those without a regular shape, and jshape gives the shape of regular ones (and those of its rows otherwise). "
  "isinteger tells integers from reals. Textual summaries hold the values asked for: the first and last ones (array_str), or the (weighted) average, standard deviation and percentiles of the data, or of its logarithms (stats_str), or both and the shape (stats).",
  ['inputs', 'configurations'], "all values and weights, regular and jagged nested lists, tuples and arrays of up to three levels, every selection of statistics",
  "tests try really1d on a few lists",
  [UTI], [('flatten, flatlen, really1d, isjagged, jshape', UTI), ('isinteger', UTI), ('array_str, stats_str, stats', UTI)],
  observe=['utils.flatten, flatlen, really1d, isjagged, jshape', 'utils.isinteger', 'utils.array_str, stats_str, stats'])


# properties which this family of technique cannot decide here: (id, title, statement, over, text, why, files, reason)
NOT_APPLICABLE_PROPS = [
    ('C31', 'Results keep their accuracy in floating-point arithmetic',
     "Densities, samples and quantiles stay accurate to a small relative error for data of any magnitude, however ill-conditioned, as evaluated in double precision.",
     ['inputs'], "all finite double-precision inputs", "tests use data of order unity",
     [KDE, KER, UTI], [('Kernel.density', KER), ('matrix_invert', UTI)],
     "The rounding errors of LAPACK factorisations, exponentials and sums over the data are not within reach of bit-precise solving (the source of LAPACK is not part of what is encoded, and floating-point theories do not scale to these expressions): everything claimed elsewhere is over exact real arithmetic."),
    ('C32', 'Random samples are statistically independent and follow the density',
     "Samples drawn are statistically independent of one another and their distribution converges to the density of the estimate as their number grows.",
     ['inputs', 'histories'], "all sequences of states of the random number generator", "tests compare moments of some thousand samples",
     [KER, SAM], [('Kernel.resample', KER), ('Sample_Grid.sample', SAM)],
     "The limit of large numbers and the quality of numpy's generators are neither bounded nor within the code here; what the code does with each draw (which map takes the draws to samples, with which probabilities) is decided exactly by C09-C15."),
    ('C33', 'Figures look as intended once rendered',
     "Rendered figures show readable labels, distinguishable colours, and panels that are neither clipped nor overlapping.",
     ['configurations'], "all figure sizes, settings and backends", "tests only check that drawing does not fail",
     [PLO], [('_figax', PLO), ('Corner', PLO)],
     "Rendering is done by matplotlib and its back ends, outside of what can be encoded, and readability has no formal oracle; what is handed over to matplotlib is decided by C25, C28 and C30."),
]
NOT_APPLICABLE = [dict(property=p[0], reason=p[-1]) for p in NOT_APPLICABLE_PROPS]
