"""The properties of harmonica: writes properties.jsonl and MANIFEST.json.

A property is claimed when hsa/checks/<id>.py exists; the others carry a reason.
"""

import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
SRC = "src/harmonica/"
GVN = "value-graph equivalence with a reference (gated dataflow, global value numbering)"
NOTE = (
    "Decides equality of the value graph built from the current source with that of a reference written "
    "from the documentation, path conditions included, for all sizes and inputs the graph is symbolic in. "
    "Trusted: the dataflow engine's model of Python, NumPy, xarray and Numba; random interpretation may "
    "accept two different expressions with negligible probability. Floating-point rounding is out of scope. "
    "Constructs the engine cannot model are reported as undecided in the evidence and raise nothing."
)
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique=GVN, note=NOTE, reason=None, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, reason=reason, observe=observe))


prop(
    "C01", "Calls never modify the caller's data or an estimator's settings",
    "No public function or method writes to an array, grid, dataset, list or dictionary that its caller passed in "
    "(directly, through a view or through a conversion that does not copy), nor to the hyper-parameters of the "
    "object it is called on. The only licensed write to an argument is that updating the top and bottom of a layer "
    "changes those two coordinates of that layer.",
    ["inputs", "configurations"],
    "every public call, for every type, dtype, memory layout and number of elements of its arguments",
    "Tests compare arguments before and after for a few calls only; whether an array is shared depends on its dtype "
    "and layout (an asarray copies one and aliases the other), so samples miss the aliasing path.",
    [SRC + "_forward/", SRC + "_equivalent_sources/", SRC + "_isostasy.py", SRC + "filters/_utils.py",
     SRC + "_gravity_corrections.py", SRC + "_transformations.py", SRC + "_utils.py"],
    [("copies before in-place updates", "src/harmonica/_isostasy.py, src/harmonica/filters/_utils.py:apply_filter"),
     ("result arrays allocated inside", "every forward model")],
    technique="interprocedural alias and mutation (effect) analysis",
    note="Every write reachable from the public calls, in the analysed contexts, with a may-alias analysis through "
         "views, reshapes and conversions. Library functions are assumed not to write to their arguments except "
         "those in the mutator table.",
)
prop(
    "C02", "Parallel loops of the compiled kernels are free of data races",
    "In every loop that runs in parallel, each iteration writes only to array elements that no other iteration "
    "writes or reads, and shares no scratch memory or scalar with another iteration except through a recognised "
    "reduction. The value of every element is therefore independent of the number of threads and of their schedule.",
    ["schedules", "inputs"],
    "every interleaving of the iterations of a parallel loop, for any number of threads, points and sources",
    "Races show up under rare schedules and thread counts only; the tests run most kernels without compilation "
    "or on a few points, where a race goes unnoticed.",
    [SRC + "_forward/", SRC + "_equivalent_sources/", SRC + "_spherical_harmonics/"],
    [("one output element per iteration", "prange loops of the forward models and of jacobian/predict"),
     ("per-iteration scratch arrays", "tesseroid kernels, IGRF evaluation")],
    technique="race analysis of prange loops (affine index dependence on heap cells)",
    note="Every prange loop reached from the public calls, and every prange loop in the source: stores are indexed by "
         "the loop variable or go to memory allocated in the iteration; loads of shared mutable memory use the same "
         "element. Calls into compiled libraries are assumed thread-safe.",
)
prop(
    "C03", "Parallel execution and progress bars never change a result",
    "A forward model, a layer or an equivalent-source estimator returns the same values, refuses the same inputs, "
    "gives the same warnings and ends in the same fitted state whether it runs serially or in parallel, with or "
    "without a progress bar.",
    ["configurations", "inputs", "schedules"],
    "every field and coordinate system, with every combination of the execution switches, for every valid input",
    "The tests compare the switches on one or two fields; a kernel chosen from the wrong table, or a loop compiled "
    "differently, shows only for the combination that uses it.",
    [SRC + "_forward/", SRC + "_equivalent_sources/"],
    [("serial and parallel dispatchers of one kernel", "the dispatchers of every forward model"),
     ("progress proxies", "src/harmonica/_forward/utils.py:initialize_progressbar")],
    technique="value-graph equivalence between sibling execution paths (global value numbering)",
    note="The value graphs of the same call under different switches are compared with one another, so no reference "
         "is trusted. " + NOTE.split(". ", 1)[1],
)
prop(
    "C04", "Point and dipole fields are the documented sum over the sources",
    "For every point, the returned potential, gravity acceleration, tensor component or magnetic component is the sum "
    "over all sources of the analytic field of that source, in the documented unit (SI potential, mGal, Eotvos, nT), with "
    "downward z components positive down, in Cartesian and (for gravity) spherical coordinates.",
    ["inputs", "configurations"],
    "every number and position of points and sources, every field and coordinate system, every value of the properties",
    "The tests check chosen points, symmetric configurations and single sources; a sum or an index that is wrong for other "
    "numbers of sources or other components escapes them.",
    [SRC + "_forward/point.py", SRC + "_forward/dipole.py", SRC + "_forward/utils.py"],
    [("kernel tables and unit factors", "point_gravity, dipole_magnetic"),
     ("accumulation loops", "jit kernels of point.py and dipole.py"),
     ("spherical kernels", "src/harmonica/_forward/point.py")],
)
prop(
    "C05", "Prism fields are the documented sum over the prisms",
    "For every point, the returned gravity or magnetic field is the sum over all prisms of the analytic field of that prism in "
    "the documented unit with downward z components positive down, where prisms with zero volume, zero density or zero "
    "magnetisation add nothing. A tensor component on an edge where it is singular is NaN and is warned about.",
    ["inputs", "configurations"],
    "every set of prisms and points, every field, for every density or magnetisation",
    "The tests check a few prisms; degenerate prisms, mixed sets and points on edges of some prisms of a set are sampled at most once.",
    [SRC + "_forward/prisms/gravity.py", SRC + "_forward/prisms/magnetic.py", SRC + "_forward/prisms/utils.py"],
    [("kernel tables and unit factors", "prism_gravity, prism_magnetic"),
     ("discarding of null prisms", "src/harmonica/_forward/prisms/"),
     ("singular points", "src/harmonica/_forward/prisms/gravity.py")],
)
prop(
    "C06", "Tesseroid fields follow the adaptive discretisation they document",
    "The field of a set of tesseroids is the sum over those of positive volume and non-null density of a Gauss-Legendre "
    "quadrature over pieces that are split in longitude, latitude (and radius, when asked for) until every piece is farther from the "
    "point than the distance-size ratio of the field times its dimension. Longitudes may be given in any continuous range up to 360 "
    "degrees and need not match the range of the points.",
    ["inputs", "configurations"],
    "every set of tesseroids and points outside them, both fields, with and without radial splitting",
    "The tests compare with a spherical shell at a few points; an error in one split or in one longitude wrap changes values by less than "
    "their tolerance or only where no test looks.",
    [SRC + "_forward/tesseroid_gravity.py", SRC + "_forward/_tesseroid_utils.py"],
    [("adaptive splitting", "src/harmonica/_forward/_tesseroid_utils.py"),
     ("quadrature", "src/harmonica/_forward/_tesseroid_utils.py:gauss_legendre_quadrature"),
     ("discarding of null tesseroids", "src/harmonica/_forward/_tesseroid_utils.py")],
)
prop(
    "C07", "The gravity of a layer is the sum over its valid cells",
    "The gravity field of a prism or tesseroid layer equals that of the list of its cells, each as wide as the grid spacing around its node, "
    "between its bottom and its top and with the density of that cell, whatever the order of the dimensions or the direction of the coordinates. Cells with "
    "NaN density, bottom or top, and cells thinner than the threshold add nothing, and a NaN density gives a warning.",
    ["inputs", "configurations"],
    "every regular layer, density and surface (with NaNs anywhere), every field and set of points, every threshold",
    "The tests use small layers with symmetric spacing; indices swapped between axes, or a threshold comparison, go unnoticed when shapes agree.",
    [SRC + "_forward/prisms/layer.py", SRC + "_forward/tesseroid_layer.py"],
    [("layer boundaries and spacing", "DatasetAccessorPrismLayer, DatasetAccessorTesseroidLayer"),
     ("discarding of thin and NaN cells", "src/harmonica/_forward/prisms/layer.py, src/harmonica/_forward/tesseroid_layer.py")],
)
prop(
    "C08", "Layers describe the geometry they were built from",
    "A layer of prisms or tesseroids has at every node the larger of surface and reference as top and the smaller as bottom, whatever the types of both, carries the given "
    "properties and the documented units, and reports dimensions, spacing, boundaries and single cells consistent with its coordinates. Irregular spacing and surfaces or references "
    "of the wrong shape are refused, as are tesseroid layers that overlap themselves.",
    ["inputs", "configurations"],
    "every regular grid, surface and reference (scalar or array, integer or float, increasing or decreasing coordinates)",
    "The tests build a few layers with float arrays; integer types, decreasing coordinates and crossing surfaces are combinations they do not reach.",
    [SRC + "_forward/prisms/layer.py", SRC + "_forward/tesseroid_layer.py"],
    [("top and bottom from surface and reference", "update_top_bottom"),
     ("regularity checks", "_check_regular_grid, check_spacing"),
     ("overlap check", "tesseroid_layer")],
)
prop(
    "C09", "Forward models refuse exactly the inputs they document as invalid",
    "Point, dipole, prism and tesseroid models raise an error for exactly these inputs and for no others: unknown fields or coordinate systems, tensor fields "
    "in spherical coordinates, sources and properties of different sizes, inverted bounds, and for tesseroids also invalid latitudes, longitudes or radii and points inside a tesseroid.",
    ["inputs", "configurations"],
    "every input, valid or not; each component of each source, each property array and each option",
    "The tests try a few invalid inputs per function; a check that skips one component, or one that refuses a legal boundary case, is not among them.",
    [SRC + "_forward/point.py", SRC + "_forward/dipole.py", SRC + "_forward/prisms/", SRC + "_forward/tesseroid_gravity.py",
     SRC + "_forward/_tesseroid_utils.py", SRC + "_forward/utils.py"],
    [("validation helpers", "check_coordinate_system, _check_prisms, _check_tesseroids, size checks of the entry points")],
)
prop(
    "C10", "Forward models return arrays of the broadcast shape of the coordinates",
    "Every array returned by a point, dipole, prism, tesseroid or layer model has the shape that the three coordinate arrays broadcast to, and its element at an index "
    "belongs to the point at that index, for arrays of any dimension including zero, and whatever the number of sources.",
    ["inputs"],
    "every shape of the coordinate arrays (scalar, 1-D, 2-D, n-D, broadcastable), every number of sources",
    "The tests use one or two shapes; a fold in another order or to the shape of one coordinate is right on them by accident.",
    [SRC + "_forward/"],
    [("cast and final reshape", "the entry points of the forward models")],
    technique="symbolic shape inference over the value graph",
    note="Sound for the shape algebra the engine models (broadcasting, ravel, reshape, elementwise operations); anything else is reported as undecided.",
)
prop(
    "C11", "Ellipsoid fields follow the documented closed forms",
    "The gravity and magnetic fields of one or several rotated ellipsoids are the sum over the ellipsoids of the documented analytic expressions for triaxial, prolate, oblate and "
    "spherical bodies, evaluated in the body's own axes with the internal form inside and the external form outside and rotated back, with down as the sign of the third gravity component. "
    "Bodies without density or without magnetic properties add nothing, and induced magnetisation includes demagnetisation.",
    ["inputs", "configurations"],
    "every set of ellipsoids, orientation, order of the semi-axes, set of properties and set of points",
    "The tests compare special orientations and axis orders; a permutation or rotation error shows for general ones only.",
    [SRC + "_forward/ellipsoids/"],
    [("axis permutation and rotation", "src/harmonica/_forward/ellipsoids/"),
     ("closed-form derivatives and integrals", "src/harmonica/_forward/ellipsoids/utils.py")],
)
prop(
    "C12", "Ellipsoids accept exactly valid attributes",
    "Creating an ellipsoid or assigning its semi-axes, density, susceptibility or remanent magnetisation fails for exactly the documented invalid values (non-positive axes, "
    "susceptibility that is neither scalar nor a 3 by 3 matrix, remanent magnetisation that is not a vector of three numbers, wrong types), and otherwise stores the value given.",
    ["inputs", "histories"],
    "every value, at construction and at every later assignment",
    "The tests try a few invalid values per attribute.",
    [SRC + "_forward/ellipsoids/ellipsoids.py"],
    [("property setters", "Ellipsoid")],
)
prop(
    "C13", "Equivalent sources fit and predict with the same documented model",
    "Equivalent-source estimators place sources where documented (given points, or data or block-averaged positions moved down by the depth), fit coefficients by damped weighted least squares on the "
    "Jacobian of the documented kernel, and predict at any point the sum of coefficient times kernel over all sources, with the broadcast shape of the coordinates. Fitting records the sources and the region of the data.",
    ["inputs", "configurations"],
    "every set of data points, sources, coefficients, weights and hyper-parameters, for the Cartesian, spherical and gradient-boosted estimators",
    "The tests fit small synthetic data with tolerance; an error in a kernel or source position that the fit can absorb passes them.",
    [SRC + "_equivalent_sources/"],
    [("kernels", "greens_func_cartesian, greens_func_spherical"), ("fit, predict, jacobian", "src/harmonica/_equivalent_sources/"),
     ("source placement", "_build_points, block averaging")],
)
prop(
    "C14", "The memory estimate is that of the Jacobian the fit would build",
    "The estimated memory of an equivalent-source estimator equals the number of elements of the Jacobian that fitting the same data builds (data points by sources, "
    "or the largest window for gradient boosting) times the size of an element, for custom and for default sources, and estimating leaves the fitted state unchanged.",
    ["inputs", "configurations", "histories"],
    "every data set and hyper-parameter, before and after fitting",
    "The tests estimate for default parameters on unfitted estimators.",
    [SRC + "_equivalent_sources/"],
    [("estimate_required_memory", "src/harmonica/_equivalent_sources/")],
)
prop(
    "C15", "Gradient boosting covers all data and sources and corrects residuals",
    "Gradient-boosted equivalent sources visit overlapping windows of the chosen size in an order fixed by the random state, fit in each the current residual of the data inside with the sources inside, "
    "add the increment to the coefficients of exactly those sources, and subtract its prediction from the residual everywhere before the next window.",
    ["inputs", "configurations"],
    "every data set, window size, random state and weight",
    "The tests check the quality of one or two fits, which tolerates skipped or misaligned windows.",
    [SRC + "_equivalent_sources/gradient_boosted.py"],
    [("window loop", "_gradient_boosting"), ("windows", "_create_windows")],
)
prop(
    "C16", "Wavenumber filters are the documented transfer functions",
    "The transfer function of each filter (upward derivative, horizontal derivatives, upward continuation, Gaussian low and high pass, reduction to the pole) equals its documented "
    "formula at every wavenumber, for every order and parameter, with the value documented at zero wavenumber.",
    ["inputs"],
    "every wavenumber grid and every value of the parameters",
    "The tests check a few parameters and orders, and compare filtered grids with tolerances of several per cent.",
    [SRC + "filters/_filters.py"],
    [("kernel functions", "src/harmonica/filters/_filters.py")],
)
prop(
    "C17", "Grid transformations pad, filter, unpad and keep the grid",
    "Each grid transformation returns the padded, Fourier-transformed, filtered, back-transformed and unpadded grid on the coordinates it was given, with the padding options the caller gave, using the documented "
    "filter and order, and refuses grids that are not regular, complete and two-dimensional. Combined quantities (total gradient amplitude, tilt angle) and finite-difference derivatives equal their formulas.",
    ["inputs", "configurations"],
    "every grid, padding option, order, method and parameter",
    "The tests use square or nearly square grids with default padding.",
    [SRC + "_transformations.py", SRC + "filters/_utils.py", SRC + "filters/_fft.py"],
    [("apply_filter", "src/harmonica/filters/_utils.py"), ("transformations", "src/harmonica/_transformations.py")],
)
prop(
    "C18", "Euler methods solve the equations they document",
    "Euler deconvolution estimates location and base level by least squares of Euler's equation with the given structural index, with its covariance. Euler inversion iterates the weighted mixed "
    "adjustment of data and model until the documented tolerance or iteration limit, and tries every structural index of a sequence keeping the one of least misfit.",
    ["inputs", "configurations"],
    "every data set, structural index (or sequence), weight, tolerance and iteration limit",
    "The tests recover one noise-free source, where many wrong weightings still converge to the right answer.",
    [SRC + "_euler_methods.py"],
    [("fit", "EulerDeconvolution, EulerInversion")],
)
prop(
    "C19", "IGRF predictions are the documented spherical-harmonic synthesis",
    "The predicted field is the sum over the selected degrees and orders of the documented Gauss-coefficient series at the geocentric position of each point, rotated back to the local geodetic east, north and up directions, "
    "with coefficients interpolated to the date; predictions have the broadcast shape of the coordinates, and a grid at a constant height holds the predictions at its points under the documented names and dimensions.",
    ["inputs", "configurations"],
    "every position, date, and range of degrees",
    "The tests compare a few dates and points with published values.",
    [SRC + "_spherical_harmonics/igrf.py"],
    [("synthesis loop", "src/harmonica/_spherical_harmonics/igrf.py"), ("interpolation", "interpolate_coefficients")],
)
prop(
    "C20", "IGRF covers exactly its dates and extrapolates only past the last epoch",
    "An IGRF model evaluates at every date from the start of the first epoch of its table up to, but not including, five years after the last epoch, and raises ValueError for any other date, for single points and grids alike; "
    "dates given as ISO text and as datetime are the same; the coefficients used are interpolated linearly in time between the two epochs around the date and, from the last epoch on, extrapolated with the secular "
    "variation; the constructor keeps the date, the degrees and the ellipsoid as given.",
    ["inputs"],
    "every date and range of degrees",
    "The tests try a handful of dates, and the test file of the model needs a download.",
    [SRC + "_spherical_harmonics/igrf.py"],
    [("date checks", "IGRF14.__init__, interpolate_coefficients")],
)
prop(
    "C21", "Associated Legendre functions and derivatives obey their recursions",
    "The unnormalised, Schmidt and fully normalised associated Legendre functions and their derivatives are the documented ones for every degree and order up to the maximum requested, "
    "including maximum degree zero and one, and every requested entry is written.",
    ["inputs"],
    "every maximum degree and argument",
    "The tests compare with closed forms up to a small degree.",
    [SRC + "_spherical_harmonics/legendre.py"],
    [("recursions", "src/harmonica/_spherical_harmonics/legendre.py")],
)
prop(
    "C22", "Corrections, isostasy and angle conversions are their documented formulas",
    "The Bouguer correction, the Airy Moho depth (with any number of extra layers), the conversions between magnetic vectors and angles and the total-field anomaly equal their documented formulas at every "
    "element, for scalars, arrays and grids alike, on land, in the ocean and at exactly zero.",
    ["inputs"],
    "every value (positive, negative, zero, NaN), type and shape of the arguments",
    "The tests check a few values of each sign.",
    [SRC + "_gravity_corrections.py", SRC + "_isostasy.py", SRC + "_utils.py"],
    [("formulas", "the public functions of these files")],
)
prop(
    "C23", "Readers place every value of a file at its documented position",
    "Reading an ICGEM or Oasis montaj grid yields a grid whose every value stands at the coordinate the file's header and ordering give it, with dummy values as NaN (Oasis montaj), scaled as the header says, and malformed or unsupported files are refused.",
    ["inputs"],
    "every well-formed or malformed header and shape",
    "The tests read a few files; most header combinations do not occur in them.",
    [SRC + "_io/icgem_gdf.py", SRC + "_io/oasis_montaj_grd.py"],
    [("header parsing", "src/harmonica/_io/")],
)
prop(
    "C24", "Optional dependencies are imported only where they are needed",
    "Importing the package and using any feature that does not need an optional dependency works without the optional dependencies installed, and a feature that needs a missing one fails with an import error instead of carrying on without it.",
    ["configurations"],
    "every subset of the optional dependencies being installed, every public call",
    "The tests run in one environment with every dependency present.",
    [SRC + "visualization/_prism.py", SRC + "_forward/utils.py", SRC + "_forward/prisms/layer.py", SRC + "_forward/ellipsoids/ellipsoids.py"],
    [("guarded imports", "src/harmonica/visualization/_prism.py, src/harmonica/_forward/utils.py")],
    technique="import and guard analysis of the value graph (must-guard before use)",
    note="Every import statement executed on loading the package and every use of an optional module reachable from the public calls, with the condition it happens under.",
)
prop(
    "C25", "Results depend on the arguments only, and no global state is changed",
    "No public call reads or changes hidden state: module-level variables, the global random state, the clock, the environment, warning filters or floating-point error settings. Calling in any order, twice, or from several "
    "threads gives the same results.",
    ["histories", "schedules", "configurations"],
    "every sequence of public calls",
    "The tests call every function in a fixed order and mostly once; a cache or a global counter shows only across calls.",
    [SRC],
    [("no module-level mutable state", "every module"), ("explicit random state", "EquivalentSourcesGB")],
    technique="effect analysis: global writes and calls to stateful library functions",
    note="Every write to module-level names and objects, class attributes and mutable default arguments, and every call of a function in the table of stateful library functions, on code reachable from public calls.",
)
prop(
    "C26", "Every documented parameter has an effect",
    "Every parameter of every public function, method and estimator influences the result, the refusal of inputs or the documented side effect of the call; none is accepted and then ignored, or overridden by another.",
    ["inputs", "configurations"],
    "every public parameter in some context of use",
    "A test that passes a parameter rarely shows that it matters; ignored options leave every default-valued test green.",
    [SRC],
    [("parameters threaded to helpers", "every public function")],
    technique="information-flow (dependence) analysis on the value graph",
    note="For every public parameter, in at least one analysed context, the result or a refusal condition, warning or recorded effect depends on it.",
)
prop(
    "C27", "Compiled kernels never index outside their arrays",
    "In every compiled function, every array element read or written lies inside the array for all the sizes that the checks at the entry points let through.",
    ["inputs"],
    "every size of the coordinate, source, property and work arrays accepted by the public calls",
    "Compiled code does not check bounds: an overrun by one element reads a neighbour's memory and usually passes.",
    [SRC + "_forward/", SRC + "_equivalent_sources/", SRC + "_spherical_harmonics/"],
    [("size checks before the kernels", "entry points"), ("loop bounds", "jit kernels")],
    technique="symbolic range analysis of subscripts in compiled kernels",
    note="Subscripts are compared with symbolic extents using loop bounds, allocation sizes and the size relations established by the entry points; what is out of reach is reported as undecided.",
)
prop(
    "C28", "Distances between points are the documented ones",
    "The distance between two points is the Euclidean distance of their positions in the Cartesian, spherical and geodetic systems, for arrays of any broadcastable shapes, and unknown coordinate systems are refused.",
    ["inputs", "configurations"],
    "every pair of positions and coordinate system",
    "The tests check a few pairs, mostly along one axis.",
    [SRC + "_forward/utils.py"],
    [("distance functions", "src/harmonica/_forward/utils.py")],
)
prop(
    "C29", "Every path through the package defines a variable before using it",
    "No execution of a public call fails because a local name, an attribute or a module member it uses was never bound on the path taken; every valid input gives a result or a documented error.",
    ["inputs", "configurations"],
    "every path of every function, whether or not a test takes it",
    "A test covers a path only with the input that leads to it; rare branches are not covered.",
    [SRC],
    [("assignments on all branches", "every function")],
    technique="definite-assignment analysis with path conditions",
    note="Uses reached by an unbound definition under a satisfiable (not syntactically contradictory) path condition, in code reachable from the public calls.",
)
prop(
    "C30", "3-D conversions keep the geometry and properties of the bodies",
    "Converting prisms, layers or ellipsoids to PyVista objects yields for each body a cell with its own corners or surface and the matching value of each property, dropping exactly the null cells when asked to.",
    ["inputs", "configurations"],
    "every number of prisms, properties and layers, every ellipsoid",
    "The tests convert small examples with and without null cells.",
    [SRC + "visualization/_prism.py", SRC + "_forward/prisms/layer.py", SRC + "_forward/ellipsoids/ellipsoids.py"],
    [("vertices and cells", "src/harmonica/visualization/_prism.py"), ("surface rotation", "Ellipsoid.to_pyvista")],
)
prop(
    "C38", "Integer arguments give the results of the equal floats",
    "Passing coordinates, sources, properties, grids or data as integers (or as single-precision numbers) does not truncate the result: no public call computes its result in an array that takes its element type from an "
    "argument, or converts a result to the element type of an argument, when the values may not fit in it.",
    ["inputs"],
    "every element type of every array argument",
    "Tests and examples build their inputs as double-precision arrays, with which an inherited element type is harmless.",
    [SRC],
    [("allocation of results", "every module"), ("surfaces of layers", SRC + "_forward/prisms/layer.py")],
    technique="element-type dataflow analysis of allocations, stores and conversions",
    note="Element types are sets of the arguments a value takes its type from, or float. Every store into an array allocated during a public call and every conversion in a result is an obligation; values of unknown type raise nothing.",
)

NUMERIC = [
    ("C31", "Forward-modelled tensors are harmonic outside the sources",
     "The trace of the gravity gradient tensor of any source distribution is zero to rounding error at every point outside the sources.",
     "It bounds rounding errors of cancelling logarithms and arctangents inside choclo, a dependency; no static argument within reach bounds them."),
    ("C32", "Vector and angle conversions are inverse to each other",
     "Converting a magnetic vector to intensity, inclination and declination and back returns the vector to rounding error.",
     "Round-trip accuracy is a statement on floating-point values of trigonometric functions; the formulas themselves are decided under C22."),
    ("C33", "Undamped equivalent sources reproduce their data",
     "With no damping and one source per datum, predicting at the data points returns the data to the accuracy of the solver.",
     "It depends on the conditioning of the Jacobian for the actual points, a run-time quantity."),
    ("C34", "Continuation and derivatives approximate the analytic fields",
     "Upward continuation and derivatives of a grid of a modelled field agree with the field modelled at the other height within the documented accuracy, away from edges.",
     "Truncation and edge errors of the discrete Fourier transform are a matter of numerical analysis of the data; the transfer functions are decided under C16."),
    ("C35", "Ellipsoid fields are continuous across limiting shapes",
     "The field of an ellipsoid tends to that of a spheroid or sphere as its axes become equal.",
     "It bounds cancellation errors near equal axes, which depend on values and tolerances at run time."),
    ("C36", "Tesseroid quadrature meets its documented accuracy",
     "The field of a tesseroid model differs from the exact one by less than the documented 0.1 per cent.",
     "The accuracy of the quadrature for arbitrary geometry was established by numerical experiments; no static bound is in reach. The algorithm is decided under C06."),
    ("C37", "Gradient boosting converges to the data",
     "The residual of gradient-boosted sources decreases with every window and ends below that of the starting model.",
     "Convergence depends on the data and the window geometry; the structure of the iteration is decided under C15."),
]
for i, t, s, r in NUMERIC:
    prop(i, t, s, ["inputs"], "every valid input", "The tests sample a few inputs with a tolerance.", [SRC],
         [("numerical algorithms", SRC)], reason=r)

TODO = "No static check has been built for it."


def main():
    lines, checks, missing = [], [], []
    for p in P:
        lines.append(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]]}}))
        assert len(p["title"]) <= 80, p["id"]
        if (ROOT / "hsa" / "checks" / (p["id"].lower() + ".py")).exists():
            cmd = f"python3 run.py {p['id']}"
            checks.append({"property": p["id"], "quick_cmd": cmd + " --tier quick",
                           "thorough_cmd": cmd + " --tier thorough", "technique": p["technique"],
                           "level": "other", "level_note": p["note"]})
        else:
            missing.append({"property": p["id"], "reason": p["reason"] or TODO})
    (ROOT / "properties.jsonl").write_text("\n".join(lines) + "\n")
    (ROOT / "MANIFEST.json").write_text(json.dumps({
        "version": 1, "setup_cmd": "python3 -m compileall -q hsa run.py || true", "checks": checks,
        "not_applicable": missing,
        "notes": "Static analysis only: the checks read /repo/src/harmonica and never import it. No hooks."}, indent=1) + "\n")


main()
