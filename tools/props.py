"""Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""
SP = "surface_potential_analysis"
_NOTE = ("Every contract on the functions this property rests on is checked against the code in /repo on every run, for all sizes and all array values (array ranks and basis classes are enumerated). "
         "Trusted: the numpy models in spaverify/npshim.py (re-tested against numpy in setup), exact real arithmetic instead of floats, the engine and z3.")
HOW = ("the contracts tagged with this property in contracts/ (listed under functions_under_contract in its evidence file), proved for all sizes and all array values by symbolic execution "
       "of the functions in /repo against them; the oracle is the specification expression of each contract (defining matrices of bases, index formulas), not the code.")
PROPS = [
 dict(id="P01", title="Changing the basis of a vector is exact on every pair of bases",
  st="Converting a vector between two bases that share a fundamental grid gives the coefficients whose expansion on that grid is the orthogonal projection of the original vector, for every pair of basis types, every size and any array axis. In particular conversion to a complete basis and back returns the original vector and preserves norms and inner products.",
  q="all vectors (any values, any rank), all pairs of basis types (position, transformed, truncated, evenly spaced, stacked, user-defined) and all of their sizes, every axis",
  why="Tests convert a handful of random vectors between two or three fixed bases of fixed size; the guarantee is for all bases, sizes, ranks and axes, and off-by-one errors of Fourier padding show up only for particular parities or size relations.",
  mech=[("vector conversion entry point", SP+"/basis/basis_like.py:convert_vector"), ("basis implementations", SP+"/basis/basis.py:TransformedBasis"), ("evenly spaced bases", SP+"/basis/evenly_spaced_basis.py:EvenlySpacedBasis"), ("stacked conversion", SP+"/basis/stacked_basis.py:TupleBasis"), ("series resampling", SP+"/util/interpolation.py:pad_ft_points")]),
 dict(id="P02", title="The result of a conversion does not depend on the route taken",
  st="A conversion may go through the position grid, through the Fourier grid or be skipped entirely when the bases coincide, and all routes give the same coefficients. This holds for bases that are given only through the public basis interface.",
  q="all bases satisfying the basis interface (abstract linear maps to position or Fourier grid), all sizes, all vectors",
  why="Each existing test drives one route; agreement of the shortcuts needs an argument for every basis that could be plugged in.",
  mech=[("route selection", SP+"/basis/basis_like.py:BasisWithTransformedLike"), ("conversion", SP+"/basis/basis_like.py:convert_vector")]),
 dict(id="P03", title="Resizing a Fourier series keeps every common frequency and adds nothing",
  st="Truncating or zero-padding a Fourier series to any other length keeps the coefficient of each frequency present in both, drops the others and fills new frequencies with zero. This holds for each of the selected axes independently. Interpolating points to a different number of points resamples this series, so a finer grid that contains the old points passes through them. Interpolating with splines along an axis evaluates, for each row along that axis, the cubic spline through the points at their coordinates.",
  q="all arrays of any rank, all old and new lengths of either parity, all axes; splines only at sampled points",
  why="Tests look at a few even and odd lengths; the boundary frequency moves with parity and with which length is larger.",
  mech=[("padding", SP+"/util/interpolation.py:pad_ft_points"), ("use in bases", SP+"/basis/basis.py:TransformedBasis"), ("Fourier interpolation", SP+"/util/interpolation.py:interpolate_points_fftn")]),
 dict(id="P04", title="Evenly spaced bases keep exactly every step-th state, with wraparound",
  st="A basis of every s-th state starting at an offset corresponds to the states offset, offset+s, ... taken modulo the size of the fundamental grid. Restricting to it and embedding back are adjoint, and restricting an embedded vector returns it.",
  q="all numbers of states, steps, integer offsets (negative and beyond the grid included), arrays and axes",
  why="No test uses an offset other than a small positive one; wraparound only shows for negative or large offsets.",
  mech=[("evenly spaced basis", SP+"/basis/evenly_spaced_basis.py:EvenlySpacedBasis"), ("transformed version", SP+"/basis/evenly_spaced_basis.py:EvenlySpacedTransformedBasis")]),
 dict(id="P05", title="Stacked bases convert as the tensor product of their parts",
  st="Converting an array stored in a stacked basis converts every part independently along its own axis, leaves all other axes of the array alone, and agrees with converting to a flat basis on the same grid.",
  q="all numbers and kinds of parts up to three, all sizes, any position of the stacked axis among other axes",
  why="Tests use one or two parts of fixed size and mostly the last axis.",
  mech=[("stacked basis", SP+"/basis/stacked_basis.py:TupleBasis"), ("vector conversion", SP+"/basis/basis_like.py:convert_vector")]),
 dict(id="P06", title="Dual vectors and matrices transform consistently with vectors",
  st="A dual vector transforms with the complex conjugate of the vector transformation and a matrix transforms as U A V-dagger along the two selected axes, so contracting converted objects gives the same number as contracting the originals in a complete basis.",
  q="all dual vectors and matrices, all basis pairs, all axes including non adjacent, reversed and negative ones",
  why="Real or symmetric test data cannot tell U from its conjugate or transpose.",
  mech=[("dual conversion", SP+"/basis/basis_like.py:convert_dual_vector"), ("matrix conversion", SP+"/basis/basis_like.py:convert_matrix")]),
 dict(id="P07", title="Flat and stacked indices are inverse bijections and label the right grid point",
  st="For every stacked basis, flat and stacked indices convert into each other without loss in C order. The position and momentum points generated for a basis list each point of the fundamental grid once, momenta in FFT order (0, 1, ..., -1) with the signed integer range of that length.",
  q="all stacked bases up to three parts, all sizes of either parity, all indices",
  why="Tests compare a few fixed sizes; the sign convention of the middle frequency depends on parity.",
  mech=[("stacked indices", SP+"/stacked_basis/util.py"), ("index points", SP+"/basis/util.py:BasisUtil"), ("fundamental points", SP+"/basis/util.py:BasisUtil.fundamental_stacked_nx_points")]),
 dict(id="P08", title="Lattice vectors, reciprocal vectors and points in space agree",
  st="The reciprocal vectors dk of a stacked basis satisfy dk_i . dx_j = 2 pi delta_ij, the volume is the determinant of the lattice, and every x (k) point is the integer combination of the lattice (reciprocal) vectors with its index divided by the number of points.",
  q="all lattices of dimension one to three with linearly independent vectors, all sizes",
  why="Tests use orthogonal or a few fixed lattices, for which a transposed inverse gives the same numbers.",
  mech=[("basis geometry", SP+"/basis/util.py:BasisUtil"), ("lattice helpers", SP+"/stacked_basis/util.py")]),
 dict(id="P09", title="Wrapped indices and distances represent the same point in the unit cell",
  st="Wrapping an index or a point changes it by a whole number of unit cells and brings it into the fundamental range. Distances along a path and their cumulative sums are the Euclidean lengths of the successive differences.",
  q="all indices (negative and far outside the cell included), origins, sizes and lattices",
  why="Tests sample a few points; mistakes show at the cell boundary, for negative indices or for non-orthogonal cells.",
  mech=[("wrapping", SP+"/stacked_basis/util.py"), ("distances", SP+"/stacked_basis/util.py:get_x_coordinates_in_axes")]),
 dict(id="P10", title="Slices and projections of stacked data select the documented axes and points",
  st="Extracting data or coordinates along some of the axes of a stacked basis returns exactly the entries at the fixed index on the other axes, in the order of the requested axes. The accompanying coordinates are the projections of the grid points onto the plane of those axes.",
  q="all stacked bases of dimension up to three, all axis choices and fixed indices",
  why="Tests slice along one axis of small arrays; permuted axes and unequal sizes are not covered.",
  mech=[("slices", SP+"/util/util.py"), ("projected coordinates", SP+"/stacked_basis/util.py")]),
 dict(id="P11", title="State vectors and lists of them keep their values through every operation",
  st="Converting, interpolating, slicing, stacking and averaging states or lists of states acts on each state as the same linear map, and inner products, normalisation and probabilities are those of the represented vectors.",
  q="all states and lists of states in all bases, all list shapes",
  why="Tests check a few random vectors in one basis; conjugation and order of list axes need asymmetric inputs.",
  mech=[("state vectors", SP+"/state_vector/state_vector.py"), ("lists", SP+"/state_vector/state_vector_list.py"), ("conversion", SP+"/state_vector/conversion.py"), ("inner products", SP+"/state_vector/eigenstate_calculation.py")]),
 dict(id="P12", title="Operators obey operator algebra in every basis",
  st="Sums, products, commutators, scalings, adjoints and basis conversions of operators, diagonal operators and lists of operators represent the corresponding linear maps, whichever bases the operands are stored in.",
  q="all operators, operator lists and diagonal operators, all pairs of bases on a common grid",
  why="Tests multiply a few square matrices in one basis; rectangular operators, differing bases and complex entries separate A from its transpose or conjugate.",
  mech=[("operator operations", SP+"/operator/operations.py"), ("operators", SP+"/operator/operator.py"), ("operator lists", SP+"/operator/operator_list.py"), ("conversion", SP+"/operator/conversion.py")]),
 dict(id="P13", title="Applying operators to states and taking expectation values is basis independent",
  st="Applying an operator to a state gives the normalised image together with its norm, and matrix elements and expectation values equal <a|A|b> computed on the common fundamental grid for any storage bases.",
  q="all operators (lists, diagonal) and states, all bases sharing the grid",
  why="Existing tests use hermitian operators stored in the basis of the state.",
  mech=[("application", SP+"/operator/operations.py:apply_operator_to_states"), ("expectation", SP+"/operator/operator.py:calculate_expectation")]),
 dict(id="P14", title="Probability vectors are squared moduli with correct marginals and averages",
  st="Probabilities derived from states are the squared moduli of their coefficients. Selecting members of a list, summing over parts of the basis and (weighted) averaging over parts of the list give the documented sub-lists, marginals and means, labelled with the basis that matches the remaining data.",
  q="all probability vectors and lists of any shape (up to three axes), all axis choices, weights and indices",
  why="No test covers this module; summing the wrong axis of a square array or mislabelling a permuted basis gives plausible numbers.",
  mech=[("probability vectors", SP+"/probability_vector/probability_vector.py"), ("conversion", SP+"/probability_vector/conversion.py")]),
 dict(id="P15", title="Explicit, time and bloch fraction bases mean what they are built from",
  st="A basis given by explicit vectors expands in exactly these vectors, and coefficients with respect to it are inner products with them, from and to the points as well as from and to the Fourier components. The times (bloch fractions) of an evenly spaced time (bloch fraction) basis are every step-th of the equally spaced fundamental times (fractions).",
  q="all sets of vectors over any basis, all array axes, all sizes, steps and offsets inside one step",
  why="Tests build explicit bases from one small set of vectors and only look at one conversion.",
  mech=[("explicit bases", SP+"/basis/explicit_basis.py:ExplicitBasis"), ("time bases", SP+"/basis/time_basis_like.py"), ("bloch fractions", SP+"/basis/block_fraction_basis.py")]),
 dict(id="P16", title="The forms of a noise kernel describe the same kernel",
  st="Isotropic, per-axis, diagonal and full noise kernels convert into each other by the documented index rules, so an isotropic kernel beta(x - x') becomes the diagonal kernel K[i, j] = beta(i - j around the cell) and reading it back from any row gives the same beta. Kernels built from a list of (diagonal) noise operators are the sum of eigenvalue times the products of their matrix elements.",
  q="all kernels and operator lists (complex, non-hermitian), all sizes and stacked bases of up to three parts, all rows",
  why="Tests convert symmetric kernels, for which rows and columns, or K and its conjugate, cannot be told apart.",
  mech=[("kernel forms", SP+"/kernel/kernel.py"), ("kernel conversion", SP+"/kernel/conversion.py")]),
 dict(id="P17", title="Eigenstates and eigenvalues reconstruct the operator they came from",
  st="The eigenstates of a hermitian operator are orthonormal, have real eigenvalues and rebuild the operator, in whichever bases it is stored, and those of a general diagonalisable operator satisfy A v = lambda v. A function applied to an operator (in particular the exponential) acts on its eigenvalues only and keeps its eigenstates. The basis of the eigenstates of an operator holds these eigenstates.",
  q="all hermitian and diagonalisable operators, all sizes, all subsets of eigenvalues requested by index",
  why="Tests diagonalise small real matrices and compare numbers; transposed or conjugated eigenvector matrices agree for real symmetric input.",
  mech=[("eigenstates", SP+"/state_vector/eigenstate_calculation.py"), ("operator from eigenstates", SP+"/operator/operator.py")]),
 dict(id="P18", title="Schrodinger evolution is exact and unitary at every requested time",
  st="The state at every requested time is exp(-i H t / hbar) applied to the initial state, for time bases of any spacing and for Hamiltonians in diagonal or full form. Evolution preserves norms and inner products.",
  q="all hermitian Hamiltonians, initial states, sizes and time bases; the solution by numerical integration only at sampled inputs",
  why="Tests run one or two Hamiltonians for which a sign or a conjugation of the phase leaves the compared probabilities unchanged.",
  mech=[("evolution", SP+"/dynamics/schrodinger/solve.py")]),
 dict(id="P19", title="Noise operators reproduce the kernel they were made from",
  st="The noise operators and eigenvalues computed for a kernel, by diagonalisation or from its Fourier series, give exactly that kernel when multiplied out again. Converting a kernel to another basis transforms it as the operator products it is made of. Truncating a list of operators keeps the operators of the chosen ranks in order of decreasing eigenvalue (by magnitude for diagonal operators), each with its own eigenvalue.",
  q="all hermitian (diagonal) kernels, all isotropic kernels, symmetric or not, all sizes and stacked bases of up to three parts",
  why="The tests reconstruct real symmetric kernels of one size from one random seed; complex kernels and bases of unequal sizes are not covered.",
  mech=[("noise operators", SP+"/kernel/solve/_fft.py"), ("diagonalisation", SP+"/kernel/solve/_eigenvalue.py"), ("taylor series", SP+"/kernel/solve/_taylor.py"), ("truncation", SP+"/kernel/build.py:truncate_noise_operator_list"), ("kernel conversion", SP+"/kernel/conversion.py")]),
 dict(id="P20", title="Kernels of functions of the displacement use the shortest way round the cell",
  st="The displacement of two grid points of a rectangular cell is the difference of their positions less the origin, brought into half a cell on either side of zero. A kernel built from a function of the displacement (in particular the gaussian kernels) takes the value of that function at x - x' for every pair of points. The midpoint of two points lies halfway along the shortest way between them. The periodic noise operators of a gaussian kernel give the kernel back; the operators of its explicit Taylor series are the cosines and sines (or powers) with the coefficients of that series.",
  q="all rectangular cells of up to three axes, all sizes, origins, lengths and functions of the displacement",
  why="Tests use even functions on one axis; the sign of x - x', the range at the cell boundary and more than one dimension need separate arguments.",
  mech=[("displacements", SP+"/operator/build.py"), ("kernels from functions", SP+"/kernel/build.py"), ("gaussian kernels", SP+"/kernel/gaussian.py")],
  note=_NOTE + " Displacements are only claimed for rectangular cells aligned with the axes of space. "),
 dict(id="P21", title="A potential is one function of position, and the Hamiltonian built from it is kinetic plus potential energy",
  st="The continuous form of a potential is its Fourier series and agrees with the potential at every point of the grid; its derivative multiplies each Fourier component by i times its wave vector. The Hamiltonian of a potential multiplies by the potential at each grid point and adds hbar^2 |k + q|^2 / 2m in momentum space, q being the given fraction of the reciprocal vectors, in whatever basis it is asked for, and is hermitian for a real potential. Undoing the truncation of a potential gives it back, for every cutoff, offset and exponent; normalising it subtracts its smallest value. Interpolating a potential given at uneven heights gives, at each point of the new grid, the value there of the Fourier series in the plane and of the spline along the height. The bound states of a potential in one dimension are the lowest eigenstates of that Hamiltonian, and those of a harmonic oscillator are the Hermite functions at the distances from its centre.",
  q="all lattices (skew cells included), grid sizes, masses, Bloch fractions, potentials and points, fundamental, momentum, truncated and abstract bases, up to three axes",
  why="Tests check a square cell at a few sizes; the wave vectors of a skew cell, the Bloch shift and the signs of derivatives have to be right for every lattice.",
  mech=[("continuous potential and derivative", SP+"/potential/conversion.py"), ("potential and kinetic energy", SP+"/hamiltonian_builder/momentum_basis.py"), ("truncation", SP+"/potential/potential.py"), ("bound states", SP+"/stacked_basis/potential_basis.py"), ("oscillator", SP+"/stacked_basis/sho_basis.py")]),
 dict(id="P22", title="Bases derived from a basis describe the same cell",
  st="The fundamental position, momentum, transformed and plain bases derived from a basis (alone or stacked) have its lattice vectors and its fundamental sizes, axis by axis and in the same order; bases built from a shape have that shape, with unit vectors unless vectors are given. A stacked basis has the product of the sizes of its axes. The times of a time basis are every step-th of its fundamental times from its offset, which divide the total time evenly.",
  q="all sizes, lattice vectors, steps and offsets; abstract and concrete axes, up to three per basis",
  why="Every conversion goes through these; a test with equal sizes or a cubic cell cannot see two axes or n and fundamental n exchanged.",
  mech=[("one axis", SP+"/basis/conversion.py"), ("stacked bases", SP+"/stacked_basis/conversion.py"), ("bases from shapes", SP+"/stacked_basis/build.py"), ("time bases", SP+"/basis/time_basis_like.py")]),
 dict(id="P23", title="A Bloch wavefunction list describes one state of the large cell for each sample of the Brillouin zone",
  st="The state of a sample holds exactly the frequencies of the large cell that belong to that sample, whether taken one at a time, all at once, or as a basis; the unfurled wavepacket is their normalised sum. Converting a list to other bases (with or without energies, one band or many) leaves its states and energies unchanged and in order. Selecting bands, collecting wavepackets into lists, and averaging energies treat samples and bands in their stored order. Expanding a vector in the basis of Bloch states and back uses exactly those states. The generated band structure holds, for every sample and requested band, the eigenstate of the Hamiltonian at that bloch k in order of energy.",
  q="all numbers of samples, bands and states, odd and even, truncated and abstract bases, one and two axes (lattice bases up to three)",
  why="A wavepacket is only checked against itself by the tests, at one or two even sizes; the order of negative frequencies, odd sizes and truncated states need a general argument.",
  mech=[("states of a sample", SP+"/wavepacket/get_eigenstate.py"), ("unfurling", SP+"/wavepacket/eigenstate_conversion.py"), ("conversion", SP+"/wavepacket/conversion.py"), ("lists and band structures", SP+"/wavepacket/wavepacket.py")]),
 dict(id="P24", title="Wannier states and their Hamiltonian are the localised combinations of the Bloch states",
  st="A localization operator mixes the bands of each sample separately; a diagonal operator acts as the full one it stands for. The Wannier state of cell R is the sum over bands and samples of the operator times exp(i k R) times the Bloch state, over the root of the number of samples. The Wannier Hamiltonian is the matrix of the Hamiltonian between those states, for each sample and between all cells.",
  q="all numbers of samples, bands and localised states, complex operators, truncated state bases, one and two axes",
  why="With real operators and symmetric bands, as in the tests, a conjugated phase or a transposed matrix gives the same numbers.",
  mech=[("localization operators", SP+"/wavepacket/localization_operator.py"), ("wannier states", SP+"/wavepacket/get_eigenstate.py")]),
 dict(id="P25", title="Overlaps are the products of pairs of states at each point and interpolate to their Fourier transform",
  st="An element of an overlap is the conjugate of one state times the other state, moved by the given shift, at each point; each axis of the points wraps around on its own. Selecting a pair of states or converting the points to another basis leaves the other pairs and their order as they were. The momentum interpolators are the sum over the points nearest to the origin of the overlap times exp(i k x), for any k.",
  q="all lists of states and wavepackets, shifts, lattices and k points, up to three axes; keeping only the largest points at sampled overlaps",
  why="The two tests use cubic shapes with random data and one state, for which axes, the order of states and the direction of a shift cannot be told apart.",
  mech=[("overlap", SP+"/overlap/calculation.py"), ("interpolators", SP+"/overlap/interpolation.py"), ("conversion", SP+"/overlap/conversion.py")]),
 dict(id="P26", title="Tunnelling rate equations conserve probability and describe hops of the given rates",
  st="The jump matrix and the rate (a and m) matrices built from a function of states and offsets hold exactly the rate of each hop at the site it starts from and the site it lands on (around the edges of the cell), and the rate matrix takes away from each site what it gives to the others. The simulated occupation is the solution of that rate equation at every requested time, as is the equilibrium. The isf of a set of times is the sum of the occupations times exp(i q dx) over the displacements of the sites brought back into the simulation cell, and the location of a band is the fraction of the unit cell at which its localised states are largest. Reducing the number of bands or resampling the shape of a simulation leaves the rates of the remaining hops as they were. Fitting the exact isf of a model of a fast and a slow rate gives that isf back.",
  q="all shapes up to two axes, numbers of bands and rates, all diagonalisable rate matrices and times; the analytic lattice isf, the fits to it (for rates of the order of the first guess) and the collapse operators only at sampled inputs",
  why="Tests compare one or two small matrices with symmetric rates, for which the row and column of a hop can be exchanged.",
  mech=[("rate matrices", SP+"/dynamics/incoherent_propagation/tunnelling_matrix.py"), ("simulation", SP+"/dynamics/incoherent_propagation/eigenstates.py"), ("isf", SP+"/dynamics/incoherent_propagation/isf.py")]),
 dict(id="P27", title="Localised wavepackets only recombine bloch states: by a phase, or by a unitary matrix, for each sample",
  st="Localising a wavepacket at a point, at its largest point or at a pair of points multiplies the bloch state of each sample by a phase, such that all the bloch states have the requested phase at the point (share it between the two points), also for points outside of the first unit cell. Localising by projection multiplies each bloch state by the phase of its overlap with the projected state, so that the overlap is positive; for several bands the bands of each sample are recombined by the unitary factor of the matrix of overlaps. The projected states (a point, an exponential or gaussian profile measured in unit cells, a tight binding state, evenly spaced points) are the stated functions on the large cell that holds all samples. Localising by the position operator gives the eigenstates of position among the bloch states, in order. The identity localisation leaves each band as it is.",
  q="all lattices, shapes, samples, states and points of up to two axes (up to three for the two points), overlaps of full rank; tight binding states and the position operator of several bands only at sampled wavepackets",
  why="The tests localise one random wavepacket at points of the first cell, and compare norms which any phase leaves alone.",
  mech=[("phases", SP+"/wavepacket/localization/_tight_binding.py"), ("projections", SP+"/wavepacket/localization/_projection.py"), ("position operator", SP+"/wavepacket/localization/_operator.py"), ("operators", SP+"/wavepacket/localization_operator.py"), ("trial states", SP+"/state_vector/util.py")]),
 dict(id="P28", title="A cached function returns what the function returns, and a failed save leaves nothing behind",
  st="Calling a function cached in files returns what the function itself returns for these arguments, or else what was stored in the file of these arguments: which of the two, whether the function is called, and whether the file is written follows from the kind of call (load or call cached, load or call uncached, call cached, call uncached, or the default kind) and whether the file is there. The file is the one that the path names, or the path function gives for the same arguments; without a path nothing is read or written. A computation that fails, or a value that cannot be stored completely, leaves no file behind which a later call would load, and leaves the other files as they were.",
  q="all arguments, values and kinds of call, for caches with and without a file, with a fixed path and a path function; computations and saves that fail; positional and keyword arguments",
  why="No test uses a cache: what a call returns depends on what earlier calls, also those that failed, have left in the folder.",
  mech=[("cached", SP+"/util/decorators.py")]),
 dict(id="P29", title="Sampled noise has the statistics of the noise operators or kernel",
  st="The noise N sampled from a set of noise operators, or from a noise kernel, has mean zero, E[conj(N(i)) N(j)] is hbar times the kernel of the operators at (i, j), E[N(i) N(j)] is zero, and different samples are independent. In noise split by operator the parts of different operators are independent, each with the kernel of its operator; the sum of the parts is the noise, and each part can be taken out. A truncated kernel gives noise with the kernel of the operators that are kept.",
  q="all operators, non-negative eigenvalues, numbers of samples and bases; the expectation is exact, over independent standard normal numbers; noise from a kernel only at sampled positive kernels",
  why="No test samples noise, and a test could only estimate the statistics.",
  mech=[("sampling", SP+"/kernel/sample.py")]),
 dict(id="P30", title="What Wannier90 is given describes the wavepackets, and the matrices it returns are read as their localisation",
  level="exploration",
  note="The state moved by a reciprocal lattice vector and the symmetry operations are proved for all sizes and values. What is written to and read from files of text is outside the engine's reach: compared at sampled wavepackets by an independent reader and writer of the formats of Wannier90 (a bounded stand-in), with a program in place of Wannier90 that checks what it is given and answers with any matrices.",
  st="The input file gives the vectors of the unit cell in angstrom and the fractions of the samples in their order. Entry (m, n) of the overlaps of two neighbouring samples is <u_m k | u_n k+b>, u_n k+b being the periodic part at the sample k+b comes back to, its coefficients moved by the reciprocal lattice vector (not along the axes which are ignored); m runs fastest. Entry (m, n) of the projections of a sample is <psi_m k | g_n>. The matrix read for a sample, m running fastest, combines the bands m into the localised state n; localising the bands one by one gives the diagonal operator of the phases found for each band.",
  q="all states, lattice vectors and symmetry operations for up to three axes; files at sampled wavepackets, neighbours and matrices",
  why="Wannier90 is not run by any test; the one test of this module reads one file of neighbours. With a conjugate, a transpose or a shift the wrong way round the localisation still runs.",
  mech=[("files and operator", SP+"/wavepacket/localization/_wannier90.py")]),
 dict(id="P31", title="The rates of hops driven by electrons are the stated integrals over the Fermi surface",
  st="The occupation integrand at a wavenumber k is n(E) (1 - n(E + omega)), with E = hbar^2 k^2 / 2m and n the Fermi-Dirac occupation at the given thermal energy around the energy of k_f; its integral extends over twenty thermal widths d_k on either side of k_f. The potential integral is that, over the angles phi from 0 to pi and with q = k_f sin(phi / 2), of 4 m k_f^3 / (2 pi hbar)^3 times sin(phi) times the square of the Coulomb potential times the (complex) overlap at q. The Coulomb potential is e^2 / (epsilon_0 q^2) (1 / (1 + (q / alpha)^2)^2 - 1), alpha being 2 over the Bohr radius, and its expansion to order q^2 where q is tiny. The real part of gamma is the product of the two integrals.",
  q="all wavenumbers, omega, thermal energies, Fermi wavevectors and overlap functions",
  why="No test calls these functions.",
  mech=[("integrals", SP+"/dynamics/hermitian_gamma_integral.py")]),
]
NA = {}
for _p in PROPS:
    _p.setdefault("note", _NOTE)
