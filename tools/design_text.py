HEAD = """# Solver-based checking of pixell

Every check executes pixell's own source, as it is in /repo at the time of the run, symbolically and lets z3 decide the assertions for every value of the inputs within the stated bounds.
This file is generated by `tools/mkdesign.py` from the property table (`tools/props.py`), the harnesses, `known_findings.txt` and the planted changes.

## How it works

* **Loading** (`symx/load.py`). `/repo/pixell/*.py` is parsed and compiled afresh on every run and executed with `numpy`, `scipy`, `astropy.wcs`, `astropy.io.fits`, `h5py`, `ducc0`, `numba` and `mpi4py`
  replaced by stand-ins that also work on symbolic values (`symx/snp.py`, `scp.py`, `wcs.py`, `io.py`, `fourier.py`, `sht.py`, `harness/comm.py`). Nothing of pixell is translated by hand: the functions that run are the functions in /repo,
  so a helper that is extracted, a loop that is rewritten or statements that are reordered are simply executed as they are. A few builtins (`int`, `float`, `round`, `np.float64`, ...) are redirected so that they keep symbolic values.
  The Cython modules are translated line by line (`symx/pyx.py`: static types become casts), and the C behind them is compiled to LLVM IR by clang on every run and interpreted symbolically, with bounds-checked memory (`symx/cir.py`).
* **Values** (`symx/core.py`). A value is a polynomial with rational coefficients over atoms: inputs, floors, if-then-else terms, square roots, and uninterpreted functions (sin, cos, arcsin, exp, ...) for which the identities that are needed are
  given to the solver as each term is created. Numbers are exact (reals and integers); floating-point rounding is outside the model, and assertions carry a tolerance where constants come from libraries.
* **Paths**. A branch on a symbolic condition forks, both sides being checked for feasibility by z3; a symbolic index or array size splits into one path per value. Budgets (paths, seconds) are per case; what did not fit is counted in the evidence as truncated.
* **Assertions**. A harness (`harness/pXX.py`) is a list of cases. A case declares its symbolic inputs (`C.int`, `C.real`, `C.data`, `C.wcs`, ...) and choices (`C.pick`, `C.choice`: solver variables too, one path per value), calls pixell, and states assertions.
  Each is one query: path condition and not assertion. `unsat` means that it holds for every input on the path; `sat` gives a counterexample.
* **Replay**. Every counterexample is run against the real code: the same case with the real numpy, scipy, astropy, ducc0 and the extension modules built from /repo's current sources into a scratch directory. Only a counterexample that fails there is
  a violation (`VIOLATION ... replay=<file>`); one that does not is reported in the evidence as spurious and does not raise an alarm. Models of explored paths, and of paths that the engine could not follow (an operation that it does not know), are replayed in
  the same way, which cross-checks the stand-ins against the libraries and keeps an eye on code the engine cannot follow. The verdict rests on the queries; the replays only confirm.
* **Evidence**. `evidence/PXX.json` has, per case, the number of paths, queries, verdicts, unknowns, paths not followed and truncated, solver time, and the functions of /repo that were executed symbolically.
* `tools/selfcheck.py` (setup) checks that the tools are there and that the engine can tell a true from a false assertion.

Quick runs take 20-90 s each on 8 cores; thorough runs widen the bounds (`C.q(quick, thorough)`) and the budgets, up to about 20 minutes each.

*Limits that hold everywhere*: sizes are small (see the bounds), numbers are exact instead of floating point, one thread (OpenMP is switched off in the IR), and the numerics of numpy.fft, ducc0, scipy and wcslib are taken as given
(their operators are read off the installed library at concrete settings, or replaced by their definition). Exceptions: where a property says that something is refused, the exception type is asserted.

Checks that were wrong at first (the property too strong or a stand-in inexact) were corrected, not listed: e.g. exact ties in rounding, positions exactly on a pole or on the wrap, and rounding of numbers written to text are now excluded by the
assumptions below, and the stand-ins were brought in line with the libraries wherever a replay disagreed.
"""
ORACLE = {
 "P01": "slicing the bare array, and the position of pixel start+i*step under the original wcs, for symbolic wcs parameters",
 "P02": "the projection's formula (linear for plain and CAR; an uninterpreted invertible function otherwise) applied to the pixel; distance modulo a whole turn",
 "P03": "for each output pixel, the set of map pixels at the same place modulo the sky's width, written as if-then-else over the map's contents",
 "P04": "the box's edges in pixels (exact formula), rounded in the requested mode; contents by P03's oracle",
 "P05": "index arithmetic per output pixel (periodic or fill), written independently of the code",
 "P06": "sums over blocks and positions of block centres",
 "P07": "integer pixel offsets between the two grids, and interval intersection",
 "P08": "the definition of the geometry asked for: centres, corners, resolution and which pixels are covered",
 "P09": "the map before writing, sliced in memory",
 "P10": "the defining discrete sums of each transform",
 "P11": "DFT sums with the physical normalization and multipoles from the geometry's pixel size",
 "P12": "sums of spin-weighted spherical harmonics evaluated at each pixel centre (closed forms), inner products for adjointness, quadrature exactness",
 "P13": "the layout's index formula and the per-multipole definition; the C code is interpreted from LLVM IR",
 "P14": "set semantics: membership of every sample, or equality of pixel coverage",
 "P15": "the order/uniqueness/nearest relation stated over symbolic arrays",
 "P16": "index arithmetic and block sums",
 "P17": "closed-form area on cylindrical projections; great-circle distances",
 "P18": "modular arithmetic, rotation matrices as products, day counts",
 "P19": "the interpolation kernel's weights at the requested coordinate; the position of a target pixel in the source",
 "P20": "the plain map that the tiles or maps partition; for MPI, the union over tasks before and after",
 "P21": "index formulas, per-multipole factors, and the eigen-decomposition from which the matrix was built",
 "P26": "circular convolution with the beam, spectrum and depth written out as sums over pixels, and the sum of squared weights over modes",
 "P25": "the filtered Fourier or harmonic sum at each level's pixel centres, the map itself after the round trip, block means for Haar, inner products for adjoints",
 "P24": "the discrete Fourier coefficients before and after, block means, and linear interpolation in time",
 "P23": "for each pixel and object, amplitude times the linearly interpolated profile at the great-circle distance computed directly; a list of (pixel, bin) pairs for the radial sums",
 "P22": "spherical trigonometry at each pixel and the harmonic sum at the displaced position; the relativistic formulas; trigonometric interpolation",
}
COST = {}
TAIL = ""
