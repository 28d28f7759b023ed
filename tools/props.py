"""The property table: properties.jsonl and MANIFEST.json are generated from it (python3 tools/mkmeta.py)."""
P = []
def prop(id, title, statement, over, quant, why, files, mech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note))

prop("P01", "Slicing a map keeps every pixel's value and place on the sky",
     "Slicing a map or a map geometry along its two pixel axes (any start, stop, positive or negative step, leading axes or not) gives the same pixel values as slicing the bare array and a geometry in which each result pixel lies at the place on the sky of the input pixels it was taken from. The result has the same shape as the sliced array, shares memory like an array slice does, and never changes the input's own geometry. Arithmetic and copies keep the geometry and do not share it.",
     ["inputs", "configurations"], "every map shape, slice and geometry (reference pixel, reference value, pixel size, projection)",
     "the tests slice a few fixed maps with in-range positive slices; the claim covers every start/stop/step (negative, out of range, absent) with every reference point",
     ["pixell/enmap.py", "pixell/utils.py"], [("ndmap.__getitem__", "pixell/enmap.py"), ("slice_geometry", "pixell/enmap.py"), ("Geometry.__getitem__", "pixell/enmap.py"), ("expand_slice", "pixell/utils.py"), ("split_slice", "pixell/utils.py")],
     "axes up to 4 (thorough 6) pixels, bounds -5..5 (-8..8), |step|<=3; geometry parameters and data unbounded reals in a box")
prop("P02", "Pixel and sky coordinates convert consistently both ways",
     "For every geometry, converting pixel coordinates to sky coordinates follows the geometry's projection (radians, dec before ra, half-pixel shift when corners are asked for), converting back gives the original pixel, and sky positions that differ by whole turns give the same pixel, the copy nearest the map's middle. Position maps, position axes, pixel maps, map corners, bounding boxes, centers and the inside test agree with the point-by-point conversion, and coordinates along a map or a list of points never jump by a turn.",
     ["inputs", "configurations"], "every pixel position, sky position and geometry, including positions on the far side of the ra wrap",
     "the tests convert some points on a few geometries; the claim is about every position and reference point, in particular around the wrap",
     ["pixell/enmap.py", "pixell/utils.py", "pixell/wcsutils.py"], [("pix2sky", "pixell/enmap.py"), ("sky2pix", "pixell/enmap.py"), ("posmap", "pixell/enmap.py"), ("corners", "pixell/enmap.py"), ("contains", "pixell/enmap.py"), ("unwind/rewind", "pixell/utils.py")],
     "exact for plain and CAR; CEA, MER and zenithal projections through uninterpreted invertible functions")
prop("P03", "Cutting out and inserting pixel boxes respects the sky's wrapping",
     "Extracting a pixel box or a compatible geometry from a map gives, for every output pixel, the value of the map pixel at that place of the sky (counting pixels a whole turn away as the same on sky projections, never on plain coordinates), and the fill value or the untouched previous output where the map has no such pixel. Inserting is the exact reverse: it writes or combines each covered existing pixel once and changes nothing else. Boxes may start anywhere, wrap around any number of times, and have positive or negative steps, and arguments are never modified.",
     ["inputs", "configurations"], "every box position, extent and step, map width and wrap length, and every compatible pair of geometries",
     "the tests extract a few boxes; strides, negative steps, partial overlap and multiple wraps are unsampled",
     ["pixell/enmap.py", "pixell/utils.py"], [("extract", "pixell/enmap.py"), ("extract_pixbox", "pixell/enmap.py"), ("insert", "pixell/enmap.py"), ("insert_at", "pixell/enmap.py"), ("pixbox_of", "pixell/enmap.py"), ("sbox_wrap", "pixell/utils.py")],
     "boxes of up to 13 pixels per axis, skies of 5-12 pixels around, start positions several turns away")
prop("P04", "Sky boxes select exactly the pixels they cover",
     "Selecting a sky box from a map or geometry gives the pixels between the box's two edges, each edge rounded to a pixel boundary in the requested way, with values and sky positions preserved, zeros where the map has no pixel, and wrapping handled on sky projections. A box given in reverse order selects the same pixels in reverse order, boxes that share an edge give results that share an edge, and a map's own bounding box selects exactly that map. Rounding to the inclusive or exclusive side is done for each edge of the box according to whether it is the lower or the upper one.",
     ["inputs", "configurations"], "every box, rounding mode and geometry",
     "tests use one default-mode box; modes, reversed boxes, wrapped boxes are unsampled",
     ["pixell/enmap.py"], [("submap", "pixell/enmap.py"), ("subinds", "pixell/enmap.py"), ("subgeo", "pixell/enmap.py"), ("skybox2pixbox", "pixell/enmap.py"), ("recenter_geo", "pixell/enmap.py")],
     "pixel ranges for symbolic maps up to 720 pixels wide; contents for small maps")

prop("P05", "Padding, cropping, shifting and tiling move pixels without changing them",
     "Padding a map puts it unchanged at the stated place of a larger map whose border holds the fill value, or the periodic continuation of the map when wrapping is asked for; padded slices and stamps do the same for any box. Cropping a geometry or removing blank edges never loses a pixel that is not blank, repeats with the returned info, and keeps each pixel at its place. A cyclic shift moves the reference point along unless told not to. Iterating over padded tiles yields each tile with its surroundings, and writing the tiles back unchanged reproduces the map; gluing neighbouring tiles gives the map they were cut from. The inputs are not modified unless the operation is asked to work in place.",
     ["inputs", "configurations"], "every amount of padding per side, box, shift, tile size and geometry",
     "the tests pad one or two maps by fixed amounts; asymmetric, zero and larger-than-map padding, shifts and tile remainders are unsampled",
     ["pixell/enmap.py", "pixell/utils.py"], [("pad", "pixell/enmap.py"), ("padslice", "pixell/enmap.py"), ("crop_geometry", "pixell/enmap.py"), ("autocrop", "pixell/enmap.py"), ("shift", "pixell/enmap.py"), ("Padtiler", "pixell/enmap.py"), ("tile_maps", "pixell/enmap.py")],
     "maps of 2-7 pixels per axis, padding 0-5 per side, all shifts within a few turns")
prop("P06", "Changing resolution by whole factors keeps values and sky positions",
     "Downgrading a map by whole factors gives, for each new pixel, the mean (or the requested operation) of its block of old pixels, located at the block's centre; an offset or a reference point chooses where blocks start, so that overlapping maps downgraded with one reference point have matching pixels; incomplete blocks are dropped or kept as requested. Upgrading repeats each pixel over its block, keeps its sky position, and is undone by downgrading. Scaling, downgrading or upgrading only the geometry gives the same pixel counts and positions as doing it to the map. The inputs are not modified.",
     ["inputs", "configurations"], "every map size, pair of factors, offset, reference point, operation and geometry",
     "tests downgrade a map or two by one factor; offsets, remainders, differing factors per axis and inclusive blocks are unsampled",
     ["pixell/enmap.py", "pixell/utils.py", "pixell/wcsutils.py"], [("downgrade", "pixell/enmap.py"), ("upgrade", "pixell/enmap.py"), ("downgrade_geometry", "pixell/enmap.py"), ("scale_geometry", "pixell/enmap.py"), ("block_reduce", "pixell/utils.py"), ("block_expand", "pixell/utils.py"), ("scale", "pixell/wcsutils.py")],
     "maps up to 5x7 with factors 1-4 and every offset; geometries up to 1000x1000 with symbolic sizes and reference points")
prop("P07", "Geometries on a common pixel grid combine correctly",
     "Two geometries are recognized as compatible exactly when they have the same projection, pixel size and direction and lie a whole number of pixels apart, and the pixel box of one in the other is that offset. The union of compatible geometries is the smallest one with all their pixels; the union of two maps has at every pixel the sum of the input pixels there; the overlap is exactly the common pixels when no wrapping is involved, and never loses a common pixel when it is. Neighbourhood boxes contain every pixel within the radius. Geometry objects, copies and prefixes keep shape and position, and inputs are not modified.",
     ["inputs", "configurations"], "every offset, size, pixel size and reference point, including a reference point moved along the equator, and positions around the wrap",
     "tests check one compatible pair; negative offsets, disjoint maps and moved reference points are unsampled",
     ["pixell/enmap.py", "pixell/wcsutils.py", "pixell/utils.py"], [("is_compatible", "pixell/wcsutils.py"), ("pixbox_of", "pixell/enmap.py"), ("union_geometry", "pixell/enmap.py"), ("map_union", "pixell/enmap.py"), ("overlap", "pixell/enmap.py"), ("neighborhood_pixboxes", "pixell/enmap.py"), ("Geometry", "pixell/enmap.py")],
     "offsets within 40 pixels and sizes up to 60, symbolic; wrapped overlap on skies of 8 and 12 pixels around, several turns away")
prop("P08", "Constructed geometries cover the requested area at the requested resolution",
     "A geometry built from a box or a centre point has the requested pixel size, directions following the box, and the requested or implied number of pixels; forced geometries match the given corners exactly, others start within half a pixel of them with the standard or given reference point at a pixel centre, so that geometries built with the same resolution share one grid. Full-sky geometries tile the sky exactly once with poles and wrap point at pixel centres or edges as the variant says, by shape or by resolution; a band is exactly the full sky's rows between two declinations; a thumbnail has an odd size with its origin in the middle pixel. Geometries cut from a full-sky grid lie on that grid to within a pixel of the request. Moving the reference point along the equator never moves a pixel on the sky.",
     ["inputs", "configurations"], "every box, centre, resolution, shape, unit, variant and reference point",
     "tests check a few fixed boxes; the claim is about every position, direction, resolution and size, and all variants",
     ["pixell/enmap.py", "pixell/wcsutils.py"], [("geometry", "pixell/enmap.py"), ("geometry2", "pixell/enmap.py"), ("fullsky_geometry", "pixell/enmap.py"), ("band_geometry", "pixell/enmap.py"), ("thumbnail_geometry", "pixell/enmap.py"), ("build/finalize", "pixell/wcsutils.py"), ("pixelization", "pixell/wcsutils.py"), ("recenter_cyl_x", "pixell/wcsutils.py"), ("fix_wcs", "pixell/wcsutils.py")],
     "boxes within +-60 degrees dec; zenithal projections around their reference point only; Airy and CEA builders not covered")
prop("P09", "Map files give back what was written, whole or in part",
     "A map written to a FITS or HDF file and read back has the same values, shape and sky geometry, and the written map is unchanged; the geometry reader agrees. Reading only a part (slice, pixel box, sky box with its rounding mode, geometry, slice in the file name, wrapping included, whole-image or section access) gives exactly what reading the whole map and cutting out that part gives. A delayed read gives the file's values each time it is used and never disturbs earlier results. U is negated exactly when the file declares a Stokes axis in the IAU convention. Several maps in one HDF file, and the maps of a multimap file, are kept apart.",
     ["inputs", "configurations", "histories"], "every map content, geometry and selection, and any sequence of reads through one delayed map",
     "the tests write and read one or two fixed maps; selections combined with wrapping, repeated delayed reads, Stokes conventions and section access are unsampled",
     ["pixell/enmap.py", "pixell/multimap.py"], [("read_map", "pixell/enmap.py"), ("write_map", "pixell/enmap.py"), ("read_helper", "pixell/enmap.py"), ("ndmap_proxy_fits", "pixell/enmap.py"), ("ndmap_proxy_hdf", "pixell/enmap.py"), ("get_stokes_flips", "pixell/enmap.py"), ("multimap.read_map/write_map", "pixell/multimap.py")],
     "maps up to 2x4x5 pixels; selections from finite sets; astropy.io.fits and h5py replaced by models of files in memory")
prop("P10", "Fourier and harmonic transforms are exact, invertible and have true adjoints",
     "For real and complex arrays of any shape, the forward transform along the requested axes is the discrete Fourier sum, the backward one its conjugate, and normalized they undo each other; the real transforms are the non-redundant half and are undone at every length, even, odd or tiny; each cosine, sine and Chebyshev transform is undone by its inverse. Frequencies and indices map to each other. Shifting by whole samples rolls the data, by fractions evaluates the Fourier series; resampling keeps every mode both grids have; non-uniform transforms evaluate the series at the given points. Map transforms undo each other in every normalization, conserve power when unit-normalized, and turn spin pairs into E and B modes and back. Every *_adjoint is the adjoint of its namesake. Inputs are not modified, and both numerical engines agree.",
     ["inputs", "configurations"], "every array content and every listed shape, choice of axes, engine, normalization, spin list and polarization convention",
     "tests compare a few random arrays of even length; odd, tiny and multi-axis shapes, adjoint identities and all normalizations are unsampled",
     ["pixell/fft.py", "pixell/enmap.py"], [("fft/ifft/rfft/irfft/dct/idct", "pixell/fft.py"), ("resample_fft", "pixell/fft.py"), ("shift", "pixell/fft.py"), ("u2nu/nu2u/interpol_nufft", "pixell/fft.py"), ("fft/ifft/map2harm/harm2map and adjoints", "pixell/enmap.py")],
     "1-6 samples per axis; data symbolic; numpy.fft and ducc0 replaced by the sums they document (iterative iu2nu/inu2u inverses not covered)")
prop("P11", "Fourier-space map operations act on each mode as stated",
     "The Fourier coordinates of a map (axes, maps, moduli, pixel sizes, the Fourier wcs, pixel to multipole and back) are the signed multiples of two pi over the map's extent, in transform order. Swapping quadrants and swapping them back is the identity; fractional shifts move map and geometry together. Fourier resampling covers the same sky with new pixels and keeps the amplitude and the sky position of every mode both grids have, in each normalization. Gradient, divergence and Laplacian are the derivatives of the Fourier series. Smoothing and pixel windows multiply each mode with the stated factor, and unapplying undoes applying. Binned spectra and profiles are the means of the pixels in each bin. Power spectra are the real part of the product with the conjugate for every pair. Rotating polarization by an angle and back is the identity. Inputs are not modified.",
     ["inputs", "configurations"], "every map content and every listed shape, geometry and parameter",
     "tests cover a couple of these operations on one fixed map each; odd sizes, negative pixel sizes and non-default alignment are unsampled",
     ["pixell/enmap.py", "pixell/fft.py", "pixell/utils.py", "pixell/wcsutils.py"], [("laxes/lmap/modlmap/lwcs/pix2l/l2pix", "pixell/enmap.py"), ("resample/resample_fft", "pixell/enmap.py"), ("fractional_shift", "pixell/enmap.py"), ("grad/div/laplace", "pixell/enmap.py"), ("smooth_gauss/apply_window", "pixell/enmap.py"), ("lbin/rbin", "pixell/enmap.py"), ("calc_ps2d", "pixell/enmap.py"), ("rotate_pol", "pixell/enmap.py")],
     "maps of 1-5 pixels per axis with symbolic data on listed plain and CAR geometries")
prop("P12", "Spherical harmonic transforms evaluate at each pixel's own position",
     "For any harmonic coefficients, alm2map gives every pixel the value of the harmonic expansion at that pixel's own declination and right ascension, for scalar, vector and polarization fields and for the two derivatives, whatever the method (2d, cyl, general or automatic), row layout, pixel direction, starting right ascension, cut of the sky and coefficient layout; pixels not on the sky are left alone. alm2map_adjoint is its transpose, map2alm the weighted transpose refined by the requested number of steps, map2alm_adjoint the transpose of that. On whole-sky grids with known quadrature map2alm recovers all coefficients of a band-limited map; quadrature weights follow the order of the map's rows. The same holds for lists of positions and healpix maps, also when restricted in colatitude. Rotating coefficients rotates the field; harm2profile is the Legendre sum. Inputs are not modified, and results go to the given array unless a copy is asked for.",
     ["inputs", "configurations"], "every value of the coefficients or pixels, on each listed geometry, layout, spin and method",
     "tests transform random maps on a few standard geometries; flipped, cut, offset and odd row layouts, adjoints, derivatives and unusual coefficient layouts are unsampled",
     ["pixell/curvedsky.py", "pixell/enmap.py"], [("alm2map/map2alm and adjoints", "pixell/curvedsky.py"), ("analyse_geometry/get_ducc_geo/map2buffer", "pixell/curvedsky.py"), ("get_ring_info*", "pixell/curvedsky.py"), ("calc_locinfo", "pixell/curvedsky.py"), ("rotate_alm", "pixell/curvedsky.py"), ("quad_weights", "pixell/curvedsky.py")],
     "coefficients up to lmax 2-3 and maps of up to 6x6 pixels with symbolic values; ducc0's matrices are read off the real library at the ring positions the code passes, the harmonics in the oracle are written down from their definition")
prop("P13", "Operations on harmonic coefficients act on the right (l,m), in every layout",
     "For any harmonic coefficients in any alm_info layout (triangular, rectangular or given by the user, any lmax and mmax, single or double precision): lm2ind gives every (l,m) its own place and the number of coefficients determines lmax; alm2cl is the sum over all m, negative ones included, of a b* over 2l+1, for any broadcastable leading axes; almxfl and lmul multiply each a_lm by f_l, or by the matrix for that l, taking f as zero beyond its end and ignoring what lies beyond lmax, without reading or writing outside the arrays; results go to the array given as out, which may be the input itself, and an out that cannot hold them is refused; transfer_alm copies exactly the coefficients both layouts have; transpose_alm reorders by l; rand_alm colours independent normal numbers with the square root of the spectrum, m=0 real, and gives the same coefficients up to l whatever lmax is; harm2profile and profile2harm are Legendre sums and inverses of each other, prof2alm the coefficients of that profile around a direction. Other inputs are left unchanged.",
     ["inputs", "configurations"], "every value of the coefficients and of the functions of l, on each listed layout, size and precision",
     "tests use the default triangular layout and functions of l of exactly the right length; other layouts, lengths, precisions and in-place use are unsampled",
     ["pixell/curvedsky.py", "cython/cmisc.pyx", "cython/cmisc_core.c"], [("alm_info", "pixell/curvedsky.py"), ("rand_alm/almxfl/profile2harm/prof2alm", "pixell/curvedsky.py"), ("alm2cl/lmul/transpose_alm/transfer_alm", "cython/cmisc.pyx"), ("alm2cl_*/lmul_*/lmatmul_*/transpose_alm_*/transfer_alm_*", "cython/cmisc_core.c")],
     "coefficients symbolic, lmax up to 3 (quick) or 5; the Cython layer is executed from its source and the C layer from the LLVM IR of the current C file, with every memory access checked")
prop("P14", "Range, box and slice algebra selects exactly the right elements",
     "For any ranges, masks, boxes and strided boxes: mask2range covers exactly the true samples with separate, ordered ranges; range_sub, range_union, range_normalize and range_cut contain exactly the points of the set operation, with correct mappings back to the inputs, also when nothing is left; cumsplit finds where each capacity runs out; equal_split and the greedy splits put every element in exactly one group and keep the groups balanced to within one element; bounding_box, box2corners, box2contour, box_area, box_overlap, box_slice, pad_box, widen_box and unwrap_range agree with their geometric definition in any number of dimensions, for ascending and descending axes; strided boxes (sbox_size, fix, flip, mul, div, intersect, wrap, sbox2slice) stand for exactly the pixels the corresponding array slices pick, for either sign of the steps and across the wrapping point, each pixel once; expand_slice, split_slice and slice_downgrade agree with array indexing. With any number of MPI tasks, allgatherv, allgather, allreduce, reduce and send/recv give every task the stated arrays in order of rank, whatever the tasks' lengths, and redistribute gives every task its own boxes of the global array whatever boxes each task had before, also with several boxes per task and with wrapping.",
     ["inputs", "configurations"], "every integer end and start (real corners) of the ranges and boxes within the bounds, every array content; all the listed numbers of ranges, steps, wraps, tasks and boxes",
     "there are almost no tests of these functions, and the boundary cases (touching, nested, empty, reversed, wrapping) are combinatorial",
     ["pixell/utils.py"], [("mask2range/range_*/cumsplit/*_split", "pixell/utils.py"), ("bounding_box/box_*/pad_box/widen_box", "pixell/utils.py"), ("sbox_*", "pixell/utils.py"), ("expand_slice/split_slice/slice_downgrade", "pixell/utils.py"), ("allgatherv/redistribute/reduce/send/recv", "pixell/utils.py")],
     "ends are symbolic integers, membership is decided for a symbolic point; MPI is a simulated world of up to 3 tasks whose collectives check message lengths")
prop("P15", "Searching, set, grouping, quantile and index helpers match their definition",
     "For any arrays within the bounds: find and find_any return indices where the values are, and default or error for missing ones; nearest_ind returns an index no other entry beats; contains, common_vals, common_inds and union equal the set operations, also with empty arrays; inverse_order, complement_inds, transpose_inds and unmask undo the corresponding reordering, selection or masking; find_equal_groups (with and without tolerance), find_equal_groups_fast, label_unique and label_multi put exactly the equal entries together, each entry once; sum_by_id, cumsum, uncat and dedup keep every value once; search, weighted_quantile and medmean follow their definition for any weights; nearest_product, primes, gcd, lcm and ndigit are arithmetically right; nditer, count_variable_basis, list_combination_iter, without_inds, only_inds and listsplit visit every combination exactly once in order.",
     ["inputs", "configurations"], "every value of the arrays' entries within the bounds, including all coincidences and orders; all the listed array sizes and options",
     "correctness depends on ties, duplicates, missing and empty inputs whose combinations tests do not cover",
     ["pixell/utils.py"], [("find/nearest_ind/contains/common_*", "pixell/utils.py"), ("find_equal_groups*/label_*", "pixell/utils.py"), ("weighted_quantile/medmean", "pixell/utils.py"), ("nditer/uncat/dedup", "pixell/utils.py")],
     "entries are symbolic; sorting and searching are executed with symbolic comparisons, so all orders and coincidences are decided")
prop("P16", "Reshaping, broadcasting, binning, block and solve helpers keep every element",
     "For any shapes and axes within the bounds and any contents: partial_flatten moves the chosen axes as stated and partial_expand and flatview undo it; addaxes, delaxes, moveaxes, atleast_3d, atleast_Nd, to_Nd, preflat and postflat keep all elements in order with the stated shape, for negative axes too; broadcast_shape and broadcast_arrays agree with numpy broadcasting with the exempted dimensions left alone; bin_multi and bincount add the weights of exactly the samples in each bin; grid, resize_array, outer_stack, repeat_filler, rescale and deslope follow their definition; linbin and expbin give ordered bins covering all points exactly once (and terminate), bins2edges, edges2bins, bin_data and bin_expand are consistent with them; block_reduce, block_expand and block_mean_filter average or sum each block exactly, including incomplete last blocks; interp is the piecewise linear interpolation of each row; solve returns x with A x = b along any axes, ignoring masked-out parts, without changing its inputs; build_conditional gives the conditional distribution of a Gaussian.",
     ["inputs", "configurations"], "every array content (real numbers) for all the listed shapes, axes, block sizes, bin counts and options",
     "index bookkeeping over arbitrary shapes and axes; tests only exercise a couple of shapes, if any",
     ["pixell/utils.py"], [("partial_flatten/partial_expand/addaxes/moveaxes", "pixell/utils.py"), ("broadcast_arrays/bin_multi/bincount", "pixell/utils.py"), ("linbin/expbin/bin_data/block_*", "pixell/utils.py"), ("solve/build_conditional/interp", "pixell/utils.py")],
     "array contents are symbolic reals; shapes and axes are enumerated within the bounds; solve is checked by multiplying back")
prop("P17", "Pixel areas, pixel shapes, extents and distance maps describe the actual pixels",
     "For any cylindrical geometry (CAR, CEA; any resolution, orientation, offset): pixsizemap is each pixel's exact solid angle, width in RA times the difference of sin(dec) between its edges, also when the outermost rows reach past a pole; area is their sum and pixsize their mean; pixshapemap gives heights and widths whose product is the area (signed if asked); extent gives the full height and the width for which the product is the area; pixshape is extent per pixel; pixshapebounds are the smallest and largest pixel. Flat geometries give the products of their steps. modrmap is the distance (great circle, or flat) of every pixel from the reference point, by default the map's center.",
     ["inputs", "configurations"], "every symbolic pixel size, reference pixel, reference longitude and orientation within the bounds, in each listed projection and shape",
     "areas weight every power spectrum and noise level; a test only looks at a few geometries and never at pixels crossing a pole or running the other way",
     ["pixell/enmap.py"], [("pixsizemap/pixsizes/area", "pixell/enmap.py"), ("pixshape/pixshapemap/pixshapebounds/pixshapes_cyl", "pixell/enmap.py"), ("extent/extent_cyl/extent_intermediate/extent_subgrid", "pixell/enmap.py"), ("modrmap", "pixell/enmap.py")],
     "trigonometric functions are uninterpreted with their identities, so areas are compared as formulas in the symbolic wcs parameters")
prop("P18", "Angle, rotation, time, matching and polygon helpers follow their geometry",
     "For any angles, positions and periods within the bounds: rewind and unwind change values only by whole periods and put them within half a period of the reference or make them free of jumps; between_angles and pole_wrap treat angles modulo the period; ang2rect and rect2ang are inverse and angdist and vec_angdist give the angle between directions, in both latitude and zenith conventions; rotmatrix, euler_mat and euler_rot are the stated rotations (right sign, axis and order); recenter and decenter, and the telescope/horizontal and telescope/boresight transforms, are the stated rotations and invert each other without changing their inputs; to_sexa/from_sexa give whole degrees and minutes in range that add up to the angle; ctime, mjd, jd and djd convert with the right epochs and invert each other; crossmatch returns exactly the pairs closer than the radius, each object at most once in the closest and first modes with closer pairs preferred; point_in_polygon is true exactly inside; triangle_wave, build_legendre and build_cossin are their definitions.",
     ["inputs"], "every angle, position, date and polygon vertex within the bounds",
     "wrap-arounds, poles, signs and coincidences occur at particular inputs that sampled tests miss",
     ["pixell/utils.py"], [("rewind/unwind/unwrap_range", "pixell/utils.py"), ("ang2rect/rect2ang/angdist/vec_angdist", "pixell/utils.py"), ("rotmatrix/euler_mat/euler_rot", "pixell/utils.py"), ("recenter/decenter", "pixell/coordinates.py"), ("to_sexa/from_sexa/ctime2mjd/mjd2jd", "pixell/utils.py"), ("crossmatch", "pixell/utils.py"), ("point_in_polygon", "pixell/utils.py")],
     "sines and cosines are uninterpreted with their identities; comparisons fork symbolically so every ordering and wrap is decided")
prop("P19", "Interpolation and projection give the interpolated value at the right place",
     "interpol, interpolator, at and project return, for every leading entry separately, the nearest, linear or spline interpolated value at the requested coordinates: samples are reproduced exactly, a point between samples is the (bi)linear combination of its neighbours, the border conditions nearest, wrap, mirror and constant (with any cval) continue the array as documented, an out array is filled, an interpolator can be reused, and inputs are unchanged. at converts sky positions with the map's own wcs; every pixel of a projected map is the input map at that place on the sky whatever the block size, output shape, pixel scale, direction and offset; projecting between compatible pixelizations copies pixels; argmax and argmin return the position of an extremal pixel.",
     ["inputs", "configurations"], "every array content and every coordinate within the bounds for nearest and linear interpolation; listed coordinates for splines; every symbolic wcs and listed relation between geometries",
     "errors appear only at borders, block boundaries and particular relations of the two geometries",
     ["pixell/utils.py", "pixell/enmap.py"], [("interpol/interpolator/SplineInterpolator/_ip_prepare", "pixell/utils.py"), ("at/ndmap.at", "pixell/enmap.py"), ("project", "pixell/enmap.py"), ("argmax/argmin", "pixell/enmap.py")],
     "coordinates, wcs parameters and contents are symbolic; scipy.ndimage is replaced by its definition (nearest, linear) or by its exact linear map (splines)")
prop("P20", "Tiled maps and multi-geometry maps behave like the maps they are made of",
     "A tile geometry partitions its map into tiles whose shapes, wcs, tile numbers and grid indices agree, and a copy with other dimensions or active tiles leaves the original alone. A TileMap's tiles are views in the order of its active tiles, each with its own tile's wcs; reading, assigning, to_enmap and from_tiles put every pixel at its own place; addition and subtraction combine tiles by tile number (a tile active in only one counts as zero), multiplication and scalars likewise, in-place operations only change the left operand; with_tiles changes which tiles are active (also strictly) without losing data; insert, map_mul, samegeo and compatible follow their definition; redistribute, reduce and get_active_distributed move each tile, unchanged and exactly once (summed for reduce), to the tasks that ask for it, whatever order and set of tiles each task has. A multimap's maps are views with their own geometry of one array; arithmetic, statistics, zeros/full, posmap/pixmap/lmap/pixsizemap, map_mul, rotate_pol, fft/ifft and their adjoints act on each map exactly as the enmap function would, and writing then reading (whole or selected) gives the same multimap back.",
     ["inputs", "configurations", "schedules"], "every map content, every set and order of active tiles, every number of tasks and ownership within the bounds",
     "errors show only for ragged last tiles, differing active sets, differing orders or numbers of tiles on different tasks, and extra dimensions",
     ["pixell/tilemap.py", "pixell/multimap.py"], [("TileMap/TileGeometry/TileView/geometry/make_binop/map_mul/insert", "pixell/tilemap.py"), ("redistribute/reduce/get_active_distributed", "pixell/tilemap.py"), ("Multimap/MapView/zeros/full/samegeos/multimap", "pixell/multimap.py"), ("map_mul/rotate_pol/fft/ifft/write_map/read_map", "pixell/multimap.py")],
     "contents are symbolic and the active sets are solver choices; MPI is a simulated world in which every task's part of the real code runs and exchanges symbolic buffers")
prop("P21", "Power spectra, covariance matrices and simulations follow their definition",
     "compressed_order, sym_compress and sym_expand put each unique element of symmetric matrices in the documented order (diag, stable, row; truncated too) along any axes and undo each other, also with combined off-diagonals; scale_spectrum and scale_camb_scalar_phi apply the documented factor per multipole in either direction; spectrum files give back what was written and rows and columns (plain, CAMB scalar, CAMB lens potential) go to the multipole and component they belong to; spec2corr is the Legendre sum; eigpow and multi_pow raise every matrix, along any axes, to the power in eigenspace with negative eigenvalues dropped for non-integer powers and vanishing ones for negative powers; map_mul, cov2corr/corr2cov, nodiag, eigsort, calc_beam_area, distpow and dicedist are their definitions; spec2flat is the spectrum at each Fourier mode's multipole in pixel units; smooth_spectrum is the weighted mean under the kernel; massage_spectrum cuts or pads to the map's components; rand_map and rand_gauss_iso_harm are normal numbers per mode times the square root (matrix) of the mode's power, transformed to the sky. Inputs are unchanged.",
     ["inputs", "configurations"], "every spectrum, matrix element, eigenvalue and random number within the bounds, every listed order, axis and geometry",
     "spectra are mixed up only for particular numbers of components, truncations, axes, signs of eigenvalues or starting multipoles",
     ["pixell/powspec.py", "pixell/enmap.py", "pixell/utils.py"], [("sym_compress/sym_expand/compressed_order/scale_spectrum/read_spectrum/write_spectrum/spec2corr", "pixell/powspec.py"), ("spec2flat/smooth_spectrum/massage_spectrum/rand_map/rand_gauss_iso_harm/map_mul/multi_pow", "pixell/enmap.py"), ("eigpow/eigsort/cov2corr/corr2cov/calc_beam_area/distpow", "pixell/utils.py")],
     "contents and eigenvalues are symbolic; eigh is replaced by the decomposition the matrix was built from")
prop("P22", "Lensing and Doppler boosts move every pixel to where its light came from",
     "offset_by_grad moves a position along the great circle given by the gradient (or, in the fast approximation, by the gradient in declination and by the gradient over cos(dec) in right ascension, folded back over the poles) and gives the angle between the directions at both ends. lens_map_curved shows in every pixel the unlensed sky at the displaced position, polarization rotated by that angle, in any number of declination bands, and returns the unlensed map, potential, convergence and deflection it was asked for. phi_to_kappa and kappa_to_phi multiply by l(l+1)/2 and its inverse; rand_alm draws potential and sky, also from separate seeds, with the given spectra and real m=0 coefficients. calc_boost_1d is the relativistic aberration and Doppler factor and the opposite speed undoes it; an aberrated map (aberrate_map, Aberrator, boost_map, deboost_map; periodic or continued over the poles) shows in every pixel the Fourier-interpolated map in the direction the light came from, with polarization parallel transported; modulation multiplies by the Doppler factor of each direction, with the monopole's part and the conversions between temperature and linearized units when asked for. Inputs are unchanged by lensing and aberration.",
     ["inputs", "configurations"], "every map content and set of coefficients, every right ascension, every displacement within the bounds in the fast method",
     "errors show only near the poles, for polarization, for several bands, or for particular boundary conditions and unit conversions",
     ["pixell/lensing.py", "pixell/aberration.py"], [("offset_by_grad/pole_wrap/lens_map_curved/phi_to_kappa/kappa_to_phi/rand_alm/lens_map_flat", "pixell/lensing.py"), ("Aberrator/Modulator/boost_map/deboost_map/calc_boost_1d/calc_boost_field/interpol_map/apply_modulation", "pixell/aberration.py")],
     "coefficients and pixels are symbolic; ducc0's transforms are linear operators read off from ducc0 at concrete positions")
prop("P23", "Simulated objects and radial profiles count every pixel of every object once",
     "sim_objects and sim_srcs give every pixel the sum over objects of the object's amplitude times its own profile at the great-circle distance between pixel and object (linear between the profile's radii, constant inside the first, zero beyond the last), on top of the given map, which is updated in place; or, when asked to, the largest or smallest of these values. An object's contribution is left out only where it is below the cutoff vmin or beyond rmax, however many objects share a profile and wherever the object lies relative to the map's edges or the seam of a full-sky map; right ascensions differing by full turns are the same. The transposed operation adds the map times the profile to each amplitude and is the adjoint of painting. radial_sum adds every pixel to exactly the bin of each object its distance falls in, and radial_bin is the (weighted) mean of the bin's pixels, for any map data type, number of components and bin spacing. The compiled and pure Python simulators agree.",
     ["inputs", "configurations"], "every amplitude, profile value and map content; objects inside, at the edge of and outside the map",
     "errors show only for objects beyond an edge or across the seam, for uneven profile radii, several components or profiles, particular cutoffs, or many objects sharing a profile",
     ["pixell/pointsrcs.py", "cython/srcsim.pyx", "cython/srcsim_core.c"], [("sim_objects/radial_sum/radial_bin/sim_srcs/sim_srcs_python/eval_srcs_loop/build_src_cells", "pixell/pointsrcs.py"), ("sim_objects/radial_sum", "cython/srcsim.pyx"), ("sim_objects/radial_sum/measure_amax/measure_rmax/assign_cells/process_cell/paint_object/evaluate_profile", "cython/srcsim_core.c")],
     "the compiled C code is executed symbolically from LLVM IR; distances are computed from concrete positions and compared exactly away from bin edges")
prop("P24", "Resampling keeps the signal",
     "Fourier resampling of periodic data changes the length of exactly the axes asked for, keeps every Fourier mode below both Nyquist frequencies with its amplitude and phase (so constants and band-limited signals are reproduced at the new sample positions) and adds none, for even and odd lengths, up and down, real and complex data and any number of rows; real data stay real. Bin resampling replaces every whole block of samples by its mean, or repeats every sample, each axis by its own factor. make_equispaced returns the samples interpolated in time at evenly spaced times from the first to the last sample, whether times increase or decrease, and marks as missing exactly the times nearest to a missing sample. Inputs are not modified.",
     ["inputs", "configurations"], "every sample value; listed lengths, factors, axes and times",
     "errors show only for odd lengths, particular combinations of old and new length, other axes than the last, complex data, more rows than one group, or decreasing times",
     ["pixell/resample.py"], [("resample/resample_bin/downsample_bin/upsample_bin/resample_fft/resample_fft_simple/make_equispaced", "pixell/resample.py")],
     "the Fourier transforms enter as the discrete sums numpy.fft and ducc0 document")
prop("P25", "Wavelet and unified harmonic transforms decompose a map and put it back together",
     "A wavelet transform's maps are the map filtered by each level's filter, normalised as documented, evaluated at the pixel centres of the level's own geometry; transforming back recovers the map for bases whose squared filters add up to one (flat sky: any map; curved sky: maps band-limited by the basis, on grids with exact quadrature), for any leading dimensions, level subset, fill value and given output. Cosine needlets are one at their own peak, zero beyond the neighbouring ones, and their squares add up to one between the first and last peak. The Haar transform is undone exactly for every map shape and reference point, and each level holds what the next coarser one leaves over. The unified transform UHT picks flat or curved sky by the map's distortion (curved when it reaches the poles), goes there and back, has the adjoints it names (with spin), multiplies by scalar, per-component or matrix profiles, and its spectra, sums and weights agree between modes.",
     ["inputs", "configurations"], "every value of the free pixels or coefficients; listed shapes, bases and levels",
     "errors show only when levels have reduced resolution, several levels are combined, shapes are odd, levels are skipped, spin is nonzero, or maps reach beyond a pole",
     ["pixell/wavelets.py", "pixell/uharm.py", "pixell/enmap.py"], [("WaveletTransform.map2wave/wave2map/get_ls/_prepare_filter/_prepare_filters, ButterTrim, Butterworth, CosineNeedlet, HaarTransform/trim_kernel/make_wavelet_geometry_flat/kernel/_finalize/__call__", "pixell/wavelets.py"), ("map2harm/harm2map/harm2map_adjoint/map2harm_adjoint/quad_weights/lprof2hprof/hmul/harm2powspec/sum_hprof/mean_hprof/profile2harm_flat_2d/harm2profile_flat_2d/beam2res/beam2rmax/estimate_distortion", "pixell/uharm.py"), ("resample_fft", "pixell/enmap.py")],
     "the Fourier and spherical harmonic libraries enter as the linear maps they document; filters are evaluated at concrete multipoles")
prop("P26", "Matched filters weight a map so that their ratio is a source's flux",
     "For each noise model of the analysis module (constant covariance; white noise with varying depth; constant correlation with smooth depth, low correlation or the dual form; per-component covariance and correlation classes; the wavelet model), the filter returns rho, the beam-convolved inverse-noise-weighted map, and kappa, the inverse-noise-weighted norm of the beam, in units in which rho/kappa is the flux of a point source and kappa its inverse variance, for any map content, leading dimensions, beam, noise spectrum, depth, and with or without precomputed helpers; the input map is left alone. solve_mapsys solves each pixel's system for one or several components with the matching uncertainty, sanitize_kappa only raises too small diagonal weights, and snr_split puts every object once into groups of similar strength, strongest first.",
     ["inputs", "configurations"], "every value of the map; listed shapes, beams, spectra, depths and component counts",
     "errors show only with uneven depth, several correlated components, non-white spectra, or odd map sizes, and then as a bias of the recovered flux",
     ["pixell/analysis.py", "pixell/uharm.py", "pixell/wavelets.py"], [("matched_filter_constcov/matched_filter_white/matched_filter_constcorr_lowcorr/matched_filter_constcorr_smoothivar/matched_filter_constcorr_dual/NmatConstcov/NmatConstcorr/NmatWavelet/solve_mapsys/sanitize_kappa/snr_split", "pixell/analysis.py"), ("hprof_rpow/sum_hprof/hmul/harm2map/map2harm", "pixell/uharm.py")],
     "the Fourier library enters as the discrete sum it documents; beams, spectra and depths are listed constants, and the comparison allows for the non-uniformity of the pixel area")

NA = []
