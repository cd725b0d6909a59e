#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json, os
CORE = "modules/core/src/c_src/"; PROC = "modules/process/src/c_src/"; ALG = "modules/algorithm/src/"; INC = "modules/core/include/c_include/"
P = []
def prop(id, title, statement, over, text, why, files, mech, obs, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=obs, hook_needed=None)))
H = CORE + "hypermat.c"; S = CORE + "simplemat.c"; IM = PROC + "imageprocess.c"

prop("C01", "A created hyperspectral cube has exactly the requested geometry and contents",
 "Creating a hyperspectral cube with positive dimensions and a supported element type yields a cube with exactly those dimensions, type and interleave, whose data and wavelengths are private byte-exact copies of what the caller supplied, or all zero where nothing was supplied, each starting on a 64-byte boundary. Non-positive dimensions and unsupported element types are refused. Nothing depends on where the allocator placed the block or on what that memory held before, creating or deleting one cube never changes another, and the printed description of a cube states its dimensions, element type, interleave and every wavelength.",
 ["inputs", "histories", "configurations"], "every dimension triple, element type, interleave, supplied-data combination, allocator placement modulo 64 and prior memory content, and any sequence of creations and deletions",
 "The tests create a 10x10x10 cube and delete it; they never look at the wavelengths, other types, odd dimensions, alignment or memory that is not already zero.",
 [H, INC + "type.h"], [("single block with aligned data and wavelength areas", H + " create_hyper_mat_with_data"), ("element sizes", INC + "type.h get_elemsize")], ["create_hyper_mat", "create_hyper_mat_with_data", "delete_hyper_mat", "hyper_mat_showinfo"],
 [("data", "pixel values in interleave order", "hyper_mat->data"), ("wavelength", "one float per band", "hyper_mat->wavelength")])
prop("C02", "Interleave conversion preserves the logical cube",
 "Converting a cube between the bsq, bil and bip interleaves, into a new cube or in place, in any sequence, leaves the value at every (line, sample, band) coordinate bit-identical and keeps dimensions, element type and wavelengths, while the interleave becomes the requested one. A conversion into a new cube never changes its source; asking for the interleave the cube already has gives an equal copy; a source of any other interleave than the named one is refused.",
 ["inputs", "histories"], "every element type, shape and bit pattern, and every finite sequence of conversions",
 "No stable test converts anything; the value depends on two index formulas per conversion that agree by accident on cubic shapes and one-byte types.",
 [IM, H], [("six pairwise index permutations", IM), ("in-place conversion through a temporary and a copy back", IM + " convert2bsq/convert2bil/convert2bip")], ["bil2bsq", "bil2bip", "bsq2bil", "bsq2bip", "bip2bsq", "bip2bil", "convert2bsq", "convert2bil", "convert2bip"])
prop("C03", "Region extraction returns exactly the requested sub-cube",
 "Extracting the half-open box of lines, samples and bands from a cube yields a new cube of exactly that size whose value at every coordinate equals the source value at the shifted coordinate, with the source's element type and interleave and the wavelengths of exactly the selected bands; the source is unchanged. Empty or inverted boxes and boxes that reach outside the source are refused.",
 ["inputs"], "every interleave, element type, shape and box, including single-line, single-band and whole-cube boxes",
 "No stable test extracts a region.", [IM], [("per-interleave source and destination index formulas", IM + " hyper_mat_get_range")], ["hyper_mat_get_range"])
prop("C04", "Copies are complete, deep and independent",
 "A copy of a cube or of an image equals its source in every dimension, type, layout, wavelength and element and shares no storage with it: later changes to or deletion of either never affect the other. Copying into an existing cube of the same shape and type makes it equal to the source, copying only the wavelengths changes nothing else, mismatched shapes or types (mismatched band counts for wavelengths) are refused, and copying nothing gives nothing.",
 ["inputs", "histories"], "every shape, type, channel count and every interleaving of copies, modifications and deletions",
 "CORE.SMCOPY copies one small image; cube copies are not tested at all.", [H, S], [("element-wise block copy", H + " hyper_mat_copy, hyper_mat_copy_to, hyper_mat_copy_wavelength"), ("image copy", S + " simple_mat_copy")], ["hyper_mat_copy", "hyper_mat_copy_to", "hyper_mat_copy_wavelength", "simple_mat_copy", "hyper_mat_empty"])
prop("C05", "Saving and loading a cube is lossless",
 "Saving a cube writes exactly its elements to the data file and, next to it under the same name plus '.hdr', an ENVI text header giving its dimensions, data type, interleave and every wavelength to six decimals; loading that pair gives a cube equal to the saved one (wavelengths to within six decimals), for every element type and layout and any number of bands. Loading a raw file with explicitly given sizes gives the file's elements with all wavelengths zero, a data file that ends early (as after a crash while it was being written) gives its elements followed by zeros, never leftover memory, saving over an older and larger file leaves no trace of it, and a file that cannot be opened gives no cube rather than a wrong one, and a save whose file cannot be created is refused.",
 ["inputs", "histories", "crash_points"], "every cube (types, interleaves, band counts up to several hundred, element bit patterns including 0x0A/0x1A/0xFF bytes), every sequence of save and load over the same paths, and every length at which a data file may have been cut off",
 "CORE.WRITEHDR only checks that writing returns; the load tests need files that are not in the repository.", [H], [("binary dump plus text header", H + " hmsave, writehdr"), ("header parse plus binary read", H + " hmread_with_hdr, hmread_with_size, readhdr")], ["hmsave", "writehdr", "hmread_with_hdr", "hmread_with_size"])
prop("C06", "ENVI headers are understood by field name, whatever their formatting",
 "A header's samples, lines, bands, data type, interleave and wavelength fields are recognised by their exact names, in any order, with any amount of blank space around names, the equals sign and values, with wavelengths on one line or spread over several and with or without blanks, and among any number of other fields, including fields whose names merely begin or end like a known one. Each loaded wavelength equals the number written, for any number of bands; wavelengths missing from the list are zero and surplus ones are ignored. A header that ends before all five required fields is refused.",
 ["inputs"], "every permutation of fields, spacing, line breaking, unrelated fields and numeric formats",
 "The header test is excluded as flaky (it reads uninitialised variables); no header but the library's own layout is ever parsed.", [H], [("line-oriented field recognition", H + " readhdr, cmpstr"), ("wavelength list", H + " read_wavelength")], ["hmread_with_hdr"])
prop("C07", "Bands, planes, reshapes and splices move exactly the addressed elements",
 "Taking band b of a band-sequential cube into an image gives that band's plane with the cube's element type, and putting an image into band b replaces that plane and nothing else; bands outside 1..bands, size mismatches, images too small for the band taken and other interleaves are refused. Reshaping a cube to an image keeps the element sequence and refuses any size change, and splicing a part at an element offset overwrites exactly the part's length there and refuses differing types and parts that do not lie inside the cube.",
 ["inputs", "histories"], "every shape, element type, band index and offset, and sequences of put and take",
 "No stable test calls any of these.", [IM], [("plane offset arithmetic", IM + " hyper_mat_2_simple_mat, simple_mat_2_hyper_mat"), ("offset copy", IM + " hyper_mat_splicing, reshape_hypermat_2_simplemat")], ["hyper_mat_2_simple_mat", "simple_mat_2_hyper_mat", "reshape_hypermat_2_simplemat", "hyper_mat_splicing"])
prop("C08", "Every block and file is released exactly once, in every history",
 "In any sequence of library calls in which every object the caller received is deleted once, in any order, the library ends up holding no memory block and no open file, never releases a block twice or one it does not own, and never touches a released block or memory outside its blocks. An image built around caller-supplied storage takes that storage over and releases it when it is deleted, and deleting nothing is harmless. This holds wherever the allocator places blocks and however large they are.",
 ["histories", "configurations", "inputs"], "every sequence of calls and deletions, and every allocator placement (address modulo 64, relative order of header and data blocks)",
 "CORE.SMDELETE and CORE.HMDELETE delete one object at a few placements; nothing observes leaks, and bugs here depend on the address the allocator returns.", [S, H, CORE + "struct_2D.c", PROC + "filter.c", PROC + "GeometricTransformation.c", ALG + "shapematch.c"],
 [("header/data co-location decides who owns the data", S + " delete_simple_mat"), ("temporaries freed on every path", "all modules")], ["delete_simple_mat", "delete_hyper_mat", "delete_S_2D", "every call that allocates"])
prop("C09", "A created image or structuring element is exactly what was asked for",
 "Creating an image with positive rows, columns and channels and a supported type gives exactly that geometry, the matching element size, and all-zero 64-byte-aligned pixels in every channel, or, when storage is supplied, exactly that storage; anything else is refused. Reading a raw file gives rows x columns x channels elements of the file in order, zero where the file has no more, and a structuring element created without data is all ones while one with data holds exactly that data.",
 ["inputs", "configurations"], "every rows, columns, type, channel count, allocator placement and prior memory content",
 "The tests create single-channel images in fresh (already zero) memory.", [S, CORE + "struct_2D.c"], [("zero fill of the data area", S + " create_simple_mat_with_data"), ("raw read", S + " smread"), ("structuring elements", CORE + "struct_2D.c")], ["create_simple_mat", "create_simple_mat_with_data", "smread", "create_2D_struct", "create_2D_struct_with_data"])
prop("C10", "BMP files carry the image exactly",
 "Writing an 8-bit grey or three-channel image produces a valid 24-bit uncompressed BMP whose header sizes and offsets match its contents, with rows bottom-up, each padded to a multiple of four bytes, and pixels in blue-green-red order (grey replicated); reading such a file gives the three-channel image back exactly, so write then read is the identity. A file cut off before its size and bit count is refused, one cut off in its palette or pixels gives zeros for what is missing. Writing never changes the image; other element types and channel counts, and files that cannot be created, are refused.",
 ["inputs", "histories"], "every width (all four padding residues), height (odd and even) and pixel content, and repeated writes of the same image",
 "The BMP tests need image files that are not in the repository.", [S], [("row flip and channel swap", S + " smwrite_bmp, smread_bmp")], ["smwrite_bmp", "smread_bmp"])
prop("C11", "Pixel type conversions are exact, or round to nearest and saturate",
 "Converting a cube or image between element types gives a new one with the same geometry, interleave and wavelengths in which every element that the target type can represent keeps its value; fractions are rounded to the nearest integer (ties to even) and values beyond the target's range become its nearest limit. The source is unchanged, a source of any other type than the named one is refused, and parsing a decimal number from text gives its value with its sign, fraction and exponent.",
 ["inputs"], "every source value, including fractions, halves, negatives, range limits and values just beyond them",
 "No stable test converts pixel types.", [PROC + "datatypechange.c", INC + "type.h"], [("saturating casts", PROC + "datatypechange.c"), ("rounding", INC + "type.h HYPERCV_ROUND, saturate_cast_float2uchar")], ["hyper_mat_uchar2short", "hyper_mat_uchar2int", "hyper_mat_uchar2float", "hyper_mat_uchar2ushort", "hyper_mat_float2char", "hyper_mat_float2uchar", "hyper_mat_float2short", "hyper_mat_float2ushort", "hyper_mat_float2int", "hyper_mat_ushort2float", "simple_mat_float2uchar", "hypercv_atof"])
prop("C12", "Thresholding classifies every pixel by its own comparison, Otsu optimally",
 "Each fixed-threshold mode maps every pixel by the documented rule, comparing strictly greater than the threshold: binary (maximum or 0), inverse binary (0 or maximum), truncate (threshold or pixel), to-zero (pixel or 0) and inverse to-zero (0 or pixel), through the general entry point and the specific one alike. The Otsu threshold maximises the between-class variance of the image's grey histogram, and Otsu binarisation gives 0 up to that threshold and 255 above it. Sources are unchanged, and mismatched geometry or unsupported types are refused.",
 ["inputs"], "every image, threshold, maximum and mode, including pixels equal to the threshold, constant images and images of two grey levels",
 "No stable test thresholds an image.", [PROC + "threshold.c"], [("per-mode comparison", PROC + "threshold.c"), ("histogram scan", PROC + "threshold.c otsuThreshold")], ["hypercv_threshold", "hypercv_threshold_binary", "hypercv_threshold_binary_inv", "hypercv_threshold_trunc", "hypercv_threshold_tozero", "hypercv_threshold_tozero_inv", "hypercv_threshold_otsu", "otsuThreshold"])
prop("C13", "Border extrapolation follows its mode at any distance",
 "For every length and every position at any distance outside an image axis, border extrapolation yields a valid index following the mode: replicate clamps, reflect mirrors with the edge repeated, reflect-101 mirrors without repeating it, wrap is periodic, and the constant mode, which has no source pixel, yields a fixed valid index (1, or 0 on an axis of length one); positions inside are unchanged and unknown modes are refused. An image extended by a border contains the original at the requested offset and, around it, the pixels the mode prescribes (the given value for a constant border), in every channel.",
 ["inputs"], "every mode, axis length from 1 up, distance, border widths (including larger than the image) and channel count",
 "No stable test covers borders; the tests that exist need image files.", [INC + "type.h", PROC + "filter.c"], [("index folding", INC + "type.h hypercv_border_Interpolate"), ("border copy", PROC + "filter.c hypercv_copy_make_border")], ["hypercv_border_Interpolate", "hypercv_copy_make_border"])
prop("C14", "Flips and transposes are exact permutations of the pixels",
 "Horizontal, vertical and combined flips, and image and cube transposition, move every element (all bytes, all channels) to the mirrored or transposed position and change nothing else; flipping or transposing twice is the identity and the combined flip equals the two single flips in either order. Mismatched geometry or types are refused and the source is unchanged.",
 ["inputs", "histories"], "every shape (odd, even, single row or column), element type, channel count and composition of flips",
 "No stable test flips or transposes an image.", [PROC + "GeometricTransformation.c", IM, PROC + "mathprocess.c"], [("index mirroring", PROC + "GeometricTransformation.c"), ("transposition", IM + " simple_mat_transport")], ["simple_mat_flip", "simple_mat_flip_horizontal", "simple_mat_flip_vertical", "simple_mat_transport", "hyper_mat_transport"])
prop("C15", "Linear filters compute the correlation with their kernel under the given border",
 "Filtering an image with any kernel gives at every pixel the sum over the kernel of coefficient times neighbour, with the kernel anchored at its centre, neighbours outside the image taken by the border mode, and the result rounded to nearest and saturated where the output is 8-bit; the previous content of the output does not matter. Gaussian blur uses a normalised symmetric kernel (so constant images are unchanged) separably, and the Laplacian and Sobel operators use their documented kernels. Sources and kernels are unchanged, and outputs of another size and unknown border modes are refused.",
 ["inputs"], "every image, kernel size and content, channel count, border mode and prior content of the output",
 "No stable test filters an image.", [PROC + "filter.c", PROC + "gradient.c"], [("neighbourhood accumulation", PROC + "filter.c hypercv_filter2D"), ("separable Gaussian", PROC + "filter.c gaussian_kernel, hypercv_gaussian_blur"), ("derivative kernels", PROC + "gradient.c")], ["hypercv_filter2D", "gaussian_kernel", "hypercv_gaussian_blur", "hypercv_gaussian_blur_with_kernel", "hypercv_laplacian", "hypercv_sobel"])
prop("C16", "Median, mean and integral images are computed over the true neighbourhood",
 "Median filtering gives at every pixel whose window lies in the image the middle value of the pixels in the square window centred there and copies the source elsewhere, mean filtering gives the average of the window's pixels that lie in the image, truncated, and the integral image gives at every pixel the sum of all pixels above and to the left, inclusive. The window is always the full square around the pixel, for every odd size, and the calls terminate on every image. Outputs of another size, even median sizes and, for the integral, other element types are refused.",
 ["inputs"], "every image, including equal values, odd window size and shape", "No stable test covers these filters.",
 [PROC + "filter.c"], [("window gathering and selection", PROC + "filter.c hypercv_medianblur, hypercv_meanblur"), ("recurrence", PROC + "filter.c hypercv_integral")], ["hypercv_medianblur", "hypercv_meanblur", "hypercv_integral"])
prop("C17", "Binary morphology follows set semantics",
 "Erosion keeps a pixel only where the structuring element, centred there, lies wholly on foreground; dilation marks a pixel where it meets any foreground; opening is erosion then dilation and closing dilation then erosion, each repeated as often as requested. Where the element does not fit into the image the pixel keeps its value. Consequently erosion never adds and dilation never removes foreground for elements containing their centre, and the source and the element are unchanged; outputs of another size are refused.",
 ["inputs", "histories"], "every binary image (square or not), structuring element of odd size and shape, and number of iterations",
 "No stable test covers morphology.", [PROC + "morphology.c"], [("neighbourhood scan", PROC + "morphology.c hypercv_corrosion, hypercv_expend"), ("composition", PROC + "morphology.c hypercv_open, hypercv_close")], ["hypercv_corrosion", "hypercv_expend", "hypercv_open", "hypercv_close"])
prop("C18", "Image statistics equal their definitions for every element type",
 "The mean, variance, grey-level histogram, entropy and contrast of an image equal their mathematical definitions over all its pixels, with signed types read as signed and every supported type handled; the histogram's counts sum to the number of pixels. The image is unchanged.",
 ["inputs"], "every image shape, element type and content (negative values, large values, constant images)",
 "PROCESS.MEAN covers the mean of small arrays only.", [S, PROC + "mathprocess.c"], [("typed accumulation", S + " simple_mat_mean, simple_mat_variance"), ("histogram", S + " simple_mat_grayscale_statistics")], ["simple_mat_mean", "simple_mat_variance", "simple_mat_grayscale_statistics", "simple_mat_entropy", "simple_mat_contrast_ratio", "mean_*"])
prop("C19", "The vector container is a sequence",
 "A vector behaves as a sequence under any history of push-back, erase at an index, pop-back, size and capacity queries and element access: pushes append, erase removes exactly that element and shifts the rest, an index past the end erases nothing, size is the number of elements, capacity is never below size, and freeing leaves an empty vector that can be used again.",
 ["histories"], "every sequence of operations and element type", "CORE.VECTOR runs one fixed sequence.", [INC + "vector.h"], [("size and capacity stored before the elements", INC + "vector.h")], ["vector_push_back", "vector_erase", "vector_pop_back", "vector_size", "vector_capacity", "vector_empty", "vector_begin", "vector_end", "vector_free", "vector_init"])
prop("C20", "Matrix routines compute the matrix algebra they name",
 "Matrix product, transpose, correlation, row swap, identity and inverse, the norm and mean of a vector, and descending sort give the mathematical result for every shape and element type, writing every element of the output regardless of what it held and nothing outside it, and leaving the inputs unchanged; the inverse times the matrix is the identity for every invertible matrix, including those that need row exchanges.",
 ["inputs"], "every shape (rectangular, single row or column), element type and prior content of the output",
 "PROCESS.INVERT and PROCESS.MEAN try one matrix and one array.", [PROC + "matrixprocess.c", PROC + "mathprocess.c"], [("triple loops per type", PROC + "matrixprocess.c"), ("Gauss-Jordan elimination", PROC + "matrixprocess.c invert_matrix_float")], ["MulMatrix_*", "TransMatrix_*", "correlation_matrix_*", "swap_rows_float", "set_identity_matrix_float", "invert_matrix_float", "matrix_norm_float", "sort_array_down_float", "mean_*"])
prop("C21", "The C++ cube class owns, copies, saves and loads its data faithfully",
 "A C++ cube object is empty or owns its elements and wavelengths. Created with given dimensions, type and format it reports exactly those, with consistent element size, data size, interleave text and emptiness, and holds the supplied data and wavelengths or zeros; a shape, type or format that is not valid is refused. Copies are equal and independent; converting the format, in place or into a new object, preserves the logical cube and wavelengths and refuses a source of another format; a range is exactly the requested box and a range outside the cube is refused. Saving writes the image and a header beside it, under the image's name with its extension replaced; reopening gives an equal cube, whatever the order and spacing of the header's items; where the image or the header cannot be created, that file is not written, the object is unchanged and the call returns. Creating or opening anew gives up what was held, and storage is released exactly once.",
 ["inputs", "histories"], "every shape, element type, interleave and life cycle", "No test touches the C++ class.", ["modules/core/src/cxx_src/hypermat.cpp", "modules/core/include/cxx_include/hypermat.hpp"], [("allocation, header parsing and writing", "modules/core/src/cxx_src/hypermat.cpp")], ["hypercv::HyMat"])
prop("C22", "Colour transforms map each pixel by the documented formula",
 "Grey to three-channel conversion replicates the grey value, binary to three-channel does so scaled to 0/255, swapping red and blue reorders channels exactly and is its own inverse, and three-channel to grey gives the documented weighted or averaged value, so that a grey picture converted to colour and back is unchanged. Sources are unchanged and wrong channel counts are refused.",
 ["inputs"], "every image and method", "No stable test converts colours.", [PROC + "colortransform.c"], [("per-pixel formulas", PROC + "colortransform.c")], ["sm_gray2rgb", "sm_binary2rgb", "sm_rgb2gray", "sm_bgr2rgb"])
prop("C23", "The Fourier transform is unitary and its inverse undoes it",
 "The forward transform of an image equals the two-dimensional discrete Fourier transform scaled by one over the square root of the number of pixels, the inverse transform of the result gives the image back, the magnitude is the root of the summed squares at every position, the spectrum picture shows the rounded magnitude of that transform with the zero frequency in the middle, and the optimal transform size is the smallest product of twos, threes (at most fourteen) and fives that is not below the request (-1 for requests that are negative or beyond the largest size on record). Integer results are rounded and limited to their range. Sources are unchanged; mismatched geometry, wrong result types and missing images are refused.",
 ["inputs"], "every image shape (non-square included), content and 8- and 16-bit type", "ALGORITHM tests for this need image files or only print.", [ALG + "dft.c", "modules/algorithm/include/algorithm/dft.h"], [("direct double sums", ALG + "dft.c"), ("size table search", ALG + "dft.c get_optimal_DFT_size")], ["hypercv_dft", "hypercv_dft_uchar", "hypercv_dft_ushort", "hypercv_idft", "hypercv_idft_uchar", "hypercv_idft_ushort", "hypercv_magnitude", "get_optimal_DFT_size"])
prop("C24", "Spectral measures and matching follow their definitions",
 "The spectral angle between two spectra is the angle between them as vectors (zero for positive multiples, never undefined for non-zero spectra), the Euclidean distance is the root of the summed squared differences, spectrum matching marks exactly the pixels whose spectral angle to the reference is within the threshold, reading a spectrum file gives its numbers in order, and the mean image averages each pixel over all bands.",
 ["inputs"], "every spectrum length and content, cube shape and threshold", "No test covers these.", [PROC + "spectralprocess.c"], [("accumulated dot products and norms", PROC + "spectralprocess.c")], ["spectral_angle_mapper", "euclidean_distance", "spectrum_SAM_match", "read_spectrum_file"])
prop("C25", "Radiometric correction applies each coefficient to its own cell",
 "Absolute radiometric correction multiplies every pixel by the gain of its band, and relative correction by the gain of its band and sample position, leaving geometry, interleave and wavelengths as they were; every other band or sample's coefficients have no effect on it. The source cube and the coefficients are unchanged.",
 ["inputs"], "every cube shape and coefficient table", "No test covers these.", [PROC + "RadiometricCalibration.c"], [("coefficient indexing", PROC + "RadiometricCalibration.c")], ["relative_radiometric_correction", "absolute_radiometric_correction"])
prop("C26", "K-means ends in a valid partition reproducible from its own centres",
 "Clustering ends on every image, from every random start; numbers of centres and thresholds that cannot be met are refused. It returns the requested number of centres, all inside the image, which are one refinement step (each centre moves to the truncated mean of the foreground points nearest to it, ties to the first; a centre with no point stays) from centres none of which is further than the movement threshold away in either coordinate; with threshold zero they are their own refinement. The image is unchanged; missing images, counts below one and result vectors of another size are refused.",
 ["inputs"], "every image (grey and three-channel), cluster count, movement threshold and random start", "No stable test clusters.", [ALG + "cluster.c"], [("assignment and update loop", ALG + "cluster.c hypercv_k_means")], ["hypercv_k_means"])
prop("C27", "Constrained energy minimisation responds with one to the target",
 "The detector's output at a pixel depends linearly on that pixel's spectrum, equals one for a pixel whose spectrum is the target, and has, over all filters with that property, the smallest mean square over the image; the output has the cube's plane geometry. The cube and the target are unchanged and the result does not depend on the prior content of memory.",
 ["inputs", "configurations"], "every cube with an invertible correlation matrix, every target and memory content", "ALGORITHM.CEM only calls it.", [ALG + "cem.c", PROC + "matrixprocess.c"], [("inverse correlation filter", ALG + "cem.c hyper_mat_cem")], ["hyper_mat_cem"])
prop("C28", "Shape moments ignore position and orientation",
 "The seven Hu moments of an image equal their definition from normalised central moments; they are unchanged by translation and by rotation by a quarter turn and (up to sign of the last) by mirroring, so the similarity of a shape with a moved or turned copy of itself is one; similarity is symmetric, one for two blank images, and equals one minus the summed differences of the invariants over the summed magnitudes of their sums. Blank images have all-zero moments; missing images are refused.",
 ["inputs"], "every shape, displacement and quarter turn", "No test covers these.", [ALG + "shapematch.c"], [("central moments", ALG + "shapematch.c calc_hu_moment"), ("log distance", ALG + "shapematch.c hypercv_match_shapes")], ["calc_hu_moment", "hypercv_match_shapes"])
prop("C29", "Drawing changes exactly the pixels of the figure",
 "Drawing points or a line onto an image gives a copy in which the pixels of the figure (the square of the given size around each point; both end points and a connected path between them for a line, never further than the thickness from the ideal line), clipped to the image, have the given colour and every other pixel is that of the source.",
 ["inputs"], "every image, colour, point position (near and beyond edges), direction (steep, shallow, vertical, horizontal, reversed) and thickness", "The drawing tests need image files.", ["modules/highgui/src/draw.c"], [("pixel loops", "modules/highgui/src/draw.c")], ["draw_POINT", "draw_line"])
prop("C30", "Normalisation and contrast stretching hit their target range",
 "Normalising an image scales it so that its chosen norm equals the given value, or, in min-max mode, maps its minimum and maximum to the smaller and larger of the given bounds and everything else linearly between, rounded and limited to 0..255 for 8-bit images; linear stretching of a cube does so per band onto 0..255, truncated, keeping 0 for pixels whose value is zero. Histogram equalisation maps equal grey levels to equal levels, monotonically, with each level going to its cumulative frequency scaled to 0..255. Sources are unchanged; an image whose norm is zero gives zeros, a constant one the smaller bound. Mismatched geometry or types are refused.",
 ["inputs"], "every image or cube, bounds and norm, including constant images and negative values", "No stable test covers these.", [ALG + "normalize.c", ALG + "HisEqualization.c"], [("range scan and scaling", ALG + "normalize.c"), ("cumulative histogram", ALG + "HisEqualization.c")], ["hypercv_normalize", "hypercv_normalize_uchar", "hypercv_normalize_float", "hyper_mat_linear_tension", "HisEqualization"])
prop("C31", "Results depend only on the arguments",
 "Every library operation changes only the objects documented as its outputs, and what it writes there depends only on its arguments: not on what fresh memory or the output previously held, not on where blocks are placed, not on earlier calls. Every access stays inside the objects involved, and every call on valid arguments terminates.",
 ["inputs", "configurations", "histories"], "every operation, argument, allocator placement, fresh-memory content and call history", "The tests run in one environment and look only at the value they ask for.", ["modules/core/src/c_src", "modules/process/src/c_src", "modules/algorithm/src", "modules/highgui/src"], [("explicit initialisation of every temporary", "all modules")], ["every public call"])
prop("C32", "Image pyramids halve and double with Gaussian weights",
 "Going one pyramid level down smooths with the 5x5 Gaussian and keeps every second row and column, going up inserts zero rows and columns and smooths with four times that kernel; constant images away from borders stay constant, and output geometry is exactly half (rounded as the destination says) or double. Sources are unchanged and other destination sizes are refused.",
 ["inputs"], "every image shape (odd, even) and content", "No stable test covers pyramids.", [PROC + "GeometricTransformation.c"], [("subsampling and zero insertion", PROC + "GeometricTransformation.c hypercv_pyramid_down, hypercv_pyramid_up")], ["hypercv_pyramid_down", "hypercv_pyramid_up"])
prop("C33", "Pixel-wise arithmetic acts on each pixel separately",
 "Adding two images gives at every pixel and channel the sum of the two pixels there, and the logarithm image gives the natural logarithm of each pixel; operands are unchanged and mismatched geometry or types are refused.",
 ["inputs"], "every image pair", "No stable test covers these.", [IM], [("pixel loops", IM)], ["simple_mat_addition_uchar", "simple_mat_addition_float", "simple_mat_log"])
prop("C34", "Eigenvectors and QR factors satisfy their defining equations",
 "The QR factorisation of an invertible matrix gives an orthonormal factor and an upper triangular factor with non-negative diagonal whose product is the matrix; the eigenvectors computed for given eigenvalues are unit vectors that the matrix maps to the eigenvalue times themselves. Inputs are unchanged.",
 ["inputs"], "every invertible matrix of any order, every matrix with known simple eigenvalues", "No stable test covers matrix factorisation.", [PROC + "matrixprocess.c"], [("Gram-Schmidt", PROC + "matrixprocess.c matrix_QR_float"), ("back substitution", PROC + "matrixprocess.c cal_eigen_vector_float")], ["matrix_QR_float", "cal_eigen_vector_float"])
prop("C35", "Rotating a cube moves whole pixels about the centre",
 "Rotating a cube by an angle gives a new cube, just large enough to hold the turned image, pixel-interleaved and with the source's wavelengths, in which every output pixel is either empty (all bands zero) or carries, in every band, the source pixel that the rotation about the image centre brings there; no access ever leaves the source, quarter turns are exact permutations of the pixels, and rotation by zero is the identity on them. The source is unchanged.",
 ["inputs"], "every cube shape, type and interleave, and every angle", "No test rotates a cube.", [PROC + "GeometricTransformation.c"], [("inverse mapping", PROC + "GeometricTransformation.c hyper_mat_rotate")], ["hyper_mat_rotate"])
prop("C36", "Principal components decorrelate the bands and lose nothing",
 "The principal components of a cube are its spectra, centred on the mean spectrum, in an orthonormal basis: all distances and inner products between centred spectra are kept, the component images are uncorrelated and come in order of decreasing energy. The cube is unchanged; other element types and interleaves, and results of another shape, are refused.",
 ["inputs"], "every pixel-interleaved float cube whose covariance has separated eigenvalues, given enough iterations", "No test covers it.", [ALG + "pca.c", PROC + "matrixprocess.c"], [("covariance, QR iteration, projection", ALG + "pca.c hyper_mat_pca")], ["hyper_mat_pca"])
prop("C37", "Edge signal energy is the mean squared Laplacian response",
 "The edge signal energy of a grey image is the mean over its pixels of the squared, response of one third of the four-neighbour Laplacian (with the filters' constant-border convention); it is zero for constant pictures, and depends on the image alone. Other types and channel counts are refused.",
 ["inputs"], "every grey image", "No test covers it.", [ALG + "EdgeSignalEnergy.c"], [("filter, then sum of squares", ALG + "EdgeSignalEnergy.c cal_edge_signal_energy")], ["cal_edge_signal_energy"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    for p in P: assert len(p["title"]) <= 80, p["id"]
