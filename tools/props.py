"""Texts of the properties; tools/gen.py writes the registered files."""
LS = "algotom/io/loadersaver.py"
CV = "algotom/io/converter.py"
CO = "algotom/prep/correction.py"
CN = "algotom/prep/conversion.py"
CA = "algotom/prep/calculation.py"
FI = "algotom/prep/filtering.py"
RM = "algotom/prep/removal.py"
PH = "algotom/prep/phase.py"
RE = "algotom/rec/reconstruction.py"
VR = "algotom/rec/vertrec.py"
PO = "algotom/post/postprocessing.py"
UT = "algotom/util/utility.py"
CR = "algotom/util/correlation.py"
SI = "algotom/util/simulation.py"
CB = "algotom/util/calibration.py"

MON = "runtime monitoring: "


def p(pid, title, statement, for_all, why, files, mech, technique,
      level_note, over=("inputs", "configurations"), **kw):
    return dict(id=pid, title=title, statement=statement, for_all=for_all,
                why=why, files=files, mech=mech, technique=MON + technique,
                level_note=level_note, over=list(over), **kw)


PROPS = [
    p("P01", "Image files give back the pixel values that were saved",
      "An array saved as an image and loaded again has the same shape and, "
      "for the float tif formats, exactly the same values; 8-bit formats hold "
      "the documented 0-255 rescaling. Multi-image saving writes every slice "
      "once, under names that sort in slice order and never collide, and "
      "loading a stack, a subset, a crop, a mean or a median of files equals "
      "the same operation on the arrays that were saved.",
      "every array shape, dtype, value range, file name, extension case, "
      "start index, axis, crop and average option",
      "Tests save one small array to one name; they never sweep extensions, "
      "index widths, crops, axes or dtypes, nor compare the read-back values.",
      LS, [("save_image / load_image", LS), ("save_image_multiple", LS),
           ("get_tif_stack", LS)],
      "read-back oracle over recorded file-system events",
      "Every saved file is read back and compared with the array that went "
      "in, through a directory snapshot taken around the call; sampled "
      "inputs, not exhaustive."),
    p("P02", "Saving never destroys or overwrites existing data unasked",
      "Unless overwriting is explicitly requested, no saving or conversion "
      "function changes, truncates or deletes a file or folder that existed "
      "before the call, and it returns the path of the data it really wrote. "
      "With overwriting requested, only the named target is replaced.",
      "every pre-existing directory layout, name collision, repeated-call "
      "history and saving function",
      "Needs repeated calls against pre-populated folders with a monitor on "
      "every file-system effect; tests write once into an empty folder.",
      LS + "," + CV + "," + PO,
      [("make_file_name / make_folder_name", LS), ("open_hdf_stream", LS),
       ("reslice_dataset, downsample_dataset, rescale_dataset", PO)],
      "file-system audit hook plus before/after tree digests",
      "All file-system effects of each call are recorded by an audit hook and "
      "a tree digest; holds for the sampled histories.",
      over=("inputs", "histories", "configurations")),
    p("P03", "tif and hdf conversions keep every pixel and slice order",
      "Converting a tif folder to hdf, an hdf dataset to tif files, or "
      "reading a tif folder through the hdf emulator yields exactly the "
      "pixels of the source, in the source's order, for the requested axis, "
      "range, step and crop. Out-of-range or empty requests are refused.",
      "every stack shape, dtype, axis, index triple, crop, key and file "
      "naming",
      "Tests convert one stack with one set of options and check that files "
      "exist.",
      CV + "," + LS,
      [("convert_tif_to_hdf", CV), ("extract_tif_from_hdf", CV),
       ("HdfEmulatorFromTif", CV)],
      "pixel-conservation oracle over the produced files",
      "Output is compared voxel by voxel with the source; sampled options."),
    p("P04", "HDF files are described and accessed truthfully",
      "Listing the datasets of an hdf file reports every dataset with "
      "its real path, shape and type, searching for keys finds exactly the "
      "matching ones, and loading by a reported path returns that data. "
      "Writing a dataset and options into a new hdf file can be read back "
      "unchanged.",
      "every tree of groups, datasets, links and attributes",
      "Tests use a file with one group; property quantifies over trees.",
      LS, [("get_hdf_information / find_hdf_key / get_hdf_tree", LS),
           ("load_hdf / open_hdf_stream", LS)],
      "oracle replaying the generated tree",
      "Random trees built with h5py are the oracle; bounded depth and size."),
    p("P05", "Loaded projections and sinograms are the corrected data",
      "Loading a projection stack or sinogram with flat- and dark-field "
      "correction returns, for the requested slices, exactly the flat-field "
      "formula applied to the stored data, whether the source is an hdf file "
      "or a tif folder, whichever dtype, crop, options or beamline loader is "
      "used.",
      "every dataset shape, dtype, crop, slice list, stack layout and option",
      "Tests check shapes of a few loads; the value identity over all "
      "combinations of source, dtype, crop and option is untested.",
      LS + "," + CO, [("get_reference_sample_stacks_dls", LS),
                      ("extract/generate sinogram loaders", CO)],
      "differential oracle (formula in float64 on the stored arrays)",
      "The formula is evaluated independently in float64 on the arrays that "
      "were written to disk; sampled inputs."),
    p("P06", "Distortion correction is one geometric mapping everywhere",
      "Unwarping a whole image, a single row, or a chunk of sinograms with "
      "the same distortion model gives the same values, equal to sampling the "
      "input at the modelled positions. An identity model leaves the data "
      "unchanged.",
      "every centre, coefficient set, image size, row index and chunk range",
      "Tests call each entry point with an identity-like model only.",
      CO, [("unwarp_projection / unwarp_sinogram / unwarp_sinogram_chunk",
            CO), ("mapping", CO)],
      "metamorphic and reference-mapping oracle",
      "Independent bilinear sampling at the modelled positions; entry points "
      "cross-checked; sampled models.", over=("inputs",)),
    p("P07", "No function modifies the arrays its caller passes in",
      "Calling any public processing function leaves every array, list or "
      "dictionary argument bit-for-bit as it was, so that results do not "
      "depend on what was computed before, neither from the same buffers nor "
      "by the same function with other parameters. The same call on a "
      "read-only input, or on a view of a larger buffer, works, gives the "
      "same result and touches nothing outside of the view. Process-wide "
      "settings (numpy error state, warning filters, working directory, "
      "environment) are left as they were.",
      "every public function, input dtype, memory layout and option that "
      "selects a different path",
      "Tests throw inputs away after one call; aliasing only shows when a "
      "caller reuses a buffer, and depends on options and dtype.",
      ",".join([CO, CN, CA, FI, RM, PH, RE, VR, PO, UT, CR, CB]),
      [("copies taken at entry of the public functions", RE),
       ("copies in the stripe removal methods", RM)],
      "buffer sanitizer (digest and write-protect of every argument)",
      "Arguments are digested before and after, fenced by poison, laid out "
      "anew and passed write-protected; values are compared with those of a "
      "freshly forked process; covers 160 recipes of public functions.",
      over=("inputs", "configurations", "histories")),
    p("P08", "Results do not depend on workers, threads or schedule",
      "Any function that can run in parallel gives the same result for every "
      "number of workers, every compute backend setting available on the CPU, "
      "every thread count, every number of CPUs of the machine (automatic "
      "worker count included), every chunk size and repeated runs, and equals "
      "the sequential computation.",
      "all worker counts, chunk sizes, thread counts and interleavings",
      "A data race between threads loses updates only under some schedules; "
      "tests run each function once with default threads and check shapes.",
      ",".join([RE, VR, CN, CA, FI, RM, CR, UT, PO]),
      [("numba parallel kernels", RE), ("numba parallel kernels", VR),
       ("joblib/multiprocessing chunking", UT)],
      "dynamic race detector on the parallel kernels plus schedule/worker "
      "differential runs",
      "Every parallel kernel reached is re-executed under an access-tracking "
      "interpreter that reports cross-iteration write conflicts "
      "independently of the schedule; results compared across workers.",
      over=("schedules", "inputs", "configurations")),
    p("P09", "Flat-field and intensity corrections follow their formula",
      "Flat-field correction returns (sample - dark) / (flat - dark) for every "
      "input with options applied in the documented order and no invalid "
      "value produced by zero denominators; beam-hardening and blur "
      "corrections equal their documented formula and are undone or neutral "
      "where documented.",
      "every array shape, dtype, option dictionary and dead-pixel pattern",
      "Tests use one positive float image; integer wrap, zero denominators "
      "and option order are not sampled.",
      CO, [("flat_field_correction", CO), ("beam_hardening_correction", CO),
           ("mtf_deconvolution", CO)],
      "differential oracle in float64",
      "Independent float64 evaluation; sampled inputs."),
    p("P10", "Tilted sinograms and images follow the requested tilt exactly",
      "Extracting a tilted sinogram, chunk or 1-D profile from a stack equals "
      "sampling each projection along the tilted line, consistently between "
      "the single, chunk and whole-image entry points.",
      "every tilt angle, row index, chunk range, crop and stack size",
      "Tests use one angle and compare shapes.",
      CO, [("generate_tilted_sinogram(_chunk) / generate_tilted_profile_*",
            CO)],
      "reference-sampling and cross-entry-point oracle",
      "Reference sampling along the line; sampled geometries.",
      over=("inputs",)),
    p("P11", "Stitched and joined images reproduce the underlying scene",
      "Stitching or joining two images of the same scene returns an image "
      "that samples that scene continuously: known overlap, side and gap give "
      "the right width and values, for integer and fractional overlaps and "
      "any dtype.",
      "every overlap, side, gain ratio, dtype and requested output width",
      "Tests check the width for one overlap.",
      CN, [("stitch_image / join_image / *_multiple", CN)],
      "synthetic-scene oracle",
      "Scenes with closed-form values at any position; sampled geometries.",
      over=("inputs",)),
    p("P12", "180/360 sinogram conversion preserves the scanned object",
      "Converting a 360-degree half-acquisition sinogram to 180 degrees, "
      "extending, upsampling or converting in the other direction gives the "
      "sinogram the same object would have produced, centred as reported.",
      "every centre, width, row count, parity, dtype and option",
      "Tests compare shapes for one sinogram.",
      CN, [("convert_sinogram_360_to_180 / _180_to_360", CN),
           ("extend_sinogram / upsample_sinogram", CN)],
      "analytic-sinogram oracle",
      "Exact line integrals of Gaussian objects; sampled geometries.",
      over=("inputs",)),
    p("P13", "Helical data become the sinogram of the requested height",
      "Sinograms generated from helical projections, one height or all of "
      "them, equal the sinogram a circular scan would record at that height, "
      "and heights reported as available are exactly those that can be "
      "generated.",
      "every pitch, step, start offset, scan type, range and dtype",
      "Tests use one pitch and look at shapes.",
      CN, [("generate_sinogram_helical_scan", CN),
           ("generate_full_sinogram_helical_scan", CN)],
      "analytic moving-object oracle",
      "Analytic 3-D objects translated with the stage; sampled geometries.",
      over=("inputs",)),
    p("P14", "Centre and overlap finders recover the true geometry",
      "For data acquired with a known rotation axis or overlap, every finder "
      "returns it within its resolution, whichever side, window, worker "
      "count, normalization or search range is given, as long as the true "
      "value lies inside the range.",
      "every axis position, overlap, side, option and search range",
      "Tests use one centred phantom with a loose tolerance; a bias or a "
      "wrong branch for off-centre or side-given calls stays invisible.",
      CA, [("find_center_vo / _360 / _projection / dft variants", CA),
           ("find_overlap / find_overlap_multiple", CA)],
      "ground-truth oracle on synthetic acquisitions",
      "Ground truth known by construction; moderate noise; sampled "
      "geometries.", over=("inputs", "configurations")),
    p("P15", "Stripe removal cleans stripes and leaves clean data alone",
      "Each stripe-removal method returns a finite sinogram of the same "
      "shape, substantially reduces the stripes it is designed for, keeps a "
      "stripe-free sinogram within a small tolerance, and behaves the same "
      "for a mirrored, scaled or padded-equivalent input where its definition "
      "says so.",
      "every stripe position, width, strength, sinogram shape and option",
      "Tests apply each method to one sinogram with one central stripe.",
      RM, [("remove_stripe_based_* / remove_all_stripe / dead / large", RM)],
      "metamorphic and before/after measurement oracle",
      "Residual-stripe measurements, symmetry relations and independent "
      "reference implementations; sampled inputs."),
    p("P16", "Zinger and blob removal act only where the defect is",
      "Zinger and blob removal replace outlying pixels by values consistent "
      "with their neighbourhood and leave every other pixel exactly as it "
      "was; blob masks mark exactly the blob.",
      "every defect position (including edges), size, threshold and image "
      "size",
      "Tests place one defect in the middle of the image.",
      RM + "," + CB, [("remove_zinger", RM),
                      ("generate_blob_mask / remove_blob", RM)],
      "locality monitor (changed-pixel set against the defect set)",
      "The set of changed pixels is compared with the planted defects; "
      "sampled.", over=("inputs",)),
    p("P17", "Coordinate and wavelet transforms are mutually consistent",
      "Forward and inverse transforms (sorting, polar, wavelet, axis "
      "mapping, padding, masks) undo one another where documented, and masks "
      "and windows have the documented size, symmetry and range for every "
      "size parity.",
      "every array shape and parity, level, centre and radius",
      "Tests run single even sizes.",
      UT, [("sort_forward / sort_backward", UT),
           ("transform_slice_forward / backward", UT),
           ("apply_wavelet_* / mapping / make_* windows", UT)],
      "round-trip oracle", "Round trips and closed forms; sampled shapes.",
      over=("inputs",)),
    p("P18", "Reconstruction returns the object that produced the data",
      "Filtered back projection, direct Fourier inversion and the other CPU "
      "reconstructions of an analytic sinogram return the object at the right "
      "position, orientation and scale for every centre, angle set, filter, "
      "crop, and batch layout; slice-by-slice and batched calls agree.",
      "every centre, angle list, row count, width parity, filter, ratio, "
      "padding and batch layout",
      "Tests correlate one centred phantom; shifts, sub-pixel centre errors, "
      "custom angles and batches are not tested.",
      RE, [("fbp_reconstruction / bpf_reconstruction", RE),
           ("dfi_reconstruction", RE), ("find_center_*", RE)],
      "analytic-phantom oracle",
      "Closed-form Gaussian objects and their exact line integrals; CPU "
      "code only (no GPU, astra or tomopy in the sandbox)."),
    p("P19", "Vertical slices equal the same slice of the full volume",
      "Reconstructing a vertical slice, a stack of them, or slices at an "
      "angle gives the same values as cutting the volume reconstructed "
      "horizontally with the same method and options.",
      "every slice index, angle, crop, centre, method option and chunking",
      "Tests check one slice's shape and rough contrast.",
      VR, [("vertical_reconstruction / _multiple / _different_angles", VR),
           ("find_center_vertical_slice", VR)],
      "differential oracle against the horizontal reconstruction",
      "Compared with cuts of the horizontally reconstructed volume; CPU "
      "kernels; sampled geometries."),
    p("P20", "Phase retrieval recovers the phase and surface it was given",
      "Unwrapping a wrapped smooth phase returns it up to a constant multiple "
      "of 2*pi, and reconstructing a surface from its gradients returns the "
      "surface up to a constant, for every image shape.",
      "every smooth phase, aspect ratio, parity, mask and method",
      "Tests use square images only and a loose check.",
      PH, [("unwrap_phase_based_*", PH),
           ("reconstruct_surface_from_gradient_*", PH)],
      "round-trip oracle", "Closed-form phases and surfaces; sampled.",
      over=("inputs",)),
    p("P21", "Correlation methods recover known displacements",
      "Displacing a textured image by a known global or local shift makes the "
      "global and local shift finders return that shift, with the same sign "
      "convention everywhere and independent of chunking, workers, window "
      "and dimension.",
      "every shift, image size, window, margin, chunk size and worker count",
      "Tests check one shift with default chunking.",
      CR + "," + PH, [("find_global_shift_*", CR),
                      ("find_local_shifts / _umpa", CR)],
      "ground-truth oracle on synthesized textures",
      "Known sub-pixel shifts of band-limited textures; sampled."),
    p("P22", "Post-processing of volumes keeps and rescales voxels correctly",
      "Cropping, rescaling, downsampling and statistics of a volume or "
      "dataset equal the direct array computation, whether the volume is an "
      "array, a tif folder or an hdf file, and whichever output format, axis, "
      "crop or worker count is selected.",
      "every volume shape, dtype, cell, crop, skip, axis, source and target",
      "Tests use one shape and check shape or existence.",
      PO, [("rescale / rescale_dataset", PO),
           ("downsample / downsample_dataset", PO),
           ("get_statical_information*", PO)],
      "differential oracle on arrays and read-back files",
      "Direct numpy evaluation; sampled shapes and options."),
    p("P23", "Reslicing a dataset permutes and rotates it without loss",
      "Reslicing a volume along another axis, with rotation, crop and "
      "rescaling, gives exactly the slices obtained by transposing the "
      "volume, in order, complete, and leaves no temporary data.",
      "every volume shape, axis, crop, chunk size, source and target format",
      "Tests check that files exist for one shape.",
      PO, [("reslice_dataset", PO)],
      "voxel-conservation oracle and temporary-file monitor",
      "Voxel-by-voxel comparison plus directory snapshots; sampled.",
      over=("inputs", "configurations")),
    p("P24", "Slices of grid scans are located in the right row and chunk",
      "For a stack of vertically overlapping scans, locating a slice or a "
      "range of slices returns the rows and weights that together cover every "
      "requested height once, with weights summing to one, for single and "
      "chunk requests alike.",
      "every grid height, overlap list, slice index and range",
      "Tests use equal overlaps and a few indices.",
      UT, [("locate_slice / locate_slice_chunk", UT)],
      "coverage and partition-of-unity oracle",
      "All slices of sampled grids are enumerated; grids sampled.",
      over=("inputs",)),
    p("P25", "Simulated projections obey the physics they model",
      "Simulated phantoms, sinograms and artefacts obey their model: "
      "projections conserve mass and match line integrals, added noise, "
      "stripes, jitter or conversion to X-ray images apply exactly the "
      "requested effect.",
      "every phantom, geometry, angle list and artefact parameter",
      "Tests check shapes and one mean.",
      SI, [("make_sinogram / make_face_phantom / add_*", SI),
           ("convert_to_Xray_image", SI)],
      "closed-form oracle", "Closed forms and conservation laws; sampled.",
      over=("inputs",)),
    p("P26", "Calibration measures the geometry of the test image",
      "Background normalization, binarization, dot centroids, size, distance "
      "and line/ellipse based tilt estimates return the geometry of the "
      "synthetic image they are applied to.",
      "every image size, dot geometry, tilt, roll and noise level",
      "Tests use one image and one dot.",
      CB, [("find_tilt_roll* / calculate_distance / binarize_image", CB),
           ("normalize_background*", CB)],
      "ground-truth oracle", "Geometry known by construction; sampled.",
      over=("inputs",)),
    p("P27", "Filters are the linear operators they are documented to be",
      "The Fresnel, double-wedge and other pre-processing filters keep shape "
      "and constants, act linearly, act row by row where documented, and keep "
      "data already consistent with the filter.",
      "every shape and parity, ratio, window, padding and dtype",
      "Tests apply each filter to one random image.",
      FI, [("fresnel_filter", FI), ("double_wedge_filter", FI)],
      "linearity/invariance oracle and reference formula",
      "Reference formula and metamorphic relations; sampled."),
    p("P28", "Compiled kernels stay inside the arrays they are given",
      "For every accepted geometry, size and option, a CPU-compiled or GPU "
      "kernel reads and writes only elements of the arrays it is given, no "
      "two GPU threads or parallel iterations use an element that one of "
      "them writes, and bad arguments are refused rather than read past an "
      "array.",
      "every array size, centre, angle list, window, margin, displacement "
      "and block shape",
      "Compiled kernels check no bounds, so a stray access passes tests.",
      RE + ", " + VR + ", " + CR + ", " + PH,
      [("back_projection_* / vertical_back_projection_*", RE),
       ("_generate_correlation_map_* and local-shift kernels", CR),
       ("_get_transmission_dark_field_signal", PH)],
      "bounds-check sanitizer and per-element access log",
      "Compiled code with numba's bounds checks; the same kernels, and GPU "
      "kernels per thread, executed on arrays that log each element; "
      "geometry sampled around the edges."),
    p("P29", "GPU backends give the CPU result, or fall back to it",
      "Every function with a GPU option returns the CPU result when it runs "
      "its GPU kernels, for any block shape and chunk size; where no GPU is "
      "available, asking for one (also by default) warns and returns the "
      "CPU result.",
      "every input, option, block shape and chunk size",
      "No GPU on the test machines: the GPU code is never executed there.",
      RE + ", " + VR + ", " + CR + ", " + PH,
      [("fbp_reconstruction / bpf_reconstruction (gpu)", RE),
       ("vertical_reconstruction* (gpu)", VR),
       ("find_local_shifts* / generate_correlation_map (gpu)", CR)],
      "differential run of the GPU code in numba's CUDA simulator",
      "Same kernels and launch code executed by the simulator, CPU code as "
      "oracle; small sampled inputs; float rounding of a real GPU is not "
      "covered.", over=("inputs", "configurations")),
    p("P30", "Results depend on the values of an array, not on its number type",
      "Whole-number images, sinograms, stacks or reconstructions stored as "
      "unsigned or signed integers or in single precision give, in any public "
      "processing function, the result obtained when the same numbers are "
      "stored in double precision, up to rounding (to whole grey levels where "
      "the result keeps an integer type): no wrap-around of unsigned "
      "differences or sums, overflow, truncation of intermediate values, or "
      "other option chosen by type.",
      "every public processing function except the phase-unwrapping ones "
      "(input in radian) and those with grey levels documented by type; "
      "every option; uint16, uint32, int32, float32",
      "Tests feed float arrays almost everywhere; detectors deliver uint16.",
      ",".join([CO, CN, CA, FI, RM, PH, RE, VR, PO, UT, CR, SI, CB]),
      [("conversion to floating point at entry of the public functions", RM),
       ("complex_gradient, calculate_center_metric", CA),
       ("__dfi_handle_sinogram", RE)],
      "differential monitor over number types",
      "Same call on the same whole numbers in five number types, compared "
      "value by value; covers about 150 recipes of public functions; the "
      "pick of the best among nearly equal candidates is left out."),
    p("P31", "A request the data cannot satisfy is refused, not answered",
      "Indices, rows, columns and projection ranges outside the data, inputs "
      "of unequal shape or too few dimensions, images or files that are "
      "missing, absent hdf keys, unsupported formats or bit depths, windows "
      "and stacks of the wrong shape or length and unknown named options that "
      "are documented or checked raise an error: no array is returned, no "
      "file is created, changed or left behind and the arguments keep their "
      "values; the same request just inside the limits is answered.",
      "every public function with such limits; every data size, limit and "
      "distance past it, on either side",
      "Tests ask for what exists; negative or one-too-far indices of Python "
      "lists silently pick other data.",
      ",".join([LS, CV, CA, CN, CO, FI, RM, PH, RE, VR, PO, UT, CR, SI, CB]),
      [("index and range guards of the slice reconstruction", VR),
       ("get_tif_stack / find_file / load_hdf", LS),
       ("rescale_dataset / downsample_dataset", PO)],
      "accept/refuse monitor with file-system and argument snapshots",
      "A table of about 80 functions with valid requests (must be answered) "
      "and impossible ones (any exception; nothing written); sampled sizes "
      "and distances."),
]
