import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state: a["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
OTF="pyotf/otf.py"; UT="pyotf/utils.py"; ZE="pyotf/zernike.py"; PR="pyotf/phaseretrieval.py"; MI="pyotf/microscope.py"; DI="pyotf/display.py"; LV="pyotf/labview.py"

p("C01","Hanser amplitude PSF equals the pupil-diffraction theory",
 "For every valid configuration (wavelength, NA not above the index, pixel size, lateral size of either parity, any list of z planes given uniformly or explicitly), HanserPSF's amplitude PSF equals, plane by plane, the centred inverse Fourier transform of a pupil that is one strictly inside the NA circle and zero outside, times the defocus phase exp(2*pi*i*kz*z), the selected imaging condition (none, sine 1/sqrt(cos), herschel 1/cos) and the selected polarisation factors. There is one component without vectorial correction, two for each of x, y, z, and all six for 'total'; a pupil supplied by the user replaces the ideal one and nothing else (beyond index/wavelength kz is zero and the weights are one). With uniform spacing the planes are zsize multiples of zres whose z=0 plane is the centre index zsize//2.",
 ["configurations","inputs"],"all valid model configurations, every z list, every supplied pupil",
 "tests check dtype, shape and positivity of two configurations; no test looks at a value of the PSF or at any vectorial/condition option",
 [OTF],[("pupil, defocus, apodisation and polarisation assembly","HanserPSF._gen_psf"),("z grid","HanserPSF._gen_zrange"),("coordinates","HanserPSF._gen_kr")],observe=["HanserPSF(...).PSFa","HanserPSF(...).zrange","HanserPSF.apply_pupil"])
p("C02","Sheppard amplitude OTF is the weighted spherical cap",
 "For every valid configuration of at least three samples per axis, SheppardPSF's amplitude OTF is finite, is nonzero only on voxels within one voxel of the sphere of radius index/wavelength and inside the NA cap (both mirrored caps when dual), and there equals the imaging-condition weight times the polarisation direction-cosine factor, with one, two or six components as for Hanser. The imaging condition takes effect with and without vectorial correction, and the opposing cap is weighted by the cosine to its own axis. The amplitude PSF is the centred inverse Fourier transform of that OTF for every size parity.",
 ["configurations"],"all valid configurations: vectorial correction x condition x dual x size/zsize parity x isotropic or anisotropic k-voxels",
 "tests check dtype and positivity of one default configuration; no vectorial, dual, odd-size or condition option is ever evaluated",
 [OTF,UT],[("shell selection","SheppardPSF._gen_kr"),("weights","SheppardPSF._gen_otf"),("inverse transform","utils.easy_ifft")],observe=["SheppardPSF(...).OTFa","SheppardPSF(...).PSFa"])
p("C03","PSF and OTF invariants hold in every configuration",
 "For both models in every valid configuration, aberrated or not: the intensity PSF is real, finite, non-negative and the component sum of the squared amplitude PSF, and both OTFs are the centred Fourier transforms of their PSFs, so the intensity OTF is Hermitian and its largest modulus, the total intensity, is at the centre index. An unaberrated PSF (other than of the axially polarised component 'z', dark on axis) peaks at the centre index of every axis for even and odd sizes; 'total' intensity is the sum of 'x', 'y' and 'z', carries twice the uncorrected energy, and the 'x' and 'y' intensities are transposes. Every plane of a Hanser PSF carries the same energy whatever its z and its phase aberration, and the Hanser intensity OTF vanishes beyond the lateral cutoff 2*NA/wavelength when the pixel size is at most wavelength/(4 NA).",
 ["configurations"],"all valid model configurations and aberrations",
 "tests sample positivity in two configurations; conservation, symmetry and transform relations are never evaluated",
 [OTF,UT],[("intensity and OTF derivation","BasePSF.PSFi / BasePSF.OTFi"),("amplitude transforms","HanserPSF.OTFa / SheppardPSF.PSFa"),("centred FFTs","utils.easy_fft / easy_ifft")],observe=["PSFi","PSFa","OTFi","OTFa"])
p("C04","A model never serves stale PSFs or OTFs",
 "After any history of parameter assignments (accepted, repeated or rejected), pupil applications and reads in any order, each of PSFa, PSFi, OTFa and OTFi of a Hanser or Sheppard model equals what a freshly built model with the current parameters (and the pupil applied since the last parameter change, if any; re-assigning the value a parameter already has, or a refused pupil, may or may not discard it) returns. Reading never changes a parameter or another array, and assigning zsize or zres to a Hanser model restores uniform planes while assigning zrange replaces them.",
 ["histories"],"all interleavings of assignments, rejected assignments, pupil applications, copies and reads",
 "test_size follows one fixed history and looks only at shapes; staleness depends on which arrays were read before which of ten settable parameters changed",
 [OTF,UT],[("cache invalidation","BasePSF._attribute_changed"),("validated property setters","utils.NumericProperty; BasePSF/HanserPSF/SheppardPSF setters"),("cached arrays","functools.cached_property on PSFa/PSFi/OTFa/OTFi")],
 state=[("cached arrays","derived arrays computed since the last change","instance __dict__ of the model"),("parameters","wl, na, ni, res, size, zres, zsize, zrange, vec_corr, condition, dual","underscore attributes of the model")],observe=["PSFa","PSFi","OTFa","OTFi","shape"])
p("C05","Invalid parameters are rejected and leave the object unchanged",
 "Model construction and assignment reject with TypeError or ValueError every non-numeric or negative wavelength, NA, index, size or zsize, every size or zsize that is not an int (whole floats included), every xy pixel size not strictly between zero and the Abbe limit wavelength/(2 NA), every non-positive z step (for Sheppard also one not below wavelength/(2 index)), every unknown vectorial correction or condition, and every non-boolean dual; microscope construction refuses unknown models and oversampling factors that are not odd positive integers. Every positive value inside those limits is accepted. A rejected assignment leaves every parameter and every derived array of the object as it was, whatever had been read before.",
 ["inputs","histories"],"every settable parameter x a catalogue of bad and good boundary values x every read-state of the object",
 "one test rejects one too-large pixel size; no test checks the other parameters or the object's state after a rejection",
 [OTF,UT,MI],[("type and sign validation","utils.NumericProperty"),("sampling limits","BasePSF.res, BasePSF.zres, SheppardPSF.zres setters"),("option validation","vec_corr, condition, dual setters"),("microscope validation","microscope._choose_model, WidefieldMicroscope.__init__")],observe=["exceptions","parameters and arrays after the exception"])
p("C06","Results do not depend on length units or numeric type",
 "Multiplying every length (wavelength, pixel size, z step, z planes, excitation wavelength) by the same positive factor leaves every PSF, OTF, aberrated model, microscope PSF and phase-retrieval result unchanged. Passing a whole-number parameter as int or as float of equal value gives the same arrays, as does passing z planes as list, tuple or array.",
 ["inputs","configurations"],"all valid configurations x unit scale factors x numeric representations of the same value",
 "every test uses nanometres; the README's units-agnostic contract is never exercised",
 [OTF,MI,PR],[("ratio-only use of lengths","HanserPSF._gen_kr/_gen_psf, SheppardPSF._gen_kr, microscope model_psf"),("numeric property types","NumericProperty vartype of wl, na, ni, wl_exc, na_exc")],observe=["PSFa","OTFa","microscope PSF","retrieval results"])
p("C07","Aberrations multiply the pupil by the stated Zernike modes",
 "Applying phase and magnitude coefficients yields a model whose amplitude PSF is that of the same configuration with pupil (ideal + sum of magnitude coefficients times Noll modes) * exp(i * sum of phase coefficients times Noll modes) over the unit disk scaled to the NA, for every coefficient count and either list omitted. A named aberration is the phase coefficient at that name's Noll index, several named aberrations are the sum of theirs, unknown names raise KeyError, and mismatched coefficient counts are refused. Zero coefficients and pure piston leave the intensity PSF unchanged, and opposite coefficients give the point-mirrored lateral PSF at the in-focus plane.",
 ["inputs","configurations"],"all coefficient vectors (by mode, sign, count, omitted list), all fifteen names and their combinations, all model configurations",
 "one test converts one name ('tip') to coefficients; no aberrated PSF is ever compared with anything",
 [OTF,ZE],[("coefficient expansion","apply_aberration"),("names","named_aberration_to_pcoefs, apply_named_aberration(s)"),("pupil application","HanserPSF.apply_pupil")],observe=["returned model's PSFa/PSFi/OTFi"])
p("C08","Derived models are independent of their originals",
 "A model returned by the aberration functions, a copy, deep copy or unpickled copy of a model (and a deep or unpickled copy of a microscope or retrieval result), the excitation model of a confocal microscope and the PSFs generated from a retrieval result share no mutable behaviour with the object they came from: after any later history of assignments, pupil applications and reads on either, each equals what it would be had the other never been touched. Applying an aberration or generating a PSF never changes the original's parameters, planes or arrays.",
 ["histories"],"all interleavings of operations on an original and the objects derived from it, derived at any point of the history",
 "no test touches an original after deriving from it",
 [OTF,PR,MI],[("copy before apply","apply_aberration: copy.copy(model)"),("copy before regenerate","PhaseRetrievalResult._generate_psf: copy.copy(self.model)"),("excitation model","ConfocalMicroscope.__init__: copy.deepcopy")],observe=["parameters and arrays of both objects"])
p("C09","Zernike functions are the orthonormal Zernike polynomials",
 "For every degree pair n >= |m| >= 0 with n-m even, zernike returns on the unit disk the closed-form radial polynomial times cos(m*theta), or sin(|m|*theta) for negative m, with this library's fixed sign (-1)^m, normalised to unit RMS over the disk by default and unnormalised (radial magnitude 1 at the edge) with norm=False. It is exactly zero outside the unit disk and for odd n-m, and distinct modes are orthogonal over the disk. Scalar, 1-D and 2-D coordinates, single indices, index sequences, separate n and m, and stacked (2,k) degree arrays all agree, and negative radii, n<|m| and too many dimensions are rejected with ValueError.",
 ["inputs"],"all Noll indices 1..120, all degree pairs to a bound, all coordinate shapes and call forms",
 "tests check norms of 15 modes numerically and randomly sampled degrees for finiteness; values, signs and higher orders are not checked",
 [ZE],[("radial polynomial","_radial_zernike"),("angular part and norm","_zernike"),("argument forms","zernike")],observe=["zernike(...)"])
p("C10","Noll indices and degrees are inverse bijections",
 "noll2degrees and degrees2noll are mutually inverse between Noll indices 1..120 and all valid degree pairs n <= 14, for scalars and arrays of any shape, and follow Noll's convention: n non-decreasing, |m| non-decreasing within n, even index for cosine (m>0) and odd for sine (m<0) modes. Every aberration name maps to the Noll index of the standard mode with that name and the two name tables are inverse. Non-integer input, non-positive indices, odd n-m and degree pairs with |m| > n are rejected with ValueError instead of producing an index.",
 ["inputs"],"all indices, all degree pairs in and around the valid triangle, all array shapes",
 "tests check the first ten pairs and ten random indices below 36 of 120",
 [ZE],[("mapping tables","noll_mapping, noll_inverse"),("conversions","noll2degrees, degrees2noll"),("names","noll2name, name2noll")],observe=["noll2degrees","degrees2noll","name2noll"])
p("C11","Centred FFT helpers are exact inverses with a fixed centre",
 "For every array shape (even, odd, length one, any number of dimensions) and every choice of axes, easy_ifft inverts easy_fft and vice versa, and easy_fft is the discrete Fourier transform whose origin in both domains is at index n//2 of each transformed axis. Untransformed axes are untouched and both are linear.",
 ["inputs"],"all shapes to a bound in 1-3 dimensions, all axes subsets, a basis of inputs (complete by linearity)",
 "no test calls the helpers directly; models are tested at even sizes only, where the shift variants coincide",
 [UT],[("shift-transform-shift","easy_fft, easy_ifft")],observe=["easy_fft","easy_ifft"])
p("C12","Padding, cropping and slicing select exactly the stated samples",
 "fft_pad to any mixture of larger, equal, smaller or unspecified sizes returns exactly the requested shape, keeps the retained samples contiguous and in order with the sample at index (n+1)//2 landing on (m+1)//2 of each axis, fills only new samples according to the mode, and padding then cropping back is the identity; the default shape is the next 5-smooth size. slice_maker selects exactly the indices from x-w//2 to x-w//2+w-1 that are not negative, rounding fractional input to the nearest even-tied integer, refusing negative widths and complex input. The plotting extents equal the first and last coordinates of the centred real-space and Fourier grids.",
 ["inputs"],"all old/new sizes, centres and widths to a bound, in 1-3 dimensions",
 "doctests pin six sizes of the pad rule and two slices",
 [UT,DI],[("pad widths","_calc_pad, _padding_slices, fft_pad"),("slices","slice_maker"),("extents","display.max_min, fft_max_min")],observe=["fft_pad","slice_maker","max_min","fft_max_min"])
p("C13","Binning and radial averaging equal the brute-force group-by",
 "bin_ndarray by bin size or by new shape returns, for every output pixel, exactly the sum or mean of its block, dropping only incomplete trailing blocks (bin size) or refusing shapes that do not divide or match in number of dimensions. radial_profile returns for every rounded distance the mean and the standard deviation of exactly the pixels at that rounded distance from the centre (default the centre pixel shape//2), for real and complex data, any centre and bin size, with standard deviation zero and not NaN where values are constant.",
 ["inputs"],"all small shapes, bin sizes, centres and a basis of data",
 "bin_ndarray has no test; radial_profile's only doctest fails on the installed numpy",
 [UT],[("block reduction","bin_ndarray"),("radial bins","radial_profile")],observe=["bin_ndarray","radial_profile"])
p("C14","Data preparation keeps the signal and honours its contract",
 "For every stack of non-negative integers, prep_data_for_PR returns a stack with the same number of planes, square in x/y at the requested size (default the larger of the two), equal to the stack minus multiplier times its most frequent value (the smallest if tied), clipped at zero, embedded in zeros when enlarging and, when shrinking, circularly centred so that the brightest voxel is at the centre index n//2 of every axis. center_data is a circular shift placing the first maximum at the centre index; remove_bg never wraps unsigned data; psqrt is the square root of the positive part; cart2pol inverts polar coordinates.",
 ["inputs"],"all small stacks (shape, parity, position of maximum, ties, dtype), all target sizes and multipliers",
 "two single-sample tests; prep_data_for_PR itself has no test",
 [UT],[("background","remove_bg"),("centring","center_data"),("pad/crop/clip","prep_data_for_PR")],observe=["prep_data_for_PR","center_data","remove_bg","psqrt","cart2pol"])
p("C15","Phase retrieval executes the stated iteration and stopping rule",
 "For data of at least two pixels a side: starting from the ideal pupil, each iteration of retrieve_phase replaces the model amplitude by the measured one keeping the phase, transforms back, undoes the defocus, averages over planes and applies the NA mask (and unit magnitude if phase_only); the recorded mean squared errors, relative error changes and relative pupil changes are those of that sequence, the changes being NaN first. It stops at the first iteration at which the error, its relative change or the relative pupil change is below its tolerance, else after max_iters, so a run with fewer iterations is a prefix of a longer one. Non-square or non-3-D data and max_iters < 1 are refused.",
 ["inputs","histories","configurations"],"all small data shapes, iteration limits, and tolerance settings placed between every pair of successive recorded values",
 "one test runs one data set with tolerances zero to convergence; neither the stopping rule nor phase_only nor the records are checked",
 [PR],[("iteration loop and stopping rule","retrieve_phase"),("error measure","_calc_mse")],observe=["PhaseRetrievalResult.mse, mse_diff, pupil_diff, complex_pupil"])
p("C16","Phase retrieval reduces the misfit and recovers its own pupils",
 "One more iteration never increases the summed squared difference between the measured and the modelled amplitude, with or without phase_only; the retrieved pupil is always zero outside the NA and has magnitude one inside if phase_only. Data generated by the model from the ideal pupil is recognised at once with the ideal pupil returned, and data generated with a single named aberration of at most half a radian RMS, on four or more planes and with pixels of at most 0.35*wavelength/(2 NA), is recovered up to a global phase, magnitude and phase being returned in centred order with the phase masked.",
 ["inputs","histories"],"all named aberrations and signs, plane sets, sizes and data perturbations to a bound; every iteration count to a bound",
 "the integration test recovers a single random pupil at one size",
 [PR],[("alternating projection","retrieve_phase"),("mask and shift","retrieve_phase: fftshift(mask), unwrap_phase")],observe=["complex_pupil","mag","phase"])
p("C17","Retrieval results regenerate and decompose consistently",
 "In any order and number of calls on one result, whose magnitude or phase may be replaced in between: complex_pupil is mag*exp(i*phase); generate_psf returns the PSF of that pupil for the requested planes, cropped or zero-padded laterally to the requested size with the optical axis at index size//2; fitting any number 1..120 of modes returns the least-squares coefficients over the unit disk, exact for pupils that are combinations of those modes; reconstructions are linear in the selected modes and the fitted PSF by default omits the first four phase modes. No call changes the result, its model or an earlier decomposition.",
 ["inputs","histories"],"all call sequences to a depth on results of several sizes and parities, all target sizes, all mode counts and slices",
 "one test fits 15 modes once; regeneration, cropping, padding and slicing are untested",
 [PR],[("regeneration","PhaseRetrievalResult._generate_psf"),("fit","fit_to_zernikes, _fit_to_zerns"),("reconstruction","ZernikeDecomposition._recon")],observe=["generate_psf","generate_zd_psf","fit_to_zernikes","complex_pupil"])
p("C18","The LabVIEW entry point equals prepare-then-retrieve",
 "For every integer stack given as nested lists or array and every argument combination, positional or keyword, labview returns as nested lists exactly the phase of retrieve_phase run on prep_data_for_PR of that stack with those optical parameters and with those iteration, tolerance and phase_only settings each reaching its own counterpart, omitted ones being retrieve_phase's defaults of 200 iterations, 1e-8, 1e-8 and False.",
 ["inputs"],"all combinations of the settings over small stacks",
 "no test imports labview beyond compiling it",
 [LV],[("argument plumbing","labview.labview")],observe=["labview.labview"])
p("C19","Microscope PSFs are normalised, centred, camera-binned model PSFs",
 "For every microscope type, model, size parity and odd oversampling factor, PSF sums to one, has one plane per axial position (zsize planes, or the explicit zrange if given) of size by size pixels, and is exactly the block sum over oversampling super-pixels of the type's fine-grid PSF, aligned so that a fine-grid PSF centred on the optical axis is centred in the pixel at index size//2; OTF is its centred Fourier transform and is one at the centre. Oversampling divides the pixel size laterally only, defaults zsize and zres to the lateral size and pixel size, and model names are case-insensitive, unknown ones being refused with ValueError; a widefield fine-grid PSF is the model intensity PSF at the finer pitch.",
 ["configurations"],"all microscope types x models x sizes of both parities x oversampling factors x vectorial options",
 "no test imports microscope.py beyond compiling it",
 [MI,UT],[("binning and normalisation","WidefieldMicroscope.PSF"),("parameter derivation","WidefieldMicroscope.__init__"),("OTF","WidefieldMicroscope.OTF")],observe=["PSF","OTF","model_psf"])
p("C20","Confocal and Apotome PSFs follow their imaging model",
 "A confocal PSF is, before binning and normalisation, the emission intensity PSF convolved laterally with the uniform pinhole disk (pinhole_size Airy units, 1.22*wl/NA, in diameter; no convolution when its radius is at most 1.5 pixels) times the excitation intensity PSF of the same optics at the excitation wavelength. An Apotome PSF is the widefield PSF weighted per plane by the modulus of that plane's radially averaged lateral transfer function at half the lateral cutoff 2*NA/wavelength. A closed pinhole with equal wavelengths gives the squared widefield PSF.",
 ["configurations"],"pinhole sizes across the threshold, wavelengths, sizes, parities, models",
 "no test imports microscope.py beyond compiling it; Apotome cannot even run on the installed numpy",
 [MI,UT],[("confocal","ConfocalMicroscope.model_psf, _disk_kernel"),("apotome","ApotomeMicroscope.model_psf, utils.radial_profile")],observe=["PSF","model_psf"])
p("C21","SIM PSFs follow the interference model on the detection grid",
 "For every SIM type, the fine-grid PSF is the detection PSF (optionally flattened by the Wiener filter |OTF|^2/(|OTF|^2 + wiener^2 max|OTF|^2); wiener=0 keeps the support at unit weight; None leaves the PSF unfiltered) times the intensity of the interfering excitation waves at +-arcsin(NA_exc/index) with an axial DC wave for 3-D and lattice SIM (or as the dc, coherent and dc_suppress flags say), referenced to the optical axis at the centre index for every size parity and to the focal plane z=0 of the model's planes, explicit or not. Orientations add incoherently for 2-D and 3-D SIM, with (2*orientations-1) times the detection PSF subtracted when DC suppression is on, and coherently for lattice SIM at 0 and 90 degrees. Omitted excitation NA or wavelength default to the detection values, ints or floats, and a negative wiener parameter is rejected.",
 ["configurations"],"all SIM types x wiener settings x DC suppression x orientation sets x sizes of both parities x excitation parameters",
 "no test imports microscope.py beyond compiling it",
 [MI],[("excitation pattern and filter","BaseSIMMicroscope.model_psf"),("flavours","SIM2DMicroscope, SIM3DMicroscope, LatticeSIMMicroscope")],observe=["PSF","model_psf"])
p("C22","A microscope never serves a stale PSF or OTF",
 "After any history of assignments to a microscope's own settings (pinhole size, excitation wavelength and NA, wiener parameter, orientations, coherence, DC and DC-suppression flags, oversampling factor), rejected assignments and reads, PSF and OTF equal those of a freshly built microscope with the current settings. Every setting reads back as assigned, and reads never change a setting.",
 ["histories"],"all interleavings of setting assignments, rejected assignments and reads for every microscope type",
 "no test imports microscope.py beyond compiling it",
 [MI,UT],[("cache invalidation","WidefieldMicroscope._attribute_changed"),("settings","NumericProperty attributes, wiener, orientations, wl_exc")],
 state=[("cached PSF, OTF","computed since the last change","instance __dict__")],observe=["PSF","OTF","settings"])
p("C23","Plots show the labelled projection with the right extents",
 "For every volume shape, psf_plot draws in the panels titled XY, XZ and YZ the maximum projection along (or with mip off the central slice across) z, y and x respectively, oriented so that panels sharing an axis agree, with extents equal to the grid coordinates (those of the actual plane spacing for a model or microscope); otf_plot does the same with central slices and Fourier extents, with a circle of radius 2*NA/wavelength and the four arcs bounding the axial support. Plotting a Hanser model whose z planes are not uniformly spaced (or fewer than three), or a microscope with three or more irregular planes, raises RuntimeError, while a microscope of one or two planes plots with its zres; no plot changes the plotted object or data, and z_squeeze is 1 for equal indices, reciprocal under exchange of the indices and the ratio of the axial frequency extents. Retrieval plots show the pupil phase (blank where the magnitude is zero) and magnitude, the recorded convergence series, and each fitted coefficient at its Noll index or under its name.",
 ["inputs","configurations"],"all small anisotropic volume shapes, display options, models and retrieval results",
 "only the two extent helpers have doctests; no figure is ever produced by a test",
 [DI,OTF,MI,PR],[("panels","display.psf_plot, display.otf_plot"),("uniformity guard","BasePSF._validate_zrange"),("index mismatch","display.z_squeeze"),("retrieval plots","PhaseRetrievalResult.plot, plot_convergence; ZernikeDecomposition.plot, plot_coefs, plot_named_coefs")],observe=["figure axes: image arrays, extents, titles, patches"])
p("C24","Concurrent use does not change results",
 "When several threads compute at the same time, each on its own objects or all only reading, deriving aberrated models or generating PSFs from shared ones, every call returns under every interleaving exactly what it returns when run alone, and afterwards shared objects still return those values.",
 ["schedules"],"all two-thread line-level interleavings up to a preemption bound of pairs of library operations on independent or shared read-only objects",
 "no test uses threads, and a test could not choose the schedule",
 [OTF,ZE,UT,PR,MI],[("per-object state, idempotent cached computation","BasePSF cached properties, HanserPSF._gen_psf"),("no module-level scratch state","zernike, utils, phaseretrieval")],
 state=[("coordinate scratch","_k, _kr, _phi, _kz, valid_points... recomputed per PSF","model instance")],observe=["return values of both threads and a later read"])
p("C25","An interrupted computation leaves objects usable and correct",
 "If a computation (reading a derived array, applying a pupil or aberration, generating a PSF, fitting, retrieving, computing a microscope PSF) is aborted by an exception such as KeyboardInterrupt or MemoryError at any point, the objects involved remain usable: every later read returns what an undisturbed object with the same parameters returns, where an aborted pupil application may leave the previous, the default or the new pupil but never a mixture. Arguments, parameters and numpy's error settings are unchanged.",
 ["fault_sequences","crash_points"],"every source line executed by each operation as abort point, several exception types, followed by every read",
 "no test injects a failure into a computation",
 [OTF,PR,MI],[("clear-then-assign order","HanserPSF.apply_pupil, BasePSF._attribute_changed"),("value cached only on completion","functools.cached_property")],observe=["arrays read after the abort"])
p("C26","Library calls leave inputs and global state alone and are repeatable",
 "No public function, PSF-model or microscope constructor or method modifies an array, list or dict passed to it, keeps a reference through which later changes of the caller's argument would alter results, or returns an array through which changing it would alter later results of a function call or the caller's input. No call changes numpy's random state or error settings, or other process-wide state such as warning filters, the environment or plotting defaults, and any call repeated after any other calls returns the same values.",
 ["histories","inputs"],"all pairs of public calls in sequence with in-place mutation of arguments and results between them",
 "tests call each function once on fresh data and never inspect the arguments afterwards",
 [OTF,UT,ZE,PR,LV,MI],[("copy on entry","HanserPSF.zrange setter, retrieve_phase params, BaseSIMMicroscope.orientations"),("fresh outputs","center_data, fft_pad, zernike")],observe=["arguments after the call","repeated results"])
p("C27","Representations state the current configuration",
 "After any history of accepted, repeated or rejected assignments, pupil applications and reads, the representation of a model or microscope reads as a call of its class that states every constructor parameter by name at its current value: a model's optical, sampling and option parameters and its planes (to print precision) or dual flag, a microscope's model name, optics, lateral size and pixel size as given (not those of the oversampled grid), z specification, passed options and own settings. Taking the representation changes nothing.",
 ["histories"],"all histories to a depth over the alphabets of C04 and C22, all values of each parameter",
 "no test takes a representation",
 [OTF,MI],[("representation","BasePSF, HanserPSF, SheppardPSF, WidefieldMicroscope, ConfocalMicroscope, BaseSIMMicroscope __repr__")],observe=["repr(object)"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
import re
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=len(re.findall(r"[.](?=\s+[A-Z]|$)",x["statement"])); 
    if n>3: print(x["id"],n)
