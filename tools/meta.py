"""Texts of the properties."""


def A(files, *mech, observe=()):
    d = {"files": ["pyotf/" + f for f in files.split()], "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        d["observe_at"] = list(observe)
    return d


def Q(over, text):
    return {"over": over.split(), "text": text}


GVN = ("Every run parses the current source and interprets it abstractly over symbolic sizes (both parities) and symbolic parameters; "
       "values are global value numbers in a normal form of array terms. Equal normal forms discharge an obligation for all sizes and values; where normal forms differ, "
       "equality or inequality of the two terms is settled by random interpretation of the terms at sample points (probabilistic). "
       "Trusted: the abstract semantics of the used Python/numpy/scipy subset (validated against numpy while it was built) and the reference formulas. "
       "Anything the analysis cannot follow is reported UNDECIDED and not counted as discharged. ")

PROPS = []
NOT_GVN = {"C24"}


def P(id, title, statement, quantifier, why, anchors, note="", technique=None):
    gvn = note if id in NOT_GVN else GVN + note
    d = dict(id=id, title=title, statement=statement, quantifier=quantifier, why_tests_cant=why, anchors=anchors, note=gvn)
    if technique:
        d["technique"] = technique
    PROPS.append(d)


P("C01", "PSF models always reflect their current parameters",
  "After any sequence of parameter assignments, pupil applications and reads of outputs, every amplitude and intensity PSF and OTF of a model equals "
  "what a freshly built model with the current parameters (and the pupil applied last, if no parameter changed since) gives, and every parameter reads back as assigned. "
  "For a model whose focal positions are generated from the axial size and pitch, changing either regenerates them and drops positions given explicitly. "
  "Arrays handed out earlier keep their contents.",
  Q("histories inputs configurations", "all interleavings of attribute assignments, pupil applications and output reads on both model classes, for all admissible values, vectorial corrections, conditions and one or two objectives"),
  "Tests read an output once after one or two assignments with fixed numbers; stale caches only show for particular orders of reads and writes.",
  A("otf.py utils.py", ("invalidation on assignment", "BasePSF._attribute_changed, NumericProperty"), ("lazy outputs", "cached_property PSFa/OTFa/PSFi/OTFi"), ("focal positions", "HanserPSF.zrange, _gen_zrange"),
    observe=("attributes PSFa, OTFa, PSFi, OTFi and the parameters of both models",)),
  "Histories of one and two assignments with every subset of cached outputs that matters are enumerated; because every setter is shown to leave the object in the state of a fresh one, longer histories follow by induction over the enumerated transitions, which is an argument, not a mechanised proof.",
  "abstract interpretation of object histories, typestate of caches, value numbering")

P("C02", "Microscopes always reflect their current parameters",
  "After any sequence of assignments to a microscope's adjustable parameters (pinhole size, excitation wavelength and NA, coherence, DC component and its suppression, Wiener parameter, orientations) interleaved with reads of its PSF and OTF, "
  "the outputs equal those of a freshly built microscope with the current parameters, and the parameters read back as assigned. "
  "Oversampling is either fixed at construction or follows an assignment. Arrays handed out earlier keep their contents.",
  Q("histories inputs configurations", "all interleavings of assignments and reads, for all admissible values and microscope types"),
  "Tests never change a microscope after building it.",
  A("microscope.py utils.py", ("invalidation on assignment", "WidefieldMicroscope._attribute_changed, NumericProperty"), ("lazy outputs", "cached_property PSF/OTF"), ("excitation model", "ConfocalMicroscope.wl_exc")),
  "One recorded finding: oversample_factor does not follow an assignment.",
  "abstract interpretation of object histories, typestate of caches, value numbering")

P("C06", "Every PSF and OTF has its origin at index n // 2",
  "In every array a PSF model or microscope returns, the focus or the zero frequency sits at index n // 2 of each spatial axis, for odd and even sizes alike and along z as well as laterally. "
  "Default focal positions vanish at index n // 2, and no shift is introduced by transforming, oversampling, binning, pinhole blurring or structured excitation.",
  Q("inputs configurations", "all sizes of either parity on each axis, all models, corrections, conditions, oversampling factors and microscope types"),
  "Off-by-one shifts appear only for particular size parities and combinations that the tests, which use mostly even sizes, do not sample.",
  A("otf.py microscope.py utils.py", ("centred transforms", "utils.easy_fft / easy_ifft"), ("shift after transform", "HanserPSF._gen_psf, SheppardPSF._gen_otf"), ("super-pixel shift", "WidefieldMicroscope.PSF")),
  "Axis layouts (origin and domain of each axis) are propagated as dataflow facts; where a layout is lost the value is compared with the centred reference.",
  "dataflow of axis layouts (origin/domain) plus value numbering")

P("C07", "Amplitude, intensity, PSF and OTF stay mutually consistent",
  "For every model and microscope the intensity PSF is the sum over components of the squared modulus of the amplitude PSF, and each OTF is the centred Fourier transform of the corresponding PSF over its spatial axes only. "
  "The centred forward and inverse transforms invert each other for every size parity, dimension and subset of axes.",
  Q("inputs configurations", "all inputs, dimensions, axis subsets and size parities"),
  "Tests transform a few fixed even-sized arrays; shift mistakes cancel for even sizes.",
  A("otf.py utils.py microscope.py", ("centred transforms", "utils.easy_fft / easy_ifft"), ("derived outputs", "BasePSF.PSFi, OTFi; HanserPSF.OTFa; SheppardPSF.PSFa; WidefieldMicroscope.OTF")))

P("C08", "Outputs have the documented shape for every configuration",
  "Amplitude outputs have shape (components, z, y, x) with 1 component without vectorial correction, 2 for a single dipole direction and 6 for the total, and intensity outputs have shape (z, y, x). "
  "The number of planes equals the axial size, or the number of focal positions given (a scalar counts as one), defaulting to the lateral size, and a microscope returns its camera grid whatever the oversampling.",
  Q("inputs configurations", "all sizes, corrections, ways to give focal positions, and oversampling factors"),
  "Tests check shapes for single configurations.",
  A("otf.py microscope.py", ("component stacking", "HanserPSF._gen_psf, SheppardPSF._gen_otf"), ("defaults", "BasePSF.__init__, HanserPSF.zrange"), ("binning", "WidefieldMicroscope.PSF")))

P("C09", "Outputs have the right kind of number, sign and are finite",
  "Intensity PSFs are real floating point and nonnegative (microscopes with negative-capable processing excepted), amplitude outputs and OTFs are complex, and every element is finite for admissible parameters; intermediate values keep double precision.",
  Q("inputs configurations", "all admissible parameters and configurations"),
  "Divisions by zero at the aperture edge or the zero frequency occur only for particular grids.",
  A("otf.py microscope.py utils.py", ("guards at singular points", "HanserPSF._gen_psf, SheppardPSF._gen_kr"), ("intensity", "BasePSF.PSFi")),
  "Kind and sign are derived by the abstract interpreter; finiteness is confirmed by evaluating value terms at sample points only.",
  "abstract interpretation (kind and sign domains) and random interpretation of value numbers")

P("C11", "The pupil model implements the published scalar and vectorial formulas",
  "The amplitude PSF of the pupil-function model equals the inverse transform of pupil times defocus phase times imaging-condition apodisation times the vectorial factors of Hanser et al., in the order z, y, x with the azimuth measured from the x axis, for every grid, focal position and pupil function applied.",
  Q("inputs configurations", "all parameters, focal positions, pupils, corrections and conditions"),
  "Tests compare the two models loosely at one parameter set, so sign, order or apodisation errors that keep the rough shape pass.",
  A("otf.py", ("pupil to PSF", "HanserPSF._gen_psf"), ("coordinates", "HanserPSF._gen_kr, _gen_pupil, _calc_defocus")),
  technique="translation validation by value numbering against a reference program")

P("C12", "Vectorial corrections add up as the optics demand",
  "The intensities with x, y and z correction add up to the total correction, pixel by pixel. The summed squared modulus of the amplitude transfer with total correction is twice the uncorrected one, for both models and every condition.",
  Q("inputs configurations", "all parameters, conditions and grids"),
  "No test relates the vectorial modes to each other.",
  A("otf.py", ("vectorial factors", "HanserPSF._gen_psf, SheppardPSF._gen_otf")))

P("C13", "Unaberrated PSFs have the symmetries of the optics",
  "The intensity PSF of an unaberrated model on an odd grid is mirror symmetric along x, y and z about its centre (without vectorial correction laterally on even grids too), and exchanging the lateral axes exchanges the x and y corrections and leaves the others unchanged.",
  Q("inputs configurations", "all parameters, corrections and conditions"),
  "Tests do not check symmetry; sign errors in one component leave the sampled quantities close.",
  A("otf.py", ("coordinates", "HanserPSF._gen_kr, SheppardPSF._gen_kr")))

P("C14", "Nothing is transmitted outside the aperture",
  "The lateral spectrum of the amplitude PSF of the pupil model vanishes at and beyond the aperture radius, aberrated or not as long as the applied aberration respects it, and the three-dimensional transfer function vanishes away from the spherical cap of the aperture and, with one objective, in the lower half space.",
  Q("inputs configurations", "all parameters, conditions and corrections"),
  "Leakage outside the passband is numerically small in the sampled quantities.",
  A("otf.py", ("passband", "HanserPSF._gen_pupil, SheppardPSF._gen_kr")))

P("C20", "Camera images are normalised and integrate the fine grid exactly",
  "The PSF of every microscope sums to one. It is the oversampled model PSF integrated over camera pixels of oversampling-factor squared samples, laterally only, each centred on its sample, up to that normalisation.",
  Q("inputs configurations", "all parameters, odd oversampling factors, size parities and microscope types"),
  "Tests do not look at the values of microscope PSFs.",
  A("microscope.py utils.py", ("binning and normalisation", "WidefieldMicroscope.PSF"), ("block sums", "utils.bin_ndarray")),
  technique="translation validation by value numbering against a reference program")

P("C31", "The 3D pupil model implements the published formulas",
  "The amplitude OTF of the three-dimensional model equals the discretised spherical cap of the cited paper with the vectorial factors of the direction cosines and the imaging-condition apodisation, for one or two objectives and every grid.",
  Q("inputs configurations", "all parameters, corrections, conditions, one or two objectives"),
  "Tests compare the two models loosely at one parameter set.",
  A("otf.py", ("shell", "SheppardPSF._gen_kr"), ("factors", "SheppardPSF._gen_otf")),
  technique="translation validation by value numbering against a reference program")

P("C32", "Each microscope implements its documented image formation",
  "The widefield, confocal, apotome and structured-illumination PSFs equal the documented models built from an emission model on an oversampled grid of the same field of view: pinhole blur of the given size in Airy units times excitation, axial sectioning profile, or excitation patterns from the given angles, NA and wavelength with optional Wiener filter and DC suppression, then binned to camera pixels and normalised to unit sum.",
  Q("inputs configurations", "all parameters, oversampling factors, orientations, models and size parities"),
  "The tests only construct a few microscopes and do not check the values.",
  A("microscope.py", ("image formation", "model_psf of each class"), ("binning", "WidefieldMicroscope.PSF")),
  technique="translation validation by value numbering against a reference program")

P("C04", "Deriving a model, PSF or figure leaves the source untouched",
  "Applying aberrations to a pupil model, and plotting a model or microscope, leave every parameter, the applied pupil and every output of the source as they were, whatever was read before. Fitting, plotting and generating PSFs from a retrieval result leave its maps, records and model untouched. Later changes to the source or to the derived model or PSF are not seen by the other.",
  Q("inputs configurations histories", "all coefficient vectors, models with and without applied pupil, and all sequences of reads and later changes"),
  "Sharing between two objects shows only when one is changed after the other was derived, in an order no test uses.",
  A("otf.py phaseretrieval.py", ("copy of the model", "apply_aberration"), ("cached arrays", "BasePSF.PSFa, HanserPSF.apply_pupil")))

P("C15", "Noll indices and Zernike degrees are mutual inverses",
  "noll2degrees follows Noll's sequential ordering (sorted by radial degree, then by azimuthal order, even indices for cosines and odd ones for sines) and degrees2noll is its inverse, elementwise for arrays of any shape, with names and name tables that agree with it.",
  Q("inputs", "all indices up to the bound of the run, all valid degree pairs, scalars and arrays"),
  "Tests sample a few indices; an ordering error beyond them goes unnoticed.",
  A("zernike.py", ("conversion", "noll2degrees, degrees2noll"), ("names", "noll2name, name2noll")),
  "Indices are enumerated up to a bound; array shapes are symbolic.",
  "abstract interpretation with constant propagation, against a reference enumeration")

P("C16", "Zernike polynomials equal their definition",
  "zernike evaluates R_n^m(r) cos(m theta) for m >= 0 and R_n^|m|(r) sin(|m| theta) for m < 0, zero outside the unit disk, with R_n^m the standard radial polynomial (R(1) = 1) and Noll's normalisation factor when norm is true. It broadcasts r and theta, adds a leading mode axis for vectors of indices, and accepts Noll indices and degree pairs interchangeably.",
  Q("inputs", "all coordinates, all modes up to the bound of the run, with and without normalisation"),
  "Tests check a handful of modes; signs and normalisation of others are free to change.",
  A("zernike.py", ("polynomials", "zernike, _zernike, _radial_zernike"), ("indices", "noll2degrees")),
  "Modes are enumerated up to a bound, coordinates are symbolic.",
  "translation validation by value numbering against a reference program")

P("C17", "Aberrations add the named Zernike modes to the pupil",
  "apply_aberration gives the model the pupil (aperture + sum m_j Z_j) exp(i sum p_j Z_j), Z_j the normalised Zernike modes in Noll order on the aperture, computed from the current parameters. A named aberration is the single mode of that name, several named ones add up, and zero or no coefficients leave the PSF unaberrated.",
  Q("inputs configurations histories", "all coefficients, vector lengths, names, corrections, conditions and focal positions"),
  "Tests only compare a few aberrated PSFs to unaberrated ones.",
  A("otf.py zernike.py", ("pupil", "apply_aberration"), ("names", "named_aberration_to_pcoefs, apply_named_aberration, apply_named_aberrations")),
  technique="translation validation by value numbering against a reference program")

P("C18", "Phase retrieval keeps correct books",
  "The result records, for every iteration run, the mean squared error between data and model intensity and the relative changes of error and pupil (NaN for the first), and stops as soon as a tolerance is met. It carries the centred pupil coordinates, the aperture and wavelength, and a scalar model of the data's size holding the pupil of the last recorded iteration.",
  Q("inputs schedules", "all data, parameters and tolerances, with and without phase_only, any way the iterations end within the bound"),
  "Tests look at one data set and cannot see an off-by-one in records that decrease smoothly.",
  A("phaseretrieval.py", ("iteration", "retrieve_phase"), ("result", "PhaseRetrievalResult")),
  "The iteration is followed for up to 4 (quick: 3) iterations with every exit of the loop, data and tolerances symbolic.",
  "translation validation by value numbering against a reference program")

P("C19", "The retrieved pupil is the projection the algorithm defines",
  "Each iteration keeps the calculated phase, takes the square root of the data (negative data count as zero) as magnitude, averages the refocused planes and confines the pupil to the aperture, discarding the magnitude when phase_only is set. The result's magnitude, unwrapped phase and complex pupil are those of the last pupil, centred and zero outside the aperture.",
  Q("inputs schedules", "all data, parameters and tolerances, with and without phase_only, any way the iterations end within the bound"),
  "Convergence on one data set tolerates shifted, conjugated or wrongly weighted projections.",
  A("phaseretrieval.py otf.py utils.py", ("projection", "retrieve_phase"), ("defocus", "HanserPSF._calc_defocus")),
  "As C18; phase unwrapping itself (scikit-image) is an uninterpreted function of the wrapped phase that agrees with it modulo a full turn.",
  "translation validation by value numbering against a reference program")

P("C10", "Invalid input is refused and leaves objects unchanged",
  "Model and microscope parameters of a wrong type raise TypeError and values outside the documented range raise ValueError (negative numbers, pixel sizes that are not positive or violate the Abbe limit or axial sampling, unknown corrections, conditions, models or aberration names), whether passed to a constructor or assigned. A refused assignment changes no parameter and no output; admissible values right up to the limits are accepted and read back. Unsuitable arguments of the pupil, phase-retrieval, Zernike and array utilities raise as documented instead of returning a result.",
  Q("inputs histories", "every parameter of every class with symbolic values on either side of each limit, before and after outputs were read"),
  "Limits depend on several parameters at once, and tests assign only a few fixed bad values without checking the object afterwards.",
  A("otf.py microscope.py utils.py zernike.py phaseretrieval.py", ("numeric checks", "NumericProperty"), ("sampling limits", "BasePSF.res, SheppardPSF.zres"), ("refusals", "_choose_model, named_aberration_to_pcoefs, zernike, noll2degrees, degrees2noll, bin_ndarray, fft_pad, slice_maker")),
  "NaN and infinite parameters are not considered.",
  "abstract interpretation with exception paths")

P("C27", "Padding, cropping and windows keep the centre",
  "fft_pad returns an array of exactly the requested shape (a number for all axes, None for an unchanged axis, fast transform lengths by default) in which the retained samples are unchanged and element (n - 1) // 2 of every axis moves to (N - 1) // 2 (its documented convention), whether an axis grows or shrinks; slice_maker returns windows of the asked-for width with the centre at w // 2, clipped at zero. PSFs generated from a retrieved pupil have the asked-for lateral size and focal positions and keep their origin at n // 2 when cropped or padded.",
  Q("inputs", "all array lengths and differences of every parity combination, one to three axes, all window centres and widths"),
  "Off-by-one placements show for particular combinations of parities and directions; doctests cover six.",
  A("utils.py phaseretrieval.py", ("pad widths", "_calc_pad, _calc_crop, _padding_slices, fft_pad"), ("windows", "slice_maker"), ("generated PSFs", "PhaseRetrievalResult.generate_psf, generate_zd_psf, _generate_psf")),
  "For padding modes other than constant, only the retained samples are checked.",
  "translation validation by value numbering against reference formulas")

P("C28", "Data preparation yields square, centred, nonnegative stacks",
  "prep_data_for_PR subtracts the scaled background, brings the lateral axes to the requested square size (the larger one by default) by padding with zeros or by centring the maximum and cropping, independently for each axis, and sets negative values to zero; the number of planes and the caller's array are unchanged.",
  Q("inputs", "all stacks of counts, all lateral sizes below, between and above the requested one, all parities, any multiplier"),
  "Which branch runs depends on three sizes at once; tests use one shape.",
  A("utils.py", ("preparation", "prep_data_for_PR"), ("parts", "remove_bg, center_data, slice_maker, fft_pad")),
  "", "translation validation by value numbering against reference formulas")

P("C33", "Array utilities compute what they document",
  "bin_ndarray sums (or averages) whole blocks counted from the start of each axis, radial_profile returns mean and standard deviation over rings of rounded scaled radius about the given or default centre (real and imaginary part separately for complex data), center_data rolls the maximum to n // 2 of every axis, remove_bg subtracts the scaled mode, psqrt is the root of the nonnegative part and cart2pol returns radius and angle. None of them changes its input.",
  Q("inputs", "all arrays of one to three dimensions, any size and number of blocks, block sizes up to five, any centre and ring width"),
  "Results for other shapes, remainders and centres are not determined by the sampled ones.",
  A("utils.py", ("binning", "bin_ndarray"), ("profiles", "radial_profile"), ("centring and background", "center_data, remove_bg, psqrt, cart2pol")),
  "", "translation validation by value numbering against reference formulas")

P("C34", "Zernike decompositions fit and reconstruct the pupil",
  "fit_to_zernikes returns, and keeps, the least-squares coefficients of the first k Noll modes for magnitude and phase over the samples inside the aperture, for any k from 1, refits maps assigned since and leaves the maps alone. Reconstructions are the weighted sums of the chosen modes (magnitude and phase chosen independently), and generate_zd_psf uses all magnitude modes and by default the phase modes from Noll index 5.",
  Q("inputs histories", "all maps, coefficients, modes and sizes; mode slices of every kind"),
  "The fit of one retrieved pupil says nothing about mode order, weights, the edge of the aperture or slices that select few modes.",
  A("phaseretrieval.py zernike.py", ("fit", "fit_to_zernikes, _fit_to_zerns"), ("reconstruction", "ZernikeDecomposition, _recon_from_zerns"), ("PSF", "generate_zd_psf")),
  "Numbers of modes are enumerated up to a bound; lstsq itself is trusted.",
  "translation validation by value numbering against a reference program")

P("C25", "The LabVIEW wrapper is preparation plus phase retrieval",
  "labview accepts arrays or nested lists, prepares them with the default preparation and returns, as plain nested lists, the phase that phase retrieval with exactly the given optical parameters, iteration limit, tolerances and phase_only flag yields.",
  Q("inputs", "all stacks, parameters and tolerances, square or not, positional or keyword options"),
  "No test covers it; an exchanged pair of parameters or a dropped option still returns a plausible phase.",
  A("labview.py", ("wrapper", "labview")),
  "Two iterations.", "translation validation by value numbering against a reference program")

P("C21", "Figures show the planes, axes and scales they say",
  "Every panel titled XY, YZ or XZ shows exactly that plane (largest value along the third axis, or the central one at index n // 2) of the PSF, of the PSF window around the maximum, or of the OTF magnitude on a logarithmic scale. Extents place the origin at n // 2 with the pixel sizes of the object itself, including the step of its own focal positions, in units or inverse units. All panels share the intensity scaling that the options ask for, and figures of retrieved pupils, coefficients and convergence show the retained data.",
  Q("inputs", "all models, microscopes, results, sizes of either parity, pixel sizes and drawing options"),
  "Tests only check that plotting does not raise; a transposed panel or wrong axis looks plausible.",
  A("display.py otf.py microscope.py phaseretrieval.py", ("PSF panels", "psf_plot, plot_psf"), ("OTF panels", "otf_plot, plot_otf"), ("retrieval figures", "PhaseRetrievalResult.plot, plot_convergence, ZernikeDecomposition.plot_coefs, plot_named_coefs")),
  "What matplotlib does with its arguments is trusted; colours, labels and fonts are not checked.",
  "dataflow into the drawing calls; translation validation by value numbering against reference formulas")

P("C22", "Unevenly spaced focal positions are never plotted as if even",
  "plot_psf and plot_otf of a model whose focal positions are not evenly spaced, or fewer than three, raise RuntimeError before anything is drawn. Evenly spaced positions are plotted. The decision depends only on the relative spacing, not on the unit of length or on an offset common to all positions.",
  Q("inputs", "any number of focal positions, any step and offset over many orders of magnitude, any one position displaced"),
  "An absolute tolerance passes with the micrometre values of tests and fails for metres or nanometres.",
  A("otf.py", ("uniformity", "BasePSF.plot_psf, BasePSF.plot_otf, HanserPSF")),
  "Displacements below a hundredth of the step and rounding-size irregularities are left open.",
  "dataflow of guards into raise sites before drawing calls")

P("C36", "Overlays and plot helpers mark the true optical limits",
  "max_min and fft_max_min return the coordinates of the first and last sample of an axis (or frequency axis) whose origin is at n // 2. OTF overlays mark the lateral cutoff 2 na / wl by a circle and the axial support by arcs of radius ni / wl through the origin, in the orientation of each panel. z_squeeze is the ratio of the focal shifts of marginal rays in the two media, 1 for equal indices.",
  Q("inputs", "all sizes, pixel sizes, wavelengths, apertures and indices"),
  "No test looks at the drawn patches or at these helpers for general arguments.",
  A("display.py", ("axis limits", "max_min, fft_max_min"), ("overlay", "otf_plot"), ("focal shift", "z_squeeze")),
  "", "dataflow into the drawing calls; translation validation by value numbering against reference formulas")

P("C03", "Data passed in stays the caller's",
  "No function, constructor, assignment or method writes to the arrays, lists or dictionaries it is given. Results share no storage with them: writing to a result does not change an argument, and changing an argument after the call (focal positions, pupil, coefficients, orientations, parameters, data) changes nothing that is read from models, microscopes or results, whether it was read before or not.",
  Q("inputs histories", "every public operation, arrays of float, integer or complex kind, lists and dictionaries, reads before and after the change"),
  "Sharing shows only when the caller reuses an array later and only for particular kinds, sizes or options.",
  A("otf.py microscope.py phaseretrieval.py utils.py zernike.py display.py labview.py", ("focal positions", "HanserPSF.zrange"), ("parameters and data", "retrieve_phase"), ("utilities", "fft_pad, center_data, psqrt, bin_ndarray, prep_data_for_PR"), ("orientations", "BaseSIMMicroscope")),
  "PhaseRetrievalResult and ZernikeDecomposition keep the maps they are constructed with by design.",
  "ownership and alias analysis by abstract interpretation of the heap")

P("C23", "Results depend on arguments only, not on other calls",
  "Every computation is a function of its arguments and of the object it is called on: repeating a call gives the same result, and neither calls with other arguments nor other objects of the same class, made or read before, in between or afterwards, influence it or results obtained earlier. Computations draw no random numbers, read no environment or files and change no process-wide settings such as numpy's error handling.",
  Q("histories", "every public operation repeated with any one argument or symbol changed in between, objects interleaved"),
  "Caches, mutable defaults and class attributes go wrong only for particular sequences of calls in one process.",
  A("otf.py microscope.py phaseretrieval.py utils.py zernike.py display.py labview.py", ("models", "HanserPSF, SheppardPSF"), ("microscopes", "WidefieldMicroscope and subclasses"), ("tables", "noll2degrees, degrees2noll, zernike"), ("retrieval", "retrieve_phase")),
  "Histories of three to four calls; logging and the clock are not considered.",
  "abstract interpretation of call sequences with value numbering; effect analysis")

P("C05", "Results do not depend on the unit of length",
  "Multiplying the wavelengths, lateral and axial pixel sizes and focal positions by one common positive factor changes no PSF, OTF, aberrated model, microscope image, retrieved pupil, convergence record or Zernike fit.",
  Q("inputs", "all factors (micrometres to metres, nanometres, and beyond), all corrections, conditions, microscopes, sizes and parameter values"),
  "Tests use one unit; an absolute tolerance, offset or rounding shows only for lengths of another magnitude.",
  A("otf.py microscope.py phaseretrieval.py labview.py", ("frequencies", "HanserPSF._gen_kr, SheppardPSF._gen_kr"), ("defaults", "BasePSF.__init__"), ("pinhole, patterns", "ConfocalMicroscope.model_psf, BaseSIMMicroscope"), ("retrieval", "retrieve_phase, PhaseRetrievalResult")),
  "In real arithmetic; a dimension analysis of every sum and comparison supplements the comparison of value numbers.",
  "dimension analysis; value numbering of scaled against unscaled computations")

P("C26", "repr of models and microscopes rebuilds them",
  "The representation of a PSF model or microscope is an expression that calls its class with every parameter at its current value, strings quoted and numbers in full, so that evaluating it gives an object with the same parameters and emission model. SIM classes also show the arguments they fix themselves. Arrays are shown with numpy's printed precision.",
  Q("inputs histories", "all parameters, corrections, conditions, models and oversampling factors, after construction and after parameters are assigned"),
  "repr is not tested; a parameter missing or stale in it goes unnoticed until a logged model is rebuilt.",
  A("otf.py microscope.py", ("models", "BasePSF.__repr__, HanserPSF.__repr__, SheppardPSF.__repr__"), ("microscopes", "WidefieldMicroscope.__repr__, ConfocalMicroscope.__repr__, BaseSIMMicroscope.__repr__")),
  "Assigning oversample_factor or parameters of a microscope's emission model is outside.",
  "string dataflow: abstract text with holes is parsed and its constructor call interpreted abstractly")

P("C24", "Every name, attribute, keyword and import used exists",
  "In every function, for every class of receiver, and in branches however rarely taken, each name is bound before it is read, each attribute exists in the module, class hierarchy or installed library it is looked up in, each call of a known function passes arguments its parameters accept, what is raised is an exception, and format strings have their arguments. Modules can be imported in any order and third-party packages they import are declared requirements.",
  Q("inputs", "every statement of the package, every class of receiver"),
  "A misspelt name or a keyword a library no longer takes fails only when that branch runs.",
  A("otf.py microscope.py phaseretrieval.py utils.py zernike.py display.py labview.py", ("modules", "all functions")),
  "Library names and signatures are read from the installed packages. Receivers whose class is not evident are only checked against all attribute and parameter names known to the package and its libraries; keywords collected in dictionaries are not followed.", "name resolution, reaching bindings and signature binding over the syntax tree")

P("C37", "Hanser and Sheppard models agree within discretisation error",
  "For equal parameters on well sampled grids, the intensity PSFs and OTFs of HanserPSF and SheppardPSF agree up to an error that vanishes as the grid is refined.",
  Q("inputs", "all parameters on grids fine and large enough"),
  "Tests compare a single configuration with a loose tolerance.",
  A("otf.py", ("models", "HanserPSF._gen_psf, SheppardPSF._gen_otf")))

P("C38", "Phase retrieval recovers the pupil it was simulated from",
  "For stacks simulated from a pupil with moderate aberrations, retrieve_phase converges, its mean squared error decreases, and the retrieved pupil approaches the true one up to a constant phase.",
  Q("inputs", "all moderate aberrations, noise levels and starting stacks"),
  "Tests check one aberration at a time without noise.",
  A("phaseretrieval.py", ("iteration", "retrieve_phase")))

P("C39", "Results are accurate to rounding error",
  "PSFs, OTFs and Zernike values differ from exact arithmetic only by rounding errors that stay small for all parameters, sizes and radial orders.",
  Q("inputs", "all parameters, sizes and orders"),
  "Tests compare with a tolerance for a few small cases.",
  A("otf.py zernike.py", ("transforms", "easy_fft, easy_ifft"), ("polynomials", "_radial_zernike")))

P("C40", "Large simulations complete in bounded time and memory",
  "Time and memory of every computation grow no faster than the size of its output times a logarithm.",
  Q("inputs", "all sizes"),
  "Tests use small grids.",
  A("otf.py microscope.py phaseretrieval.py", ("models", "HanserPSF, SheppardPSF"), ("microscopes", "WidefieldMicroscope"), ("retrieval", "retrieve_phase")))

NA = {
    "C37": "The two models discretise the spherical shell differently; their distance is a runtime quantity of the grid that no value numbering or dataflow fact bounds. Each model is instead decided against its own reference formulas (C06, C31).",
    "C38": "Convergence of a nonconvex alternating projection depends on the data; a static argument cannot bound the error of its limit. The iteration, its projections, its stopping rule and its records are decided (C18, C19).",
    "C39": "The analysis works in exact arithmetic; bounds on accumulated rounding of FFTs and polynomials for all sizes are out of reach of the abstract domains used here.",
    "C40": "Time and memory are quantities of a run on a given machine; there is no observable contract in the code that a source analysis could compare them with.",
}
