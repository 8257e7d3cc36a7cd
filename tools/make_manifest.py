"""Writes properties.jsonl and MANIFEST.json from the one table below.

A property is claimed when its check file exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/fisx_%s.cpp"
P = []


def prop(pid, check, title, statement, over, text, why, files, mech, technique, note, state=None):
    P.append(dict(id=pid, check=check, title=title, statement=statement, over=over, text=text, why=why,
                  files=[f if "/" in f else S % f for f in files], mech=mech, technique=technique, note=note, state=state))


TESTS = "The 16 stable tests only import and instantiate the classes, read one small specfile and look up a few transmission values; "

prop("C01", "c01_parsers.py", "File readers are memory safe on arbitrary bytes",
     "Whatever bytes a data file, specfile or configuration file contains, and whether or not it exists, reading it and asking for anything in it either returns or throws a catchable error. It never reads or writes outside its memory, uses uninitialised or freed memory, executes undefined behaviour, aborts, or fails to terminate.",
     ["inputs", "fault_sequences"], "every byte content of every file format the library reads: specfile, ini/XRF configuration, binding energies, shell constants, transitions, EPDL97 cross sections, mass attenuation tables",
     TESTS + "none feeds a malformed, truncated or empty file.",
     ["simplespecfile", "simpleini", "epdl97", "elements", "xrfconfig"],
     [("specfile index and data parsing", "SimpleSpecfile::setFileName, getScanLabels, getScanData"), ("ini section scan and value parsing", "SimpleIni::readFileName, readSection, parseStringAs*Values"), ("binding and cross section tables", "EPDL97::loadData, setBindingEnergies, loadCrossSections"), ("configuration reading", "XRFConfig::readConfigurationFromFile"), ("shell data files", "Elements::setShell*File, setMassAttenuationCoefficientsFile")],
     "AddressSanitizer+UBSan on the real readers under mutated and coverage-guided (libFuzzer) file contents",
     "Explores mutated and generated files with sanitizers (ASan, UBSan, _GLIBCXX_ASSERTIONS) as the oracle; a stuck reader is a time-out confirmed by replay. Nothing is assumed about the content; very large files (more than 100 kB) are not generated.")
prop("C02", "c02_hostile.py", "Any sequence of API calls with any arguments is memory safe",
     "Calling any public operation of any object, in any order and with any argument values (unknown names, empty or mismatched lists, negative, zero, huge, infinite or NaN numbers, objects copied, reassigned or replaced), either returns or throws a catchable error. It never touches memory it does not own, uses freed or uninitialised memory, executes undefined behaviour, aborts or hangs.",
     ["inputs", "histories"], "all sequences of public calls over all value classes of their arguments",
     TESTS + "no test passes a hostile argument or combines calls.",
     ["element", "elements", "shell", "layer", "material", "detector", "xrf", "multilayer", "xrfconfig", "beam", "transmissiontable", "math"],
     [("argument checks", "throughout the set*/get* operations"), ("index computations in tables", "Element::getInterpolationIndices, EPDL97::getMassAttenuationCoefficients"), ("size checks of parallel lists", "Beam::setBeam, Elements::setMaterialComposition, Element::setMassAttenuationCoefficients")],
     "AddressSanitizer+UBSan+libstdc++ assertions under random hostile call sequences",
     "Random hostile sequences against a sanitized build; memory errors, UB, aborts and confirmed hangs are reported. Floating point to integer conversions of absurd values are included; memory exhaustion is not explored.")
prop("C03", "c03_threads.py", "Concurrent queries race-free and equal to serial ones",
     "Any number of threads may query the same loaded library object, materials, layers, detector and configured setup at the same time through operations documented as not modifying them, as the Python binding does when it releases the interpreter lock. No data race occurs and every thread gets exactly the answers it would get alone.",
     ["schedules"], "all interleavings of concurrent read-only queries on shared and on per-thread setups",
     TESTS + "every test is single threaded.",
     ["elements", "element", "xrf", "multilayer", "layer", "detector", "math"],
     [("const queries without hidden mutable state", "const members of Elements, Element, Shell, Layer, Material, XRF"), ("interpreter lock released", "python/cython/PyXRF.pyx getMultilayerFluorescence, getFluorescence")],
     "ThreadSanitizer over stress threads with random delays; answers compared with a serial run",
     "ThreadSanitizer's happens-before detection on executed paths plus exact equality with serial answers; schedules are sampled (threads, random yields), not enumerated.")
prop("C04", "c04_determinism.py", "Answers depend only on inputs, never on history or memory",
     "The answer of a query is a function of the loaded data, the configuration and the arguments alone. It is identical for a fresh object and for one that has served other queries, for an object and its copy, in another order of queries, in another process, and whatever the previous content of the memory the objects happen to occupy.",
     ["histories", "configurations"], "all query histories and all initial contents of stack and heap",
     TESTS + "no test repeats a query after others or looks at what uninitialised memory could change.",
     ["element", "elements", "shell", "detector", "layer", "material", "xrf", "xrfconfig", "multilayer", "transmissiontable"],
     [("initialisation of all members", "constructors of Element, Elements, Shell, Layer, Detector, Beam"), ("cached partial results", "Shell fluorescence ratios, Element cascade and coefficient caches, Detector escape cache"), ("copying", "implicit copy constructors and assignments")],
     "differential runs of builds with different stack/heap fill patterns and query orders; exact comparison of traces",
     "Same command script run with zero- and pattern-filled automatic variables and heap, in two orders and on copies; every answer must be bit-identical. valgrind memcheck in the thorough run.")
prop("C05", "c05_caches.py", "Caches never change an answer",
     "Enabling, filling, updating, clearing or disabling the coefficient, cascade and escape caches, in any order and mixed with queries, never changes the answer of any query. This also holds after the underlying data changes (attenuation coefficients, binding energies, shell data, shell constants, added elements, other detector settings): no answer computed from the replaced data is ever returned.",
     ["histories"], "all interleavings of cache operations, data updates and queries",
     TESTS + "the cache is not exercised.",
     ["elements", "element", "detector", "multilayer"],
     [("coefficient cache", "Element::fillCache, updateCache, clearCache, getMassAttenuationCoefficients"), ("cascade cache", "Element::fillCascadeCache, getXRayLinesFromVacancyDistribution"), ("escape cache", "Elements::updateEscapeCache, getEscape, isEscapeCacheCompatible"), ("detector escape cache", "Detector::getEscape"), ("invalidation", "every set* of Element and Elements")],
     "online shadow-model monitor: random cache/data/query histories, each answer compared with a cacheless twin and with the reference model",
     "Every answer is compared with a cache-free twin that receives the same data updates (1e-9 relative). Histories are sampled.",
     [("coefficient cache", "coefficients per energy of an element", "Element::muTotalCache"), ("escape cache", "escape ratios per detector composition and energy", "Elements::escapeCache")])
prop("C06", "c06_math.py", "Special functions are accurate over their whole domain",
     "The exponential integral and the integrals built on it that describe enhancement inside a layer and between layers agree with their mathematical definition to the accuracy of the published approximations, for every positive or negative argument in the domain and across the borders of the approximation intervals. The error functions and the detector resolution follow their definitions, and arguments outside the domain are rejected.",
     ["inputs"], "all finite arguments of the functions, including interval borders, and all combinations of attenuation coefficients, thicknesses and intermediate layers",
     TESTS + "no numeric value of these functions is checked.",
     ["math"],
     [("E1, En, exp(x)E1(x)", "Math::E1, En, deBoerD, AS_5_1_53, AS_5_1_56"), ("enhancement integrals", "Math::deBoerL0, deBoerV, deBoerX"), ("resolution", "Math::getFWHM"), ("error function", "Math::erf, erfc")],
     "numeric oracle (scipy/mpmath and quadrature) over dense random and border arguments on the sanitized build",
     "Compared with scipy's exponential integrals, direct quadrature of the defining integrals and identities; tolerances are the documented 1e-7 class accuracy of the rational approximations.")
prop("C07", "c07_shells.py", "Shell relaxation data: normalised, complete, faithful to input",
     "Whatever transition and constant tables a shell is given, its radiative and non-radiative ratios are returned normalised to their sum with nothing lost, its fluorescence ratios are the emission probabilities times the fluorescence yield, and its Coster-Kronig, Auger and direct transfer ratios follow from the non-radiative table and constants. Probabilities derived this way stay consistent: they are non-negative and the yields, Coster-Kronig and Auger parts add up as defined.",
     ["inputs", "histories"], "all tables of transitions and constants for all nine shells, set in any order and replaced any number of times",
     TESTS + "no shell ratio is checked.",
     ["shell"],
     [("normalisation", "Shell::setRadiativeTransitions, setNonradiativeTransitions, _setTransitionData"), ("ratios", "Shell::getFluorescenceRatios, getAugerRatios, getCosterKronigRatios, getDirectVacancyTransferRatios"), ("constants", "Shell::setShellConstants, getShellConstants")],
     "reference-model monitor over random shell data histories on the sanitized build",
     "Independent Python model of the definitions, compared at 1e-9; random data and the shipped tables.")
prop("C08", "c08_cascade.py", "Vacancy cascade and emitted X-ray lines conserve vacancies",
     "Starting from any distribution of vacancies, the cascade moves each vacancy outwards with exactly the probabilities of the shell data, so that every deeper vacancy contributes to each outer shell through all its paths and nothing is created or lost. The X-ray lines produced carry an energy equal to the difference of the binding energies of the shells involved and a rate equal to the vacancies times the emission probability, with and without cascade and yield.",
     ["inputs"], "all elements, all vacancy distributions, with and without cascade and yield correction, shipped and user-given shell data",
     TESTS + "no cascade is computed.",
     ["element", "shell"],
     [("cascade", "Element::getCascadeModifiedVacancyDistribution"), ("lines", "Element::getXRayLinesFromVacancyDistribution, getEmittedXRayLines, getTransitionEnergy")],
     "reference-model monitor of every line's energy and rate",
     "Independent Python model; conservation checked directly on the answers; 1e-9 relative.")
prop("C09", "c09_excitation.py", "Photoelectric vacancies and excitation factors per absorbed photon",
     "For every element and energy the initial vacancies are the shell shares of the photoelectric coefficient: they are non-negative, add up to at most one, and a shell whose edge is above the energy gets none. Excitation factors combine these vacancies, the cascade, the yields and the photoelectric coefficient, scale linearly with the weight given to each energy, and are the same whether energies are asked for one by one or together.",
     ["inputs"], "all elements of all data sets, all energies (in particular on and around the edges), all weights",
     TESTS + "no excitation factor is computed.",
     ["element", "elements"],
     [("vacancies", "Element::getInitialPhotoelectricVacancyDistribution"), ("factors", "Element::getExcitationFactors, Elements::getExcitationFactors"), ("excited shells", "Element::getExcitedShells")],
     "reference-model monitor plus conservation invariants on answers",
     "Independent Python model over the generated and shipped tables; 2e-9 relative.")
prop("C10", "c10_attenuation.py", "Element attenuation coefficients interpolate the tables exactly",
     "For every element and energy the coefficients are the tabulated values at tabulated energies and the log-log interpolation between the two neighbouring points otherwise, never interpolating across an absorption edge. The photoelectric coefficient is the sum of its shells, the total is the sum of photoelectric, coherent, Compton and pair parts, a shell contributes nothing below its edge, and asking for several energies gives the same numbers as asking one by one.",
     ["inputs"], "all elements, energies from below the first to above the last tabulated one, default, compatible, custom and user-supplied tables",
     TESTS + "no coefficient is checked.",
     ["element", "epdl97", "elements"],
     [("interpolation", "Element::getInterpolationIndices, calculateMassAttenuationCoefficients, extractEdgeEnergiesFromMassAttenuationEnergies"), ("partials", "EPDL97::getPartialPhotoelectricMassAttenuationCoefficients, Element::setPartialPhotoelectricMassAttenuationCoefficients")],
     "reference-model monitor plus additivity/edge invariants on every answer",
     "Independent Python model, compared at 2e-9; energies within 2e-5 of an edge (except exactly on it) are not compared.")
prop("C11", "c11_mixture.py", "Compound attenuation is the mass-weighted sum of its elements",
     "The attenuation coefficients of an element, formula, registered material or composition are, at every energy and for every component of the coefficient, the sum of the elements' coefficients weighted with their normalised mass fractions. The result does not depend on the scale of the amounts, on how the mixture is named or nested, or on whether energies are given singly or in a list, and something that cannot be resolved is rejected.",
     ["inputs"], "all compositions (names, formulas, nested materials, maps), all energies, scalar and list forms",
     TESTS + "no compound coefficient is checked.",
     ["elements", "layer"],
     [("mixture rule", "Elements::getMassAttenuationCoefficients (name, map, vector and scalar forms)"), ("composition resolution", "Elements::getComposition")],
     "reference-model monitor and metamorphic relations (scaling, nesting, merging)",
     "Independent model at 2e-9 plus model-free relations between answers of the library.")
prop("C12", "c12_datafiles.py", "Loaded data files are reproduced faithfully",
     "Every number of the binding energy, cross section, radiative, non-radiative and constants files that are loaded, at construction or afterwards, appears unchanged (up to the documented normalisation) in what the library answers for the element and shell it belongs to. Replacing one file affects only what that file describes, the file in use is reported, and a file that is not acceptable leaves the data in use as it was.",
     ["inputs", "histories"], "all well-formed data files of the supported formats, loaded in any order, and all rejected ones",
     TESTS + "no loaded value is compared with its file.",
     ["elements", "epdl97", "simplespecfile"],
     [("file loading", "Elements::initialize, setShellConstantsFile, setShellRadiativeTransitionsFile, setShellNonradiativeTransitionsFile, setMassAttenuationCoefficientsFile"), ("cross sections", "EPDL97::setDataDirectory, loadData, setBindingEnergies")],
     "round-trip monitor: generated files are loaded and every number compared with an independent parse",
     "Files are generated by the check (random values, column orders, element subsets) and parsed independently.")
prop("C13", "c13_usermu.py", "User-supplied attenuation coefficients are used, others untouched",
     "After a user supplies mass attenuation coefficients for an element, its coherent, Compton and pair values follow the supplied table, and each shell whose edge the table shows (every shell if it shows none) receives the share of the supplied photoelectric coefficient that the reference data assign to it, with vacancies, excitation and mixtures following consistently. No other element changes, and tables of inconsistent length or order are rejected without effect.",
     ["inputs", "histories"], "all elements, all supplied tables, any number of successive replacements",
     TESTS + "the operation is never called.",
     ["elements", "element"],
     [("update", "Elements::setMassAttenuationCoefficients"), ("re-partition of the photoelectric part", "Element::setMassAttenuationCoefficients, setPartialPhotoelectricMassAttenuationCoefficients")],
     "reference-model monitor over update histories, untouched elements compared bit by bit",
     "Independent model at 1e-8; successive updates and rejected ones interleaved with queries.")
prop("C14", "c14_formula.py", "Chemical formulas are parsed exactly or refused",
     "Every well-formed chemical formula (symbols, integer or decimal amounts, nested groups with multipliers, repeated elements) yields exactly the atoms it denotes, and mass fractions that are those atoms weighted with the atomic masses and add up to one. Anything else yields an empty result, and never a partial or wrong one.",
     ["inputs"], "all strings",
     TESTS + "no formula is parsed.",
     ["elements"],
     [("parser", "Elements::parseFormula"), ("mass fractions", "Elements::getCompositionFromFormula"), ("number reading", "Elements::stringToDouble")],
     "differential oracle: independent formula parser over generated, real and mutated strings",
     "Independent grammar-based parser; amounts written with up to 17 digits; nesting depth up to 12.")
prop("C15", "c15_composition.py", "Material names resolve to one normalised composition",
     "The composition of a name is that of the chemical formula it spells, otherwise that of the additional materials given with the query, otherwise that of the registered material, with nested materials replaced by their own composition in proportion, and it adds up to one. Resolution always terminates: a name that is unknown, contains an unknown part or refers to itself yields an empty result.",
     ["inputs", "histories"], "all registries of materials (including nested and circular ones), all additional lists, all names and compositions asked for",
     TESTS + "no nested material is resolved.",
     ["elements", "material"],
     [("resolution", "Elements::getComposition (three forms)"), ("cycle detection", "Elements nested composition helpers"), ("normalisation", "Material::setComposition")],
     "reference-model monitor over random registries with nesting and cycles",
     "Independent recursive resolver; depth up to 8; termination by confirmed time-out.")
prop("C16", "c16_registry.py", "The material registry behaves as a named collection",
     "After any sequence of adding, replacing, recomposing and removing materials, exactly the materials last accepted are listed, each retrievable under its name with the composition, density, thickness and comment last given to it. Adding an existing name without permission to replace, an invalid density, thickness or amount, or removing or recomposing an unknown name is rejected without effect.",
     ["histories"], "all sequences of registry operations with valid and invalid arguments",
     TESTS + "the registry is not exercised beyond construction.",
     ["elements", "material"],
     [("registry", "Elements::addMaterial, removeMaterial, removeMaterials, getMaterial, createMaterial, setMaterialComposition"), ("validation", "Material::initialize, setComposition")],
     "model-based monitor: random operation sequences against a dictionary model, full state compared after every step",
     "The whole registry is read back after every operation.", [("registry", "list of materials", "Elements::materialList")])
prop("C17", "c17_beam.py", "A beam keeps every ray, sorted and normalised",
     "Whatever list of energies, weights, characteristic flags and divergences is given, the beam holds the same rays with each energy keeping its own weight, flag and divergence, ordered by energy, and weights normalised to add up to one. An omitted list means weight one, characteristic and no divergence for every energy and a single-valued list applies to all energies; a list of several values that has fewer than there are energies is rejected leaving the beam as it was.",
     ["inputs", "histories"], "all lists of rays, including unsorted and repeated energies and every length combination of the optional lists",
     TESTS + "only construction and one assignment are tested.",
     ["beam"],
     [("storing and normalising", "Beam::setBeam, normalizeBeam"), ("ordering", "Ray ordering")],
     "reference-model monitor over random ray lists",
     "Multiset comparison of rays, order by energy, weights at 1e-12.")
prop("C18", "c18_ttable.py", "Transmission tables interpolate between given points only",
     "A transmission table returns exactly the given value at each given energy, a value linearly interpolated between the two neighbouring points elsewhere, and the end values outside the range, and scalar and list queries agree. A repeated energy makes a step: the first value holds at the energy and the second from one milli-electronvolt above it. Tables with negative values, energies out of order or mismatched lengths, and attempts to rename or recomment, are rejected and leave the table unchanged.",
     ["inputs", "histories"], "all tables and all energies",
     TESTS + "a few points of one table are looked up.",
     ["transmissiontable"],
     [("storing", "TransmissionTable::setTransmissionTable"), ("look up", "TransmissionTable::getTransmission")],
     "reference-model monitor over random tables and probe energies",
     "Independent model at 1e-9, probes on, just beside and outside the points.")
prop("C19", "c19_layer.py", "Layer transmission follows the exponential attenuation law",
     "The transmission of a layer is exp(-mu rho t / |sin angle|), combined with its open area fraction, for every angle between -180 and 180 degrees and every composition, density, thickness and energy, so it decreases with thickness, stays between zero and one, and stacking two layers of one material equals one of the summed thickness. A composition given through a material is used, and its default density and thickness where the layer has none of its own, and layers without positive mass thickness are rejected when queried.",
     ["inputs", "histories"], "all layers, materials, energies and angles, scalar and list forms",
     TESTS + "layers are only instantiated.",
     ["layer", "material"],
     [("transmission", "Layer::getTransmission"), ("composition", "Layer::getComposition, setMaterial, setDensity, setThickness")],
     "reference-model monitor and metamorphic relations (stacking, monotonicity)",
     "Independent model at 1e-9 plus relations on the answers.")
prop("C20", "c20_detector.py", "Detector geometry: solid angle and efficiency are consistent",
     "The fraction of the emission reaching the detector is the solid angle of a disc of the given diameter seen at the given distance from the emitting layer, counted from the reference layer along the exit direction; outside the sample it never exceeds one half and it falls with distance. Diameter and active area are two views of one quantity, without a diameter the fraction is one, and negative sizes, distances that are not positive and layers that do not exist are rejected without effect.",
     ["inputs", "configurations"], "all detectors, distances, diameters, areas, layer stacks, reference layers and exit angles",
     TESTS + "detectors are only instantiated.",
     ["detector", "xrf", "multilayer"],
     [("solid angle", "XRF::getGeometricEfficiency"), ("detector state", "Detector::setDiameter, setActiveArea, setDistance")],
     "reference-model monitor of the solid angle and detector state",
     "Closed form compared at 1e-9 over random setups.")
prop("C21", "c21_escape.py", "Escape peaks: energies, intensities and intensity threshold",
     "For every detector composition, photon energy and incidence angle, each escape peak lies at the photon energy minus the energy of a fluorescence line of a detector element that the photon can excite, with the escape probability of that line given by the analytical expression, corrected for the finite thickness when one is given. Exactly the lines whose probability exceeds the intensity threshold are listed, and cached answers equal computed ones.",
     ["inputs", "configurations"], "all detector compositions, energies, thresholds, angles and limits",
     TESTS + "no escape ratio is computed.",
     ["elements", "detector"],
     [("escape ratios", "Elements::getEscape"), ("detector", "Detector::getEscape, setMaximumNumberOfEscapePeaks, setMinimumEscapePeakEnergy, setMinimumEscapePeakIntensity")],
     "reference-model monitor of every peak",
     "")
prop("C22", "c22_primary.py", "Primary fluorescence follows the fundamental parameter equation",
     "For every sample, beam, filter and geometry the primary rate of each line in each layer equals the analytical integral over the layer depth of beam attenuation, excitation, emission and escape towards the detector, times the beam intensity left after filters. Its efficiency is the product of upper-layer, attenuator and detector terms at the line energy, and energy, mass fraction and threshold entries describe the line they are listed under.",
     ["inputs", "configurations"], "all multilayer setups: layers, beams, filters, user tables, attenuators, detector, angles and requested peaks",
     TESTS + "the test that computes fluorescence is not among the stable ones.",
     ["multilayer", "xrf", "layer", "elements"],
     [("primary term", "XRF::getMultilayerFluorescence"), ("efficiency", "XRF::getMultilayerFluorescence, getGeometricEfficiency")],
     "reference-model monitor of every field of every line",
     "")
prop("C23", "c23_secondary.py", "Secondary fluorescence enhancement is complete and correct",
     "With enhancement requested, the secondary rate of each line equals the sum over all exciting lines of all elements (and the coherently scattered beam) of the same layer and of every layer above and below, each given by the analytical intra- or inter-layer integral in its thin, general or thick form, with each contribution listed under its element, line and layer. Only sources in a layer that gets less than 1e-4 of the beam the emitting layer gets are neglected, however strongly the emitting layer absorbs its own line. Enhancement never reduces a rate, and a source that cannot excite the requested shell contributes nothing.",
     ["inputs", "configurations"], "all multilayer setups with enhancement, including thick and thin layers and both directions of excitation",
     TESTS + "no enhancement value is checked.",
     ["multilayer", "math", "elements"],
     [("intralayer", "XRF::getMultilayerFluorescence with Math::deBoerL0"), ("interlayer", "XRF::getMultilayerFluorescence with Math::deBoerX"), ("selection of sources", "XRF::getMultilayerFluorescence")],
     "reference-model monitor of every secondary contribution",
     "")
prop("C24", "c24_totals.py", "Reported rates are assembled consistently from their parts",
     "The rate of each line is the sum of primary, secondary and, when requested, tertiary parts times the efficiency, reduced by exactly what is reported as its escape peaks, each of which carries the stated share of its parent at the shifted energy. Tertiary corrections follow from the secondary contributions and the enhancement of the exciting lines, and all reported values are finite and non-negative.",
     ["inputs", "configurations"], "all multilayer setups, with and without detector, escape, enhancement levels and mass fractions",
     TESTS + "no rate is checked.",
     ["multilayer", "xrf", "detector"],
     [("assembly", "XRF::getMultilayerFluorescence"), ("escape correction", "Detector::getEscape")],
     "conservation monitor over answers plus reference model",
     "")
prop("C25", "c25_requests.py", "Each request returns exactly what it names",
     "A request names an element, a line family and a layer in any of the accepted forms, and the answer contains exactly the excited lines of that family in exactly those layers, with the same numbers whether asked alone, together with other requests, or through the single-peak operation. Options for geometry, mass fractions and an explicit beam change only the factor they stand for, while incomplete requests, unknown elements and layers beyond the sample are rejected.",
     ["inputs", "configurations"], "all sets and orders of requested peaks, layers and options",
     TESTS + "no request is evaluated.",
     ["multilayer", "xrf"],
     [("request parsing", "XRF::getMultilayerFluorescence (vector of strings form)"), ("selection", "XRF::getMultilayerFluorescence (lists form)")],
     "metamorphic monitor: answers of equivalent and partial requests compared",
     "")
prop("C26", "c26_beams.py", "A polychromatic answer is the weighted sum of its energies",
     "For every setup, primary, secondary and escape-corrected rates under a beam of many energies equal the sum over its rays of the monochromatic answers weighted with the normalised intensities after filters. Reordering, splitting or merging rays of one energy changes nothing, and a filter acts exactly as scaling each ray with its transmission.",
     ["inputs", "configurations"], "all beams over all setups",
     TESTS + "no polychromatic answer is computed.",
     ["multilayer", "beam"],
     [("loop over rays", "XRF::getMultilayerFluorescence"), ("filters", "XRF::getMultilayerFluorescence beam filters")],
     "metamorphic monitor: superposition of monochromatic answers",
     "")
prop("C27", "c27_layers.py", "Splitting a layer or adding an inert one changes nothing",
     "Describing one homogeneous layer as several consecutive layers of the same material and the same total thickness leaves the primary rates reaching the detector, what the other layers give each other, and (within the accuracy of the integrals) the enhancement unchanged; exchanging neighbouring layers changes nothing in what all others give each other; and a layer without emission of interest below the sample changes nothing, on top of it exactly what a filter and an attenuator of the same material do. Naming a material by formula, by registered name or by an equivalent composition, or scaling density and thickness reciprocally, gives the same answer, and an attenuator equals the same absorbing factor applied to each line.",
     ["inputs", "configurations"], "all layered samples and all ways to describe the same sample",
     TESTS + "no equivalence of descriptions is tested.",
     ["multilayer", "layer", "elements", "material"],
     [("layer loop", "XRF::getMultilayerFluorescence"), ("composition of layers", "Layer::getComposition")],
     "metamorphic monitor: equivalent descriptions compared",
     "")
prop("C28", "c28_specfile.py", "Specfile reader returns exactly the file's scans",
     "For every well-formed specfile the number of scans, the labels of each scan and every number of each data row are those written in the file, in their order, whatever the line endings, the blank lines between scans, the comment lines, spacing and number notation. A scan index that does not exist, a scan without labels and rows of different length are rejected, and reading another file replaces everything of the previous one.",
     ["inputs", "histories"], "all well-formed specfiles and all scan indices",
     TESTS + "one two-scan file is read.",
     ["simplespecfile"],
     [("scan index", "SimpleSpecfile::setFileName"), ("labels and data", "SimpleSpecfile::getScanLabels, getScanData")],
     "round-trip monitor: generated specfiles",
     "")
prop("C29", "c29_ini.py", "Ini reader returns exactly the file's sections and values",
     "For every well-formed ini file the sections, including nested names, and the key-value pairs of each section are those written in the file, with comments ignored, continued values joined and section names matched with or without case as requested. Lists of numbers or texts are converted item by item without loss, an item that is no number or is empty giving the default asked for. Malformed section headers and unbalanced quotes are rejected, and reading another file replaces everything of the previous one.",
     ["inputs", "histories"], "all well-formed ini files, all section names, all value lists",
     TESTS + "the reader is only instantiated.",
     ["simpleini"],
     [("section scan", "SimpleIni::readFileName, readSection, getSubsections"), ("conversion", "SimpleIni::parseStringAsMultipleValues, parseStringAsSingleValue")],
     "round-trip monitor: generated ini files",
     "")
prop("C30", "c30_config.py", "A configuration file produces the setup it describes",
     "Reading a configuration file sets up the beam, filters, attenuators, sample layers, materials, detector and geometry with the values written in it, ignoring entries that are switched off, so that the resulting answers equal those of the same setup made through the programming interface. A later file replaces everything of an earlier one.",
     ["inputs", "histories"], "all configuration files of the supported layout",
     TESTS + "no configuration file is read.",
     ["xrfconfig", "xrf", "simpleini"],
     [("reading", "XRFConfig::readConfigurationFromFile")],
     "round-trip monitor: generated configurations, setup and answers compared with the directly configured twin",
     "")
prop("C31", "c31_atomic.py", "A rejected operation leaves everything as it was",
     "Whenever an operation that changes an object or the library is refused with an error, every later answer is exactly what it would have been had the operation not been attempted. This holds for all objects: beam, tables, shells, elements, library, materials, layers, detector and setups.",
     ["fault_sequences", "histories"], "all refused operations at any point of any history",
     TESTS + "a few rejections are tested, never the state afterwards.",
     ["beam", "transmissiontable", "shell", "element", "elements", "material", "layer", "detector", "xrf", "xrfconfig"],
     [("validation before assignment", "set*, add*, read* operations of all classes")],
     "state-snapshot monitor around provoked rejections",
     "")
prop("C32", "c32_python.py", "The Python binding returns what the C++ library computes",
     "Every call through the Python package gives the same numbers, names and structure as the C++ operation it wraps, for every accepted form of its arguments (text or bytes, scalars, lists, tuples, arrays, dictionaries) and with text returned as text. Errors of the library appear as Python exceptions and never end the interpreter.",
     ["inputs"], "all public Python methods and argument forms",
     TESTS + "the Python results are not compared with anything.",
     ["python/cython/PyElements.pyx", "python/cython/PyXRF.pyx", "python/cython/PyElement.pyx", "python/cython/PyBeam.pyx", "python/cython/PyLayer.pyx", "python/cython/PyDetector.pyx", "python/cython/PyTransmissionTable.pyx", "python/fisx/FisxCythonTools.py"],
     [("conversions", "FisxCythonTools.toBytes, toString and the wrapper methods"), ("exception translation", "except + declarations of the .pxd files")],
     "differential monitor: Python package against the C++ driver on the same calls",
     "")
prop("C33", "c33_families.py", "Peak families list exactly the excited shells",
     "For every element, formula, material or list of distinct elements and every energy, the list of peak families contains a shell exactly when the energy is above its binding energy and the shell emits, together with that binding energy, sorted by it. Nothing is listed twice or for an unknown element.",
     ["inputs"], "all elements, lists of elements and energies, in particular on both sides of each edge",
     TESTS + "no family list is checked.",
     ["elements", "element"],
     [("families", "Elements::getPeakFamilies"), ("excited shells", "Element::getExcitedShells")],
     "reference-model monitor with probes on both sides of every edge",
     "Independent model; energies at the edge and one ulp to each side.")

NOTE_DEFAULT = "Answers compared with an independent model or with equivalent queries, on randomly generated cases; the sanitizers of the build watch the same executions."


def main():
    props, checks, na = [], [], []
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        assert len(p["title"]) <= 80, p["title"]
        props.append({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                      "why_tests_cant": p["why"], "anchors": a})
        if os.path.exists(os.path.join(V, "checks", p["check"])):
            cmd = "python3-vt checks/" + p["check"]
            checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": "env VERIF_TIER=thorough " + cmd, "technique": p["technique"],
                           "level": "exploration", "level_note": p["note"] or NOTE_DEFAULT})
        else:
            na.append({"property": p["id"], "reason": "not claimed yet: its monitor is still being written"})
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in props:
            f.write(json.dumps(q) + "\n")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, f, indent=1)
        f.write("\n")
    print(len(props), "properties", len(checks), "claimed")


main()
