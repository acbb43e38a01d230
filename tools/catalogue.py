"""The properties, and how each is decided."""


def mech(*xs):
    return [{"name": a, "where": b} for a, b in xs]


def state(*xs):
    return [{"name": a, "meaning": b, "where": c} for a, b, c in xs]


PROPS = []


def prop(**k):
    PROPS.append(k)


prop(
    id="P02", title="Copies are complete, unaltered and independent",
    statement="Copying, assigning or cloning any object gives one that holds everything the original held, unaltered. "
              "Afterwards the two are independent: nothing done to one, including destroying it, is visible through the other, and a copy never refers back into its original. "
              "What a container documents as owning it copies in and copies deeply.",
    over=["programs", "histories", "configurations"],
    quant="every copy constructor, assignment operator and clone operation of every class, for every state the original can be in",
    why="The tests copy a handful of objects in one state and rarely look at each member or destroy the original first; a member forgotten in one of three copy paths shows only in a state they do not reach.",
    files=["src/dist/BinnedED.h", "src/dist/EDManager.cpp", "src/dist/BinnedEDManager.cpp", "src/dist/SpectralFitDist.cpp", "src/function/GaussianFitter.cpp", "src/function/VaryingCDF.cpp", "src/systematic/Convolution.cpp", "src/data/OXSXDataSet.cpp", "src/cut/CutCollection.cpp", "src/fitutil/FitResult.cpp"],
    mechanism=mech(("user-written copy constructors, assignments and Clone methods", "all class headers"), ("Clone of polymorphic functions and distributions", "src/function, src/dist")),
    observe=["getters and results of the copy", "getters and results of the original after the copy changes or dies"],
    technique="interprocedural member-flow analysis of every copy constructor, copy assignment and clone",
    note="Every written and generated copy operation is enumerated from the class definitions; for each, data flow decides that every member arrives unmodified, that owned objects are cloned rather than shared, and that no pointer into the source survives. Values inside containers are summarised.")

prop(
    id="P03", title="Everything allocated is released exactly once, and nothing borrowed is",
    statement="Whatever an object allocates is released exactly once: when the object dies, or when it is replaced, and never while something can still reach it. "
              "Objects handed in by a caller stay the caller's and are never released.",
    over=["programs", "histories"],
    quant="every member that can hold an allocated object, every operation that stores, replaces or releases one, every sequence of them, self-assignment included",
    why="A leak or double release changes no result a unit test compares, and shows only for particular histories (set twice, copy then destroy, assign to itself).",
    files=["src/dist/AnalyticED.cpp", "src/function/JumpPDF.cpp", "src/event/EventConvolution.cpp", "src/systematic/Convolution.cpp", "src/fitutil/ParameterManager.cpp", "src/cut/CutCollection.cpp", "src/dist/CompositeED.cpp", "src/fitutil/FitResult.cpp"],
    mechanism=mech(("destructors", "classes with owning pointers"), ("release-before-replace in setters and assignments", "same classes")),
    observe=["heap use", "use after release"],
    technique="ownership and must-release analysis over the control-flow graph",
    note="Allocation sites are followed to the members that keep them; destructors must release every such member on every path, replacing must release first, releasing must be followed by replacement, and released objects must not come from parameters. Aliasing beyond members, locals and containers is not tracked.")

prop(
    id="P04", title="Every object is fully defined from the moment it is made",
    statement="However an object is made, every one of its settings, counters and links has a definite value before anything can read it. "
              "No computation uses a variable that has not been given a value.",
    over=["programs", "configurations", "inputs"],
    quant="every constructor of every class, every member of fundamental, enumeration or pointer type, every local variable, every path",
    why="Indeterminate memory usually happens to be zero in a fresh test process, so tests pass by luck; only another history or allocator shows the difference.",
    files=["src/constraint/QuadraticConstraint.h", "src/teststat/TestStatistic.h", "src/teststat/BinnedNLLH.h", "src/optimise/MCMC.h", "src/systematic/Convolution.h", "src/dist/BinnedED.h", "src/optimise/GridSearch.h"],
    mechanism=mech(("constructor initialiser lists and default member initialisers", "all class headers")),
    observe=["getters and results of a newly made object"],
    technique="definite-assignment analysis of constructors and locals",
    note="Exhaustive over the constructors and locals of the source tree: must-write data flow on the control-flow graph (with callee bodies), with flag-consistent path refinement for locals.")

prop(
    id="P24", title="Every setting reads back exactly as it was set",
    statement="After a setting is given a value, reading it back returns exactly that value, on every path, whatever was set before; setting one thing never changes what another reads back as. "
              "A setting made for one name, dimension or index is stored and read for that same one. "
              "A value given at construction reads back from the new object.",
    over=["inputs", "histories", "configurations"],
    quant="every setter with a matching getter, every index or name, every earlier history",
    why="Tests read back a few settings with one value each; a setter that ignores some values, swaps two fields or only works the first time passes them.",
    files=["src/systematic/Convolution.cpp", "src/dist/BinnedEDShrinker.cpp", "src/optimise/MCMC.cpp", "src/optimise/Minuit.cpp", "src/histogram/Histogram.cpp", "src/teststat/TestStatistic.cpp", "src/event/Event.cpp"],
    mechanism=mech(("Set/Get pairs", "all public classes")),
    observe=["return values of getters"],
    technique="value-flow composition of every setter with its getter",
    note="Every Set/Get pair is found from the class definitions; the getter is interpreted abstractly in the state the setter leaves, and its result must derive from the setter's argument alone with no arithmetic, on every path.")

prop(
    id="P05", title="The parameter operations of an object agree with one another",
    statement="Every object with fit parameters reports the same parameters whichever way it is asked: the names, the count, the dictionary and the single value agree. "
              "A value set by name, or in bulk, is stored exactly, under exactly that name, whatever the number of parameters, and is what reads back. "
              "Renaming changes just the name. "
              "An object made of others hands each operation on to every one of them, unaltered, and returns just what they answer.",
    over=["inputs", "histories", "configurations"],
    quant="every class offering the parameter interface, every operation of it, every name, every value, every path",
    why="A fit drives every systematic and distribution only through this interface; tests use one or two parameters of a few classes, so an operation that reaches the wrong one, skips one or disagrees with its neighbour goes unseen.",
    files=["src/core/ParameterManager.cpp", "src/core/ComponentManager.cpp", "src/systematic/Scale.cpp", "src/systematic/Shape.cpp", "src/systematic/Convolution.cpp", "src/fitutil/BinnedEDManager.cpp", "src/dist/SpectralFitDist.cpp", "src/function/GaussianFitter.cpp", "src/teststat/StatisticSum.cpp"],
    mechanism=mech(("FitComponent implementations", "src/systematic, src/function, src/dist, src/fitutil, src/eventSystematic"), ("parameter registries", "src/core")),
    observe=["GetParameter(s), GetParameterNames, GetParameterCount after SetParameter(s) and RenameParameter"],
    technique="value-flow agreement of all operations of each parameter interface",
    note="For every class with the interface the stored names and values are identified from GetParameters by abstract interpretation; every other operation must read or write exactly those, on every path (must-execution), or hand on the same operation with the same arguments to the same components. Values inside containers are summarised by key, so distinctness of elements rests on the key argument.")

prop(
    id="P06", title="Unknown, missing and duplicate parameter names are refused",
    statement="Getting, setting or renaming a parameter under a name the object does not have fails with an exception and never creates the parameter. "
              "Bulk setting fails if the dictionary lacks one of the object's own parameters (function kernels that take what they know of a shared dictionary excepted) and ignores entries that belong to others. "
              "Renaming onto a name already kept in a parameter map is refused, so no parameter is lost.",
    over=["inputs", "histories"],
    quant="every class offering the parameter interface, every name, every path through its operations",
    why="Tests ask for names that exist. A mistyped or stale name must stop the fit rather than quietly leave a parameter at its old value or invent one.",
    files=["src/core/ParameterManager.cpp", "src/core/ComponentManager.cpp", "src/systematic/Scale.cpp", "src/systematic/Shift.cpp", "src/systematic/Shape.cpp", "src/systematic/ScaleFunction.cpp", "src/function/SquareRootScale.cpp", "src/eventSystematic/EventScale.cpp"],
    mechanism=mech(("name checks and at() lookups", "every SetParameter/GetParameter/RenameParameter")),
    observe=["exceptions thrown", "GetParameterNames afterwards"],
    technique="path-sensitive must-check analysis of name lookups",
    note="On every normal path the name must have been established as known: an equality or membership fact on an edge, a checked lookup, or handing on to a component that refuses it. Insertions into the name container must be under a name proven to be there.")

prop(
    id="P07", title="Every constraint adds exactly its documented penalty, once",
    statement="A constraint manager evaluates to the sum, over the constraints set on it, of each one's penalty at the given parameter values, every constraint counted once and on its own parameters. "
              "The penalty is (x-m)^2/(2 s^2) for a width (the upper width at or above the mean and the lower one below it, when two are given), its correlated two-parameter form for a pair, the same on the ratio, the fractional difference or a function of the parameters, and linear interpolation between bin centres for a histogram. "
              "Setting a constraint again replaces it alone; a parameter cannot be under a single and a pair constraint, or two pair constraints, at once.",
    over=["inputs", "histories", "configurations"],
    quant="every kind of constraint, every parameter value, every mean, width and correlation, every order and combination of settings",
    why="The tests check a few values of some kinds; the asymmetric sides, the cross term, near-zero denominators, replacement across kinds and the conflict rules are each one unsampled case away.",
    files=["src/constraint/ConstraintManager.cpp", "src/constraint/QuadraticConstraint.h", "src/constraint/BivariateQuadraticConstraint.h", "src/constraint/RatioConstraint.h", "src/constraint/FractionalConstraint.h", "src/constraint/ShapeConstraint.cpp", "src/constraint/ShapeInterpConstraint.cpp", "src/histogram/Histogram.cpp", "src/teststat/TestStatistic.cpp"],
    mechanism=mech(("SetConstraint overloads and Evaluate", "src/constraint/ConstraintManager.cpp"), ("penalty formulas", "src/constraint")),
    observe=["ConstraintManager::Evaluate", "exceptions raised by SetConstraint", "values of test statistics"],
    technique="value numbering to normal forms compared with the documented formulas",
    note="Each operation is turned into a term of its symbolic inputs by structured data flow over the syntax tree (no execution, no solver) and rewritten to a normal form; the term must equal the documented formula's. Interpolation is decided in 1 to 3 dimensions, replacement and conflicts for each pair of kinds. Rounding is not modelled.")

prop(
    id="P08", title="The binned likelihood equals its documented formula for what is set now",
    statement="BinnedNLLH::Evaluate returns the sum over all bins of expected minus data times the logarithm of expected, plus every constraint once, the expectation being the sum of the distributions each weighted by its own normalisation parameter (or by one where that is not fitted), in whatever order and status they were added. "
              "With buffer bins only the bins inside the buffers are compared, directly normalised distributions being renormalised over them, or the buffers' contents are collected in the nearest bin inside when used as overflows. "
              "With Barlow-Beeston each bin's expectation is scaled by the positive root of the documented quadratic and its penalty added. "
              "A constraint or systematic given to the statistic is one its managers then have, the two widths of an asymmetric constraint being the lower and the upper. The value depends only on the data, distributions, parameters and constraints set at that moment, not on earlier evaluations; without data, or with nothing expected in a bin, there is an exception instead of a value.",
    over=["inputs", "histories", "configurations"],
    quant="every content of the data and the distributions, every normalisation and constraint, every mixture of normalisation statuses, and every earlier evaluation",
    why="The statistic is what every fit minimises. Tests evaluate it for one configuration with fixed numbers; a wrong sign, a bin left out, a normalisation taken from its neighbour or a stale buffer changes every fit result and no test.",
    files=["src/teststat/BinnedNLLH.cpp", "src/fitutil/BinnedEDManager.cpp", "src/fitutil/BinnedEDShrinker.cpp", "src/dist/BinnedED.cpp", "src/histogram/Histogram.cpp", "src/constraint/ConstraintManager.cpp", "src/core/ComponentManager.cpp"],
    mechanism=mech(("BinnedNLLH::Evaluate", "src/teststat/BinnedNLLH.cpp"), ("weighting and shrinking of the distributions", "src/fitutil")),
    observe=["value of BinnedNLLH::Evaluate", "exceptions raised"],
    technique="value numbering to normal forms compared with the documented formula",
    note="A statistic is put together through its public interface on symbolic contents, normalisations and constraints, and its value is turned into a term by structured data flow over the syntax tree (no execution, no solver); the term's normal form must equal the formula's. Numbers of bins, dimensions and distributions are small and fixed; contents are arbitrary.")

prop(
    id="P09", title="Every value falls in exactly one bin, and bin numbers and positions agree",
    statement="A value lies in the bin whose low edge it reaches and whose high edge it does not; below the axis it counts in the first bin, above it in the last, whether the bins are equal or given by their edges. "
              "The bin of a point is made of the bins of its coordinates, each on the axis of that position, and numbering over all axes and taking the number apart again agree, the last axis running fastest. "
              "Edges, centres and widths of a numbered bin are those of its index on each axis; equal bins divide the range evenly and given edges are kept as they are. "
              "Two axes are equal exactly when all their edges are. "
              "Impossible binnings, a second axis of a name, unknown names, and bins, axes or lists of coordinates that do not fit are refused.",
    over=["inputs", "configurations"],
    quant="every value, every edge, every number of bins and axes",
    why="All filling, slicing, weighting and distorting goes through these numbers. Tests use a few equal bins with values well inside them and shapes where a swap of axes cannot be seen.",
    files=["src/histogram/BinAxis.cpp", "src/histogram/BinAxis.h", "src/histogram/AxisCollection.cpp", "src/histogram/Histogram.cpp"],
    mechanism=mech(("FindBin", "src/histogram/BinAxis.cpp"), ("FlattenIndices, UnflattenIndex", "src/histogram/AxisCollection.cpp")),
    observe=["FindBin, FlattenIndices, UnpackIndices, GetBin* of axes, collections and histograms", "exceptions raised"],
    technique="value numbering to normal forms compared with the documented geometry",
    note="Axes with symbolic edges are put together through the public interface; each operation is turned into a term by structured data flow over the syntax tree (no execution, no solver) and must equal the documented one. Shapes of one to four axes with one to six bins are enumerated; edges and values are arbitrary. Rounding is not modelled.")

prop(
    id="P10", title="Histogram arithmetic acts on exactly the bins it should",
    statement="Filling a histogram or binned distribution adds the weight to the bin of the point and to no other, whether by position, by axis name, for one value or from an event's observables. "
              "Scaling, adding (with a weight), multiplying, dividing, normalising, emptying and padding act on every bin alike and leave the other operand and the axes as they were; an integral is the sum of the contents, and between two values that of the bins from the one of the lower to the one of the upper. "
              "Contents set, added to and read for a bin are that bin's. The probability of a point is its bin's content over the integral; means and variances of a normalised histogram are those of its bin centres weighted by content. "
              "Histograms of different binning are not combined and neither changes; bins that are not there, contents of the wrong length and points of the wrong dimension are refused.",
    over=["inputs", "configurations"],
    quant="every content, weight and point, histograms of one to three dimensions with even and uneven bins",
    why="The tests fill and add a few histograms of one or two dimensions with fixed numbers; an operation that misses the last bin, scales the wrong operand or accepts a bin past the end passes them.",
    files=["src/histogram/Histogram.cpp", "src/dist/BinnedED.cpp", "src/histogram/AxisCollection.cpp", "src/data/Event.cpp"],
    mechanism=mech(("Histogram operations", "src/histogram/Histogram.cpp"), ("forwarding", "src/dist/BinnedED.cpp")),
    observe=["GetBinContents and the values returned", "exceptions raised"],
    technique="value numbering to normal forms compared with the documented operations",
    note="Each operation runs abstractly on symbolic contents, weights and points (structured data flow over the syntax tree, no execution, no solver); the resulting contents must equal the documented ones as normal forms. Shapes are small and enumerated; what is left behind by a refused operation is read in the state at the throw. Rounding and non-finite values are not modelled.")

prop(
    id="P11", title="Projections, slices and shrunk distributions hold exactly the right contents",
    statement="Projecting a histogram onto some of its axes, in any order, gives the contents summed over all the others; slicing gives the contents at the fixed bins over the remaining axes in their order; the result has just those axes and, for a distribution, those observables, and the original is left as it was. "
              "The lattice neighbours of a point are the bin centres on either side of it on each axis, with their contents. "
              "A distribution shrunk by buffers lacks the buffer bins of each axis; their contents are dropped or, as overflows, gathered in the nearest bin that is left, whatever map was made before. "
              "Axes and bins that are not there, an axis named twice, slicing away every axis, buffers as large as their axis and points without neighbours on both sides are refused.",
    over=["inputs", "histories", "configurations"],
    quant="every content, every choice and order of axes, every fixed bin, every buffer, histograms of one to four dimensions",
    why="The tests compare sums of contents, which a transposed slice or projection keeps, and shrink one axis; every mistake in mapping indices shows only with axes of different sizes.",
    files=["src/histogram/Histogram.cpp", "src/dist/BinnedED.cpp", "src/fitutil/BinnedEDShrinker.cpp", "src/histogram/AxisCollection.cpp"],
    mechanism=mech(("Marginalise, GetSlice, GetLatticePointValues", "src/histogram/Histogram.cpp"), ("SetBinMap and ShrinkDist", "src/fitutil/BinnedEDShrinker.cpp")),
    observe=["contents, axes and observables of the result", "exceptions raised"],
    technique="value numbering to normal forms compared with the documented index maps",
    note="Every bin's content is its own symbol, so the resulting contents show exactly which were summed where. The operations run abstractly (structured data flow over the syntax tree, no execution, no solver). Shapes are small, with axes of different sizes, and enumerated with every choice of axes; quick samples the fixed bins of slices, thorough takes all.")

prop(
    id="P12", title="Each detector systematic moves contents between bins exactly as documented",
    statement="A shift, scale or scale function moves to each bin the fraction of every shifted or scaled bin that overlaps it, along the axis of its own observable and no other; what leaves the axis is lost. "
              "A shape multiplies each bin by its function at the centre of the bin in its observables and at its present parameters, a renormalisation all bins by its factor. "
              "A convolution moves from each bin to every other the integral of the kernel over the latter, taken about the centre of the former, along its observables in their order. "
              "The response constructed follows the axes, observables and parameters set last, whatever was constructed before. "
              "Applying a systematic multiplies the contents by its response, gives their sum as the norm or else normalises, and leaves name, axes, observables and the original alone. "
              "Missing axes, functions or kernels, observables it cannot transform, factors not above zero, negative shape values and distributions of another size are refused.",
    over=["inputs", "histories", "configurations"],
    quant="every content, shift, factor, function value and kernel, axes of even, uneven and negative bins in one to three dimensions, every choice and order of observables, every earlier construction",
    why="Every fit with detector uncertainties rests on these matrices. The tests construct a few with fixed numbers, mostly on one axis; a wrong overlap, a transposed axis or a mapping kept from earlier axes shows only elsewhere.",
    files=["src/systematic/Shift.cpp", "src/systematic/Scale.cpp", "src/systematic/ScaleFunction.cpp", "src/systematic/Shape.cpp", "src/systematic/Renorm.cpp", "src/systematic/Convolution.cpp", "src/systematic/Systematic.cpp", "src/core/SparseMatrix.cpp"],
    mechanism=mech(("Construct of each systematic", "src/systematic"), ("applying a response", "src/systematic/Systematic.cpp"), ("matrix operations", "src/core/SparseMatrix.cpp")),
    observe=["GetBinContents of a distorted distribution, the norm", "exceptions raised"],
    technique="value numbering to normal forms compared with the documented responses",
    note="Systematics are set up through the public interface on symbolic contents and parameters and applied abstractly (structured data flow over the syntax tree, no execution, no solver); the distorted contents must equal the documented ones as normal forms. Shapes are small and enumerated. A shift or factor ranges over the intervals between the values at which an edge meets another, each decided for the whole interval; quick takes a part of those in several dimensions and of the ways a function can order its edges, thorough all of them. Kernel integrals and user functions stay uninterpreted.")

prop(
    id="P13", title="Groups of systematics act in order, each once, on just the distributions meant",
    statement="The total response of a group is the product of the responses of its systematics as they now are, the first added acting first; the systematics keep their own. "
              "A distribution is distorted from its original contents by the global group and then by its own groups in the order given; one that was given no groups is left alone, the originals always are, and the norms are the sums the distorted ones hold. "
              "Giving a distribution an unknown group, or a systematic twice, making global a systematic that is in a group, and asking for an unknown group are refused. "
              "Systematics and groups are counted and named as they were added.",
    over=["inputs", "histories", "configurations"],
    quant="every response, every content, groups and names in any order, any number of distributions with and without groups, repeated distortion",
    why="Responses do not commute, and which group reaches which distribution is bookkeeping by name; the tests use one or two groups and diagonal or equal responses, which hide the order.",
    files=["src/fitutil/SystematicManager.cpp", "src/core/SparseMatrix.cpp"],
    mechanism=mech(("Construct, DistortEDs, AddDist", "src/fitutil/SystematicManager.cpp"), ("matrix product", "src/core/SparseMatrix.cpp")),
    observe=["GetTotalResponse", "contents and norms after DistortEDs", "exceptions raised"],
    technique="value numbering to normal forms compared with the documented order of application",
    note="Managers are filled through the public interface with real systematics whose responses do not commute and hold symbols; total responses and distorted contents are turned into terms by structured data flow over the syntax tree (no execution, no solver) and must equal the documented products. Groups, distributions and orders are enumerated; names are not in alphabetical order.")

prop(
    id="P14", title="Events, data sets and cuts keep every observation under its own name and decide exactly",
    statement="An event gives each observation by its index and by its observable's name, and in the order any set of observables asks for; setting one changes that one only. "
              "A data set gives back its entries in the order they were added, named by its own observables, also after being copied, assigned, renamed or summed; a sum holds the entries of the first data set and then of the second and changes neither. "
              "The indices of a set of observables within another are the positions of its names there. "
              "A boolean cut passes the events whose observable has its value, a box cut those strictly between its limits, a line cut those strictly above (lower) or below (upper) its value. "
              "An event passes a collection of cuts when it passes all of them; the log counts it at the first cut it fails and nowhere else, and its remainders and percentages are those of its counts among all events. Copies of a collection keep their own cuts. "
              "Observations, entries, names and cuts that are not there, entries of another dimension and unknown sides of a cut are refused.",
    over=["inputs", "histories", "configurations"],
    quant="every observation, limit and value, every choice and order of observables and cuts, every sequence of additions, copies and sums",
    why="The tests read a few events with fixed numbers away from the limits; a cut that includes its limit, an observable looked up in the wrong order or a copy whose events still use the names of the original pass them.",
    files=["src/data/Event.cpp", "src/data/OXSXDataSet.cpp", "src/data/ObsSet.cpp", "src/cut"],
    mechanism=mech(("observations by name", "src/data/Event.cpp"), ("entries", "src/data/OXSXDataSet.cpp"), ("cuts and their log", "src/cut")),
    observe=["GetDatum, ToObsSet, GetEntry", "PassesCut, PassesCuts, the counts of the log", "exceptions raised"],
    technique="value numbering to normal forms compared with the documented operations",
    note="Events, data sets and cuts are set up through the public interface with a symbol for each observation, limit and value and interpreted abstractly (structured data flow over the syntax tree, no execution, no solver); what comes back must equal the documented terms and conditions for all values. Numbers of entries, observables and cuts are small and enumerated, names not in alphabetical order. Non-finite values are not modelled; equal names within one set are not covered.")

prop(
    id="P15", title="Events pass their systematics in order and are filled and counted exactly once",
    statement="An event shift adds its shift to, an event scale multiplies by its scale, the observable it is for; a reconvolution multiplies the distance of the smeared observable from the true one by its correction; all others and the event given stay as they were. Systematics act in the order they were added, each on what the one before left. "
              "Filling a distribution enters just the events that pass all cuts after the systematics, each once in its bin, the first of them when a number is given. "
              "A counting experiment observes the number of events of the data that pass; expects of each background its rate times the fraction of its events that pass, with that times the root of their number over their number as the error; and has as efficiency the fraction of signal events that pass, all after its systematics and however often it counts. The expectation is the sum of the rates and its error the root of the sum of their squares. "
              "Scales not above zero and negative corrections given to their setters, other parameter names, and observables the event does not have are refused.",
    over=["inputs", "histories", "configurations"],
    quant="every observation, cut value, rate, shift, scale and correction, every order of systematics and cuts, repeated counting",
    why="The tests apply one systematic to one event and do not test the counting experiment; a systematic applied after the cuts, or a rate divided by the wrong number of events, passes them.",
    files=["src/eventSystematic", "src/fitutil/EventSystematicManager.cpp", "src/dist/DistFiller.cpp", "src/count/CountingExperiment.cpp", "src/count/CountingResult.cpp"],
    mechanism=mech(("event systematics", "src/eventSystematic"), ("order", "src/fitutil/EventSystematicManager.cpp"), ("filling", "src/dist/DistFiller.cpp"), ("counting", "src/count/CountingExperiment.cpp")),
    observe=["the data of the resulting event", "contents of a filled distribution", "GetCountingResult", "exceptions raised"],
    technique="value numbering to normal forms compared with the documented operations",
    note="Whole chains (data set, systematics, cuts, distribution or experiment) are put together through the public interface on symbolic observations and interpreted abstractly (structured data flow over the syntax tree, no execution, no solver); contents and counts must equal the documented sums of indicators for all values. Numbers of events, cuts and systematics are small and enumerated. EventConvolution needs random numbers and is not covered.")

prop(
    id="P16", title="Distributions give events the documented probabilities, alone, multiplied and weighted",
    statement="A binned distribution gives an event the content of the bin the event is in, in the distribution's own observables, over its integral; an analytic one the value of its function at those observables in their order. "
              "A product gives the product of what its factors give, each in its own observables, whichever way it was put together, copied or normalised; its integral is that of its factors multiplied, its dimensions theirs added. "
              "A manager of distributions gives the sum of what each gives times its norm; one of binned distributions likewise for events and for bins, taking those whose norm is not fitted as they are. Norms may be set together, by name or from a dictionary, and the last setting counts. "
              "Bringing the distributions of a manager to given observables sums over the others and keeps the originals. "
              "Each bin of a spectral distribution is the parameter named after it. "
              "Events without the observables, distributions of another dimension and norms or statuses of the wrong number are refused.",
    over=["inputs", "histories", "configurations"],
    quant="every event, content and norm, every choice and order of observables, factors and distributions, every way of setting norms, copies made in between",
    why="The tests evaluate one or two distributions of one observable with equal norms; a norm given to its neighbour, a factor evaluated in the wrong observables or a norm kept from an earlier setting passes them.",
    files=["src/dist/BinnedED.cpp", "src/dist/AnalyticED.cpp", "src/dist/CompositeED.cpp", "src/dist/SpectralFitDist.cpp", "src/fitutil/EDManager.cpp", "src/fitutil/BinnedEDManager.cpp"],
    mechanism=mech(("probabilities", "src/dist"), ("weighted sums", "src/fitutil/EDManager.cpp"), ("norms that follow systematics", "src/fitutil/BinnedEDManager.cpp")),
    observe=["Probability, BinProbability, Integral", "GetParameter", "exceptions raised"],
    technique="value numbering to normal forms compared with the documented sums and products",
    note="Distributions, products and managers are put together through the public interface with symbolic contents, norms and observations and interpreted abstractly (structured data flow over the syntax tree, no execution, no solver); probabilities must equal the documented ones as normal forms for all values. Numbers of distributions, bins and observables are small and enumerated; names not in alphabetical order. The value of an analytic function is opaque here (see P17).")

prop(
    id="P17", title="Densities, kernels and scale functions have their documented values, integrals and parameters",
    statement="A Gaussian's value is the product of the normal densities of its dimensions; its integral over limits the product of the differences of their cumulative distributions, which are zero and one beyond the cut-off. "
              "A jump has the value of its density at the difference from where it starts and its integral over the limits moved there. "
              "A square-root scale is its gradient times the root of the absolute value of the first observable. "
              "A varying kernel is its kernel with each dependent parameter at the value its function has there. "
              "Means, deviations and gradients count as set last, directly, by name (every one of the name), after renaming or from a dictionary, which may hold more; copies keep their own. "
              "Deviations not above zero where means and deviations are given together, values and limits of another dimension, missing densities or kernels, and unknown parameters are refused.",
    over=["inputs", "histories", "configurations"],
    quant="every value, limit, mean, deviation, gradient and cut-off, one to three dimensions, every way of setting parameters, copies made in between",
    why="The tests evaluate a few points of one or two dimensions; a limit moved the wrong way, a parameter set in the function copied from or a size check that compares the wrong dimension passes them.",
    files=["src/function/Gaussian.cpp", "src/function/GaussianFitter.cpp", "src/function/JumpPDF.cpp", "src/function/SquareRootScale.cpp", "src/function/VaryingCDF.cpp"],
    mechanism=mech(("densities", "src/function/Gaussian.cpp"), ("parameters by name", "src/function/GaussianFitter.cpp"), ("conditional densities", "src/function/JumpPDF.cpp, src/function/VaryingCDF.cpp")),
    observe=["operator(), ConditionalProbability, Integral", "GetParameter, GetParameterCount", "exceptions raised"],
    technique="value numbering to normal forms compared with the documented formulas",
    note="Functions are set up through the public interface with a symbol for each mean, deviation, gradient and observation and interpreted abstractly (structured data flow over the syntax tree, no execution, no solver); values and integrals must equal the documented formulas as normal forms. The cumulative normal distribution of the library is one uninterpreted function. Dimensions are enumerated up to three (integrals up to two).")

prop(
    id="P18", title="A sum of statistics is the sum of its statistics and its own constraints",
    statement="The value of a sum of test statistics is the sum of the values of its statistics, each with its own constraints, and of the constraints given to the sum, each once, at the parameters set last, whether they were set through the sum or in a statistic. "
              "Its parameters are those of its statistics, each name once; setting them reaches every statistic that has the name. "
              "It is the same however the sum was put together: by +, from a list, one by one or from other sums. Adding to a sum by + leaves the sum added to as it was.",
    over=["inputs", "histories", "configurations"],
    quant="every number of statistics and of shared parameters, every way of putting the sum together, every constraint and every sequence of settings",
    why="Joint fits share parameters and constraints between data sets. The tests sum two or three statistics that return fixed numbers and share nothing.",
    files=["src/teststat/StatisticSum.cpp", "src/teststat/TestStatistic.cpp", "src/core/ComponentManager.cpp", "src/constraint/ConstraintManager.cpp"],
    mechanism=mech(("sum", "src/teststat/StatisticSum.cpp"), ("parameters of the components", "src/core/ComponentManager.cpp")),
    observe=["Evaluate, GetParameters, GetParameterNames, GetParameterCount"],
    technique="value numbering to normal forms compared with the documented sum",
    note="Sums of binned likelihoods over symbolic contents, data, norms and constraints are put together through the public interface and interpreted abstractly (structured data flow over the syntax tree, no execution, no solver); values must equal the documented sums as normal forms. Up to three statistics sharing none, some or all parameters.")

prop(
    id="P19", title="A grid search returns the best point of the whole grid",
    statement="The best fit of a grid search is the point with the smallest value of the statistic, or the largest when maximising, among all points of the grid: in each of its parameters the minimum and every step from it that is not past the maximum, in every combination, whatever the number of parameters. "
              "The extreme value is the value of the statistic there. A search starts afresh, whatever was searched before. "
              "Minima, maxima and steps of different parameters are refused, as is a statistic with parameters they lack.",
    over=["inputs", "histories", "configurations"],
    quant="every statistic, every number of parameters, minima, maxima and steps, maximising or minimising, repeated searches",
    why="No test runs the grid search. A corner left out or a row skipped gives a result that looks like a fit, and is wrong only when the optimum lies there.",
    files=["src/optimise/GridSearch.cpp", "src/optimise/FitResult.cpp"],
    mechanism=mech(("search and increments", "src/optimise/GridSearch.cpp"), ("result", "src/optimise/FitResult.cpp")),
    observe=["GetBestFit, GetExtremeVal of the result", "exceptions raised"],
    technique="value numbering to normal forms compared with the extreme over all grid points",
    note="Searches over a binned likelihood with symbolic contents are set up through the public interface and interpreted abstractly (structured data flow over the syntax tree, no execution, no solver) with the loops over the grid unrolled; the resulting extreme value and parameters are terms in the likelihood's values at the points and must equal the extreme over all of them, as normal forms or else under random interpretation of the symbols. Grids are enumerated, up to three parameters and eight points; step sizes are exact (rounding of accumulated steps is not modelled).")

prop(
    id="P20", title="Matrices hold, act and multiply exactly",
    statement="A sparse or dense matrix starts as zeros and holds at each row and column just what was last put there, one by one, together or as the triangle of a symmetric matrix; emptied it is zero, made the identity it is one on the diagonal and zero elsewhere, scaled every component is multiplied. "
              "Acting on a vector gives for each row the sum over the columns of component times entry. A product is the matrix product in the order written, with the rows of the first and the columns of the second; the operands of * and the right one of *= stay as they were. "
              "Rows and columns beyond the matrix, vectors and matrices that do not fit, numbers of components that do not agree and an identity that is not square are refused.",
    over=["inputs", "histories"],
    quant="every content of every small shape, square or not, whatever was set before",
    why="Every detector response is such a matrix; the tests multiply one or two of fixed content, square, and never look at the operands afterwards.",
    files=["src/core/SparseMatrix.cpp", "src/core/SparseMatrix.h", "src/core/DenseMatrix.cpp", "src/core/DenseMatrix.h"],
    mechanism=mech(("SparseMatrix and DenseMatrix components, action and products", "src/core")),
    observe=["SparseMatrix::GetComponent", "SparseMatrix::operator()", "SparseMatrix::operator*", "DenseMatrix::GetComponent", "DenseMatrix::SetSymmetricMatrix"],
    technique="gated value numbering of the matrix operations, armadillo's operations being interpreted, compared term by term with the formulae",
    note="Shapes up to 3x3 are enumerated, contents are unknowns. Armadillo itself is trusted and modelled.")

prop(
    id="P21", title="Views of histograms show all of them, and combinations and dictionaries are complete",
    statement="What is shown of a histogram or binned distribution are its projections onto each axis in order and, of three or more axes, onto each pair of axes once; its slices along an axis are one for each combination of bins of the other axes, that of the first of them changing fastest. "
              "Histograms made for names, or for pairs of names, are empty, over just those axes in that order, under the name or both joined by an underscore; filling them enters each once at the values of its own axes. All leave the original as it was. "
              "The pairs of a list are those of two different places, each once, and combinations of indices all those below the limits. A dictionary made of names and values gives each name its value; its names and values are those of its entries, values asked for come in the order asked, and a name it does not have is refused.",
    over=["inputs", "configurations"],
    quant="every histogram of one to four axes with any contents, every axis, every list of names",
    why="The one test of these makes empty histograms and compares two names; no projection, slice or combination is looked at.",
    files=["src/histogram/HistTools.hpp", "src/histogram/HistTools.cpp", "src/core/Combinations.hpp", "src/core/Combinations.cpp", "src/core/ContainerTools.hpp"],
    mechanism=mech(("HistTools projections, slices and sets", "src/histogram"), ("Combinations, ContainerTools", "src/core")),
    observe=["HistTools::GetVisualisableProjections", "HistTools::Get1DSlices", "HistTools::MakeAllHists", "HistTools::FillAllHists", "Combinations::AllCombsNoDiag", "ContainerTools::GetValues"],
    technique="gated value numbering of the functions and templates, compared term by term with sums over the original's contents",
    note="Contents are unknowns; one to four axes of uneven binning are enumerated. The templates are analysed in their instantiations for Histogram and BinnedED.")

prop(
    id="P22", title="Gradients, leapfrog steps and boundaries follow the energy given",
    statement="An energy is minus its test statistic at the parameters set, with the statistic's parameters; a soft boundary adds log(1 + exp(mu (minimum - x))) for each parameter with a minimum and log(1 + exp(mu (x - maximum))) for each with a maximum. "
              "A gradient is for each parameter the difference of the energy a small distance above and below the point, all else being as it is, over twice that distance; it leaves the point as it was. The kinetic energy is the sum of p^2 / 2m, masses being one until set. "
              "Leapfrog is a half step in momentum (-epsilon/2 times the gradient), then steps in position (epsilon p / m) and momentum in turn, with a last half step in momentum. With hard walls each of the steps has its own two half steps in momentum, and a coordinate between its walls that meets one is reflected there, its momentum turned and no other's, as often as that happens in a step.",
    over=["inputs", "configurations"],
    quant="every statistic of one to three parameters, every point, momentum, mass and step; with walls, chosen numbers of them",
    why="No test runs the Hamiltonian sampler or any of its parts; a wrong sign or a half step too many still yields a chain.",
    files=["src/optimise/LeapFrog.hpp", "src/optimise/LeapFrog.cpp", "src/optimise/Gradient.hpp", "src/optimise/SigmoidBoundary.hpp", "src/optimise/HMCEnergy.hpp", "src/optimise/HamiltonianSampler.hpp"],
    mechanism=mech(("LeapFrog, Gradient, SigmoidBoundary", "src/optimise"), ("HamiltonianSampler::KineticEnergy, HMCEnergy", "src/optimise")),
    observe=["LeapFrog::Hamiltonian", "Gradient::operator()", "SigmoidBoundary::Evaluate", "HamiltonianSampler::KineticEnergy"],
    technique="gated value numbering of the instantiated templates, compared term by term with the steps written out, the gradient being an uninterpreted function of the position",
    note="Walls are analysed by constant propagation at chosen exact numbers, since the number of reflections depends on them. A coordinate that is at rest, or starts on a wall, is not asserted.")

prop(
    id="P23", title="Limits and autocorrelations summarise what they are given",
    statement="The Bayesian upper limit of a one-dimensional posterior histogram is the value up to which its integral from the lowest edge, taken as linear within each bin, makes up the credibility level asked, whatever the histogram's normalisation and bin widths; the posterior passed stays as it was. An empty posterior, one of several dimensions and a level that is not between zero and one are refused. "
              "The level of a one-sided limit s on n counts observed over b expected is (P(n+1, b+s) - P(n+1, b)) / (1 - P(n+1, b)), P being the regularised incomplete gamma function. "
              "An autocorrelation calculator keeps the last so many values filled; its mean and variance (mean of the squares minus square of the mean) are of those, and its estimate at a lag is the sum, over the fills so far, of (newest - mean)(the value that many before - mean) over that of (newest - mean)^2, the mean being that of the values kept at that fill. Clearing it starts anew.",
    over=["inputs", "histories"],
    quant="every edge, value and count; chosen contents and levels of up to five bins; up to five fills",
    why="No test calls either class; a limit a bin off is still a plausible limit.",
    files=["src/interval/BayesIntervalCalc.cpp", "src/optimise/AutoCorrelationCalc.cpp", "src/optimise/AutoCorrelationCalc.h"],
    mechanism=mech(("BayesIntervalCalc", "src/interval"), ("AutoCorrelationCalc", "src/optimise")),
    observe=["BayesIntervalCalc::UpperBound", "BayesIntervalCalc::OneSidedUpperInterval", "AutoCorrelationCalc::Get", "AutoCorrelationCalc::Mean", "AutoCorrelationCalc::Var"],
    technique="gated value numbering of the functions, compared term by term with the definitions; the incomplete gamma function is uninterpreted",
    note="The search for the critical bin is analysed by constant propagation at chosen exact contents and levels, the edges being unknown. The search for a limit on counts at a tolerance is not asserted (its number of steps is not bounded).")

NOT_APPLICABLE = {}
