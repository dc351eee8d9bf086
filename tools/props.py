"""The one table from which properties.jsonl and MANIFEST.json are written:
   /opt/venv/bin/python tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, observe, technique, note, state=None):
    d = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": None,
        },
    }
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    PROPS.append((d, technique, note))


OPT = "exorad/models/optics/"
INS = "exorad/models/instruments/"
PIPE = "the existing tests that run the pipeline need a data file missing from the tree; those that run use one hand-written payload"

P(
    "C01", "Throughput of every channel is the product of its optics and detector",
    "For every payload, the transmission reported in each spectral bin of a channel is the product of the transmissions of all common and channel optical elements, resampled over that bin, and the quantum efficiency is that of its detector in the bin. An element transmits by its given number or table, only within its own wavelength range when one is given; slits and elements that declare no transmission let everything through, and a channel that asks for hard edges transmits nothing outside its wavelength range. The transmission that is listed for each element of the path, and for the path as a whole, is that of the element and that product.",
    ["inputs", "configurations"],
    "every payload with any number and order of optical elements (surfaces, dichroics, filters, lenses, slits, detector boxes), given by numbers, tables in memory or files, any channel type, wavelength range and working resolution",
    "a product of many arbitrary tables over arbitrary grids is not settled by a sampled payload; " + PIPE,
    [OPT + "opticalElement.py", OPT + "opticalPath.py", INS + "instrument.py", "exorad/models/utils.py"],
    [("transmission of one element", OPT + "opticalElement.py:_get_transmission"),
     ("transmission of the chain", OPT + "opticalPath.py:build_transmission_table"),
     ("channel table", INS + "instrument.py:_get_transmission, _get_qe, _get_efficiency, _force_channel_wl_edge")],
    ["the TR, QE and efficiency columns of the channel tables after preparing a payload", "the transmission table of the optical path of each channel"],
    "property-based testing against a reference model",
    "random payloads; every bin of every channel compared with an independent numerical model of the optical chain; cases the numerics leave undecided are set aside and counted",
)
P(
    "C02", "Thermal light of every optical element reaches the detector as physics says",
    "For every payload, each optical element emits as a grey body at its own temperature with the emissivity given as a number or in its table (one for a detector box and zero for anything else that gives none), attenuated by all the elements behind it and the detector efficiency, over the detector pixels of each bin, under the solid angle given by the user, or else that of the pixel, half space (pi) for a detector box and half space less the pixel's for an optics box. The sum of the elements is the instrument signal, and the brightest pixel of each is reported. A slit spreads the light of what lies before it over the slit's width and nothing else.",
    ["inputs", "configurations"],
    "every payload: any chain of elements, temperatures, emissivities, positions, solid angles, slit widths, pixel sizes, focal ratios and channel types",
    "the emission integrals depend on the whole chain and its order; " + PIPE,
    [OPT + "opticalPath.py", OPT + "opticalElement.py", "exorad/utils/diffuse_light_propagation.py", INS + "instrument.py"],
    [("radiance of a surface", OPT + "opticalPath.py:surface_radiance"), ("chain", OPT + "opticalPath.py:chain"),
     ("signal per bin", OPT + "opticalPath.py:compute_signal"),
     ("slit and integration", "exorad/utils/diffuse_light_propagation.py:convolve_with_slit, integrate_light")],
    ["instrument signal and brightest-pixel columns of channel tables, with and without the per-element columns"],
    "property-based testing against a reference model",
    "random payloads; each element's signal and brightest pixel per bin compared with an independent model of emission, attenuation, slit and pixel integration",
)
P(
    "C03", "Foregrounds contribute their own diffuse light and dim what is behind them",
    "For every payload and target, each foreground listed by the user adds, in every bin of every channel, the diffuse light of its own radiance through the foregrounds nearer to the observer, the optics and any slit, over the detector pixels, under the pixel solid angle. The signal of the target is attenuated by the product of the transmissions of all foregrounds. A payload with no foreground leaves the target unattenuated.",
    ["inputs", "configurations"],
    "every list and order of foregrounds (zodiacal, given by emission and transmission tables), every chain of optics and every target",
    "the order of any number of foregrounds and slits decides the result; " + PIPE,
    ["exorad/tasks/foregroundHandler.py", "exorad/models/foregrounds/skyForegrounds.py", INS + "instrument.py", "exorad/tasks/propagateLight.py"],
    [("chaining of foregrounds", "exorad/tasks/foregroundHandler.py:EstimateForegrounds"),
     ("diffuse light", INS + "instrument.py:propagate_diffuse_foreground"),
     ("sky transmission", INS + "instrument.py:_get_sky_transmission")],
    ["foreground signal, brightest-pixel and sky transmission columns of the table of an observed target"],
    "property-based testing against a reference model",
    "random foreground lists over random payloads; the columns of every foreground and the attenuated target compared with an independent model",
)
P(
    "C04", "The zodiacal light has the intended spectrum and the intended brightness",
    "The zodiacal radiance is, at each wavelength, the documented sum of a scattered and a thermal black body times one coefficient. That coefficient is the one set by the user, or, when a map is to be used and the target has coordinates, that of the map entry nearest on the sky to the target; when no map can be used it falls back to the coefficient the user set.",
    ["inputs", "configurations"],
    "every wavelength grid, coefficient, map and pointing, including right ascensions across zero and the poles",
    "the nearest entry on the sphere over any pointing is not settled by the two coefficients the tests check",
    ["exorad/models/foregrounds/zodiacalForeground.py", "exorad/tasks/foregroundHandler.py"],
    [("radiance", "exorad/models/foregrounds/zodiacalForeground.py:model"),
     ("map", "exorad/models/foregrounds/zodiacalForeground.py:zodiacal_fit_direction"),
     ("choice", "exorad/tasks/foregroundHandler.py:EstimateZodi")],
    ["the radiance returned by the zodiacal foreground", "the zodiacal columns of the table of an observed target"],
    "property-based testing against a reference model",
    "random coefficients, maps, pointings and grids compared with the analytic radiance and an independent great-circle search",
)
P(
    "C05", "The target's flux and signal on the detector conserve its light",
    "For every target and payload, the flux of the star in each bin is the integral of its sampled spectrum over the bin, and its signal is the number of photons collected by the telescope area in the bandwidth through the foregrounds and the whole throughput of the channel. The signal in the aperture is that signal times the fraction of the light in the aperture (the user's aperture correction, or else the enclosed energy asked for, or else all of it), the brightest pixel follows from the peak of the point spread function at each wavelength, and every bin is reported once, in the order of the channels.",
    ["inputs", "configurations"],
    "every star, spectrum, telescope area, channel type, point spread function, pixel and bin layout",
    PIPE + " and compares no number of the target signal with an independent one",
    [INS + "spectrometer.py", INS + "photometer.py", "exorad/tasks/propagateLight.py", "exorad/tasks/targetHandler.py", INS + "instrument.py"],
    [("spectrometers", INS + "spectrometer.py:builder, propagate_target"), ("photometers", INS + "photometer.py:builder, propagate_target"),
     ("table of the target", "exorad/tasks/targetHandler.py:UpdateTargetTable, EstimateMaxSignal")],
    ["foreground-attenuated flux, star signal, signal in aperture and brightest pixel columns of an observed target"],
    "property-based testing against a reference model",
    "random stars over random payloads; flux, signal, aperture and brightest pixel of every bin compared with an independent model",
)
P(
    "C06", "The star shines with the spectrum the user asked for",
    "A star asked for as a black body, from a library of models or from a file of the user's own is sampled, for every wavelength in range, with the black body of its temperature, with the library model nearest in temperature, gravity and metallicity, or with the file's spectrum, scaled to its size and distance. The spectral energy distribution, luminosity and description of the source that the target carries follow from that spectrum; a target lacking what its source needs is refused.",
    ["inputs", "configurations"],
    "every star (temperature, radius, mass, distance, metallicity), library content, custom file (units, order of wavelengths) and wavelength range",
    "the existing tests check two stars, and the one of the custom spectrum fails for lack of its file",
    ["exorad/models/source.py", "exorad/tasks/loadSource.py", "exorad/models/target.py", "exorad/utils/exolib.py"],
    [("choice of the source", "exorad/tasks/loadSource.py:LoadSource"), ("library", "exorad/models/source.py:Star"),
     ("custom", "exorad/models/source.py:CustomSed"), ("black body", "exorad/utils/exolib.py:planck")],
    ["the spectrum, luminosity and metadata of the star of a target with a loaded source"],
    "property-based testing against a reference model",
    "random stars, generated libraries of FITS models and generated spectra; spectrum, luminosity and metadata compared with a reference; incomplete targets have to be refused",
)
P(
    "C07", "The noise budget adds up from its stated parts",
    "For every channel, the noise reported for each source of light is the photon noise of its signal over one hour including the gain of the readout, dark current noise and read noise follow the detector and the window, and custom noises are those the user gave, for the payload or the channel, as numbers or by wavelength. The total noise relative to the star's signal in the aperture is the quadratic sum of these, the photon part raised by the channel's extra noise fraction, and each part is reported, whatever the names of the sources are. A custom noise that cannot be read is refused, not left out.",
    ["inputs", "configurations"],
    "every combination of signals, detector parameters, window sizes, frame times and custom noises",
    "the tests of the noise need a data file missing from the tree; a closed formula over arbitrary parameters is not settled by one instrument",
    ["exorad/models/noise.py", "exorad/tasks/noiseHandler.py"],
    [("photon noise", "exorad/models/noise.py:photon_noise, photon_noise_variance"), ("custom noise", "exorad/models/noise.py:add_custom_noise"),
     ("budget", "exorad/tasks/noiseHandler.py:EstimateNoiseInChannel")],
    ["the noise columns of the table of an observed target", "the noise columns of one channel from the noise task"],
    "property-based testing against a reference model",
    "every noise column recomputed from the signal, window and frame time columns of the same table, for random tables and through the whole pipeline",
)
P(
    "C08", "Frame times keep the detector below the limit and set the readout gains",
    "For every channel, the brightest pixel is the sum over all sources of light, each bin saturates when its brightest pixel fills the well, and the frame time is the one imposed by the user or else the fraction of the well asked for, over the fastest saturating bin of that channel alone. The gains applied to read and photon noise are those of reading up the ramp as many times as fit in the frame (at least twice), with the number of groups the user set.",
    ["inputs", "configurations"],
    "every brightness, well depth, fraction, imposed frame time, reading rate, number of groups and arrangement of channels in the table",
    "the tests of the noise need a data file missing from the tree",
    ["exorad/models/noise.py", "exorad/tasks/targetHandler.py", "exorad/tasks/noiseHandler.py"],
    [("timing", "exorad/models/noise.py:frame_time"), ("gains", "exorad/models/noise.py:multiaccum"),
     ("brightest pixel", "exorad/tasks/targetHandler.py:EstimateMaxSignal")],
    ["saturation time, frame time and brightest pixel columns of an observed target", "the two gains"],
    "property-based testing against a reference model and metamorphic relations",
    "random tables and detectors against the formulas; a nearer star must not saturate later; a frame must collect exactly the asked fraction of the well",
)
P(
    "C09", "Spectral bins, extraction windows and pixel grids follow the description",
    "For every channel, the bins are those the user asked for: of constant resolving power, or of the resolving power that the user tabulates against wavelength, from the lower to the upper edge or beyond it without gaps, the native pixels, or the single band of a photometer. The extraction window of each bin is the one that follows from the wavelength solution, the pixel, and the given window scale, number of pixels or enclosed energy.",
    ["inputs", "configurations"],
    "every wavelength range, resolving power, bin table, wavelength solution (in either direction), pixel size, window prescription and channel type",
    "the tests use one payload with two channels; bins and windows depend on the numbers in the description",
    [INS + "spectrometer.py", INS + "photometer.py"],
    [("bins", INS + "spectrometer.py:_wavelength_table"), ("pixels and windows of spectrometers", INS + "spectrometer.py:builder"),
     ("photometers", INS + "photometer.py:_wavelength_table, _windows_size")],
    ["wavelength, bandwidth, bin edges and window size columns, and the pixel grid kept with a built channel"],
    "property-based testing against a reference model",
    "random channels; bins, windows and pixel grids compared with an independent model, and tiling and resolving power checked directly",
)
P(
    "C10", "Point spread functions and apertures are sampled without losing light",
    "For every wavelength, focal ratios, pixel size and sampling, the image of a point source on the detector is the Airy pattern, or the image file given by the user (taken at its nearest wavelength from FITS images, interpolated in wavelength from PAOS outputs), convolved with the pixel's response. The aperture found for an enclosed energy collects that fraction of the image's light, to within the sampling of the image and on the scale on which it is sampled, for any fraction that the image can provide.",
    ["inputs", "configurations"],
    "every focal ratio, wavelength, pixel, sampling, image file (both formats) and enclosed energy",
    "the tests look at the default pattern for one focal ratio and need data files missing from the tree for the rest",
    ["exorad/utils/exolib.py", INS + "photometer.py", INS + "spectrometer.py"],
    [("images", "exorad/utils/exolib.py:load_standard_psf, binnedPSF, pixel_based_psf, paosPSF"),
     ("apertures", "exorad/utils/exolib.py:wl_encircled_energy, find_aperture_radius, encircled_energy")],
    ["the sampled image, its step and the aperture radius", "signals in aperture and brightest pixel of channels with image files"],
    "property-based testing against a reference model",
    "generated image files and parameters; images compared with an independent convolution, apertures with the exact overlap of ellipses and pixels",
)
P(
    "C11", "The solid angle seen by a pixel is that of the two focal ratios",
    "For every pair of focal ratios the solid angle subtended by the optics at the pixel is that of the cone with an elliptical (circular when they are equal) base, symmetric in the two, positive, below 2 pi, and decreasing with either ratio; omitting the second ratio means that it equals the first.",
    ["inputs"],
    "every pair of positive focal ratios, equal or not",
    "the tests never call it with two different ratios",
    ["exorad/utils/exolib.py"], [("solid angle", "exorad/utils/exolib.py:OmegaPix")],
    ["the returned solid angle"],
    "property-based testing against numerical integration",
    "random pairs compared with the direct integral over the aperture",
)
P(
    "C12", "Resampling a function on a new grid keeps its values, order and units",
    "Where the new grid is coarser than the samples, a resampled value is the average over the new bin, and where it is finer it is the linear interpolation; outside the samples it is zero. The result does not depend on the order in which samples are listed, is linear in them, carries their unit, works when the grids are in different length units, and leaves the inputs as they were.",
    ["inputs"],
    "every sampled function (dense, sparse, unsorted, any unit) and every increasing new grid",
    "the tests resample two functions",
    ["exorad/utils/exolib.py", "exorad/models/signal.py"],
    [("resampling", "exorad/utils/exolib.py:rebin"), ("of signals", "exorad/models/signal.py:spectral_rebin")],
    ["the resampled values, and the arrays passed in"],
    "property-based testing against a reference model and metamorphic relations",
    "random samples and grids; values against a reference, and relations (permutation, linearity, scaling of units, inputs kept)",
)
P(
    "C13", "Signals hold only quantities of the right kind and shape, in standard units",
    "Building a signal, a spectral energy distribution, a radiance or a count rate from wavelengths, values and times keeps the numbers exact, converted to the standard unit of that kind, with values of shape wavelengths by times. Values whose unit cannot be converted to the kind, or whose shape does not fit the axes, are refused.",
    ["inputs"],
    "every combination of units, plain numbers, arrays and shapes, valid or not",
    "the tests build a handful of signals",
    ["exorad/models/signal.py", OPT + "opticalPath.py", "exorad/models/noise.py"],
    [("units", "exorad/models/signal.py:check_quantities"), ("shapes", "exorad/models/signal.py:check_sizes")],
    ["what is built, or the exception"],
    "property-based testing against an explicit specification",
    "random valid and invalid constructions; values, units and shapes of what is built, or the refusal",
)
P(
    "C14", "A payload description means what its file says",
    "For every configuration file, each keyword becomes an entry with its number, boolean or text, its unit when one is given, its attributes and its nested keywords; repeated keywords are all kept in order, and tables and dictionaries referred to by file name are read from the configuration path, the one given at run time if any or else that of the file, with missing entries of plain tables as zero; a stored configuration takes the place of the options it is given with. A file that does not exist or is of another format is refused.",
    ["inputs", "configurations"],
    "every tree of keywords, attributes, units, repetitions and referenced files",
    "the tests load three fixed files",
    ["exorad/tasks/loadOptions.py"],
    [("parser", "exorad/tasks/loadOptions.py:LoadOptions.__parser__"), ("tables", "exorad/tasks/loadOptions.py:__read_datatable__, __read_datadict__")],
    ["the dictionary of options that is returned"],
    "property-based testing: generated descriptions whose meaning is known by construction",
    "random trees rendered as XML and compared with their meaning; referenced tables and dictionaries; refusals",
)
P(
    "C15", "Target lists are read completely, in order and in their units",
    "For every list of targets in any of the supported formats, each line becomes one target named after its planet, or its star when there is none, numbered in order, whose star and planet carry every column of the list with its value and unit and nothing that belongs to another line. Searching a name returns exactly the targets whose star or planet name contains it, whatever the case, blanks and dashes, and lists that cannot be read are refused.",
    ["inputs"],
    "every list: number of targets, columns and their order, units, formats and searched names",
    "the tests read one list of each format",
    ["exorad/models/targetlist.py", "exorad/tasks/targetHandler.py"],
    [("formats", "exorad/models/targetlist.py:CSVTargetList, CSVTargetListMRS, XLXSTargetList, QTableTargetList"),
     ("creation and search", "exorad/models/targetlist.py:create_target_list, searchTarget"), ("choice", "exorad/tasks/targetHandler.py:LoadTargetList")],
    ["the list of targets that is returned and the result of searching it"],
    "property-based testing: lists generated as values, written in each format and read back",
    "random lists in all four formats; every value, unit and name compared with what was written; random searches against a direct specification",
)
P(
    "C16", "What is stored in an output file is read back the same",
    "Every nested dictionary of numbers, booleans, texts, arrays, lists, quantities, tables with their metadata and objects that is stored in an output file is read back with the same keys, values, units and, for ordered dictionaries, the same order; what is written with the methods for each kind of value keeps the metadata given with it. Values of any other kind are refused when they are stored.",
    ["inputs"],
    "every nesting and combination of values, units, sizes and names",
    "the tests store two dictionaries",
    ["exorad/output/hdf5/hdf5.py", "exorad/output/hdf5/util.py", "exorad/output/output.py", "exorad/utils/util.py"],
    [("writing", "exorad/output/hdf5/util.py:store_thing"), ("tables", "exorad/output/hdf5/hdf5.py:write_table"),
     ("reading", "exorad/output/hdf5/util.py:recursively_read_dict_contents, load_table")],
    ["the file written and what is loaded from it"],
    "property-based testing: round trip",
    "random nested values written to a file and read back, compared value by value",
)
P(
    "C17", "A payload read back from an output file observes exactly as the built one",
    "For every payload, loading it from the output file it was stored in, or preparing it from the already loaded description, gives channel tables and observations of any target equal to those of the payload that was built from its description.",
    ["inputs", "histories"],
    "every payload and target, and every way of obtaining the payload: built, reloaded once or twice, from a file or from a dictionary",
    "no test observes with a reloaded payload",
    ["exorad/tasks/instrumentHandler.py", INS + "instrument.py", "exorad/output/hdf5/util.py", "exorad/utils/passVal.py"],
    [("reloading", "exorad/tasks/instrumentHandler.py:LoadPayload, PreparePayload"), ("of a channel", INS + "instrument.py:load, write")],
    ["tables of channels and observed targets"],
    "property-based testing: differential between built and reloaded payloads",
    "random payloads and targets; every column of every table compared between the two",
)

P(
    "C18", "An observation depends on nothing but its payload and its target",
    "Observing a target gives a result that is determined by the payload and that target: not by the other targets of the list, their order or number, the number of worker processes, payloads prepared or reloaded before or in between, earlier observations of the same target, steps of the observation run again one by one, or failures. A target that cannot be observed is left out of the results and changes nothing for the others, and the channels of the payload are left as they were.",
    ["histories", "inputs", "schedules"],
    "every sequence of preparing, reloading, observing, observing in lists with any number of processes, and failing, over any payloads and targets",
    "no test observes twice; state kept between observations shows only in histories",
    ["exorad/tasks/targetHandler.py", "exorad/utils/passVal.py", "exorad/models/target.py", "exorad/tasks/foregroundHandler.py", INS + "instrument.py"],
    [("observation", "exorad/tasks/targetHandler.py:ObserveTarget"), ("lists and processes", "exorad/tasks/targetHandler.py:ObserveTargetlist, pipeline_to_dict"),
     ("working resolution shared by all parts", "exorad/utils/passVal.py:PassVal")],
    ["tables of channels and observed targets after every step"],
    "stateful property-based testing against a clean process",
    "random histories over several payloads and targets; after each step every table equals that of the same payload and target in a process that has done nothing else",
    [("PassVal.working_R", "resolution of the working grids, kept by the class", "exorad/utils/passVal.py"), ("Target", "table, foregrounds and star kept by the target", "exorad/models/target.py")],
)
P(
    "C19", "A run of the command leaves exactly the results it was asked for",
    "The standard pipeline and the exorad command store, in the output file, the payload, every channel and every target that could be observed, each as it is when observed alone, and nothing left from before when the file is to be replaced; contributions of each optical element replace the sum when they are asked for. The output folder is created when it does not exist and gets copies of the payload and list, and figures and a log when they are asked for; no other file is written, and the inputs are left as they were, also when the output is the payload file itself.",
    ["inputs", "configurations", "histories"],
    "every payload and list, and combination of options: output file new, existing or that of the payload, full contributions, plots, processes, debug, log, description or stored payload",
    "the only test of the pipeline cannot run: it needs a file missing from the tree",
    ["exorad/exorad.py", "exorad/tasks/instrumentHandler.py", "exorad/models/target.py", INS + "instrument.py", "exorad/output/hdf5/hdf5.py"],
    [("pipeline and command", "exorad/exorad.py:standard_pipeline, main"), ("payload in the output", "exorad/tasks/instrumentHandler.py:PreparePayload"),
     ("targets in the output", "exorad/models/target.py:Target.write")],
    ["every file of the folders before and after a run, and the content of the output file"],
    "property-based testing: differential against observing each target alone",
    "random runs of the function and of the command with random options; folder contents and every stored table compared with observations made alone in a clean process",
)
P(
    "C20", "Channels are independent of each other and merge without loss",
    "Each channel of a payload, as built and as observed, is the one obtained from a payload that describes that channel alone, wherever it is listed. Merging tables keeps every row of every channel in the order of the channels with its values and units, filling with zero what a channel does not have, and changes no table that it is given.",
    ["inputs", "configurations"],
    "every number, order and mix of channels, and every set of columns and units of the merged tables",
    "the tests merge the channels of one payload",
    ["exorad/tasks/instrumentHandler.py", "exorad/tasks/noiseHandler.py", "exorad/tasks/propagateLight.py", "exorad/tasks/targetHandler.py"],
    [("building", "exorad/tasks/instrumentHandler.py:BuildChannels, BuildInstrument, GetChannelList"), ("merging", "exorad/tasks/instrumentHandler.py:MergeChannelsOutput")],
    ["tables of the channels, merged tables and tables of observed targets"],
    "property-based testing: metamorphic relations",
    "random payloads against the payloads of single channels; random tables merged and compared with what was given",
)
P(
    "C21", "Results do not depend on the units in which the inputs are written",
    "Writing any quantity of the payload, of its tables or of the list of targets in another unit of the same kind, with its number converted, gives the same bins, signals, noise and all other results.",
    ["inputs", "configurations"],
    "every quantity of every payload and target, in every equivalent unit",
    "the tests use one payload in one set of units",
    ["exorad/tasks/loadOptions.py", INS + "instrument.py", INS + "spectrometer.py", INS + "photometer.py", OPT + "opticalPath.py", "exorad/models/noise.py", "exorad/models/source.py"],
    [("reading of units", "exorad/tasks/loadOptions.py:LoadOptions.__parser__"), ("checks of units", "exorad/utils/util.py")],
    ["tables of channels and observed targets"],
    "property-based testing: metamorphic relation",
    "random payloads and targets written twice, in standard and in other units; every column compared",
)
P(
    "C22", "Tasks refuse unknown inputs and run with the inputs they are given",
    "A task called with an input it does not declare refuses it; otherwise each declared input has, while the task runs, the value given in that call, or the declared default when it is not given, whatever was given in earlier calls. The value returned is the output set in that very call.",
    ["inputs", "histories"],
    "every set of declared inputs and defaults, and every sequence of calls",
    "the tests make only a few calls of each task",
    ["exorad/tasks/task.py"],
    [("inputs", "exorad/tasks/task.py:Task")],
    ["the inputs seen by the task, the returned value or the exception"],
    "stateful property-based testing against a model",
    "random tasks and sequences of calls against a dictionary model; unknown inputs on every task of the package",
)
P(
    "C23", "Figures show the numbers of the table, for what was asked for",
    "The curves drawn for the signals, noise and efficiency of a target or payload have, for each channel, exactly the values of the table over its wavelength bins, and nothing of the table is changed by plotting. The exorad-plot command draws one figure for each target asked for by number, range or name and no other, in the folder asked for.",
    ["inputs"],
    "every table of channels and sources, and every selection of targets",
    "no test looks at what is drawn",
    ["exorad/utils/plotter.py"],
    [("figures", "exorad/utils/plotter.py:Plotter"), ("selection", "exorad/utils/plotter.py:parse_range, main")],
    ["curves of the figures made with matplotlib, and the files written"],
    "property-based testing: figures read back from matplotlib",
    "random tables and efficiencies plotted, and the curves compared with the numbers; random selections over random output files",
)
P(
    "C24", "The user is told of a newer version and only then",
    "When the change log published in the repository of the package announces a newer version than the one in use, the user is warned, with both versions and every entry of the versions newer than the one in use; when the one in use is the latest or later than any published, or nothing can be reached or answers in time, nothing is announced, nothing fails and the program goes on as if nothing had been asked. Only a forced check refuses to go on with an old version.",
    ["inputs"],
    "every change log, version in use and state of the network",
    "no test looks at the announcement, which needs a network",
    ["exorad/utils/version_control.py"],
    [("notice", "exorad/utils/version_control.py:VersionControl")],
    ["messages sent to the log, and the exception of a forced check"],
    "property-based testing against an explicit specification",
    "random change logs served by a stand-in for the network; the messages compared with the entries published since the version in use",
)
P(
    "C25", "Messages of a run reach the screen and the log file as asked",
    "A run announces every target of the list and warns of each that is skipped, and no other; the details of the observations are on the screen for every target in debug mode, and otherwise only errors are. A log file, when it is asked for, holds every message of the run in order, and after a run without debug mode messages are shown as before it. The messages shown can be chosen by level, silenced and restored at any time, and log files added, whatever was asked before.",
    ["inputs", "configurations"],
    "every list, with targets that can and cannot be observed, and combination of options",
    "no test looks at messages",
    ["exorad/log/__init__.py", "exorad/log/logger.py", "exorad/exorad.py", "exorad/tasks/targetHandler.py"],
    [("levels", "exorad/log/__init__.py:setLogLevel, disableLogging, enableLogging, addLogFile"), ("of each target", "exorad/tasks/targetHandler.py:pipeline_to_dict")],
    ["the stream of the screen and the log file"],
    "property-based testing against every message sent",
    "random runs; the screen and the file compared with all messages captured by a handler of the check",
)
P(
    "C26", "What is written tells the code and the version that wrote it",
    "A file tells in its attributes the program, the version of the installed package, its licence, authors and address, and the file name, the time and the libraries of the last time it was opened for writing; its information group tells those of its creation, and survives later additions, as does what others add to it. The table of each target tells the version and the names of target and star. The commands tell the version in their help and at each run, and importing the package tells the commit and branch of the checkout, or none when they cannot be known, never others, and never fails for it.",
    ["inputs", "histories", "configurations"],
    "every version and description of the package, state of its checkout, sequence of writings on a file, and run",
    "the tests never look at the attributes of a file, and know a single install",
    ["exorad/__init__.py", "exorad/__version__.py", "exorad/output/hdf5/hdf5.py", "exorad/tasks/targetHandler.py", "exorad/exorad.py", "exorad/utils/plotter.py"],
    [("file", "exorad/output/hdf5/hdf5.py:HDF5Output._openFile, add_info"), ("table", "exorad/tasks/targetHandler.py:PrepareTarget.add_metadata"), ("package", "exorad/__init__.py"), ("commands", "exorad/exorad.py:main, standard_pipeline; exorad/utils/plotter.py:main")],
    ["attributes and information group of the files, metadata of the tables, text of the help, messages, attributes of the package"],
    "property-based testing with generated installs, histories of files and runs",
    "copies of the package with generated metadata and git states imported in processes of their own; random sequences of openings against a model of the file; random runs",
)

P(
    "C27", "What cannot be used is refused, never read as something else",
    "A description, data table or list of targets that lacks something the observation needs, gives a quantity in units of another kind or a text for a number, names a class of channels that does not exist or a file that is not there, or is not whole, is refused with an error when it is prepared or observed: no results are made of it.",
    ["inputs", "configurations"],
    "every payload, table and target, and every way of spoiling one of its parts",
    "the tests only give sound descriptions",
    ["exorad/tasks/loadOptions.py", "exorad/tasks/instrumentHandler.py", "exorad/tasks/targetHandler.py", INS + "instrument.py", INS + "spectrometer.py", INS + "photometer.py", OPT + "opticalPath.py", OPT + "opticalElement.py", "exorad/models/noise.py", "exorad/utils/util.py"],
    [("reading", "exorad/tasks/loadOptions.py:LoadOptions.__parser__"), ("classes of channels", "exorad/tasks/instrumentHandler.py:BuildChannels"), ("units", "exorad/utils/util.py"), ("pipeline", INS + "instrument.py:Instrument"), ("times", "exorad/models/noise.py:frame_time")],
    ["the exception raised, or the table of the observation"],
    "property-based testing: fault injection in generated inputs",
    "random payloads and targets that can be observed, spoiled in one place chosen at random (keywords, columns, units, texts, files, classes); the sound one has to be observed, the spoiled one refused",
)

TECH = {}


def main():
    claimed = []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, tech, note in PROPS:
            f.write(json.dumps(d) + "\n")
            run = "/opt/venv/bin/python run_check.py %s --tier " % d["id"]
            claimed.append({
                "property": d["id"],
                "quick_cmd": run + "quick",
                "thorough_cmd": run + "thorough",
                "evidence_file": "evidence/%s.json" % d["id"],
                "technique": tech,
                "level": "exploration",
                "level_note": note,
            })
    m = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c 'import sys; sys.path.append(\"/opt/veriftools/pyvenv/lib/python3.12/site-packages\"); import hypothesis, astropy, h5py, photutils'",
        "checks": claimed,
        "not_applicable": [],
        "notes": "All checks run the code in /repo's working tree directly (pure Python: nothing to build). No hooks are needed.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
