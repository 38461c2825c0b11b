"""Authoring helper: writes /verif/properties.jsonl from the table below."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)
D = "dsptoolbox/"

prop("C01", "Public calls never modify the data of their arguments",
 "Calling a public function, constructor, setter or method never changes the contents of the arrays, lists, dictionaries, signals, filters, spectra or other objects the caller passed as arguments: samples, coefficients, container elements and their order are the same after the call as before. Only the object on which a method is called may change, and only its own data.",
 ["inputs", "configurations"], "every public function/method, every argument and every combination of options, on every non-raising path",
 "Tests use each function with a few option combinations and almost never compare the arguments before and after the call; an in-place operator on a view, a sort or a pop on a rarely taken branch is invisible to them.",
 [D+"standard", D+"transforms/transforms.py", D+"transfer_functions/transfer_functions.py", D+"distances/distances.py", D+"room_acoustics", D+"beamforming/beamforming.py", D+"classes", D+"effects/effects.py", D+"tools.py"],
 [("defensive copies before in-place work", "copy()/copy_with_new_time_data in every processing function"), ("setters that take ownership of arrays", D+"classes/signal.py Signal.time_data")])

prop("C02", "Analysis functions leave the settings of the objects they receive unchanged",
 "After any public function or method returns, every object passed to it as an argument has the same settings it had before: spectrum, spectrogram and cross-spectral parameters, smoothing and scaling choices, interpolation configuration, window, amplitude constraint, calibration flag, sampling rate and internal filter states. A setting that is changed temporarily is put back to its prior value before the call returns.",
 ["inputs", "configurations"], "every public function/method and every non-raising path through it, for every prior value of the settings",
 "A test would have to start from non-default settings and read them back after each function; the suite builds signals with the settings the function wants.",
 [D+"distances/distances.py", D+"transforms/transforms.py", D+"transfer_functions/transfer_functions.py", D+"room_acoustics/room_acoustics.py", D+"standard/gain_and_level.py", D+"beamforming/beamforming.py", D+"room_acoustics/_room_acoustics.py"],
 [("save/restore of parameter dictionaries", D+"transfer_functions/transfer_functions.py group_delay, spectral_deconvolve, compute_transfer_function"), ("working on copies", "signal.copy() before set_spectrum_parameters")])

prop("C03", "Reading, plotting, exporting and converting an object never changes it",
 "Getter, plotting, printing, saving, copying, analysis and conversion methods (for example obtaining a spectrum, a spectrogram, coefficients or a transfer function, or converting to another representation) leave the data and settings of the object they are called on exactly as they were. Calling such a method any number of times in any order gives the same results.",
 ["histories", "configurations"], "every history of read-only calls on an object, every option combination",
 "Tests call each read-only method once on a fresh object and look at its result, not at the object afterwards.",
 [D+"classes/signal.py", D+"classes/impulse_response.py", D+"classes/multibandsignal.py", D+"classes/spectrum.py", D+"classes/filter.py", D+"classes/filterbank.py", D+"room_acoustics/_room_acoustics.py", D+"beamforming"],
 [("prior-parameter save and restore around plots", D+"classes/signal.py plot_magnitude, plot_phase, plot_group_delay, get_csm"), ("copies handed to processing", D+"classes/multibandsignal.py collapse")])

prop("C04", "Cached spectral results are never stale",
 "For an object that caches derived results (spectrum, cross-spectral matrix, spectrogram of a signal; derived parameters of other objects), a getter called after any sequence of modifications through the object's setters and methods returns the value computed from the current data and current settings, exactly as if caching were switched off. Cached values cannot be altered through the arrays a getter handed out earlier.",
 ["histories"], "every sequence of public setters, channel operations, direct settings changes made by the library itself, and getters",
 "Caching is off by default and tests exercise one change followed by one getter; coherence is a property of all histories.",
 [D+"classes/signal.py", D+"classes/impulse_response.py", D+"classes/spectrum.py", D+"transfer_functions/transfer_functions.py"],
 [("update flags reset by every mutator", D+"classes/signal.py Signal.__update_state"), ("cache fill in getters", D+"classes/signal.py get_spectrum, get_csm, get_spectrogram")])

prop("C05", "Objects with different sampling rates are never silently combined",
 "Every public operation that combines two or more signals, spectra, filters, filter banks or a signal with a filter (appending, deconvolving, convolving, measuring distances, mixing, filtering, merging) compares their sampling rates and raises an error when they differ. No result is ever produced from objects with differing sampling rates, except where resampling or interpolation over a frequency axis in hertz is the documented purpose, where only a level is taken from one of them, or where the result adopts the rate of its only rated input.",
 ["inputs"], "every public operation receiving at least two objects that carry a sampling rate (including lists of them and an object plus its own rate), every path to a normal return",
 "Tests feed objects with equal rates; the few negative tests cover a handful of functions.",
 [D+"standard/appending.py", D+"transfer_functions/transfer_functions.py", D+"distances/distances.py", D+"room_acoustics/room_acoustics.py", D+"classes/filter.py", D+"classes/filterbank.py", D+"classes/multibandsignal.py", D+"filterbanks/_filterbank.py"],
 [("assertions on sampling_rate_hz at entry", "public two-object functions"), ("multichannel/multiband consistency checks", D+"classes/multibandsignal.py bands setter")])

prop("C06", "Invalid arguments are rejected before anything is computed",
 "Every precondition that the library enforces on the arguments of its public operations (allowed ranges, orders, matching lengths, channel counts and shapes, number of bands, types and formats) is enforced on every path: an argument outside the accepted range leads to an error and never to a result.",
 ["inputs", "configurations"], "every public function/method, every enforced precondition, every path to a normal return",
 "Negative tests exist for a few functions; most checks are never exercised and can be dropped, weakened or bypassed by a branch without any test noticing.",
 ["dsptoolbox"], [("assert / raise guards on parameters", "public functions and the helpers they call")])

prop("C07", "Every selectable option is supported or rejected, and options stay distinct",
 "For each parameter that selects among a closed set of options (method, mode, normalization, scaling, domain, filter or window kind, direction), each option is either implemented or rejected with an error, and two options that are documented as different are computed differently. An option never silently falls through to doing nothing or to the behaviour of another option.",
 ["configurations"], "every public function/method with an option-valued parameter or setting, and every member of the option set",
 "Tests try one or two members of each set; the number of (function, option) pairs is in the hundreds.",
 [D+"standard/enums.py", D+"classes/filter_helpers.py", D+"transfer_functions/enums.py", D+"generators/enums.py", D+"room_acoustics/enums.py", D+"beamforming/enums.py", D+"helpers/spectrum_utilities.py", D+"helpers/gain_and_level.py"],
 [("match statements and if/elif chains over enum members", "dispatchers in helpers and public modules")])

prop("C08", "Every public parameter influences the outcome",
 "For every public function, constructor and method, each parameter that is accepted influences the result, the state of the object or the side effect (plot, file, playback) that the call produces, unless it is documented not to apply to the chosen option; this holds for every kind of input object accepted (single-band and multi-band signals, impulse responses, filters and filter banks alike). In particular, when an operation is applied band by band, channel by channel or delegated to another function, the caller's parameters are passed along rather than replaced by defaults.",
 ["inputs", "configurations"], "every (public operation, parameter, accepted input kind) triple",
 "Tests check that calls with a parameter succeed, not that its value matters, and mostly use single-band signals.",
 ["dsptoolbox"], [("recursion over bands", D+"standard, " + D + "room_acoustics/room_acoustics.py"), ("delegation to backend functions", "_standard_backend, _room_acoustics, _effects, _filterbank")])

prop("C09", "Processing preserves the kind, sampling rate and settings of its input",
 "A public operation that returns a processed version of a signal, impulse response, multi-band signal, spectrum, filter or filter bank returns an object of the same kind, with the sampling rate of the input unless changing it is the purpose of the operation, and carries over the input's settings such as calibration state, amplitude-constraint choice and analysis settings. Every band of a multi-band input is processed.",
 ["inputs"], "every processing operation and every accepted input kind",
 "Tests compare samples of the default single-band case and rarely look at the metadata of the result.",
 [D+"standard", D+"classes/signal.py", D+"classes/impulse_response.py", D+"classes/multibandsignal.py", D+"transfer_functions/transfer_functions.py", D+"effects/effects.py"],
 [("copy_with_new_time_data / copy()", D+"classes/signal.py, " + D + "classes/impulse_response.py")])

prop("C10", "Results do not share storage with the inputs",
 "A signal, impulse response, multi-band signal, filter, filter bank or spectrum returned by a public operation, or constructed from caller-provided arrays, is independent of its inputs: it is not one of the argument objects and shares no mutable sample data, coefficients or settings with them. Changing the result later never changes the input and vice versa; containers built from member objects (multi-band signals, filter banks, chains) and getters of plain arrays are outside this guarantee.",
 ["histories"], "every public operation or constructor returning an object, and every later modification of input or result",
 "A test would have to modify each result in place and compare the input afterwards.",
 [D+"classes/signal.py", D+"classes/filter.py", D+"classes/filterbank.py", D+"standard", D+"transforms"],
 [("deep copies", "copy methods"), ("array ownership in setters", D+"classes/signal.py Signal.time_data")])

prop("C11", "Real-time processing keeps channels isolated and its state complete",
 "When a real-time filter or effect processes samples or blocks of one channel, only the state belonging to that channel is read or changed, so channels can be processed in any interleaving with the same result. Resetting the state or setting the number of channels (re)initializes every piece of per-stream state that processing changes.",
 ["histories", "schedules"], "every interleaving of channels and every history of processing calls and resets, for every real-time filter",
 "Tests process a single channel from a fresh filter; interleavings and resets in mid-stream are not explored.",
 [D+"classes/realtime_filter.py", D+"classes/filter.py", D+"classes/fir_filter_realtime.py", D+"classes/iir_filter_realtime.py", D+"classes/sv_filter.py", D+"classes/lattice_ladder_filter.py", D+"classes/kautz_filter.py", D+"classes/state_space_filter.py", D+"classes/exponential_average_filter.py", D+"classes/warped_filters.py", D+"classes/parallel_filter.py"],
 [("channel-indexed state arrays", "process_sample/process_block"), ("reset_state / set_n_channels", "every RealtimeFilter implementation")])

prop("C12", "Block-wise filtering carries its state from one block to the next",
 "When a filter or filter bank is asked to keep its state between calls, filtering a block starts from the state left by the previous block and stores the final state for the next one, for every channel and every internal representation of the coefficients. No block starts from a discarded, stale or foreign state.",
 ["histories"], "every sequence of blocks, every coefficient representation, every filter kind and channel count",
 "Tests activate state keeping and only check that the call succeeds.",
 [D+"classes/filter.py", D+"classes/filterbank.py", D+"classes/filter_helpers.py", D+"filterbanks/_filterbank.py"],
 [("zi arrays", D+"classes/filter_helpers.py _filter_on_signal, _filter_on_signal_ba"), ("stored zi", D+"classes/filter.py filter_signal")])

prop("C13", "No accepted call fails with an internal programming error",
 "For every combination of documented options, a public call either completes and returns its documented kind of result or raises a deliberate error about its arguments; it never fails because an internal variable is not defined, an internal function is called with wrong or missing arguments, an attribute does not exist, or a value is missing on some branch. Every public name announced by a module exists.",
 ["configurations"], "every path through every public operation and its helpers under every option",
 "Coverage by the tests is sampled; rarely used option combinations, plotting branches and multi-band branches are not executed.",
 ["dsptoolbox"], [("signatures, class attributes and assignments", "whole package")])

prop("C14", "Physical units are converted consistently",
 "Quantities documented in seconds, milliseconds, samples, hertz, decibels, linear gain, degrees and radians are never mixed: a value given in one unit is converted before it is used as another (time in seconds becomes a number of samples only by multiplication with a sampling rate, levels become gains only through an exponential, and so on), and amplitude-like and power-like quantities use the 20 log10 and 10 log10 conventions respectively. Percentages are divided by 100 before they scale anything.",
 ["inputs", "programs"], "every data flow between unit-carrying parameters, attributes and library calls",
 "A wrong unit often survives with test values for which it does not matter (0 s, 0 dB, unit gain) or when only shapes are checked.",
 ["dsptoolbox"], [("unit suffixes of parameters and attributes", "_s, _ms, _samples, _hz, _db, _linear, _degrees"), ("conversion helpers", D+"helpers/gain_and_level.py")])

prop("C15", "Library calls have no hidden global effects and are deterministic",
 "Apart from the audio-device configuration, playback, plotting and file-writing operations documented to do so, no public call changes process-wide or module-wide state: shared option members, default arguments, class-level data, library configuration or random generators' seeds. Apart from documented noise, dither, random-phase, reverberation and modulation generators, results are a deterministic function of the arguments.",
 ["histories"], "every history of public calls in one process",
 "Each test runs few calls in a fresh order; leaking state through shared members or mutable defaults shows only in particular sequences.",
 ["dsptoolbox"], [("immutable enum members and default arguments", D+"standard/enums.py"), ("who-may-call random generators", D+"generators/_generators.py, " + D + "standard/other.py")])

NA = [
("N01", "Spectra and spectrograms invert to the original signal", "Transforming a signal to its spectrum or short-time spectrum and back returns the same samples, for every length, window and overlap satisfying the documented conditions, within floating-point tolerance.", [D+"transforms/transforms.py", D+"classes/spectrum.py"]),
("N02", "Filter representations are numerically equivalent", "The same filter given as numerator/denominator, second-order sections or zeros/poles/gain, and each real-time structure designed from it, produces the same output and transfer function within floating-point tolerance.", [D+"classes/filter.py", D+"classes/lattice_ladder_filter.py", D+"classes/state_space_filter.py"]),
("N03", "Perfect- and magnitude-reconstruction filter banks reconstruct", "The sum of the bands of reconstruction filter banks equals the (delayed) input or has flat magnitude, for every signal and band layout.", [D+"filterbanks/_filterbank.py", D+"filterbanks/filterbanks.py"]),
("N04", "Deconvolution recovers the impulse response", "Deconvolving the response of a linear system to an excitation yields the system's impulse response within the regularized frequency range.", [D+"transfer_functions/transfer_functions.py"]),
("N05", "Room-acoustic descriptors match their definitions", "Reverberation times, clarity, definition, bass ratio and centre time agree with their ISO definitions within tolerance for every decay.", [D+"room_acoustics/room_acoustics.py", D+"room_acoustics/_room_acoustics.py"]),
("N06", "Loudness, level and crest-factor measurements are accurate", "Integrated loudness, true peak, RMS and crest factor agree with their standards for every signal.", [D+"standard/gain_and_level.py"]),
("N07", "Generated signals have the requested spectrum, level and length", "Noise, chirps, harmonics and oscillators have the requested duration, frequency content and peak level.", [D+"generators/generators.py"]),
("N08", "Beamforming maps peak at the true source position", "Each beamformer maps sources to their position and level within its resolution.", [D+"beamforming/beamforming.py"]),
("N09", "Resampling and fractional delay are band-limited and accurate", "Resampling and fractional delays preserve in-band content and delay by the requested amount within tolerance.", [D+"standard/resampling.py", D+"standard/latency_delay.py"]),
("N10", "Designed filters are stable and meet their specification", "Filters produced by the design routines are stable and have the specified response at their band edges.", [D+"filterbanks/filterbanks.py", D+"classes/filter_helpers.py"]),
]
WHYN = "Tests sample a handful of signals; the statement quantifies over all samples, lengths and parameter values."
for i, t, s, f in NA:
    prop(i, t, s, ["inputs"], "every signal, length, parameter value", WHYN, f, [("numerical algorithm", f[0])])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as fh:
        for d in P:
            assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
            fh.write(json.dumps(d) + "\n")
    print(len(P))
