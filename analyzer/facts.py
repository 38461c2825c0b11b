"""Confirmed classification of the fields of the package's classes, and the
sweep shared by the rules."""
from __future__ import annotations

from .driver import Entry, entries, enum_entries, alternatives, option_alternatives, alt_name
from .summary import sweep
from .program import AnalysisBroken, mangle

# fields that hold user data
DATA = {
    "Signal": {"_Signal__time_data", "_Signal__time_data_imaginary"},
    "ImpulseResponse": {"_Signal__time_data", "_Signal__time_data_imaginary", "window"},
    "MultiBandSignal": {"_MultiBandSignal__bands"},
    "Filter": {"_Filter__ba", "_Filter__sos", "_Filter__zpk"},
    "FilterBank": {"_FilterBank__filters", "filters"},
    "Spectrum": {"_Spectrum__frequency_vector_hz", "_Spectrum__spectral_data", "coherence"},
    "MonopoleSource": {"emitted_signal", "coordinates"},
    "BasePoints": {"_coordinates"},
    "CalibrationData": {"calibration_signal"},
    "FilterChain": {"filters"},
    "BaseCrossover": {"_BaseCrossover__filters_synthesis"},
}
# fields that hold choices, metadata and processing state
SETTINGS = {
    "Signal": {"_Signal__amplitude_scale_factor", "_Signal__calibrated_signal", "_Signal__constrain_amplitude",
               "_Signal__sampling_rate_hz", "_spectrogram_parameters", "_spectrum_parameters", "activate_cache"},
    "MultiBandSignal": {"_MultiBandSignal__number_of_channels", "_MultiBandSignal__same_sampling_rate",
                        "_MultiBandSignal__sampling_rate_hz", "info"},
    "Filter": {"_Filter__sampling_rate_hz", "_Filter__warning_if_complex", "zi"},
    "FilterBank": {"_FilterBank__same_sampling_rate", "_FilterBank__sampling_rate_hz", "info"},
    "Spectrum": {"_Spectrum__frequency_vector_type", "_Spectrum__int_domain", "_Spectrum__int_edges",
                 "_Spectrum__int_scheme"},
    "CalibrationData": {"calibration_spl_db", "high_snr"},
    "LFO": {"frequency_hz", "oscillator", "random_phase", "smooth"},
    "MorletWavelet": {"b", "bounds", "interpolation", "scale", "step"},
    "Room": {"_Room__area", "_Room__volume", "absorption_coefficient", "critical_distance_m",
             "schroeders_frequency", "t60_s"},
    "ShoeboxRoom": {"absorption_coefficient", "detailed_absorption", "dimensions_m", "t60_s"},
    "BaseBeamformer": {"beamformer_type", "c", "mics", "signal"},
    "BeamformerGridded": {"grid", "st_vec"},
    "BeamformerDASTime": {"grid"},
    "Regular2DGrid": {"extent_dimensions", "original_lengths"},
    "Regular3DGrid": {"lines", "original_lengths"},
    "LineGrid": {"extent_dimension"},
    "SteeringVector": {"get_vector"},
    "BasePoints": {"dim", "ndim"},
    "ExponentialAverageFilter": {"decrease_coefficient", "increase_coefficient", "sampling_rate_hz", "state"},
    "FIRFilter": {"b", "current_state_ind", "order", "state"},
    "FIRFilterOverlapSave": {"blocksize", "buffer", "fir", "fir_spectrum", "total_length"},
    "FIRUniformPartitioned": {"blocksize", "buffer_ind", "buffer_index_helper", "buffer_spectra", "fft_size", "fir",
                              "input_buffer", "n_partitions", "partitioned_spectrum"},
    "FIRUniformPartitionedMultichannel": {"n_channels"},
    "FirDesigner": {"additional_length_samples", "ensure_integer_delay", "group_delay_increase_ms",
                    "sampling_rate_hz", "target_group_delay_s", "target_magnitude_response",
                    "time_data_length_samples", "trapezoidal_integration"},
    "PhaseLinearizer": {"group_delay_increase_factor", "phase_response"},
    "IIRFilter": {"a", "b", "order", "state"},
    "KautzFilter": {"coefficients_complex_poles", "coefficients_real_poles", "n_complex_poles", "n_real_poles",
                    "poles_complex", "poles_real", "sampling_rate_hz", "total_n_poles",
                    "_KautzFilter__filters_complex", "_KautzFilter__filters_complex_advance_sample",
                    "_KautzFilter__filters_real", "_KautzFilter__filters_real_advance_sample"},
    "LatticeLadderFilter": {"c", "iir_filter", "k", "n_channels", "sampling_rate_hz", "sos_filtering", "state"},
    "ParallelFilter": {"_ParallelFilter__fir_coefficients", "_ParallelFilter__sos", "delay_iir_samples",
                       "filter_bank", "fir", "fir_offset_samples", "iir", "iir_delay", "n_fir", "poles",
                       "sampling_rate_hz"},
    "StateSpaceFilter": {"A", "B", "C", "D", "x"},
    "StateVariableFilter": {"g", "intermediate_value", "n_channels", "resonance", "sampling_rate_hz", "state"},
    "WarpedFIR": {"N", "b", "buffer", "order", "sampling_rate_hz", "warp"},
    "WarpedIIR": {"a", "sigmas"},
    "Chorus": {"base_delays_ms", "depths_ms", "mix", "modulators", "number_of_voices"},
    "Compressor": {"attack_time_ms", "automatic_make_up_gain", "downward_compression", "knee_factor_db", "mix",
                   "post_gain_db", "pre_gain_db", "ratio", "relative_to_peak_level", "release_time_ms",
                   "threshold_dbfs"},
    "DigitalDelay": {"delay_ms", "feedback", "saturation_func"},
    "Distortion": {"_Distortion__distortion_funcs", "distortion_levels", "mix", "offset_db", "post_gain_db"},
    "SpectralSubtractor": {"ad_attack_time_ms", "ad_release_time_ms", "adaptive_mode", "block_length_s",
                           "noise_forgetting_factor", "overlap", "spectrum_to_subtract",
                           "subtraction_exponent", "subtraction_factor", "threshold_rms_dbfs",
                           "window_type"},
    "Tremolo": {"depth", "modulator"},
    "GammaToneFilterBank": {"_coefficients", "_delay", "_delays", "_frequencies", "_gains", "_normalizations",
                            "_phase_factors"},
    "LRFilterBank": {"center_frequencies", "channels_zi", "freqs", "info", "number_of_bands", "number_of_cross",
                     "order", "sampling_rate_hz", "sos"},
    "QMFCrossover": {"fir_filterbank"},
}
# everything else on these classes is a cached or derived result (spectra,
# update flags, time vectors, array geometry, modes, mixing time, maps)


def class_table(prog, table):
    """name of concrete class -> union of the table over its MRO"""
    out = {}
    for ci in prog.classes.values():
        s = set()
        for c in ci.mro():
            s |= table.get(c.name, set())
        out[ci.name] = s
    return out


def check_table(prog):
    """the named classes must exist; count of known fields still present"""
    names = {c.name: c for c in prog.classes.values()}
    present = 0
    for table in (DATA, SETTINGS):
        for cn, fs in table.items():
            if cn not in names:
                raise AnalysisBroken(f"class {cn} of the field table not found")
            allf = set(prog.fields(names[cn]))
            for sub in names[cn].all_subclasses():
                allf |= set(prog.fields(sub))
            present += len(fs & allf)
    return present


def sweep_all(ctx, subclasses=("ImpulseResponse",), enums=False, mkhooks=None, extra=None, select=None, opts=None,
              alts=True, selfcheck=True, options=None, plain=True, selfoptions=False,
              more=None):
    """Interpret every public operation once per kind of input.
    -> (own summaries, self-check summaries)"""
    prog = ctx.prog
    ents = entries(prog)
    if enums:
        ents = ents + enum_entries(prog)
    if select is not None:
        ents = [e for e in ents if select(e)]
    n_own = len(ents)
    if selfcheck:
        ents = ents + [Entry(f) for f in ctx.self_functions()]
    jobs = []
    for i, e in enumerate(ents):
        base = alternatives(prog, e, subclasses) if alts and not (e.cls and e.cls.is_enum) else [None]
        for r in base if plain or i >= n_own else []:
            jobs.append((i, r, dict(opts or {})))
        if (options and (i < n_own or selfoptions)) and not (e.cls and e.cls.is_enum):
            for r in option_alternatives(prog, e, base, pairwise=options in ("pairs", "all"),
                                         cap=160 if options == "pairs" else 4000):
                jobs.append((i, r, dict(opts or {}, option=True)))
        if more is not None and i < n_own:
            done = {alt_name(r) for j, r, _ in jobs if j == i}
            for r in more(prog, e):
                if alt_name(r) not in done:
                    jobs.append((i, r, dict(opts or {}, option=True)))
    res = sweep(prog, ents, jobs, mkhooks=mkhooks, extra=extra)
    failed = [(i, s) for i, s in res if isinstance(s, tuple)]
    for i, s in failed:
        if i >= n_own:
            raise AnalysisBroken(f"self-check example {s[0]} not analysable: {s[1]}\n{s[2]}")
    ctx.failed = [s for _, s in failed]
    for f in ctx.failed[:10]:
        print(f"note: operation not analysed: {f[0]}: {f[1]}")
    if len(failed) > 0.05 * len(res):
        raise AnalysisBroken(f"{len(failed)} of {len(res)} operations not analysable\n{failed[0][1][2]}")
    res = [(i, s) for i, s in res if not isinstance(s, tuple)]
    own = [s for i, s in res if i < n_own]
    stuck = [s for s in own if not s.normal and not s.option]
    n_plain = sum(1 for s in own if not s.option)
    if n_plain > 50 and len(stuck) > 0.03 * n_plain:
        raise AnalysisBroken(f"{len(stuck)} of {len(own)} operations have no normal exit, e.g. {stuck[0].id}")
    selfs = [s for i, s in res if i >= n_own]
    ctx.ents = ents[:n_own]
    ctx.selfents = ents[n_own:]
    return own, selfs


def coverage(own):
    fn = set()
    for s in own:
        fn |= s.functions
    return {
        "operations_analysed": len({s.id for s in own}),
        "operation_variants": len(own),
        "functions_reached": len(fn),
        "call_sites_interpreted": sum(s.n_callsites for s in own),
        "statements_interpreted": sum(s.n_stmts for s in own),
        "incomplete_operations": sum(1 for s in own if s.budget),
    }
