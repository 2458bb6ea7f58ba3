"""Source of properties.jsonl and MANIFEST.json (run `python -m rtm.spec`)."""

import json
import os

I, H, C, F = "inputs", "histories", "configurations", "fault_sequences"


def P(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["dsptoolbox/" + f for f in files], mechanism=[dict(name=n, where="dsptoolbox/" + w) for n, w in mech], observe_at=observe, hook_needed=hook),
    )
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where="dsptoolbox/" + w) for n, m, w in state]
    return d


SIG = "classes/signal.py"
MB = "classes/multibandsignal.py"
IR = "classes/impulse_response.py"
FLT = "classes/filter.py"
FB = "classes/filterbank.py"
SP = "classes/spectrum.py"
TF = "transfer_functions/transfer_functions.py"

PROPS = [
    P("P01", "Processing never alters its inputs",
      "Calling a processing, analysis, conversion, design or plotting function leaves every signal, spectrum, filter, list, dictionary and array passed to it exactly as it was: data, settings and metadata read back afterwards are unchanged. The returned objects are independent: editing a returned signal, spectrum or array in place does not change any of the inputs. Only documented in-place methods (setters, add/remove/swap, set_..., filtering state) change an object, and then only the object they are called on.",
      [I, C], "For every public function and non-mutating method, all signal types (Signal, ImpulseResponse, MultiBandSignal, Spectrum), channel counts, complex data and option combinations.",
      "Tests look at the returned value only; hardly any compares the arguments before and after, and mutations need particular options (constrained amplitude, ndarray ranges, single band, early returns).",
      ["standard", "transforms", "transfer_functions", "distances", "room_acoustics", "effects", "filterbanks", "classes"],
      [("copy_with_new_time_data", SIG), ("copies before in-place numpy operations", "standard/_standard_backend.py")],
      ["arguments of every public call before and after", "shared memory between arguments and results"]),
    P("P02", "Reads always reflect the present data and settings",
      "Whatever was read, set, plotted or copied before, the spectrum, cross-spectral matrix, spectrogram, time vector and metadata read from a signal equal those of a freshly created signal with the same data and settings, with caching on or off. Plotting and reading leave the settings as they were.",
      [H, C], "All histories of reads, setter calls, data replacement, channel add/remove/swap, window changes, cache switching, copying and plotting on Signal and ImpulseResponse.",
      "Stale caches need a particular order of reads and writes with caching active; the tests perform single reads on fresh objects.",
      [SIG, IR, "classes/_multichannel_data.py"],
      [("update flags of the cached results", SIG), ("set_spectrum_parameters / property setters", SIG), ("set_window", IR)],
      ["get_spectrum", "get_csm", "get_spectrogram", "time_vector_s", "metadata"],
      [("cached spectrum, CSM and spectrogram with update flags", "must be dropped on every change they depend on", SIG)]),
    P("P03", "Channels are processed independently",
      "For every operation that acts per channel, processing a multichannel object gives in each channel what processing that channel alone gives, and permuting input channels permutes the output channels. A channel's content never leaks into another channel's result.",
      [I, C], "All channel-wise operations of signals, impulse responses, spectra, filters, filter banks, transforms, transfer functions, room acoustics, effects and real-time filters, for any number, order and content (including silent) of channels.",
      "Tests mostly use one- or two-channel data with similar channels and check shapes; leaking needs unequal channels compared one by one.",
      ["standard", "transforms", "transfer_functions", "classes", "effects", "room_acoustics"],
      [("vectorised numpy code over axis 1 and per-channel loops", "standard/_standard_backend.py")],
      ["time_data of outputs per channel"]),
    P("P04", "Saving, loading and copying preserve objects",
      "An object saved to disk and loaded again, or copied, is equal to the original in data, settings, metadata and behaviour: pickles exactly, audio files up to the quantisation of the chosen bit depth. A copy is fully independent: changing either object afterwards, including filter states and bands, does not affect the other.",
      [I, H, C], "Signal, ImpulseResponse, MultiBandSignal, Filter, FilterBank, Spectrum and calibration data in any state (cache, window, streaming state, complex data), every supported file format and bit depth.",
      "Tests save one default object per class and hardly compare the contents read back.",
      [SIG, MB, FLT, FB, SP, "standard/other.py", "helpers/other.py", "classes/calibration_data.py"],
      [("save_signal/save_filter/save_filterbank", SIG), ("load_pkl_object", "standard/other.py"), ("copy", FLT)],
      ["files on disk", "public attributes and results of the loaded object"]),
    P("P05", "Amplitude constraint keeps data in range and reversible",
      "A signal with constrained amplitude never holds a sample (real or imaginary) outside [-1, 1]; data inside the range is stored untouched, and otherwise all channels are scaled by one common factor so that dividing by the reported scale factor recovers what was assigned. A signal without the constraint stores exactly what it was given with a scale factor of 1, and operations keep the constraint setting of their input.",
      [I, H], "All real and complex data, all ways of bringing data into a signal (constructors, setter, adding channels, switching the constraint) and all derived signals.",
      "Tests check one normalising constructor call.",
      [SIG, IR, "classes/_multichannel_data.py", "standard/appending.py"],
      [("time_data setter", SIG), ("amplitude_scale_factor", SIG)],
      ["time_data", "time_data_imaginary", "amplitude_scale_factor"]),
    P("P06", "Incompatible input is refused and refusals change nothing",
      "Operations combining objects refuse incompatible partners (different sampling rates, lengths, channel counts, band counts, wrong types, out-of-range indices or frequencies) with an exception instead of computing something. A refused call leaves all objects involved exactly as they were and still usable.",
      [I, H, F], "Every documented precondition of two-object operations and of container/setter methods, violated one at a time, at any point of an object's life.",
      "Tests assert that some invalid calls raise, not that the objects are unchanged afterwards, and only for few preconditions.",
      [SIG, MB, FLT, FB, SP, "standard/appending.py", TF, "distances/distances.py"],
      [("assertions in setters", MB), ("same sampling rate assertions", "standard/appending.py")],
      ["exceptions", "object state before and after a refused call"]),
    P("P07", "Spectra carry the right scale and conserve energy",
      "With every scaling, spectra of FFT and Welch methods have the defined physical meaning: amplitude spectra show a stationary sinusoid's RMS at its frequency, integrated power densities give the signal's mean square, amplitude scalings squared equal power scalings, and the FFT normalisations differ exactly by their powers of the length. Conversion factors between scalings agree with these definitions, frequency vectors match the bins, and results agree with an independent reference implementation.",
      [I, C], "All signals, lengths (odd/even, padded or not), sampling rates, windows, overlaps, averages, scalings and methods.",
      "Tests compare a few default parameter sets; an error in one scaling, parity or average is invisible to them.",
      [SIG, "standard/_spectral_methods.py", "standard/enums.py", "helpers/spectrum_utilities.py"],
      [("_welch", "standard/_spectral_methods.py"), ("_scale_spectrum", "helpers/spectrum_utilities.py"), ("get_scaling_factor/conversion_factor", "standard/enums.py")],
      ["get_spectrum", "conversion_factor"]),
    P("P08", "Cross-spectral matrices are consistent with the signals",
      "The cross-spectral matrix of any multichannel signal is Hermitian with real non-negative diagonal equal to the channels' auto spectra, for power scalings it is positive semidefinite, and it follows a channel permutation. Scaling channel i by a and channel j by b scales entry (i, j) of a power-type matrix by ab, coherence computed from it never exceeds one, and a delayed copy shows the delay in its cross phase.",
      [I, C], "All multichannel signals, both methods, all scalings, windows, averages.",
      "Tests only call the method.",
      [SIG, "standard/_spectral_methods.py"], [("_csm_welch", "standard/_spectral_methods.py"), ("_csm_fft", "standard/_spectral_methods.py")], ["get_csm"]),
    P("P09", "Time-frequency representations are exact and invertible",
      "The spectrogram places each frame's spectrum at the right frame with the defined window, overlap, padding and scaling, agreeing with a direct frame-by-frame computation, and is linear in the signal for complex scalings. The inverse transform recovers the original samples for every window/overlap combination that permits it, with the right length, channel order and sampling rate.",
      [I, C], "All signals, window lengths, windows, overlaps, FFT lengths, paddings, scalings and channel counts.",
      "Tests check a few parameter sets against one reference; reconstruction errors at the borders or for other overlaps are not sampled.",
      ["standard/_spectral_methods.py", "standard/_framed_signal_representation.py", "transforms/transforms.py", "standard/_standard_backend.py"],
      [("_stft", "standard/_spectral_methods.py"), ("istft", "transforms/transforms.py"), ("_reconstruct_framed_signal", "standard/_framed_signal_representation.py")],
      ["get_spectrogram", "istft"]),
    P("P10", "All views of a filter describe the same system",
      "A filter's coefficients in every representation (b/a, second-order sections, zeros/poles/gain), its impulse response, transfer function, group delay and its action on signals all belong to one linear time-invariant system, however the filter was created. Filtering is linear, obeys its difference equation, keeps the signal's length, metadata and channels not selected, and zero-phase filtering applies the squared magnitude without phase.",
      [I, C], "All filters created from any design or coefficients (FIR, IIR, any order and gain), all frequency vectors, signals and channel selections.",
      "Tests compare a handful of fixed designs; conversions fail for particular orders, gains or representations.",
      [FLT, "classes/filter_helpers.py"], [("get_coefficients", FLT), ("get_transfer_function/get_group_delay/get_ir", FLT), ("_filter_on_signal", "classes/filter_helpers.py")],
      ["get_coefficients", "get_ir", "get_transfer_function", "get_group_delay", "filter_signal"]),
    P("P11", "Designed filters meet their specification",
      "Filters produced by the design functions are stable and have the response their parameters promise: requested gain at the centre or corner frequency, shelf plateaus, unit passband, cutoff levels, notch depth, allpass unit magnitude, -3 dB/-6 dB points, requested delay, pink slope, standard weighting curves, complementary sums. Design never depends on anything but its arguments.",
      [I, C], "All equaliser types, pass types, design methods, orders, frequencies, gains, qualities and sampling rates in their valid ranges.",
      "Tests build single instances of each design and mostly assert they can be called.",
      [FLT, "classes/filter_helpers.py", "filterbanks/filterbanks.py", "filterbanks/_filterbank.py", "classes/group_delay_designer_phase_linearizer.py"],
      [("_biquad_coefficients", "classes/filter_helpers.py"), ("matched_biquad, weighting_filter, gaussian_kernel, pinking_filter, fractional_delay, arma", "filterbanks/filterbanks.py"), ("PhaseLinearizer/FirDesigner/GroupDelayDesigner", "classes/group_delay_designer_phase_linearizer.py")],
      ["get_transfer_function and coefficients of designed filters"]),
    P("P12", "Block-wise filtering equals filtering at once",
      "With state keeping activated, filtering a signal in consecutive blocks of any sizes and concatenating the outputs equals filtering the whole signal at once, for single filters and for filter banks in every mode, for any number of channels. Resetting the state makes the next output equal to that of a new filter, and processing without state keeping never changes the state.",
      [H, I, C], "All filters and banks, all partitions of a signal into blocks, all channel counts, and all interleavings of resets.",
      "Tests call the stateful mode once or on equal mono blocks without comparing to the whole.",
      [FLT, FB, "classes/filter_helpers.py", "filterbanks/_filterbank.py"], [("initialize_zi and zi update", FLT), ("filter bank zi handling", FB), ("LRFilterBank.initialize_zi", "filterbanks/_filterbank.py")],
      ["filter_signal(activate_zi=True) over a stream"], [("zi", "state of each filter per channel", FLT)]),
    P("P13", "Real-time filters equal their offline counterparts",
      "Every real-time filter structure (direct IIR/FIR, overlap-save, uniformly partitioned, state-variable, state-space, lattice/ladder, Kautz, warped, parallel, averaging, chains) yields, sample by sample or block by block, the output of the difference equation or transfer function it represents. Channels have separate states, resetting restores the initial behaviour, changing the number of channels works, and the result does not depend on how samples are grouped or channels interleaved.",
      [H, I, C], "All coefficient sets in range, all sample/block partitions, interleavings of channels and resets.",
      "Tests run one mono signal from a fresh state per class.",
      ["classes/iir_filter_realtime.py", "classes/fir_filter_realtime.py", "classes/sv_filter.py", "classes/state_space_filter.py", "classes/lattice_ladder_filter.py", "classes/kautz_filter.py", "classes/warped_filters.py", "classes/parallel_filter.py", "classes/exponential_average_filter.py", "classes/filter_chain.py"],
      [("process_sample/process_block", "classes/realtime_filter.py"), ("reset_state, set_n_channels", "classes/realtime_filter.py")],
      ["process_sample", "process_block", "filter_signal", "get_ir"]),
    P("P14", "Filter bank composition is consistent",
      "A filter bank's sequential, summed and parallel outputs equal composing its filters by hand, and its impulse response, transfer function and group delay in each mode agree with those outputs. Adding, removing and swapping filters changes exactly the addressed position, and merging or appending banks gives the concatenation of their effects.",
      [I, H, C], "All banks (multirate where supported), modes, orders of edits, signals and channels.",
      "Tests check shapes and that modes run.",
      [FB, "standard/appending.py", "standard/other.py", MB], [("filter_signal modes", FB), ("get_ir/get_transfer_function", FB), ("merge_filters", "standard/other.py"), ("append_filterbanks", "standard/appending.py")],
      ["filter_signal, get_ir, get_transfer_function of the bank"]),
    P("P15", "Crossovers and analysis banks reconstruct",
      "Crossover and analysis filter banks keep their reconstruction promise: Linkwitz-Riley bands sum to an allpass response with -6 dB crossings, reconstructing fractional-octave bands sum to the delayed or exact input, QMF analysis-synthesis restores the signal, gammatone reconstruction approximates the input, complementary FIR pairs sum to a pure delay. Bands cover the requested frequencies in order.",
      [I, C], "All valid crossover frequencies, orders, numbers of bands, ranges, sampling rates and signals.",
      "Tests check single settings, often only shapes.",
      ["filterbanks/_filterbank.py", "filterbanks/filterbanks.py"], [("LRFilterBank", "filterbanks/_filterbank.py"), ("QMFCrossover", "filterbanks/_filterbank.py"), ("GammaToneFilterBank.reconstruct", "filterbanks/_filterbank.py"), ("reconstructing_fractional_octave_bands", "filterbanks/filterbanks.py")],
      ["filter_signal, get_ir, reconstruct/collapse"]),
    P("P16", "Sample-rate conversion preserves the signal",
      "Resampling keeps duration, in-band content (frequency, amplitude, phase, time position), channel count and metadata, going up and back down recovers band-limited signals, and resampling a filter keeps its response in the common band. Polyphase up- and downsampling filters equal filtering and then keeping every n-th sample (or inserting zeros and then filtering).",
      [I, C], "All pairs of sampling rates, ratios, filters, lengths and channel counts.",
      "Tests check output lengths for two rates.",
      ["standard/resampling.py", "helpers/polyphase.py", "classes/filter_helpers.py", FLT], [("resample, resample_filter", "standard/resampling.py"), ("_polyphase_decomposition/_polyphase_reconstruction", "helpers/polyphase.py"), ("filter_and_resample_signal", FLT)],
      ["outputs and lengths"]),
    P("P17", "Delays are applied and measured exactly",
      "Delaying by any time shifts exactly the selected channels by that time (integer delays sample-exactly, fractional ones within band-limited accuracy) and leaves the others untouched. Latency estimation returns the delay with the right sign for integer and sub-sample delays and any polarity, and removing a latency or aligning inverts adding it.",
      [I, C], "All delays (zero, fractional, large), sampling rates, channel selections, length options, signal contents and polarities.",
      "Tests use one delay and sampling rate.",
      ["standard/latency_delay.py", "helpers/latency.py", TF], [("delay, fractional_delay, latency", "standard/latency_delay.py"), ("find_ir_latency", TF)],
      ["time_data of outputs", "returned latencies"]),
    P("P18", "Cutting, padding and joining keep every sample",
      "Padding, trimming, windows by time or level, changing length, appending and merging or selecting channels and bands keep the retained samples unchanged at the right position and fill with exact zeros; padding then trimming is the identity and appended pieces are found back unchanged in order. Length, sampling rate, type, complex parts and settings of the result are those expected.",
      [I, C], "All lengths, positions, units (samples, seconds), levels, signal types, real or complex data.",
      "Tests check resulting lengths for few values.",
      ["standard/pad_trim_methods.py", "standard/appending.py", "helpers/other.py", SIG, MB], [("pad_trim, modify_signal_length, trim_with_level_threshold, trim_with_time_selection", "standard/pad_trim_methods.py"), ("append_signals, append_spectra", "standard/appending.py")],
      ["time_data of outputs"]),
    P("P19", "Levels, gains and loudness are exact and consistent",
      "Applying gain, normalising and fading change levels exactly as requested (peak or RMS, jointly or per channel) and keep waveform shape; RMS, peak, true peak, crest factor and loudness follow their definitions, react to a gain of x dB with exactly x dB (crest factor: not at all) and calibration converts to the right pressure. Envelope, detrending, dither and activity detection respect their definitions and gain/offset invariances.",
      [I, C], "All signals, gains, channels, norms, fade types and lengths, calibrations.",
      "Tests evaluate single levels on one signal.",
      ["standard/gain_and_level.py", "standard/other.py", "helpers/gain_and_level.py", "classes/calibration_data.py"], [("normalize, apply_gain, fade, rms, crest_factor, true_peak_level, lufs_integrated", "standard/gain_and_level.py"), ("envelope, detrend, dither, activity_detector", "standard/other.py"), ("calibrate_signal", "classes/calibration_data.py")],
      ["returned levels and time data"]),
    P("P20", "Spectrum containers convert, interpolate and trim faithfully",
      "A spectrum read at its own frequencies returns its data in every domain, scheme and representation (linear, dB, power, complex); in between it stays an interpolation that is exact for data of the scheme's order, and outside it obeys the chosen edge rule. Trimming, resampling, channel operations, gain, normalisation, smoothing, octave averaging, energy and conversion to or from signals agree with the definitions and keep data and coherence aligned with the frequency vector.",
      [I, H, C], "All spectra (real/complex, linear/log/irregular frequency vectors, any channels, with coherence), all interpolation settings and operation sequences.",
      "Tests use one spectrum with default settings per method.",
      [SP, "helpers/spectrum_utilities.py"], [("get_interpolated_spectrum, set_interpolator_parameters", SP), ("trim, resample, to_signal, from_signal, get_energy", SP)],
      ["spectral data, frequency vectors, interpolated values"]),
    P("P21", "System identification recovers the system",
      "Deconvolving or estimating a transfer function from a system's excitation and response recovers the system's response within the excited band, for any gain, delay, filter and channel arrangement, and the estimators obey their definitions (coherence in [0, 1] and one for noise-free data; H1, H2 and H3 agree when noise-free and react to noise as defined). Scaling the response scales the estimate equally.",
      [I, C], "All LTI systems short against the signal, excitations (sweeps, noise), modes, paddings, windows, channels.",
      "Tests use one sweep recording and mainly check that calls run.",
      [TF, "transfer_functions/_transfer_functions.py", "room_acoustics/room_acoustics.py"], [("spectral_deconvolve", TF), ("compute_transfer_function", TF)],
      ["estimated responses vs. the true system"]),
    P("P22", "Impulse-response editing keeps what it promises",
      "Windowing, trimming, averaging, combining and splitting impulse responses multiply or select samples as documented: samples inside the flat part are unchanged, the window reported is the window applied, the peak or start is where stated, averages of equal responses are that response, harmonic responses are cut at their theoretical positions. Converting a response to a filter and back is the identity, and distortion measures follow the harmonics' energies.",
      [I, C], "All impulse responses (peak position, length, channels), window types, lengths, constant percentages, thresholds.",
      "Tests call the functions on one measured response.",
      [TF, "transfer_functions/_transfer_functions.py"], [("window_ir, window_ir_tukey, window_centered_ir, trim_ir, average_irs, combine_ir_with_dirac", TF), ("harmonics_from_chirp_ir, harmonic_distortion_analysis", TF), ("ir_to_filter, filter_to_ir", TF)],
      ["time_data, window, indices returned"]),
    P("P23", "Phase manipulation preserves magnitude and timing",
      "Minimum- and linear-phase versions keep the magnitude response; minimum-phase results have the least group delay and energy earliest, linear-phase results a constant group delay. Group delay of a pure delay is that delay, total group delay is minimum plus excess group delay, results are unchanged by gain, and shifting in time only adds the shift.",
      [I, C], "All impulse responses and magnitude responses, methods, sampling rates, lengths and channels.",
      "Tests compare a single response or none.",
      [TF, "helpers/minimum_phase.py", "standard/_standard_backend.py"], [("min_phase_from_mag, lin_phase_from_mag, min_phase_ir", TF), ("group_delay, minimum_group_delay, excess_group_delay, minimum_phase", TF)],
      ["outputs of the phase functions"]),
    P("P24", "Room-acoustic descriptors follow the decay",
      "For impulse responses with known exponential decays, reverberation times of every method, clarity, definition, centre time, bass ratio and energy decay curves equal their analytic values within measurement accuracy, per channel and per band. They do not change with the response's gain or polarity, nor with an initial delay, and longer decays always give longer times.",
      [I, C], "All decay times, gains, delays, noise floors within range, sampling rates, methods, channels and bands.",
      "Tests compare one measured response with loose tolerance.",
      ["room_acoustics/room_acoustics.py", "room_acoustics/_room_acoustics.py"], [("reverb_time, descriptors, find_ir_start", "room_acoustics/room_acoustics.py"), ("_reverb, _compute_energy_decay_curve", "room_acoustics/_room_acoustics.py")],
      ["reverb_time, descriptors"]),
    P("P25", "Synthetic rooms obey geometry",
      "Shoebox rooms and synthetic responses obey physics: volume, areas, reverberation and absorption are consistent with Sabine's equation, modes equal the analytic rigid-room frequencies in order, the direct sound and reflections arrive at the image-source distances with 1/r amplitudes, and swapping source and receiver leaves the response unchanged. Convolving a response on a signal equals linear convolution.",
      [I, C], "All room sizes, source/receiver positions inside, absorptions, reverberation times, sampling rates.",
      "Tests check a single room and output types.",
      ["room_acoustics/room_acoustics.py", "room_acoustics/_room_acoustics.py"], [("ShoeboxRoom", "room_acoustics/_room_acoustics.py"), ("generate_synthetic_rir, convolve_rir_on_signal, find_modes", "room_acoustics/room_acoustics.py")],
      ["room attributes", "generated responses"]),
    P("P26", "Array geometry and steering vectors are exact",
      "Grids and microphone arrays report coordinates, extents, distances, nearest points and reconstructed maps that agree with Euclidean geometry, whatever the shape and order of the points. Steering vectors of every formulation equal their published definitions built from those distances and the wavenumber, microphone signals synthesised from monopoles carry the documented distance law (1 at the source, 1/(1+r) at distance r) and the travel-time delay, superpose linearly and do not depend on the order of sources.",
      [I, C], "All grid shapes, arrays, source positions, frequencies, speeds of sound and sampling rates.",
      "Tests use one array and grid and mostly check that calls run.",
      ["beamforming/beamforming.py", "beamforming/_beamforming.py"], [("Grid classes, MicArray", "beamforming/beamforming.py"), ("SteeringVector", "beamforming/beamforming.py"), ("mix_sources_on_array", "beamforming/beamforming.py")],
      ["coordinates, distances, steering vectors, mixed signals"]),
    P("P27", "Beamformers find the sources",
      "For simulated sources every beamformer's map peaks at the grid point of the dominant source with the right level where the formulation promises it, scales with source power, is non-negative where it represents power, and is unchanged by relabelling microphones or translating the whole scene. The time-domain beamformer output steered to the source recovers the emitted signal with its timing.",
      [I, C], "All source positions and levels, arrays, grids, frequency bands, beamformer types and parameters.",
      "Tests run single scenes and do not check source positions for all beamformers.",
      ["beamforming/beamforming.py", "beamforming/_beamforming.py"], [("BeamformerDASFrequency, CleanSC, Orthogonal, Functional, MVDR, DASTime", "beamforming/beamforming.py")],
      ["get_beamformer_map/output"]),
    P("P28", "Signal transforms satisfy their defining identities",
      "The transforms satisfy their mathematics for any input: analytic signals have the original as real part and no negative frequencies; cepstra invert to the signal they came from; mid/side conversion gives half sum and half difference and is invertible; the direct DFT equals the Fourier sum at any frequency; warping and its inverse cancel, and warped filters have the frequency-warped response; Laguerre transforms are linear, energy preserving and undone by the opposite factor; linear prediction coefficients whiten each frame and the reported variance is the power of the residual.",
      [I, C], "All signals, channel counts, lengths (odd/even), warping factors, orders, frequencies.",
      "Tests call each transform once with one signal.",
      ["transforms/transforms.py", "transforms/_transforms.py"], [("hilbert, cepstrum, from_complex_cepstrum, stereo_mid_side, dft, warp, warp_filter, laguerre, lpc", "transforms/transforms.py")],
      ["outputs of the transforms"]),
    P("P29", "Frequency-scale transforms locate and scale content",
      "Mel, MFCC, wavelet, constant/variable-Q and filter-bank spectra put a tone's energy at the row of its frequency and at its time, have shapes and frequency vectors matching their parameters, are linear (or scale in dB) with the input level, and are consistent between channels. Mel filters are non-negative, ordered and cover their range.",
      [I, C], "All tone frequencies, sampling rates, parameters and channel selections.",
      "Tests check shapes or run once.",
      ["transforms/transforms.py", "transforms/_transforms.py"], [("mel_filterbank, log_mel_spectrogram, mfcc, cwt, vqt, spectrum_via_filterbank, MorletWavelet", "transforms/transforms.py")],
      ["outputs of the transforms"]),
    P("P30", "Generated signals have the requested properties",
      "Generated signals have exactly the requested length (synchronized sweeps at least, their effective duration being reported), channels, sampling rate, peak level and padding; noises have their colour's spectral slope, channels that are independent and no DC; sweeps follow their frequency law from start to end frequency; oscillators have the requested frequency, waveform and harmonics without aliasing; impulses sit at the requested sample.",
      [I, C], "All durations, rates, channels, levels, frequencies, types, fades and paddings.",
      "Tests check shapes for few settings.",
      ["generators/generators.py", "generators/_generators.py"], [("noise, chirp, dirac, oscillator", "generators/generators.py")], ["generated time data"]),
    P("P31", "Distance measures behave like distances",
      "Distances and quality measures of signals are zero (or their best value) for identical signals, non-negative where defined as distances, symmetric or asymmetric as defined, independent of channel order, and follow their formulas: SNR reports the energy ratio in dB, scale-invariant SDR ignores gain, adding more noise never improves a measure. Results agree with a direct evaluation of the definition.",
      [I, C], "All pairs of signals, levels, noise, spectral settings, ranges.",
      "Tests evaluate one pair without reference values.",
      ["distances/distances.py", "distances/_distances.py"], [("log_spectral, itakura_saito, snr, si_sdr, fw_snr_seg", "distances/distances.py")], ["returned distances"]),
    P("P32", "Audio effects act as parameterised",
      "Effects return a signal of the same length (plus documented tails), type and channels, leave the input unchanged and are deterministic and repeatable: applying the same effect object twice to the same signal gives the same result. Neutral settings (no gain reduction, zero mix or depth, linear distortion) reproduce the input, delays place echoes at the set time and gain, modulation has the set rate and depth, compressors follow their static curve, silence stays silence without NaN.",
      [I, H, C], "All effects, parameters, signals, channel counts, and sequences of parameter changes and applications.",
      "Tests run each effect once without looking at the output.",
      ["effects/effects.py", "effects/_effects.py"], [("AudioEffect.apply", "effects/effects.py"), ("_compressor, LFO", "effects/_effects.py")], ["apply outputs"]),
    P("P33", "Helper mathematics and sample formats are exact",
      "Numeric helpers follow their definitions: level conversions invert each other, logarithmic vectors, means and crossfades are exact, octave and ERB frequency series are correctly spaced and within range, frequency warps map endpoints onto themselves. Sample-format conversion maps full scale to full scale, is monotonic, never wraps or leaves the format's range, and going to a finer format and back restores every sample.",
      [I, C], "All values, vectors, ranges, fractions and pairs of sample formats, including extreme and edge samples.",
      "Tests check single values.",
      ["tools.py", "helpers/gain_and_level.py", "helpers/bytes_conversion.py", "helpers/other.py", "helpers/frequency_conversion.py"], [("log_frequency_vector, get_exact_value_at_frequency, log_mean, frequency_crossover, erb_frequencies, fractional_octave_frequencies, convert_sample_representation", "tools.py")], ["returned values"]),
    P("P34", "Audio streams carry exactly the signal's samples",
      "Playing and recording through the audio device hand over exactly the requested samples - each channel of the signal on the output channel listed at its position, in order, trimmed to the requested duration, with the signal's sampling rate, scaled by one common factor to the requested peak level (silence stays silence) and on the selected device - for any block size the device asks for. Recordings come back as signals of the captured samples of the requested input channels. Selecting a device for one call does not change the defaults, output streams use the signal's rate and channels, and a stop request ends a stream. Invalid requests are refused.",
      [I, H, C], "All signals, channel maps, durations, devices, block sizes and callback schedules, against a stand-in for the audio device.",
      "There are no tests of playing, recording or streaming, since they need a device.",
      ["audio_io/audio_io.py"], [("play, record, play_and_record, output_stream, set_device, CallbackStop", "audio_io/audio_io.py"), ("_normalize", "helpers/gain_and_level.py")], ["blocks exchanged with the device stand-in", "default settings of the audio library"]),
    P("P35", "Plots show the data",
      "Plots draw the object's data: the plotted curves equal the object's magnitude, phase, group delay, level or time data in the stated unit, normalisation, smoothing, range and channel, one curve per channel in order. Plotting any valid object succeeds and has no effect on it.",
      [I, C], "All plot methods of signals, spectra, filters, filter banks and maps with all normalisations, ranges, scalings, calibrations and channels.",
      "Tests only check that plotting runs for default options.",
      [SIG, IR, SP, FLT, FB, "plots/plots.py", "classes/plots.py", "helpers/spectrum_utilities.py"], [("general_plot and friends", "plots/plots.py"), ("_get_normalized_spectrum", "helpers/spectrum_utilities.py")], ["matplotlib artists"]),
    P("P36", "Compiled kernels and smoothing are correct",
      "The compiled numeric kernels (direct DFT, complex smoothing, frequency-dependent windowing) access memory only in bounds, do not depend on the number of threads and compute the same values as their plain definition. Smoothing leaves constant spectra unchanged, keeps values between the extremes of the data, is linear, localised to the stated bandwidth and independent per channel.",
      [I, C, "schedules"], "All spectra lengths, channel counts, bandwidths, windows and thread counts.",
      "Tests run the kernels once with default sizes; out-of-range indices at short lengths or large bandwidths do not show.",
      ["transforms/_transforms.py", "transfer_functions/_transfer_functions.py", "helpers/smoothing.py"], [("_dft_backend", "transforms/_transforms.py"), ("_complex_smoothing_backend, _fdw_backend", "transfer_functions/_transfer_functions.py"), ("_fractional_octave_smoothing, time_smoothing", "helpers/smoothing.py")], ["dft, complex_smoothing, window_frequency_dependent, smoothing of spectra"]),
]

TECH = {}
NOTES = {}
DONE = set()


def write():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if os.path.exists(os.path.join(root, "rtm", "checks", i.lower() + ".py")):
            checks.append(dict(
                property=i,
                quick_cmd=f"./check.sh {i} --tier quick",
                thorough_cmd=f"./check.sh {i} --tier thorough",
                evidence_file=f"evidence/{i}.json",
                technique=TECH.get(i, "runtime monitoring: reference-model and relational oracles observing executions of the real code under randomised workloads"),
                level="exploration",
                level_note=NOTES.get(i, "Held on the executions listed in the evidence file; says nothing about inputs that were not generated. Trusts numpy/scipy and the reference models in rtm/checks/" + i.lower() + ".py."),
            ))
        else:
            na.append(dict(property=i, reason="check not built yet"))
    m = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python -B -c \"import numpy, scipy, matplotlib, soundfile, numba\"",
        hooks=dict(guard="RTM_MONITOR", enable="No hooks are compiled into /repo: the monitors are attached from /verif at run time by wrapping the public API of the imported package.", source_commits=[]),
        checks=checks,
        not_applicable=na,
        notes="Each check imports dsptoolbox from /repo's working tree without using or writing byte code there (check.py), runs the workload families of rtm/checks/<id>.py in 8 processes and writes evidence/<id>.json. known_findings.txt lists repaired and recorded defects.",
    )
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    write()
