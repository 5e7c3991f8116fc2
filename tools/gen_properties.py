#!/usr/bin/env python3
"""Single source for properties.jsonl (run by hand when a property changes)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=state
    M={"input":"inputs","history":"histories","schedule":"schedules","configuration":"configurations","fault":"fault_sequences"}
    over=[M[o] for o in over]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

L="src/lib.rs"
p("S01","Repeat analysis gives the identical result",
 "Analysing the same samples at the same rate with the same configuration always produces the same result in every field except the reported processing time, in any process, on any thread and after any earlier calls. No hash seed, clock reading, random number, thread schedule, environment variable, memory address or leftover state from another call influences tempo, beats, key, confidences, warnings or diagnostics.",
 ["input","history","schedule"],"all inputs, all processes (hash seeds), all call histories and thread schedules",
 "A test runs in one process with one hash seed and one history; an order dependence shows up only for some seeds and only on score ties.",
 [L,"src/features/key/detector.rs","src/features/key/key_changes.rs"],
 [("single entry point","src/lib.rs analyze_audio"),("key vote among top candidates","src/features/key/detector.rs detect_key_weighted, detect_key_median"),("processing-time clock","src/lib.rs analyze_audio start_time")],
 ["every field of AnalysisResult","return values of all public stage functions"])
p("S02","Analysis has no side effects",
 "Calling any library function only computes and returns a value: it never opens files or sockets, reads the environment, starts threads or processes, exits or aborts the process, or writes to standard output. Standard error is written only when the caller has set the debug track id; otherwise diagnostics go exclusively through the logging facade.",
 ["input","configuration"],"all inputs, configurations and control-flow paths of every public function",
 "A print or file access on a rare branch (an error path, one knob combination) is not seen by tests that do not take that branch or do not capture output.",
 ["src/"],[("debug-gated stderr dumps","src/lib.rs, src/features/period/multi_resolution.rs, src/features/period/tempogram.rs"),("log macros elsewhere","src/**")],
 ["stdout/stderr, filesystem, process state of the caller"])
p("S03","Debug settings never change the analysis",
 "The debugging knobs (debug track id, ground-truth tempo, number of debug candidates) and the log level only control what is printed: tempo, beat grid, key, all confidences, warnings, flags and metadata are independent of their values. With the default multi-resolution tempo path, asking for the tempo candidate list changes nothing except that list.",
 ["input","configuration"],"all inputs and all pairs of configurations that differ only in the diagnostic knobs",
 "Two-run (hyper) property over all audio; a test compares a few clips, where a leaked knob often does not flip the winner.",
 [L,"src/features/period/multi_resolution.rs","src/features/period/tempogram.rs"],
 [("debug fields threaded into the tempogram configuration","src/lib.rs band_cfg"),("debug-gated blocks","src/features/period/multi_resolution.rs")],
 ["all fields of AnalysisResult except the candidate list"])
p("S04","Key settings never change tempo or beats",
 "Settings that configure key detection (key templates, masks, segment voting, key STFT, HPCP, tuning, chroma mapping) influence only the reported key, its confidence, its clarity and the warnings and flags derived from them. Tempo, tempo confidence, beat grid, grid stability and tempo diagnostics are the same for every choice of key settings.",
 ["input","configuration"],"all inputs and all pairs of configurations differing only in key settings",
 "Hyperproperty over about 60 knobs and all audio; tests fix one configuration.",
 [L],[("key stage runs after tempo and beat stages on shared data","src/lib.rs analyze_audio Phase 1D")],["bpm, bpm_confidence, beat_grid, grid_stability, tempogram_* metadata"])
p("S05","Tempo and onset settings never change the key",
 "Unless beat-synchronous key detection is enabled, the reported key, key confidence and key clarity do not depend on any tempo, onset, legacy-estimator or tempogram setting, nor on the estimated tempo or beat grid. Turning beat-synchronous mode on is the only way tempo can reach the key.",
 ["input","configuration"],"all inputs and all pairs of configurations differing only in tempo/onset settings",
 "Hyperproperty; a leak shows only for audio where the leaked value crosses a threshold.",
 [L],[("beat-synchronous switch","src/lib.rs chroma_call"),("key stage","src/lib.rs Phase 1D")],["key, key_confidence, key_clarity"])
p("S06","A successful tempogram tempo is the reported tempo",
 "When the legacy estimator is not forced and the tempogram produces an estimate, the reported tempo is that estimate: onset detection settings, the onset list and the legacy estimate never alter it, with or without fusion. Fusion may only adjust the confidence; without fusion the confidence is the tempogram's own as well.",
 ["input","configuration"],"all inputs on which the tempogram succeeds, all onset/legacy settings",
 "Needs every combination of the two estimators' outcomes; natural test clips make both agree, so an override is invisible.",
 [L],[("tempo arbitration","src/lib.rs (bpm, bpm_confidence) selection"),("fusion as validator","src/lib.rs enable_bpm_fusion branch")],["bpm, bpm_confidence"])
p("S07","A disabled feature's settings are inert",
 "When a feature switch is off (normalization, silence trimming, onset consensus, HPSS onsets, legacy guardrails, multi-resolution, percussive fallback, band fusion with mel novelty, key masks, key STFT override, HPCP, whitening, bass blend, tuning, edge trim, frame weighting, segment voting, multi-scale, ensemble, mode heuristic, minor bonus), none of the settings that only parameterise that feature can change any output. In particular the disabled stage is not executed with them.",
 ["input","configuration"],"for every switch: all inputs and all values of the subordinate settings",
 "Each switch times all values of its parameters times all audio; tests leave the parameters at their defaults.",
 [L,"src/features/period/tempogram.rs","src/features/period/multi_resolution.rs","src/features/chroma/extractor.rs"],
 [("feature gates","src/lib.rs analyze_audio"),("nested gates","src/features/period/tempogram.rs band_cfg.enabled / enable_mel; src/features/chroma/extractor.rs enable_whitening")],["all fields of AnalysisResult"])
p("S08","Every setting reaches the output it controls",
 "Every public configuration setting can influence the outputs it is documented to control once its feature is enabled: tempo settings reach the tempo, onset settings reach the onset-driven outputs, key settings reach the key. No setting is silently ignored or replaced by a built-in value in the mode where it applies.",
 ["configuration"],"every setting in every mode (switch combination) in which it is documented to apply",
 "A dropped setting produces plausible results at the default value, which is what tests use.",
 [L,"src/config.rs"],[("settings are forwarded positionally or field by field","src/lib.rs analyze_audio")],["all fields of AnalysisResult"])
p("S09","Failures in optional stages never fail the analysis",
 "Once the audio has been preprocessed, an error in onset consensus, legacy or tempogram tempo estimation, multi-resolution escalation, percussive fallback, beat tracking, chroma extraction or key detection never makes the whole analysis return an error. Only invalid input, preprocessing, primary onset detection or the shared spectrogram can do that.",
 ["input","fault"],"every stage failing at every call site, in every configuration",
 "Stage errors are almost unreachable with test clips; a propagated error is only visible when the stage actually fails.",
 [L],[("errors matched and downgraded to warnings","src/lib.rs match arms after each stage")],["Ok/Err of analyze_audio"])
p("S10","Undetected tempo, beats or key are reported as such",
 "If no tempo can be estimated the result has tempo zero, tempo confidence zero, an empty beat grid, grid stability zero and at least one warning; if beat tracking fails the grid is empty with stability zero and a warning. If the key cannot be determined the result carries the neutral default key with zero confidence and zero clarity, a warning and the weak-tonality flag.",
 ["input","fault"],"all inputs and all combinations of stage failures",
 "Requires forcing each stage to fail; no clip in the tests does.",
 [L],[("fallback tuples","src/lib.rs unwrap_or((0.0,0.0)), BeatGrid empty, Key::Major(0)"),("warning block","src/lib.rs confidence_warnings/flags")],["bpm, bpm_confidence, beat_grid, grid_stability, key*, metadata warnings and flags"])
p("S11","Invalid input is rejected with the documented error",
 "Empty audio, a zero sample rate, and zero frame or hop sizes are always answered with an invalid-input error by the whole analysis, and audio of which silence trimming leaves nothing with a processing error; the public stage functions likewise reject the empty or zero arguments their documentation rules out. None of them returns a result for such input.",
 ["input","configuration"],"all configurations and all remaining argument values combined with each invalid argument",
 "Tests check one combination per argument; a check can be skipped under some other setting.",
 [L,"src/features/onset/","src/features/period/","src/features/beat_tracking/mod.rs","src/features/key/","src/features/chroma/","src/preprocessing/"],
 [("argument guards at function entry","src/lib.rs, stage functions")],["Err(InvalidInput) / Err(ProcessingError)"])
p("S12","Confidence scores stay within zero and one",
 "Every confidence, clarity and stability figure handed to the caller, whether in the analysis result or by the confidence, clarity and stability functions, is a number between 0 and 1 inclusive for every input and configuration. It is never NaN, negative or above one, whatever boosts and multipliers are configured (raw per-candidate ranking scores are not confidences, and the average over key segments is not covered).",
 ["input","configuration"],"all inputs, all finite and non-finite scores, all multiplier settings",
 "Boost factors exceed one only when several estimators agree, and NaN needs degenerate audio; sampled tests stay in range by luck.",
 [L,"src/analysis/confidence.rs","src/features/period/candidate_filter.rs","src/features/key/key_clarity.rs","src/features/beat_tracking/mod.rs"],
 [("clamping at the sinks","src/analysis/confidence.rs, src/lib.rs result construction")],["bpm_confidence, key_confidence, key_clarity, grid_stability, AnalysisConfidence fields"])
p("S13","Zero sizes never crash the library",
 "No frame size, hop size, window, step, margin, count or sample rate of zero (or one, where halving makes it zero) makes a public function divide by zero or step by zero: it is rejected, treated as its smallest valid value or skipped. This holds for every public stage function as well as for the whole analysis.",
 ["input","configuration"],"all values of all integer parameters of all public functions",
 "Tests use ordinary sizes; each size reaches many divisions on different paths.",
 ["src/"],[("entry guards and max(1) floors","stage functions"),("integer divisions, remainders, strides","src/**")],["absence of a panic"])
p("S14","Non-finite values never crash ranking or sorting",
 "Ordering scores, energies, times or candidates never panics and never uses an inconsistent ordering, even if some of the values are NaN or infinite. Audio containing non-finite or overflowing samples yields a result or an error, not a crash in a comparison.",
 ["input"],"all float values reaching any sort, selection, maximum or minimum",
 "NaN has to reach a particular sort inside a particular stage; tests feed finite audio.",
 ["src/features/","src/lib.rs"],[("sort/max/min/select comparators","src/features/**, src/lib.rs")],["absence of a panic"])
p("S15","Every loop terminates",
 "Every loop in the library runs over a finite sequence or makes guaranteed integer progress towards a fixed bound, so analysis returns for every finite input and every configuration, including zero, negative, tiny, huge or NaN tempo resolutions and ranges, hops and strides.",
 ["input","configuration"],"all inputs and configuration values, every loop",
 "A hang needs an extreme setting; tests can only sample and would hang themselves.",
 ["src/"],[("float-stepped tempo grids","src/features/period/comb_filter.rs, tempogram_autocorr.rs"),("segment loops","src/features/key/detector.rs, src/lib.rs, src/features/beat_tracking/tempo_variation.rs")],["termination"])
p("S16","Beat grids are internally consistent",
 "In every beat grid returned, the beats are in ascending time order, every downbeat is exactly one of the beats, and the bar starts are exactly the downbeats. This holds for constant and variable tempo, and for every time signature.",
 ["input"],"all onset lists, tempi and time signatures",
 "Downbeats and beats are derived through several refinement steps; sampled grids are regular, where near-equal times pass loose comparisons.",
 ["src/features/beat_tracking/mod.rs"],[("grid construction","src/features/beat_tracking/mod.rs generate_beat_grid_from_positions_with_time_sig, detect_downbeats_with_time_sig")],["BeatGrid.beats/downbeats/bars"])
p("S17","Converting keys to and from text never crashes",
 "Naming a key, writing it in numeric DJ notation and parsing a notation return normally for every key value and every text whatsoever: empty, non-ASCII, overlong or out-of-range input is answered with an error value or a fallback, never with a panic, overflow or out-of-bounds access. Whatever parsing accepts is a major or minor key with a tonic index between 0 and 11.",
 ["input"],"all strings, all key values including out-of-range tonic indices",
 "Tests parse a few ASCII strings; byte-offset slicing and index arithmetic fail only on unusual text.",
 ["src/analysis/result.rs"],[("name/numeric/parse conversions","src/analysis/result.rs Key")],["Key::name, Key::numerical, Key::from_numerical"])
p("S18","Serialized results lose nothing",
 "Serializing an analysis result writes every field of the result, beat grid, metadata and tempo candidates under its own name, omitting only absent optional diagnostics, and deserializing reads each field back from the name it was written under. No field is skipped, renamed one-sidedly, defaulted or converted.",
 ["input"],"all results and all fields",
 "No test round-trips a full result with every optional diagnostic present.",
 ["src/analysis/result.rs"],[("derived serialization","src/analysis/result.rs derives and serde attributes")],["serialized form of AnalysisResult"])
p("S19","Run metadata tells the truth",
 "The metadata reports the sample rate passed in, the duration of the audio that was analysed, and tempo diagnostics exactly for the stages that ran: the candidate list is present only if requested, the multi-resolution and percussive indicators are absent when multi-resolution is disabled or the legacy estimator is forced, the percussive indicators never say triggered or used while the percussive fallback is disabled, and an indicator says 'used' exactly when the reported tempo is that alternative estimate.",
 ["input","configuration"],"all inputs and switch combinations",
 "Switch combinations times stage outcomes; tests never look at most of these fields.",
 [L],[("metadata construction","src/lib.rs AnalysisMetadata")],["metadata fields"])
p("S20","Analyses can run concurrently",
 "Configuration, results, errors and the stateful detector objects can be moved to and shared between threads, and the library holds no shared mutable state and no unsafe code, so concurrent analyses cannot interfere. The caller's sample buffer is only read.",
 ["schedule","history"],"all interleavings of concurrent calls",
 "Data races and shared-state interference need particular schedules.",
 ["src/"],[("by-value configuration, borrowed samples","src/lib.rs analyze_audio signature"),("no statics","src/**")],["type-level: Send/Sync; source-level: no statics, no interior mutability, no unsafe"])
p("S21","The reported key is one of the 24 keys",
 "Every key the library reports, as the result or in its rankings and segment lists, is a major or minor key whose tonic index lies between 0 and 11. No transposition, relative-key or table arithmetic can produce another index.",
 ["input","configuration"],"all inputs, all key-detection modes",
 "Wrap-around errors affect one or two tonics and are masked by the modulo in the printed names.",
 ["src/features/key/","src/lib.rs"],[("key construction sites","src/features/key/detector.rs, src/lib.rs")],["AnalysisResult.key, KeyDetectionResult"])
p("S22","Escalation never promotes a tempo above 180",
 "If the first-pass tempogram tempo is at most 180 BPM, the optional multi-resolution and percussive re-estimates can only replace it by a tempo of at most 180 BPM. A re-estimate above 180 is discarded regardless of its confidence.",
 ["input","configuration"],"all first-pass and re-estimated tempi, confidences and agreement counts",
 "Needs a re-estimate above 180 with high confidence over a base below 180, which the test clips do not produce.",
 [L],[("promotion guard","src/lib.rs forbid_promote_high")],["bpm"])
p("S25","Empty or short lists never crash the library",
 "No public function panics because a list is empty or shorter than assumed: wherever the code takes a fixed position or fixed range of a list (first, second, last, middle, the first n), unwraps an element, a largest or smallest value or any other optional value, or takes a fixed amount off a length or count, the value is there on every path. No explicit panic is reachable. Empty slices, single frames, silence and audio without any onset, peak or candidate give a result or an error.",
 ["input","configuration"],"all lengths (0 included) of every list argument and of every intermediate list, all values and settings",
 "Each guard matters only when one particular intermediate list (peaks, candidates, flux, segments) comes out empty or with a single entry, which the test clips never produce.",
 ["src/"],[("emptiness guards before first/last/middle elements","src/features/**, src/preprocessing/**"),("defaults for absent maxima","src/features/period/, src/features/key/")],["panics of any public function"])
p("S26","Lists come out in their documented order",
 "A list documented as sorted is sorted whenever its function succeeds: the energy-flux, spectral-flux, high-frequency and percussive onset detectors return positions in ascending order; tracked beats come in order of time; consensus onsets, picked peaks, both tempograms, the autocorrelation and comb-filter tempo candidates (coarse-to-fine search included) and the scored tempogram candidates come highest confidence, strength or score first; and every key ranking (all_scores) of every key-detection mode comes highest score first. Callers take the first entries as the best, so no later adjustment, insertion or special case may disturb the order.",
 ["input","configuration"],"all inputs and settings, every path that returns the list",
 "An out-of-order entry needs a particular edge case (an onset on the first frame, a bonus that reorders runners-up, near-equal scores), and the tests look at one or two sorted lists of easy input.",
 ["src/features/onset/","src/features/period/","src/features/key/detector.rs","src/features/beat_tracking/hmm.rs"],[("final sorts","src/features/onset/*.rs, src/features/period/*.rs, src/features/key/detector.rs, src/features/beat_tracking/hmm.rs")],["the returned lists"])
p("S23","Normalization never exceeds full scale",
 "After normalization in any mode, every sample has magnitude at most 1.0 when the input is finite; normalization can never push audio into clipping, whatever target loudness and headroom are configured.",
 ["input","configuration"],"all finite buffers, methods, targets and headrooms",
 "The limiting case needs a loud quiet-average buffer with particular targets.",
 ["src/preprocessing/normalization.rs"],[("gain limiting","src/preprocessing/normalization.rs normalize_*")],["processed sample values"])
p("S24","Reported tempo lies in the configured range",
 "Whatever the audio and for every configured tempo range without NaN: unless the tempo comes from the legacy onset-interval estimator (forced, or used because the tempogram failed), the tempo an analysis reports is zero (not detected) or lies within the configured minimum and maximum, and so does the tempo of every tempogram candidate listed in the metadata. The same holds for the estimate and the candidates returned by the public tempogram estimators, by the multi-resolution estimator that starts from samples and by the autocorrelation estimator, with respect to the range passed to them: octave folds, refinements and merges never move a tempo across an edge of the range.",
 ["input","configuration"],"all inputs and ranges",
 "Octave corrections and refinements move candidates across the range edge only for particular audio near that edge.",
 ["src/features/period/","src/lib.rs"],[("range tests of folds, grids and peaks","src/features/period/{tempogram,multi_resolution,tempogram_autocorr,tempogram_fft,autocorrelation}.rs"),("assembly of the result","src/lib.rs analyze_audio")],["bpm","tempo candidates"])
p("S27","Reported times and tempi are ordinary numbers",
 "Whatever the audio (non-finite samples included) and for every configuration whose tempo range and resolution are finite numbers: in an analysis result every beat, downbeat and bar time is finite and never negative, the tempo is never NaN or negative (and finite whenever the tempogram supplied it), the duration and processing time are finite and not negative, and no confidence, clarity, stability or agreement figure is NaN; so a result always survives JSON. Likewise, given finite non-negative times and numbers, the beat-grid generator, the beat tracker, onset consensus and tempo-variation detection return only finite non-negative times, and so does key-change detection for a positive rate and hop. Raw candidate scores are not covered.",
 ["input","configuration"],"all audio, all configurations with a finite tempo range",
 "Negative or NaN times appear only when an onset falls at the very start, a list is empty or a quotient vanishes.",
 ["src/lib.rs","src/features/beat_tracking/","src/features/onset/consensus.rs","src/features/key/key_changes.rs"],[("beat times","src/features/beat_tracking/hmm.rs extract_beats_from_path"),("result assembly","src/lib.rs analyze_audio"),("timestamps","src/features/key/key_changes.rs detect_key_changes")],["beat_grid","bpm","metadata","time_seconds","timestamp"])
p("S28","A call that fails changes nothing",
 "A public function that works in place on what the caller lends it (normalizing a sample buffer, updating the Bayesian beat tracker) either succeeds or leaves it exactly as it was: on every path that returns an error, no sample, tempo, confidence or history entry has been written. A caller can handle the error and go on with the same buffer or tracker.",
 ["input","fault"],"all arguments and all error paths",
 "A test sees a half-done update only if it provokes the particular error that comes after the first write and then inspects the object.",
 ["src/preprocessing/normalization.rs","src/features/beat_tracking/bayesian.rs"],[("normalize","src/preprocessing/normalization.rs normalize_*"),("update_with_onsets","src/features/beat_tracking/bayesian.rs")],["caller's buffer","tracker state"])
p("S29","Frame-wise stages keep one output per frame",
 "Every public stage that works frame by frame returns exactly one entry per frame, whatever the frames contain (silence included) and whatever its settings: down-mixing one sample per pair, the short-time transform one spectrum per window position, each chroma or HPCP extractor one row of 12 pitch classes and one energy per spectrum, beat-synchronous chroma one row per beat interval, each smoothing, masking or decomposing stage a result of the same number of rows and columns, each novelty curve one value for every two successive frames, combining curves of one length a curve of that length. From non-negative magnitudes no chroma, mask, component or novelty value comes out negative. Frame numbers therefore mean the same instant in every stage.",
 ["input","configuration"],"all frame contents, frame counts and settings of the stages",
 "A dropped or doubled frame shows only for the contents that trigger it (a silent frame, an empty beat interval, a very long track), and only as a shift of everything after it; tests use uniform frames of one length.",
 ["src/features/chroma/","src/features/onset/hpss.rs","src/features/period/novelty.rs","src/preprocessing/channel_mixer.rs"],[("extract_chroma_from_spectrogram_with_options_and_energy_tuned","src/features/chroma/extractor.rs"),("smooth_chroma","src/features/chroma/smoothing.rs"),("hpss_decompose","src/features/onset/hpss.rs"),("spectral_flux_novelty","src/features/period/novelty.rs"),("stereo_to_mono","src/preprocessing/channel_mixer.rs")],["chroma rows","frame energies","novelty curves","frame times"])
p("S36","Detected positions lie inside the input",
 "Every position a detector reports belongs to the input it was given, whatever the signal and the threshold: spectral-flux, high-frequency and percussive onset detectors report only existing frame numbers, the energy detector only sample numbers before the end of the audio, the peak picker only indices of its signal with the height found there, and silence detection only regions that neither start nor end beyond the buffer. Trimmed audio is never longer than the original and consists of its samples unaltered. A caller may use any reported position to index the data without a check of its own.",
 ["input","configuration"],"all signals, lengths and thresholds",
 "An off-by-one at the last frame or a region past the end shows only when an event falls on the very edge; the tests put their events in the middle.",
 ["src/features/onset/","src/features/period/peak_picking.rs","src/preprocessing/silence.rs"],[("detect_energy_flux_onsets","src/features/onset/energy_flux.rs"),("detect_spectral_flux_onsets","src/features/onset/spectral_flux.rs"),("detect_hfc_onsets","src/features/onset/hfc.rs"),("detect_hpss_onsets","src/features/onset/hpss.rs"),("find_peaks","src/features/period/peak_picking.rs"),("detect_and_trim","src/preprocessing/silence.rs")],["onset positions","peak indices","silence map","trimmed samples"])
# properties this family does not decide
p("S30","Tempo, key and beat estimates are accurate",
 "On real music the reported tempo, key and beats match the musical ground truth at the rates documented by the project.",
 ["input"],"all music","Accuracy is statistical over a labelled corpus.",["src/"],[("whole pipeline","src/lib.rs")],["bpm, key, beat_grid"])
p("S31","Analysis is fast enough for batch use",
 "A typical track is analysed within the documented time budget, and cost grows roughly linearly with duration.",
 ["input"],"all track lengths","Timing depends on machine and data.",["src/"],[("whole pipeline","src/lib.rs")],["processing_time_ms"])
p("S32","Results are invariant to playback gain",
 "Scaling all samples by a constant positive factor, with normalization enabled, leaves tempo, key and beat grid unchanged.",
 ["input"],"all inputs and gains","Relational numeric property over floating-point arithmetic.",["src/preprocessing/normalization.rs"],[("normalization","src/preprocessing/normalization.rs")],["bpm, key, beat_grid"])
p("S33","Transposing the audio transposes the key",
 "Shifting the audio's pitch by a whole number of semitones shifts the detected tonic by the same number and keeps the mode.",
 ["input"],"all tonal inputs","Relational numeric property of the chroma mapping on real spectra.",["src/features/key/","src/features/chroma/"],[("templates","src/features/key/templates.rs")],["key"])
p("S34","Silence trimming keeps all audible material",
 "Trimming removes only leading and trailing stretches whose level stays below the threshold for the minimum duration, never audible frames.",
 ["input"],"all buffers and thresholds","Depends on per-frame energies of the samples.",["src/preprocessing/silence.rs"],[("trim","src/preprocessing/silence.rs detect_and_trim")],["trimmed samples"])
p("S35","Loudness normalization reaches its target",
 "Loudness normalization brings the integrated loudness to the requested level within tolerance whenever headroom allows.",
 ["input"],"all buffers","Numeric filter accuracy over real signals.",["src/preprocessing/normalization.rs"],[("K-weighting, gating","src/preprocessing/normalization.rs")],["loudness metadata"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
