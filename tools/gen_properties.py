#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the JSON stays valid)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

p("C01", "Loading any bytes as WAV audio is memory-safe and ends cleanly",
  "Loading audio from an arbitrary byte stream always terminates without reading or writing outside its buffers, without using uninitialised data and without throwing. A stream that is not a complete 16-bit PCM RIFF/WAVE file with a data chunk and at least one sample yields an empty signal; otherwise the result has exactly one column and as many rows as the declared number of whole sample frames, never more samples than were declared.",
  ["inputs"], "every byte string up to the stated length, in particular every header field value and every truncation point",
  "The tests load three well-formed files and one empty stream; malformed, truncated and odd headers are an unbounded set the tests never sample.",
  ["src/wav_reader.cc", "src/include/wav_reader.h", "src/misc_audio.cc"],
  [("RIFF/fmt/fact/data chunk walk with size checks", "src/wav_reader.cc ParseHeader"),
   ("remaining-sample accounting on reads", "src/wav_reader.cc ReadSamples"),
   ("empty signal on any failure", "src/misc_audio.cc LoadAsMono(stream)")],
  observe=["MiscAudio::LoadAsMono", "WavReader::IsHeaderValid/GetNumTotalSamples/ReadSamples"])
p("C02", "A WAV file is decoded to exactly the samples it stores, as mono",
  "For every well-formed 16-bit PCM file the loaded signal has the file's sample rate, one row per sample frame in file order, and each value equals the average over the channels of sample/32768, so every value lies in [-1, 1). This holds whatever else the container carries: format-chunk extension bytes, the extensible format tag with its fact chunk, and unrelated chunks before the data chunk.",
  ["inputs"], "every sample value, channel count 1..3, sample rate, and chunk layout within the stated bounds",
  "The tests compare lengths of a few recorded files; per-sample values, channel interleaving and alternative chunk layouts are not asserted.",
  ["src/wav_reader.cc", "src/misc_audio.cc", "src/misc_math.cc"],
  [("chunk skipping", "src/wav_reader.cc ParseHeader"), ("int16 to double scaling", "src/misc_math.cc NormalizeInt16ToDouble"),
   ("de-interleave and average", "src/misc_audio.cc ExtractMultiChannel, ToMono")],
  observe=["MiscAudio::LoadAsMono"])
p("C03", "Batch file lists are read completely, in order and without crashing",
  "For any text given as the batch list, every line after the header that names a reference and a degraded file yields exactly one pair with exactly those two names, in file order, whether lines end in LF or CRLF and whether or not the last line is terminated. Lines that do not name two files (blank or without a comma) never crash the program and never produce or disturb another line's pair.",
  ["inputs"], "every text up to the stated length over an alphabet including letters, comma, CR and LF",
  "One test reads one well-formed file; blank lines, missing commas, CR placement and missing final newline are not covered.",
  ["src/commandline_parser.cc", "src/include/commandline_parser.h"],
  [("line loop with CR stripping and comma split", "src/commandline_parser.cc ReadFilesToCompare")],
  observe=["VisqolCommandLineParser::ReadFilesToCompare", "VisqolCommandLineParser::BuildFilePairPaths"])
p("C04", "A reported quality score is always a number between 1 and 5",
  "For every similarity vector the support-vector and exponential mappings return a value in [1, 5], never below 1, above 5 or NaN for numeric input; the exponential mapping never decreases when a band similarity increases, depends only on the mean similarity, and maps perfect similarity to 5.0 (scaled, up to rounding) or about 4.02 (unscaled). When the overall similarity of a comparison is below 0.15 the score is exactly 1, and otherwise the mapping's value is reported unchanged.",
  ["inputs", "configurations"], "every finite feature vector, every value the underlying model may return, both scaling modes",
  "The tests check a handful of recorded clips whose scores never reach either clamp or the 0.15 rule.",
  ["src/speech_similarity_to_quality_mapper.cc", "src/svr_similarity_to_quality_mapper.cc", "src/visqol.cc", "src/misc_math.cc"],
  [("clamping", "PredictQuality of both mappers"), ("dissimilarity override", "src/visqol.cc AlterForSimilarityExtremes")],
  observe=["SimilarityToQualityMapper::PredictQuality", "Visqol::CalculateSimilarity -> moslqo"])
p("C05", "Patch similarity is the documented index: 1 for equal, symmetric, <= 1",
  "Comparing two equally sized spectrogram patches yields, per frequency band, the mean and the unbiased standard deviation over time of the neurogram similarity map (Gaussian-weighted 3x3 neighbourhoods with replicated borders, luminance and structure terms with the fixed constants), and the overall similarity is the mean of the band means. Hence an identical pair scores 1 in every band with zero deviation, swapping the two patches does not change the similarity, and no band exceeds 1 (up to rounding). The reported degraded energy of a band is the mean of the degraded patch over that band.",
  ["inputs"], "every real-valued pair of patches of the stated sizes",
  "The tests compare one 3x3 convolution and whole-clip scores with recorded values; no relation over all patches is asserted.",
  ["src/neurogram_similiarity_index_measure.cc", "src/convolution_2d.cc", "src/amatrix.cc"],
  [("similarity map", "MeasurePatchSimilarity"), ("border replication and valid convolution", "src/convolution_2d.cc")],
  observe=["NeurogramSimiliarityIndexMeasure::MeasurePatchSimilarity", "Convolution2D::Valid2DConvWithBoundary"])
p("C06", "Patch matching finds the best time-ordered assignment in the window",
  "Each reference patch is matched to a degraded start frame within the search window of its own position and inside the degraded spectrogram, matched frames strictly increase with reference order, and the total similarity equals the maximum over all such assignments, where the first patch is always matched and a later patch may stay unmatched, contributing nothing, when the previously matched frame also lies in its own window. Reported start/end times are exactly frame index times frame duration and patch duration, a patch that is left unmatched is reported with zero times, zero similarity and zero band means, and reference patches starting more than half a patch past the end of the degraded signal, or whose whole search window lies past it, are dropped from the end, with an error when none is left. Matching never accesses memory outside its tables.",
  ["inputs"], "every assignment of similarity values to (reference patch, degraded frame) pairs, every patch position, degraded length and window within the stated sizes",
  "Five tests use fixed similarity layouts; optimality over all value orderings and edge positions (patch at either end, window of zero, everything dropped) is not decided by them.",
  ["src/comparison_patches_selector.cc"],
  [("dynamic programming with backtrace", "FindMostOptimalDegPatch(es)"), ("dropping rule", "CalcMaxNumPatches")],
  state=[("cumulative_similarity_dp", "best total up to this patch ending at this frame", "src/comparison_patches_selector.cc"),
         ("backtrace", "frame chosen for the previous patch", "src/comparison_patches_selector.cc")],
  observe=["ComparisonPatchesSelector::FindMostOptimalDegPatches"])
p("C07", "Patches and audio segments are cut out exactly, padded with silence",
  "A patch cut from a spectrogram for any start frame has exactly the requested size and contains exactly the spectrogram's values for the frames that exist, in their position, with zeros for frames before the beginning or past the end. An audio segment cut for a start and end time inside the signal contains exactly the consecutive samples of that interval in order, keeps the sample rate, and the parts before the start or after the end of the signal are represented by leading or trailing zeros of that duration.",
  ["inputs"], "every start/end position relative to the data within the stated sizes, and all contents",
  "One test slices one interior interval; the padding cases and element placement for other positions are not covered.",
  ["src/comparison_patches_selector.cc", "src/image_patch_creator.cc", "src/amatrix.cc"],
  [("row copy with zero insertion", "BuildDegradedPatch"), ("index computation and joining", "Slice"), ("column ranges", "CreatePatchesFromIndices")],
  observe=["ComparisonPatchesSelector::Slice", "patches handed to PatchSimilarityComparator", "ImagePatchCreator::CreatePatchesFromIndices"])
p("C08", "Time alignment shifts the degraded signal by the best-correlated lag",
  "The lag chosen for two signals is the displacement that maximises the cross-correlation of their envelopes over all displacements shorter than the longer signal; a zero lag, one longer than half the reference, or one that would remove the whole degraded signal leaves the degraded signal unchanged with lag 0, a positive lag prepends exactly that many zeros, a negative one removes exactly that many leading samples, and the reported lag in seconds is the lag divided by the sample rate. Align-and-truncate always returns two signals of equal length whose samples are consecutive samples of the reference and the shifted degraded signal (without the zeros prepended for a positive lag when the shifted degraded signal is the longer one; otherwise from the first sample) up to the end of the shorter, and never fails on non-empty mono signals of at most equal sample rate.",
  ["inputs"], "every lag the correlation can return, all signal contents and length combinations within the stated sizes",
  "The alignment, envelope and cross-correlation sources are not even built by the offline test set; upstream tests use a few recorded clips.",
  ["src/alignment.cc", "src/xcorr.cc", "src/envelope.cc"],
  [("lag search", "src/xcorr.cc FindLowestLagIndex"), ("shift and truncation", "src/alignment.cc")],
  observe=["Alignment::GloballyAlign", "Alignment::AlignAndTruncate", "XCorr::FindLowestLagIndex"])
p("C09", "A comparison's result does not depend on earlier comparisons",
  "Processing a signal with a spectrogram builder, filter bank, patch selector or manager that has already processed any other signals gives bit-for-bit the result a freshly created one gives, also when an earlier use failed with an error. The reference passed to a comparison is never modified, and filter state carried over explicitly by the caller makes filtering a signal in consecutive pieces equal to filtering it whole.",
  ["histories", "inputs"], "every sequence of two uses with arbitrary signal contents and coefficients at the stated sizes",
  "Tests construct fresh objects for every case; no test reuses one object across different inputs.",
  ["src/gammatone_spectrogram_builder.cc", "src/gammatone_filterbank.cc", "src/signal_filter.cc", "src/visqol_manager.cc"],
  [("filter condition reset", "ResetFilterConditions calls in Build"), ("final conditions returned", "src/signal_filter.cc")],
  state=[("fltr_cond_1_..4_", "per-band filter memory", "src/include/gammatone_filterbank.h")],
  observe=["GammatoneSpectrogramBuilder::Build", "GammatoneFilterBank::ApplyFilter", "SignalFilter::Filter"])
p("C10", "The comparison engine runs only when initialised and validates its input",
  "Running a comparison before a successful initialisation, or after an initialisation attempt that failed, returns an error and never crashes, and the same object works once initialisation succeeds. Two signals with different sample rates, or a signal without samples (a file that cannot be read), are rejected with an invalid-argument error; otherwise the comparison uses the configured mapping, bands and patch length of the configured mode (21 bands and 20 frames for speech, 32 and 30 for audio) and the configured search window, the result carries the global alignment lag (exactly 0 with the degraded signal unshifted when global alignment is disabled), and fine realignment is performed exactly when it is not disabled.",
  ["histories", "configurations", "inputs"], "every sequence of up to three initialise/run calls with every outcome of model loading, every combination of the option flags, and every pair of sample rates",
  "The manager is not built by the offline test set, and upstream tests call it once per object with valid input.",
  ["src/visqol_manager.cc", "src/include/visqol_manager.h"],
  [("initialised flag", "src/visqol_manager.cc Init/ErrorIfNotInitialized"), ("sample rate check", "ValidateInputAudio")],
  state=[("is_initialized_", "whether a comparison may run", "src/include/visqol_manager.h")],
  observe=["VisqolManager::Init", "VisqolManager::Run"])
p("C11", "API configuration is validated and every option reaches the engine",
  "Creating a comparison from a configuration fails with an invalid-argument error, without initialising anything, exactly when audio information is missing, the sample rate is zero, or the rate is not 48000 in audio mode without the explicit override; otherwise the engine is initialised exactly once with the requested speech mode, unscaled mapping, lattice choice, a search radius of 60 unless a non-zero one is given, and the given model path or the mode's default model. A failure of the engine's initialisation is returned to the caller, and measuring wraps both sample buffers unchanged at the configured rate.",
  ["configurations", "inputs"], "every combination of presence, flag and integer values of the configuration fields",
  "Two tests cover two of the rejection cases; the option plumbing and the accepted combinations are not asserted.",
  ["src/visqol_api.cc"],
  [("validation and defaulting", "src/visqol_api.cc Create"), ("signal wrapping", "Measure")],
  observe=["VisqolApi::Create", "VisqolApi::Measure", "arguments of VisqolManager::Init/Run"])
p("C12", "A spectrogram has one RMS column per full window, low to high bands",
  "For a signal longer than one window the spectrogram has one column for every hop position whose whole window fits in the signal (1 + floor((length - window) / hop)) and one row per band; each entry is the root mean square over the window of that band's filter output for the Hann-windowed samples of exactly that window, with filters starting at rest, and depends on no other sample. Band centre frequencies are reported in increasing order between the minimum and maximum frequency and row i belongs to the i-th of them, and a signal not longer than one window, or a sample rate so low that the hop between windows is less than one sample, is rejected with an invalid-argument error.",
  ["inputs", "configurations"], "all sample values; signal lengths around every hop boundary; band counts and windows within the stated sizes",
  "One test compares a recorded clip's spectrogram; frame count at boundaries, locality and the error case are not asserted.",
  ["src/gammatone_spectrogram_builder.cc", "src/gammatone_filterbank.cc", "src/signal_filter.cc", "src/analysis_window.cc", "src/equivalent_rectangular_bandwidth.cc"],
  [("frame loop", "src/gammatone_spectrogram_builder.cc Build"), ("window", "src/analysis_window.cc"), ("recursive filters", "src/signal_filter.cc")],
  observe=["GammatoneSpectrogramBuilder::Build", "AnalysisWindow::ApplyHannWindow", "SignalFilter::Filter"])
p("C13", "Spectrogram conditioning applies both noise floors and a common zero",
  "After preparing a reference and a degraded spectrogram for comparison every entry equals its level in dB raised to at least -45 dB and, in frames both have, to at least 45 dB below the louder of the two frames' peaks, minus the lowest remaining level over both spectrograms. So all entries are non-negative and not NaN for every numeric input, the smallest entry over both is exactly 0, the order of levels is preserved above the floors, and swapping the two spectrograms swaps the results.",
  ["inputs"], "every pair of spectrograms of the stated sizes including zeros, negative values, and different frame counts",
  "Three tests exercise single helper steps on one small matrix; the combined guarantee is not tested.",
  ["src/misc_audio.cc", "src/spectrogram.cc"],
  [("floors and subtraction", "PrepareSpectrogramsForComparison, RaiseFloor, RaiseFloorPerFrame, SubtractFloor"), ("dB conversion", "ConvertSampleToDb")],
  observe=["MiscAudio::PrepareSpectrogramsForComparison", "Spectrogram"])
p("C14", "Voice activity is absent only after three consecutive quiet chunks",
  "For every sequence of chunks the detector reports one decision per chunk (and always at least two), the first two always active, and chunk i inactive exactly when chunks i, i-1 and i-2 all have a root-mean-square below 5000. The returned level of a chunk is its root mean square.",
  ["inputs", "histories"], "every sequence of up to the stated number of chunks, every 16-bit sample value",
  "Parameterised tests use two recorded signals; boundary levels and quiet/loud patterns are not enumerated.",
  ["src/rms_vad.cc"],
  [("three-chunk rule", "GetVadResults, CheckPreviousChunksForSilence"), ("RMS", "CalcRootMeanSquare")],
  state=[("each_chunk_result_", "per-chunk threshold decision", "src/include/rms_vad.h")],
  observe=["RmsVad::ProcessChunk", "RmsVad::GetVadResults"])
p("C15", "Reference patches lie inside the spectrogram and do not overlap",
  "For every spectrogram length and patch size, the chosen reference patches start half a patch minus one frame in, follow each other at patch-size spacing, are disjoint, and lie entirely within the spectrogram; in audio mode a spectrogram shorter than one and a half patches is rejected with an invalid-argument error and otherwise at least one patch is chosen and no patch of the grid that leaves two frames behind it is left out. In speech mode the chosen patches are exactly those of that grid in which the detector finds voice activity in at least one of the patch's frames (chunks of one hop of the reference normalised to its peak, counted from sample P/2 - 1), and a reference too short for a single patch yields an error or no patches but never a crash.",
  ["inputs"], "every spectrogram length up to several patches, patch sizes 2.., window and signal lengths, and all voice decisions",
  "Tests use one recorded clip and one patch layout; boundary lengths and too-short input are not covered.",
  ["src/image_patch_creator.cc", "src/vad_patch_creator.cc"],
  [("index arithmetic", "CreateRefPatchIndices of both creators"), ("voice activity per patch", "GetVoiceActivity")],
  observe=["CreateRefPatchIndices", "CreatePatchesFromIndices"])
p("C16", "FFT wrapping: sizes, bin order, scaling and inversion are correct",
  "For every signal length from 1 to 2^31 the transform size is the smallest power of two that is at least the length and at least 32, the forward transform returns the full conjugate-symmetric spectrum with DC first and Nyquist in the middle, and the inverse transform of it returns the original samples (up to rounding). Scaling multiplies every element of a buffer of any length, including those after the last full SIMD chunk, and never touches memory outside the buffers.",
  ["inputs"], "every 32-bit length for the size rule; every buffer length and content within the stated bounds",
  "These sources are not built offline; the size rule has a test for a few values only.",
  ["src/fft_manager.cc", "src/fast_fourier_transform.cc", "src/misc_math.cc", "src/include/fft_manager.h", "src/include/audio_channel.h"],
  [("NextPowTwo", "src/misc_math.cc"), ("packing and mirroring", "src/fast_fourier_transform.cc"), ("SIMD loop plus leftover loop", "src/fft_manager.cc")],
  observe=["FastFourierTransform::Forward1d/Inverse1d", "FftManager"])
p("C17", "Score features are exact aggregates of the matched patches",
  "For any set of matched patches the per-band similarity reported is the mean of the patches' band means, the decile feature is the mean of the lowest tenth of them (at least one), the degraded energy is the mean of the patches' band energies, and the deviation feature is the square root of the pooled variance with negative variances reported as 0; the overall similarity is the mean over bands. The decile feature never exceeds the mean, deviations are never negative or NaN, and the order of the patches does not matter.",
  ["inputs"], "every value assignment for the stated numbers of patches and bands",
  "One test checks one decile case; the other aggregates have no unit test.",
  ["src/visqol.cc"],
  [("aggregation loops", "CalcPerPatch* in src/visqol.cc"), ("negative variance filter", "CalcPerPatchMeanFreqBandStdDevs")],
  observe=["Visqol::CalculateSimilarity result fields"])
p("C18", "Results are reported completely: every field, column and row",
  "The result message of a comparison carries every computed value unchanged and in order: score, overall similarity, all per-band vectors, centre frequencies, and for each patch its similarity, band means and four times, together with the two file names. Appending a result to a CSV file writes the header first only if the file did not exist, every row has exactly as many fields as the header of such a result and in the header's order, and earlier contents are kept; file names that contain separators or quotes are quoted so that the fields stay apart.",
  ["inputs", "histories"], "every value and vector length within the stated bounds; file absent or present",
  "No test covers the result message or the CSV/JSON writers.",
  ["src/visqol_manager.cc", "src/include/sim_results_writer.h"],
  [("field copies", "PopulateSimResultMsg"), ("header/row loops", "WriteResultsToCSV")],
  observe=["VisqolManager::Run result", "output files"])
p("C19", "Level matching gives the degraded signal the reference's loudness",
  "For signals that are not silent, the degraded signal is multiplied before comparison by one constant positive factor that makes its RMS level equal to the reference's; sample count, sample rate and order are unchanged, equal levels leave it unchanged (factor 1), and amplifying the degraded input beforehand does not change the outcome (up to rounding). The reference signal is not modified.",
  ["inputs"], "every pair of non-silent signals of the stated lengths",
  "Only end-to-end scores depend on it in tests; there is no assertion on the factor.",
  ["src/misc_audio.cc"],
  [("level computation and scaling", "ScaleToMatchSoundPressureLevel, CalcSoundPressureLevel")],
  observe=["MiscAudio::ScaleToMatchSoundPressureLevel"])
p("C20", "Feature vectors reach the learned models complete and in order",
  "The support-vector model receives, for every feature vector, one entry per feature with indices 1..n in order, the unmodified values, and the end marker, with no access outside the allocated nodes, and returns the model's output; the lattice model receives each of the four per-band features under its band's name for all bands plus the tau feature. Training observations are converted the same way, row by row, and a model that cannot be loaded yields an error, not a crash.",
  ["inputs", "fault_sequences"], "every feature value and vector length within the stated bounds, every outcome of model loading",
  "A model test compares one recorded prediction; layout, terminator and failure paths are not asserted.",
  ["src/libsvm_target_observation_convertor.cc", "src/support_vector_regression_model.cc", "src/tflite_quality_mapper.cc"],
  [("node conversion", "src/libsvm_target_observation_convertor.cc"), ("tensor filling", "src/tflite_quality_mapper.cc PredictQuality")],
  observe=["arguments of svm_predict/svm_train", "input tensors of the lattice model"])
p("C21", "Training data files are parsed row by row without loss",
  "For any text in a training data file, each line yields one row holding, in order, the numeric value of every delimiter-separated item that is a number, items that are not numbers are skipped, and nothing carries over from one line to the next; reading never crashes.",
  ["inputs"], "every text up to the stated length over digits, delimiter, letters and newline",
  "The only test reads one recorded file through the whole training flow.",
  ["src/svr_training/training_data_file_reader.cc"],
  [("line and item loops", "TrainingDataFileReader::Read")],
  observe=["TrainingDataFileReader::Read"])
p("C22", "Matrix operations compute their mathematical meaning element by element",
  "Two matrices compare equal exactly when they have the same shape and elements. Selecting rows, columns or spans, setting rows and columns, transposing, flipping, joining, resizing, scalar and element-wise arithmetic, row and column means and unbiased standard deviations return the mathematically defined elements in the right positions, never alter their operands, and own their memory.",
  ["inputs"], "every shape within the stated bounds, all element values",
  "The matrix class has no test file in the offline set; other tests touch a few operations with one shape.",
  ["src/amatrix.cc", "src/include/amatrix.h"],
  [("wrapping of the matrix library", "src/amatrix.cc")],
  observe=["AMatrix public operations"])
p("C23", "Command-line options are validated and mapped to the run they describe",
  "Parsing succeeds only if the files the options require exist: the batch list when one is given (then reference and degraded names are ignored), otherwise both the reference and the degraded file, and an explicitly given model file in audio mode; otherwise an invalid-argument error is returned. On success every option value is passed on unchanged, and without an explicit model the default model of the selected mode is used and must exist.",
  ["configurations", "inputs"], "every combination of flag values and of which files exist",
  "One test covers the batch file path; validation, precedence and defaults are not tested.",
  ["src/commandline_parser.cc"],
  [("validation", "VisqolCommandLineParser::Parse"), ("pair selection", "BuildFilePairPaths")],
  observe=["VisqolCommandLineParser::Parse", "VisqolCommandLineParser::BuildFilePairPaths"])
p("C24", "Fine realignment never makes a patch match worse or mislabels it",
  "After fine realignment there is one result per matched patch, in the same order; a patch that was left unmatched is returned untouched, and every other patch keeps its previous result unless the realigned comparison is at least as similar, so no patch's similarity decreases. When the realigned comparison is taken, its times are the previous ones shifted by the lag (the reference start for a positive lag, the degraded start otherwise) with end minus start equal to the realigned durations, and an error while building a realigned spectrogram is returned as an error.",
  ["inputs"], "every similarity outcome, lag and duration for up to the stated number of patches, and every builder failure",
  "No test asserts on the realignment stage by itself; it is only exercised through recorded end-to-end scores.",
  ["src/comparison_patches_selector.cc"],
  [("keep-the-better rule and time update", "FinelyAlignAndRecreatePatches")],
  observe=["ComparisonPatchesSelector::FinelyAlignAndRecreatePatches"])
p("C25", "One failing pair in a batch does not affect the other pairs",
  "Processing a list of file pairs runs each pair in order, writes exactly one result for each pair that succeeds to the requested outputs, and continues after a pair that fails, except that it stops when the engine reports that it is not initialised. The program exits with an error without processing anything when the options are invalid or initialisation fails, and with success otherwise.",
  ["fault_sequences", "inputs"], "every success/failure pattern of up to the stated number of pairs",
  "The program's entry point has no test.",
  ["src/main.cc"],
  [("per-pair loop", "src/main.cc main")],
  observe=["results written", "exit status"])
p("C26", "The filter bank realises the specified cascade of four filters per band",
  "For all coefficients and inputs, the output of the recursive filter satisfies its difference equation from the given initial state and its returned final state continues it; the filter bank's row for a band is the input passed through that band's four second-order sections in order (the first divided by the band's gain) and no band influences another. Output and returned states have the lengths of input and state.",
  ["inputs"], "every coefficient and sample value for the stated numbers of bands and samples",
  "One test compares one filter bank output with recorded numbers.",
  ["src/gammatone_filterbank.cc", "src/signal_filter.cc"],
  [("direct form II transposed loop", "src/signal_filter.cc"), ("cascade", "src/gammatone_filterbank.cc ApplyFilter")],
  observe=["SignalFilter::Filter", "GammatoneFilterBank::ApplyFilter"])
p("C27", "A signal compared with itself is perfectly similar",
  "For every signal and an identical copy as degraded signal: the alignment finds no lag and changes neither, level matching changes nothing, and - with a similarity index that is 1 for equal patches and at most 1 otherwise - every reference patch is matched with similarity 1, the band means, the worst-decile feature and the overall similarity are 1 and the deviation 0 (up to rounding), for every search radius, with and without fine realignment; the mapping is given these features and its value is reported. At search radius 0 every patch is matched at its own time. A silent signal is no exception.",
  ["inputs", "configurations"], "every sound and similarity index within the bounds, every search radius and both realignment settings of the stated sizes",
  "A test compares one recorded clip with itself and checks its score; other sounds, lengths, radii and settings are never tried.",
  ["src/visqol.cc", "src/comparison_patches_selector.cc", "src/alignment.cc", "src/misc_audio.cc", "src/neurogram_similiarity_index_measure.cc"],
  [("comparison", "src/visqol.cc CalculateSimilarity"), ("lag search", "src/xcorr.cc"), ("conditioning", "src/misc_audio.cc PrepareSpectrogramsForComparison")],
  observe=["Visqol::CalculateSimilarity", "Alignment::GloballyAlign", "Alignment::AlignAndTruncate"])
p("C28", "The gammatone filters follow the published design",
  "For every sample rate, band count and frequency range: the centre frequencies are equally spaced on the equivalent-rectangular-bandwidth scale (Glasberg and Moore) from the minimum frequency up to, and without, the maximum; each band is Slaney's four-section approximation - common pole pair at the centre frequency with the decay of 1.019 bandwidths, four zeros from the gammatone impulse response - and its gain makes the cascade's response at the centre frequency exactly 1. A maximum above half the sample rate is replaced by half the sample rate.",
  ["inputs", "configurations"], "every lowest frequency within the range and the stated sample rates and band counts",
  "One test compares one configuration with recorded numbers.",
  ["src/equivalent_rectangular_bandwidth.cc", "src/complex_valarray.cc"],
  [("filter design", "src/equivalent_rectangular_bandwidth.cc MakeFilters"), ("spacing", "CalcUniformCenterFreqs")],
  observe=["EquivalentRectangularBandwidth::MakeFilters -> ErbFiltersResult"])
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open("properties.jsonl", "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
