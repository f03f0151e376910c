"""What each check runs: units (harness + real sources), entries, bounds."""
COMMON_ASSUMPTIONS = [
    "clang 18 -O2 IR of the sources is what is decided (same sources, -DNDEBUG, no FP contraction); replays use g++ with ASan and UBSan",
    "memory is modelled as separate objects with exact bounds; allocation above the stated limit throws std::bad_alloc",
    "Z3 and the engine in symex/ are trusted; explored paths are replayed natively to validate the encoding",
]
CHECKS = {}
NOT_APPLICABLE = {}
def check(pid, bounds, units, assumptions=()):
    CHECKS[pid] = dict(bounds=bounds, units=units, assumptions=list(assumptions))

check("C14", "any sequence of 0..6 chunks (quick) or 0..8 (thorough) of one symbolic 16-bit sample; 0..4 chunks of 2 samples; RMS value for chunks of 3..5 samples (3..8 thorough), all sample values",
      [dict(name="vad", harness="c14.cc", repo=["src/rms_vad.cc"], rt=[], entries=[
          dict(fn="h_pattern", p=dict(max=6, size=1), tp=dict(max=8), reach=["active", "inactive"], time=200),
          dict(fn="h_rms", p=dict(size=[3, 4, 5]), tp=dict(size=[3, 4, 5, 6, 7, 8]), reach=["rms"], time=200),
      ])])

check("C22", "matrices of 11 shapes from 1x1 to 17x1 (on both sides of the 16 elements stored in place), every element symbolic; comparison for all pairs of 7 shapes; statistics over the reals",
      [dict(name="amat", harness="c22.cc", repo=["src/amatrix.cc"], entries=[
          dict(fn="h_eq", reach=["same shape", "different shape"]),
          dict(fn="h_make", reach=["made"]), dict(fn="h_own", reach=["owned", "written"]), dict(fn="h_select", reach=["selected"]), dict(fn="h_set", reach=["row", "column"]), dict(fn="h_shape", reach=["shaped"]),
          dict(fn="h_arith", reach=["arith"], mode="uf", then=["real"]), dict(fn="h_div", reach=["div"], mode="uf", then=["real"]),
          dict(fn="h_stats", mode="real", reach=["stats"]),
      ])])

WAV = ["src/wav_reader.cc", "src/misc_audio.cc", "src/misc_math.cc", "src/amatrix.cc", "src/spectrogram.cc", "src/misc_vector.cc"]
IO = ["rt.cpp", "io.cpp"]
check("C01", "every byte string of 0, 11, 35..37, 43..46 and 48 bytes (thorough also 52, 54, 56), and each kind of complete format chunk followed by every 0..20 (thorough 28) bytes; declared data of at most 12 samples in at most 4 channels except that a declared size above 2^29 bytes is covered separately; reading in up to 3 pieces of 0..3 samples",
    [dict(name="wav", harness="c01.cc", repo=WAV, rt=IO, entries=[
          dict(fn="h_any", p=dict(n=[0, 11, 35, 36, 37, 43, 44, 45, 46, 48]), tp=dict(n=[0, 11, 35, 36, 37, 43, 44, 45, 46, 48, 50, 52, 54, 56]), opts=["--oomdrop", "--maxalloc=100"], reach=["empty"]),
          dict(fn="h_tail", p=dict(n=[8, 10, 13, 18, 20]), tp=dict(n=[8, 10, 13, 18, 20, 24, 28]), opts=["--oomdrop", "--maxalloc=100"], reach=["empty"], weight=2),
          dict(fn="h_reader", reach=["read"]),
          dict(fn="h_huge"),
      ])], assumptions=["an allocation of more than 100 bytes ends the path as outside the bound (h_any, h_tail)"])
check("C02", "files of 1..3 channels and 1..2 frames (thorough 1..4 and 1..3) with every sample value, every sample rate below 2^31, every format-chunk form, extension of 0, 2, 4 or 22 bytes, up to two unrelated chunks of 0..3 (thorough 0..5) bytes before and one after the data",
    [dict(name="wav", harness="c01.cc", repo=WAV, rt=IO, entries=[
          dict(fn="h_wellformed", p={"fix:chunks": [0, 1, 2], "fix:format": [0, 1, 2, 3]}, tp=dict(maxch=4, maxfr=3, maxchunk=6), reach=[]),
      ])])
CLP = dict(name="clp", harness="c03.cc", repo=["src/commandline_parser.cc"], rt=IO)
check("C03", "every text of 0..5 (thorough 7) bytes after a header line and every text of 0..4 (thorough 6) bytes; lists of 3 (thorough 4) lines of 6 kinds with symbolic names, LF or CRLF, terminated or not",
    [dict(CLP, entries=[
          dict(fn="h_bytes", p=dict(n=[0, 3, 5]), tp=dict(n=[0, 3, 5, 7]), reach=["read"]),
          dict(fn="h_header", p=dict(n=[0, 4]), tp=dict(n=[0, 4, 6]), reach=["read"]),
          dict(fn="h_lines", p={"lines": 3, "fix:line0": [0, 1, 2, 3, 4, 5]}, tp=dict(lines=4), reach=["read"]),
      ])])
check("C23", "every combination of given/missing/present reference, degraded, batch and model files and default models in both modes; every value of the other options",
    [dict(CLP, entries=[dict(fn="h_parse", reach=["accepted", "rejected"]), dict(fn="h_defaults", reach=["defaults"])])],
    assumptions=["Abseil's flag parsing itself is replaced by setting the flag values"])
SEL = ["src/comparison_patches_selector.cc", "src/amatrix.cc", "src/image_patch_creator.cc", "src/misc_audio.cc", "src/misc_math.cc", "src/misc_vector.cc", "src/spectrogram.cc", "src/wav_reader.cc", "src/analysis_window.cc"]
ALIGNSTUB = dict(name="fine", harness="c06.cc", cflags=["-DFINE"], repo=SEL, rt=IO)
check("C06", "2 patches of 1..2 frames against 1, 3 or 4 frames with search radius 0..2 and 3 patches against 4 frames (thorough: 3 patches of 2 frames against 5, 4 patches against 5, gaps in the grid), every grid start, all similarities in [-100, 100], sums over the reals; counting of patches for up to 3 indices below 2^18 and any 32-bit frame count and patch size",
    [dict(ALIGNSTUB, entries=[
          dict(fn="h_match", mode="real", weight=1, p=dict(patches=[1, 2], pf=[1, 2], frames=[1, 3], radius=[0, 1, 2]), reach=[]),
          dict(fn="h_match", mode="real", weight=3, p=dict(patches=2, pf=[1, 2], frames=4, radius=[1, 2]), reach=["matched", "unmatched"]),
          dict(fn="h_match", mode="real", weight=4, p=dict(patches=3, pf=1, frames=4, radius=[1, 2]), reach=["matched", "unmatched"]),
          dict(fn="h_match", mode="real", weight=9, tier="thorough", p=dict(patches=3, pf=[1, 2], frames=5, radius=[1, 2], gaps=1, **{"fix:gap": [0, 1]}), reach=[], ttime=3000),
          dict(fn="h_match", mode="real", weight=9, tier="thorough", p=dict(patches=4, pf=1, frames=5, radius=[1, 2]), reach=[], ttime=3000),
          dict(fn="h_degenerate", reach=["ended"]),
          dict(fn="h_max_patches", reach=["counted"]),
      ])], assumptions=["sums of similarities are exact (no rounding)"])
check("C07", "spectrograms of 1..3 bands and 1..4 frames, patches of 1..4 frames starting anywhere from one frame before the start to the last frame; signals of 1..5 samples, segments on a grid of a quarter sample reaching up to 3 samples before and 2 past the signal; every element symbolic",
    [dict(ALIGNSTUB, entries=[
          dict(fn="h_patches", reach=["cut"]), dict(fn="h_build_patch", reach=["cut"]), dict(fn="h_columns", reach=["cut"]),
          dict(fn="h_slice", tp=dict(n=9, past=5), reach=["inside", "leading silence", "trailing silence"]),
      ])])
check("C24", "1..2 patches, each unmatched, matched at frame 0 or later; every similarity pair; realignment lags from -2 to 2 samples (1 patch; -1, -2 or none for 2); realigned durations 1..2 samples; failure of any one spectrogram",
    [dict(ALIGNSTUB, entries=[ dict(fn="h_fine", p=dict(n=[1]), reach=["taken", "kept", "error", "unmatched"]),
          dict(fn="h_fine", mode="real", p={"n": 2, "fix:fail": [0, 1, 3, 4]}, reach=[]),
    ])], assumptions=["the aligner, the spectrogram builder and the similarity are arbitrary (their own properties: C08, C13, C05)"])
AGG = dict(name="agg", harness="c17.cc", repo=["src/visqol.cc"] + SEL, rt=IO)
MAPPERS = ["src/speech_similarity_to_quality_mapper.cc", "src/svr_similarity_to_quality_mapper.cc", "src/support_vector_regression_model.cc", "src/libsvm_target_observation_convertor.cc", "src/tflite_quality_mapper.cc", "src/misc_math.cc", "src/amatrix.cc"]
MAPUNIT = dict(name="mappers", harness="c04.cc", repo=MAPPERS, rt=IO, shims=["tflite"])
check("C04", "exponential mapping: 1..3 bands of similarities in [-10^6, 10^6] over the reals, one band of every double including infinities bit-exactly, perfect and five constant similarity levels for 1..32 bands; support-vector mapping: every double a model can predict", [dict(MAPUNIT, entries=[
          dict(fn="h_speech", mode="real", p=dict(n=[1, 2, 3]), reach=["scored"]),
          dict(fn="h_speech_range", mode="uf", then=["exact"], reach=["scored"]),
          dict(fn="h_speech_mean", reach=["perfect"]),
          dict(fn="h_svr", reach=["in range", "below", "above"]),
      ]), dict(AGG, entries=[dict(fn="h_extremes", mode="real", p=dict(n=[1, 2]), tp=dict(n=[1, 2, 3, 4]), reach=["dissimilar", "scored"])])], assumptions=["exp is an increasing function (not decreasing when rounded) with libm's values at ten points"])
check("C20", "0..6 features with every value, two predictions per model; training sets of 1..3 rows of 0..3 features; lattice features of 1..3 (thorough 1..11) bands in [-10^6, 10^6], two predictions; every outcome of loading and preparing", [dict(MAPUNIT, entries=[
          dict(fn="h_svm_predict", reach=["predicted"]), dict(fn="h_svm_load", reach=["never initialised", "loaded", "failed"]), dict(fn="h_svm_train", reach=["trained"]),
          dict(fn="h_lattice", tp=dict(bands=11), reach=["predicted"]), dict(fn="h_lattice_init", reach=["ready", "failed"]),
      ])], assumptions=["libsvm and TensorFlow Lite are replaced by stand-ins that record what they are given and answer anything"])
check("C21", "every text of 0..4 (thorough 6) characters over digits, delimiter, line feed, minus, point and letters, delimiter comma or space; tables of 1..3 rows and columns of symbolic two-digit numbers", [dict(name="training", harness="c21.cc", repo=["src/svr_training/training_data_file_reader.cc"], rt=IO, entries=[
          dict(fn="h_text", p=dict(n=[0, 1, 3, 4]), tp=dict(n=[0, 1, 3, 4, 5, 6]), reach=["read"]), dict(fn="h_table", reach=["table"]),
      ])], assumptions=["absl::SimpleAtod is replaced by a decimal parser for the characters in the bound"])

check("C17", "1..4 patches of 2 bands with every band mean in [-1, 1], deviation in [0, 1] and energy in [0, 100] over the reals (pooled variance: 1..2 patches of 2..3 frames; thorough 3), deviations also with rounding; decile of 1..4 symbolic patches and of 9, 10, 19, 20, 29 and 30 patches with 1..2 symbolic ones (thorough also 21 and 40, other positions); whole comparisons of 1..2 patches with any similarities and radius 0..1",
    [dict(AGG, entries=[
          dict(fn="h_means", mode="real", p=dict(n=[1, 2, 4]), reach=["means"]),
          dict(fn="h_decile", mode="real", p=dict(n=[1, 2, 3, 4], sym=4), reach=["decile"]),
          dict(fn="h_decile", mode="real", p=dict(n=[9, 10, 19, 20], sym=2), tp=dict(n=[9, 10, 19, 20, 21, 29, 30, 40], rot=[0, 5]), reach=["decile"]),
          dict(fn="h_decile", mode="real", p=dict(n=[29, 30], sym=1), reach=["decile"]),
          dict(fn="h_decile_bands", mode="real", reach=["bands"]),
          dict(fn="h_dev", mode="real", p=dict(n=[1, 2], lens=3), tp=dict(n=[1, 2, 3]), reach=["some"]),
          dict(fn="h_dev_range", mode="uf", p=dict(n=[1, 2, 3]), tp=dict(n=[1, 2, 3, 4]), reach=["range"]),
          dict(fn="h_compare", mode="real", p=dict(patches=[1, 2]), reach=["scored", "dissimilar", "moved", "error"], weight=4),
      ])], assumptions=["the spectrogram builder, the aligner, the patch similarity and the quality mapping are arbitrary (their own properties: C12, C08, C05, C04)"])

check("C05", "documented formula and symmetry: patches of 1x1 to 8x8 (thorough 21x20) with every element any double in [0, 100], operation by operation with rounding; where that differs, 2x2 and 2x3 over the reals with 1 symbolic element; identical pairs: 1x2 to 3x3 over the reals with up to 2 symbolic elements; upper bound: up to 3 bands with one symbolic element per patch side over the reals",
    [dict(name="nsim", harness="c05.cc", irflags=["-fno-math-errno", "-mllvm", "-two-entry-phi-node-folding-threshold=40"], repo=["src/neurogram_similiarity_index_measure.cc", "src/convolution_2d.cc", "src/amatrix.cc"], entries=[
          dict(fn="h_formula", mode="uf", then=["real"], p=dict(rows=[1, 2], cols=[1, 2, 3]), reach=["compared"], time=120),
          dict(fn="h_formula", mode="uf", p=dict(rows=[8], cols=[8]), tp=dict(rows=[8, 21], cols=[8, 20]), reach=["compared"], optional=1, time=60, ttime=900),
          dict(fn="h_symmetric", mode="uf", then=["real"], p=dict(rows=[1, 2], cols=[1, 2, 3]), reach=["swapped"], time=120),
          dict(fn="h_symmetric", mode="uf", p=dict(rows=[8], cols=[8]), tp=dict(rows=[8, 21], cols=[8, 20]), reach=["swapped"], optional=1, time=60, ttime=900),
          dict(fn="h_identical", mode="real", p=dict(rows=[1, 2], cols=[2, 3], rsd=1), reach=["identical"]),
          dict(fn="h_identical", mode="real", p=dict(rows=3, cols=3, rsd=2), reach=["identical"]),
          dict(fn="h_bound", mode="real", p=dict(rows=2, cols=[2, 3]), reach=["bounded"]),
          dict(fn="h_bound", mode="real", p=dict(rows=[2, 3], cols=1, at=[0, 1]), reach=["bounded"]),
          dict(fn="h_bound", mode="real", p=dict(rows=1, cols=1, rsr=1), reach=["bounded"]),
      ])])
check("C13", "spectrograms of 1 band and 1..3 frames each with every element in [-10^6, 10^6], 2 bands and 1..2 frames with 3 symbolic elements each (thorough all), and 3 bands with 2 symbolic elements each (thorough: also 3 bands of 3 symbolic elements in 2..3 frames); order of levels for 2..3 bands; over the reals",
    [dict(name="cond", harness="c13.cc", irflags=["-fno-math-errno"], rt=IO, repo=["src/misc_audio.cc", "src/spectrogram.cc", "src/amatrix.cc", "src/misc_math.cc", "src/misc_vector.cc", "src/wav_reader.cc"], entries=[
          dict(fn="h_conditioned", mode="real", p=dict(rows=1, ca=[1, 2, 3], cb=[1, 2]), reach=["conditioned"]),
          dict(fn="h_conditioned", mode="real", p=dict(rows=2, ca=[1, 2], cb=[1, 2], sym=3), tp=dict(sym=99), reach=["conditioned"], weight=3),
          dict(fn="h_conditioned", mode="real", p=dict(rows=3, ca=[1, 2], cb=1, sym=2), tp=dict(ca=[1, 2, 3], cb=[1, 2, 3], sym=3), reach=["conditioned"], weight=2),
          dict(fn="h_order", mode="real", p=dict(rows=[2, 3], ca=[1]), tp=dict(rows=[2, 3, 4]), reach=["ordered"]),
      ])], assumptions=["log10 is any function that does not decrease"])
check("C19", "signals of 1..4 samples, every sample of 1..2 (thorough 3..4) of each symbolic in [-1, 1], the first not silent; 1..8 samples for equal levels; every gain from 0.01 to 100; over the reals",
    [dict(name="level", harness="c19.cc", irflags=["-fno-math-errno"], rt=IO, repo=WAV, entries=[
          dict(fn="h_level", mode="real", p=dict(nr=[1, 2, 4], nd=[1, 2, 3], sr=2, sd=2), tp=dict(nr=[1, 2, 3, 4, 8], nd=[1, 2, 3, 4, 9], sr=3, sd=3), reach=["matched"]),
          dict(fn="h_equal", mode="real", p=dict(n=[1, 2, 3, 4, 8]), reach=["equal"]),
          dict(fn="h_gain", mode="real", p=dict(nr=[1, 2], nd=[1, 2, 4], sr=2, sd=2), tp=dict(sr=3, sd=4), reach=["amplified"]),
          dict(fn="h_spl", mode="real", p=dict(n=[1, 2, 3]), reach=["level"]),
      ])], assumptions=["pow(10, x) is the inverse of log10 (no rounding)"])
check("C15", "audio mode: every patch size of 2..2^20 frames and every spectrogram of up to 4 (thorough 7) patches; speech mode: patches of 2..4 frames, spectrograms of 0..9 (thorough 12) frames and every combination of loud and quiet chunks of 2 samples; 2 (thorough 3) symbolic 16-bit samples, and silent, negative, over-scale and NaN signals",
    [dict(name="ref", harness="c15.cc", rt=IO, repo=["src/image_patch_creator.cc", "src/vad_patch_creator.cc", "src/rms_vad.cc", "src/analysis_window.cc", "src/amatrix.cc", "src/misc_math.cc"], entries=[
          dict(fn="h_image", tp=dict(ratio=7), reach=["patches", "too short"], weight=2),
          dict(fn="h_speech", p=dict(patch=[2, 3, 4], length=[0, 1, 2, 3, 4, 5, 6, 7, 9]), tp=dict(length=[0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12]), reach=[]),
          dict(fn="h_speech_any", p=dict(patch=[2, 4], length=[0, 1, 2, 3, 5]), tp=dict(sym=3), reach=["any"]),
      ])])

FFT = ["src/fft_manager.cc", "src/fast_fourier_transform.cc", "src/misc_math.cc", "src/amatrix.cc"]
check("C16", "the size rule for every length from 1 to 2^31; transform sizes and buffers for 1..33, 16384 and 16385 samples; spectrum and inverse of 1..5, 8, 16, 31..33 and 64 (thorough 1..33, 63..65 and 128) samples, all of them symbolic in [-1, 1] over the reals within 1e-4; padding to 4 and 32 (thorough 2..64) points; scaling of 0..9 elements with every gain and value bit for bit",
    [dict(name="fft", harness="c16.cc", shims=["pffft"], irflags=["-fno-math-errno"], rt=IO, repo=FFT, entries=[
          dict(fn="h_pow2", reach=["power"]), dict(fn="h_sizes", p=dict(n=[1, 2, 31, 32, 33, 16384, 16385]), reach=["sizes"]),
          dict(fn="h_roundtrip", mode="real", p=dict(n=[1, 2, 3, 4, 5, 8, 16, 31, 32, 33, 64], sym=99), tp=dict(n=list(range(1, 34)) + [63, 64, 65, 128]), reach=["round trip"]),
          dict(fn="h_roundtrip", mode="real", p=dict(n=[3, 32], sym=2, n2=2), reach=["round trip"]),
          dict(fn="h_points", mode="real", p=dict(n=[1, 3], points=[4, 32]), tp=dict(points=[2, 4, 16, 32, 64]), reach=["padded"]),
          dict(fn="h_scale", p=dict(n=[0, 1, 3, 4, 5, 7, 8, 9]), reach=["scaled"]),
          dict(fn="h_reverse_scale", p=dict(n=[1, 4, 7, 33]), reach=["scaled"]),
      ])], assumptions=["PFFFT is replaced by a plain discrete Fourier transform with its interface and ordered format"])
check("C08", "shift and truncation: 1..4 (thorough 6) samples each with every value, every lag shorter than the longer signal, five sample rates; lag search: 1..3 and 9 samples with up to 2 symbolic ones in [-1, 1] against fixed shapes, both directions, over the reals within 10^-3; whole alignment with the real envelope: 1..4 samples",
    [dict(name="shift", harness="c08.cc", cflags=["-DSHIFT"], shims=["pffft"], rt=IO, repo=["src/alignment.cc", "src/amatrix.cc"], entries=[
          dict(fn="h_align", p=dict(r=[1, 2, 3, 4], d=[1, 2, 3, 4]), tp=dict(r=[1, 2, 3, 4, 5, 6], d=[1, 2, 3, 4, 5, 6]), reach=["unchanged"]),
          dict(fn="h_truncate", p=dict(r=[1, 2, 3, 4], d=[1, 2, 3, 4]), tp=dict(r=[1, 2, 3, 4, 5, 6], d=[1, 2, 3, 4, 5, 6]), reach=[]),
      ]),
     dict(name="lag", harness="c08.cc", shims=["pffft"], irflags=["-fno-math-errno"], rt=IO, repo=["src/alignment.cc", "src/envelope.cc", "src/xcorr.cc", "src/misc_vector.cc"] + FFT, entries=[
          dict(fn="h_lag", mode="real", p=dict(na=[1, 2, 3], nb=[1, 3]), reach=["lag"]),
          dict(fn="h_lag", mode="real", p=dict(na=[1, 3], nb=[2, 3], sa=0, sb=2, shape=[0, 3]), reach=["lag"]),
          dict(fn="h_lag", mode="real", p=dict(na=[4, 9], nb=[9], sa=1), tp=dict(sa=2), reach=["lag"]),
          dict(fn="h_lag", mode="real", p=dict(na=9, nb=4, sa=1, shape=1, shapeb=3), tp=dict(sa=2, shapeb=[1, 2, 3], na=[7, 8, 9, 17], nb=[4, 8]), reach=["lag"]),
          dict(fn="h_lag", mode="real", p=dict(na=17, nb=17, sa=0, sb=1, shape=[4, 5], shapeb=[4, 5]), tp=dict(na=[9, 16, 17, 18], nb=[9, 16, 17, 18]), reach=["lag"]),
          dict(fn="h_delayed", mode="real", p=dict(n=8, len=[1, 2]), tp=dict(n=[8, 9, 16]), reach=["delayed"]),
          dict(fn="h_whole", mode="real", p=dict(nr=[2, 4], nd=[2, 3, 4]), tp=dict(sd=2), reach=[], weight=3),
          dict(fn="h_whole", mode="real", p=dict(nr=2, nd=2, sd=2), reach=["shifted", "not shifted"]),
          dict(fn="h_whole", p=dict(nr=[17, 18], nd=18, sd=0, shapeb=1), reach=[]),
      ])], assumptions=["PFFFT is replaced by a plain discrete Fourier transform with its interface and ordered format"])
BANK = ["src/signal_filter.cc", "src/gammatone_filterbank.cc", "src/amatrix.cc"]
SPECT = dict(name="spect", harness="c12.cc", irflags=["-fno-math-errno"], rt=IO, repo=BANK + ["src/gammatone_spectrogram_builder.cc", "src/spectrogram.cc", "src/analysis_window.cc", "src/misc_math.cc"])
check("C26", "filters of order 1..3 and signals of 0..4 samples (thorough 0..8) with every coefficient in [-2, 2], sample and initial state in [-1, 1]; banks of 1..3 bands and 1..3 samples with every coefficient in [-1, 1] and gain in [0.5, 4], two consecutive calls with and without a reset; bit for bit operation by operation, where that differs over the reals; difference equation over the reals",
    [dict(SPECT, entries=[
          dict(fn="h_filter", mode="uf", then=["real"], p=dict(order=[1, 2, 3], n=[0, 1, 4]), tp=dict(n=[0, 1, 4, 8]), reach=["filtered"]),
          dict(fn="h_difference", mode="real", p=dict(order=[1, 2], n=[1, 2, 3]), tp=dict(n=[1, 2, 3, 4, 5]), reach=["at rest"]),
          dict(fn="h_pieces", mode="uf", then=["real"], p=dict(order=[1, 2, 3], n=[2, 4]), tp=dict(n=[2, 4, 8]), reach=["pieces"]),
          dict(fn="h_bank", mode="uf", then=["real"], p=dict(bands=[1, 2, 3], n=[1, 3]), tp=dict(bands=[1, 2, 3, 8], n=[1, 3, 6]), reach=["bank"]),
      ])])
check("C12", "windows of 4 and 8 samples with hops of 1, 2 and 4, signals of up to 11 (thorough 17) samples with every sample in [-1, 1], 1..3 (thorough 5) bands with every coefficient; column count for every length up to 4 windows; every sample rate below 120; centre frequencies for 1..4, 8, 21 and 32 bands and every minimum and maximum frequency at least 1 Hz apart over the reals; filters of the two configurations the program uses",
    [dict(SPECT, entries=[
          dict(fn="h_spectrogram", mode="uf", then=["real"], p=dict(size=4, n=[3, 4, 5, 7, 11], bands=[1, 2, 3]), tp=dict(n=[3, 4, 5, 7, 11, 17], bands=[1, 2, 3, 5]), reach=[]),
          dict(fn="h_spectrogram", mode="uf", then=["real"], p=dict(size=[4, 8], n=11, bands=1, quarters=[2, 4], speech=1), reach=["built"]),
          dict(fn="h_columns", mode="real", p=dict(size=[4, 8], quarters=[1, 2, 4]), reach=["built", "too short"]),
          dict(fn="h_any_rate", mode="real", reach=["built", "rejected"]),
          dict(fn="h_hann", p=dict(size=[2, 4, 7]), reach=["windowed"]),
      ]), dict(name="erb", harness="c12erb.cc", rt=IO, irflags=["-fno-math-errno"], repo=["src/equivalent_rectangular_bandwidth.cc", "src/complex_valarray.cc"], entries=[
          dict(fn="h_centres", mode="real", p=dict(bands=[1, 2, 3, 4, 8, 21, 32]), reach=["centres"]),
          dict(fn="h_filters", p=dict(bands=[21, 32], rate=[8000, 16000, 48000]), reach=["filters"]),
      ])], assumptions=["exp is increasing and exp(log x) = x"])
MANAGER = ["src/visqol_manager.cc", "src/speech_similarity_to_quality_mapper.cc", "src/svr_similarity_to_quality_mapper.cc", "src/support_vector_regression_model.cc", "src/libsvm_target_observation_convertor.cc", "src/tflite_quality_mapper.cc",
           "src/gammatone_spectrogram_builder.cc", "src/gammatone_filterbank.cc", "src/equivalent_rectangular_bandwidth.cc", "src/complex_valarray.cc", "src/signal_filter.cc", "src/analysis_window.cc", "src/image_patch_creator.cc", "src/vad_patch_creator.cc", "src/rms_vad.cc",
           "src/comparison_patches_selector.cc", "src/neurogram_similiarity_index_measure.cc", "src/convolution_2d.cc", "src/misc_audio.cc", "src/misc_math.cc", "src/misc_vector.cc", "src/spectrogram.cc", "src/wav_reader.cc", "src/amatrix.cc"]
MGR = dict(name="manager", harness="c10.cc", repo=MANAGER, rt=IO, shims=["tflite"], protobuf=1)
check("C09", "builders of 1..3 bands used before for one or two signals of 3..9 samples (one too short, one at another rate), then for one of 5..7 samples, every sample and coefficient symbolic; copies of filter banks; signals of 2 and 4 samples cut anywhere; engines used before for another pair, also one whose comparison failed or was rejected; bit for bit",
    [dict(SPECT, entries=[
          dict(fn="h_reuse", mode="uf", p=dict(n1=[3, 6], n0=[0, 9], n2=[5, 7]), tp=dict(bands=[1, 2, 3]), reach=[]),
          dict(fn="h_bank_copy", mode="uf", p=dict(n=[1, 3]), reach=["copied"]),
          dict(fn="h_pieces", mode="uf", then=["real"], p=dict(order=[1, 2, 3], n=[2, 4]), tp=dict(n=[2, 4, 8]), reach=["pieces"]),
      ]), dict(MGR, entries=[dict(fn="h_reuse", reach=["reused"])])])
check("C10", "every sequence of 3 (thorough 4) steps of initialisations (three modes, model loads or not) and comparisons, then a comparison; every combination of modes and flags, every 32-bit search window and pair of 32-bit sample rates, signals of 0..2 samples; files present, absent or not audio",
    [dict(MGR, entries=[
        dict(fn="h_protocol", p=dict(steps=3), tp=dict(steps=4), reach=["ran", "refused"]),
        dict(fn="h_run", mode="uf", then=["exact"], p={"fix:lengths": [0, 1, 2]}, reach=["rates differ", "error", "aligned", "not aligned"]),
        dict(fn="h_modes", reach=["speech", "audio"]),
        dict(fn="h_empty", reach=["empty"]),
        dict(fn="h_files", reach=["refused", "unreadable", "compared"]),
    ])], assumptions=["the aligner and the comparison of two aligned signals are arbitrary (C08, C17); libsvm and TensorFlow Lite are stand-ins; messages are plain classes made from the .proto files in the encoding, protobuf's own natively"])
check("C18", "messages: 0..2 bands, 0..2 others and 0..3 patches of 1..2 band means with every value; tables: two results with 0..2 entries in each of the four vectors with every value, file absent, empty or with rows, names with up to 2 (thorough 3) bytes other than NUL; every choice of outputs",
    [dict(MGR, entries=[dict(fn="h_message", reach=["complete"])]),
     dict(name="writer", harness="c18.cc", repo=[], rt=IO, protobuf=1, entries=[
        dict(fn="h_csv", p=dict(concrete=[0, 1]), reach=["created", "appended"]), dict(fn="h_names", p=dict(n=[0, 1, 2]), tp=dict(n=[0, 1, 2, 3]), reach=["named"]), dict(fn="h_outputs", p=dict(concrete=[0, 1]), reach=["written"]),
     ])], assumptions=["messages are plain classes made from the .proto files in the encoding, protobuf's own natively; the decimal text of a number is a token that reads back as the number, real digits for five sample values and natively"])
check("C11", "every combination of presence, flags, 32-bit sample rate and search radius; engine initialisation failing or not; two creations of one object; two measurements of buffers of 0..2 samples with every value",
    [dict(name="api", harness="c11.cc", repo=["src/visqol_api.cc", "src/commandline_parser.cc", "src/amatrix.cc", "src/image_patch_creator.cc", "src/analysis_window.cc", "src/misc_audio.cc", "src/misc_math.cc", "src/misc_vector.cc", "src/spectrogram.cc", "src/wav_reader.cc"], rt=IO, shims=["tflite"], protobuf=1, entries=[
        dict(fn="h_create", reach=["rejected", "engine failed", "created"]), dict(fn="h_measure", reach=["measured"]), dict(fn="h_again", reach=["again"]),
    ])], assumptions=["the engine is a stand-in that records its arguments and answers anything; messages are plain classes made from the .proto files in the encoding, protobuf's own natively"])
check("C25", "batches of 0..3 (thorough 4) pairs with every outcome (success with any score, two kinds of error, not initialised) and every choice of outputs; one pair given directly; every combination of missing files, model, failing initialisation and flags",
    [dict(name="program", harness="c25.cc", repo=["src/main.cc", "src/commandline_parser.cc", "src/amatrix.cc", "src/image_patch_creator.cc", "src/analysis_window.cc", "src/misc_audio.cc", "src/misc_math.cc", "src/misc_vector.cc", "src/spectrogram.cc", "src/wav_reader.cc"], rt=IO, shims=["tflite"], protobuf=1, perfile={"main.cc": ["-Dmain=visqol_main"]}, entries=[
        dict(fn="h_batch", p=dict(pairs=3, verbose=[0, 1]), tp=dict(pairs=4), reach=["nothing written", "some failed", "all written"]), dict(fn="h_start", reach=["invalid", "not initialised", "processed"]),
    ])], assumptions=["the engine is a stand-in that answers anything; Abseil's flag parsing is replaced by setting the flag values; messages are plain classes made from the .proto files in the encoding"])

SELFUNIT = dict(name="self", harness="c27.cc", shims=["pffft"], rt=IO, irflags=["-fno-math-errno"], repo=sorted(set(["src/visqol.cc", "src/neurogram_similiarity_index_measure.cc", "src/convolution_2d.cc", "src/alignment.cc", "src/envelope.cc", "src/xcorr.cc", "src/gammatone_spectrogram_builder.cc", "src/equivalent_rectangular_bandwidth.cc", "src/complex_valarray.cc"] + BANK + SEL + FFT)))
check("C27", "search and aggregation: 1..3 patches at search radius 0, 1..2 patches at radius 1..2 without realignment, every similarity index that is 1 for equal patches and at most 1 otherwise; the whole comparison with the real spectrogram and index: four fixed sounds including silence, radius 0..2, with and without realignment, every quality; alignment: sounds of 1..2 symbolic samples in [-1, 1] with one of at least 0.25 over the reals, four fixed sounds of 3..18 samples", [dict(SELFUNIT, entries=[
          dict(fn="h_self_search", mode="real", p={"patches": [1, 2, 3], "radius": 0, "fix:disable realignment": [0, 1]}, reach=["compared"]),
          dict(fn="h_self_search", mode="real", p={"patches": [1, 2], "radius": [1, 2], "fix:disable realignment": 1}, reach=["compared"]),
          dict(fn="h_self_nsim", p=dict(free=0), reach=["compared"]),
          dict(fn="h_self_real", reach=["compared"]),
          dict(fn="h_self_align", mode="real", p=dict(n=[1, 2]), reach=["aligned"]),
          dict(fn="h_self_align", p=dict(n=[3, 8, 17, 18], free=0), reach=["aligned"]),
      ])], assumptions=["PFFFT is replaced by a plain discrete Fourier transform with its interface and ordered format", "for the search: the spectrogram is a function of the samples, the index is 1 for equal patches and at most 1 otherwise (C05)"])

check("C28", "design: 1..2 bands, every lowest frequency from 20 to 3000 Hz, sample rates 16, 44.1 and 48 kHz, over the reals; spacing, gain and response: 1, 21 and 32 bands from 50 or 200 Hz at 8, 11.025, 16, 44.1 and 48 kHz, both modes (evaluated)", [dict(name="erb", harness="c12erb.cc", rt=IO, irflags=["-fno-math-errno"], repo=["src/equivalent_rectangular_bandwidth.cc", "src/complex_valarray.cc"], entries=[
          dict(fn="h_design", mode="real", p=dict(rate=[16000, 44100, 48000], bands=[1, 2]), reach=["designed"]),
          dict(fn="h_response", p=dict(bands=[1, 21, 32], rate=[8000, 11025, 16000, 44100, 48000]), reach=["responds"]),
      ])])
