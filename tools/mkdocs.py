"""Writes properties.jsonl and MANIFEST.json.  Run after changing a text here."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vlib"))
import props

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), claim=None, na=None, level=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=list(observe), hook_needed=None),
                  claim=claim, na=na))


S = "src/"
I = "src/include/"
TECH = "deterministic simulation with fault injection: "
ONE = "The existing tests are single-threaded, run each case once in a fresh process on a healthy disk, and "

prop("C01", "Concurrent comparisons in separate sessions are isolated",
     "Comparisons made at the same time by different threads, each through its own session, end, give exactly the results (score, "
     "per-band values, patches, lag or error) the same calls give one after another in a process of their own, and never access "
     "shared memory without synchronisation. This holds for creating, configuring, reconfiguring and destroying sessions while "
     "others compare, and when one of them fails.",
     ["schedules", "fault_sequences"], "every interleaving of 2-4 threads' file calls, lock operations and shared memory accesses",
     ONE + "never start a second thread.",
     [S + "visqol_manager.cc", S + "visqol_api.cc", S + "support_vector_regression_model.cc", S + "fast_fourier_transform.cc",
      S + "gammatone_filterbank.cc", S + "neurogram_similiarity_index_measure.cc", S + "misc_audio.cc"],
     [("one thread at a time inside the SVR library's loader", S + "support_vector_regression_model.cc: load_model_mutex_"),
      ("no mutable state outside a session", S + "*.cc: static data is const"),
      ("each session owns its components", I + "visqol_manager.h")],
     [("load_model_mutex_", "serialises model loading in the process", I + "support_vector_regression_model.h")],
     ["results of the API and the manager", "happens-before order of accesses to shared memory"])

prop("C02", "Read-only components and buffers can be shared between threads",
     "A loaded SVR or speech quality mapper, the analysis window, the per-patch similarity measure, the similarity computation itself and the "
     "caller's reference and degraded sample buffers can be used by several threads at once: every use gives the result it "
     "gives alone, and no use writes to what is shared.",
     ["schedules"], "every interleaving of 2-4 threads that use the same objects through their read-only interface",
     ONE + "use every object from one thread only.",
     [S + "support_vector_regression_model.cc", S + "svr_similarity_to_quality_mapper.cc", S + "speech_similarity_to_quality_mapper.cc",
      S + "neurogram_similiarity_index_measure.cc", S + "analysis_window.cc", S + "visqol.cc", S + "libsvm_target_observation_convertor.cc"],
     [("prediction allocates its own working storage", S + "support_vector_regression_model.cc: Predict"),
      ("const methods", I + "visqol.h, patch_similarity_comparator.h, similarity_to_quality_mapper.h")],
     (), ["values returned by concurrent uses", "accesses to shared memory"])

prop("C03", "A comparison does not depend on what the process did before",
     "A comparison's complete result (score, per-band values, patches, lag, or its error) is a function of its configuration and "
     "its two inputs only: it is bit for bit the same after any history of earlier comparisons, failures and I/O errors in this "
     "or other sessions of the process as in a fresh process. The reference samples a caller passes in are never changed, nor is "
     "either buffer passed to the API.",
     ["histories", "fault_sequences"], "every sequence of comparisons, good and failing, over several sessions, with read faults between them",
     ONE + "make one or two comparisons with the same object.",
     [S + "visqol_manager.cc", S + "visqol_api.cc", S + "visqol.cc", S + "gammatone_spectrogram_builder.cc", S + "gammatone_filterbank.cc",
      S + "signal_filter.cc", S + "comparison_patches_selector.cc", S + "vad_patch_creator.cc", S + "alignment.cc"],
     [("filter conditions are reset before each signal", S + "gammatone_spectrogram_builder.cc, gammatone_filterbank.cc: ResetFilterConditions"),
      ("the degraded signal is rescaled and aligned in a copy", S + "visqol_manager.cc: Run"),
      ("the voice activity detector is new for each reference", S + "vad_patch_creator.cc")],
     [("filter conditions", "carry over from sample to sample of one signal", I + "gammatone_filterbank.h"),
      ("session configuration", "mode, mapper, patch creator, builder", I + "visqol_manager.h")],
     ["results of VisqolManager::Run and VisqolApi::Measure", "the caller's buffers"])

prop("C04", "A session compares only under a configuration that was accepted",
     "A configuration that cannot be honoured (no or unusable model, missing audio information, unsupported rate, failing backend) "
     "is refused with an error and a good one is accepted, whatever happened before. A session that was never configured refuses "
     "to compare; after a refused reconfiguration it either refuses or gives exactly the results of the configuration accepted last; "
     "after an accepted one it gives exactly the results of a new session with that configuration.",
     ["histories", "configurations", "fault_sequences"], "every sequence of good, unusable and failing configurations and comparisons",
     ONE + "configure each session once.",
     [S + "visqol_manager.cc", S + "visqol_api.cc", S + "svr_similarity_to_quality_mapper.cc", S + "tflite_quality_mapper.cc"],
     [("initialised flag cleared before and set after configuration", S + "visqol_manager.cc: Init"),
      ("comparison refused while not initialised", S + "visqol_manager.cc: ErrorIfNotInitialized"),
      ("arguments checked before anything is changed", S + "visqol_api.cc: Create")],
     [("is_initialized_", "the last configuration succeeded", I + "visqol_manager.h")],
     ["status of Init and Create", "results of comparisons"])

prop("C05", "Loaded samples are exactly those in the file",
     "Loading a well-formed 16-bit PCM WAV file (its format chunk first) gives exactly the samples of its data chunk (channels averaged) at its sample rate, "
     "however the system splits or interrupts the reads. If the file is cut short or reading fails, the result is a leading part of those "
     "samples, or nothing, and the loss is reported on standard error. A file of other than 16-bit PCM samples gives nothing and a message. No file, however malformed, crashes the loader, makes it invent "
     "samples the file does not hold, or makes it allocate more than a small multiple of the file's size.",
     ["inputs", "fault_sequences"], "every well-formed or damaged file and every sequence of short, interrupted, failing and ending reads",
     ONE + "load a handful of well-formed files.",
     [S + "wav_reader.cc", S + "misc_audio.cc", I + "audio_signal.h"],
     [("header validation", S + "wav_reader.cc: ParseHeader"), ("the data chunk is clipped to the stream", S + "wav_reader.cc"),
      ("mono down-mix", S + "misc_audio.cc: ConvertToMono, LoadAsMono")],
     [("num_total_samples_", "samples of the data chunk", I + "wav_reader.h")], ["MiscAudio::LoadAsMono", "standard error", "heap use"])

prop("C06", "Reading a WAV stream in pieces gives the same samples as at once",
     "Any sequence of read requests on a WAV stream returns the consecutive samples of its data chunk, each request as many as were "
     "asked for or as are left, writes nothing beyond the samples asked for, and returns none once the chunk is exhausted, even if the "
     "stream goes on. This holds however the underlying stream delivers its bytes, pauses (a request then returns what there is, and later ones the rest), ends or fails; a stream with a bad header yields no samples.",
     ["inputs", "histories", "fault_sequences"], "every stream, every sequence of request sizes, every way of delivering, ending and failing",
     ONE + "read a file with one request size.",
     [S + "wav_reader.cc", I + "wav_reader.h"],
     [("position within the data chunk", S + "wav_reader.cc: ReadSamples"), ("header walk over unknown chunks", S + "wav_reader.cc: ParseHeader")],
     [("num_remaining_samples_", "samples not handed out yet", I + "wav_reader.h")], ["WavReader::ReadSamples", "the caller's buffer"])

prop("C07", "A failing pair in a batch affects nothing but itself",
     "A batch run compares every pair of its list once and in order: each pair either gives exactly the result row it gives when it is "
     "run on its own, with a finite score between 1 and 5, or one reported error and no row; a sound recording and its degraded version are "
     "scored, files that are not 16-bit PCM audio or have different sample rates are refused. Pairs that are missing, malformed, too short, "
     "unreadable or vanish during the run never crash or stop it, and never change another pair's row.",
     ["inputs", "histories", "fault_sequences"], "every list of good and bad pairs in every order, with files that fail or vanish while the run proceeds",
     ONE + "never run a batch.",
     [S + "main.cc", S + "commandline_parser.cc", S + "visqol_manager.cc", S + "misc_audio.cc", I + "sim_results_writer.h"],
     [("each failed comparison is logged and the loop goes on", S + "main.cc"),
      ("inputs are validated before they are used", S + "visqol_manager.cc: ValidateInputAudio"),
      ("errors travel as status values", S + "visqol.cc, comparison_patches_selector.cc")],
     (), ["results CSV", "debug JSON", "console", "standard error", "exit code"])

prop("C08", "The results CSV only grows, by whole rows, across crashes",
     "Writing a result appends one complete row, preceded by the header exactly when the file was missing or empty, and never changes "
     "what the file already held. If the process is killed or the disk fails or fills up at any moment, what was appended is a leading "
     "part of that header and those rows, and later runs append correctly after it; without a crash, an incomplete append is reported.",
     ["crash_points", "histories", "fault_sequences"], "every kill, failing, short, interrupted or torn write at every file call of every sequence of runs",
     ONE + "never read a CSV back or interrupt a write.",
     [I + "sim_results_writer.h"],
     [("append mode", I + "sim_results_writer.h: WriteResultsToCSV"), ("the header is decided by the file's size", I + "sim_results_writer.h: WriteResultsToCSV"),
      ("the row is flushed and the file closed for each result", I + "sim_results_writer.h: WriteResultsToCSV")],
     (), ["the CSV file on the simulated disk after each call and each crash", "standard error"])

prop("C09", "CSV, debug JSON and console show the same result, independently",
     "For one result the CSV row (under the header naming its columns), the debug JSON object and the console text carry the same file "
     "names, score and per-band values; each requested output receives each result exactly once and in order, and outputs not asked for receive nothing. "
     "An output whose disk fails never affects the others.",
     ["inputs", "configurations", "fault_sequences"], "every result, every combination of outputs, and every fault on one of them",
     ONE + "check no output other than the returned message.",
     [I + "sim_results_writer.h", S + "visqol_manager.cc", "src/proto/similarity_result.proto"],
     [("one message feeds all outputs", I + "sim_results_writer.h: Write"), ("one JSON object per result, appended", I + "sim_results_writer.h: WriteDebugJSON"),
      ("message populated from the result", S + "visqol_manager.cc: PopulateSimResultMsg")],
     (), ["CSV and JSON files on the simulated disk", "standard output"])

prop("C10", "A result that could not be saved is reported",
     "Whenever a result that was to be saved to the results CSV or the debug JSON is not completely there after the call, a message naming that "
     "file appears on standard error, once for each such result; on a healthy disk no such message appears.",
     ["fault_sequences"], "every failure to open, write, flush or close either file, and every full disk",
     ONE + "never fail a write.",
     [I + "sim_results_writer.h"],
     [("the stream state is checked after closing", I + "sim_results_writer.h: WriteResultsToCSV, WriteDebugJSON")],
     (), ["standard error", "CSV and JSON files on the simulated disk"])

prop("C11", "A quality model file is loaded intact or refused",
     "Loading an SVR quality model from a file that lacks support vectors, ends early, cannot be opened or fails while it is checked is refused "
     "with a reason, and an intact file is accepted however its reads are split. A loaded model predicts exactly what the intact model "
     "predicts, whatever was loaded or trained into the same object before, and a refused load leaves models already in use untouched.",
     ["inputs", "fault_sequences", "histories"], "every truncation point and read fault, in sequences of loads into new and used models",
     ONE + "load the intact shipped model once.",
     [S + "support_vector_regression_model.cc", S + "svr_similarity_to_quality_mapper.cc"],
     [("completeness check before loading", S + "support_vector_regression_model.cc: IsCompleteModelFile"),
      ("load failure becomes a status", S + "support_vector_regression_model.cc: Init")],
     [("model_", "the loaded model, or null", I + "support_vector_regression_model.h")], ["status of Init", "predictions"])

prop("C12", "Results never depend on the contents of uninitialised memory",
     "Repeating a comparison, load or prediction in a process whose unused heap and stack memory holds other values, and whose blocks lie at other "
     "distances from each other, gives bit for bit the same results, files and messages.",
     ["inputs", "histories"], "every history of operations, each executed under different contents of unused memory",
     ONE + "see whatever memory happens to hold, usually zeros.",
     [S + "comparison_patches_selector.cc", S + "fft_manager.cc", S + "envelope.cc", S + "wav_reader.cc", S + "tflite_quality_mapper.cc", I + "amatrix.h"],
     [("scratch arrays are initialised or wholly written before use", S + "comparison_patches_selector.cc, fft_manager.cc, xcorr.cc")],
     (), ["results, files and standard error of the same run under different fills"])

prop("C13", "Sessions and comparisons do not consume resources",
     "Repeating any cycle of configuring, comparing, failing and destroying sessions any number of times leaves no more heap blocks, open files or "
     "backend objects than after its first few repetitions, and none of the session's own after it is destroyed, failures included.",
     ["histories", "fault_sequences"], "every cycle of operations with failing inputs, models and backends, repeated",
     ONE + "end before a leak can matter.",
     [S + "support_vector_regression_model.cc", S + "libsvm_target_observation_convertor.cc", S + "tflite_quality_mapper.cc", S + "fft_manager.cc", S + "misc_audio.cc"],
     [("the model frees its content and observations", S + "support_vector_regression_model.cc: FreeModel"),
      ("aligned FFT buffers are freed", S + "fft_manager.cc"), ("owning pointers", I + "visqol_manager.h")],
     (), ["live heap blocks", "open handles", "live backend objects"])

prop("C14", "An allocation failure damages only the call it hits",
     "If an allocation fails at any point of a configuration, comparison, load, prediction or write, that call ends with an out-of-memory exception, an "
     "error or its correct result, and never a crash or a wrong result. After that every session, including the one it hit once it is configured again, gives the "
     "results it gives in a fresh process, and destroying the sessions leaves no open file and no backend object. (Failures inside protobuf's JSON printer, which does not survive them, are outside.)",
     ["fault_sequences", "histories"], "every allocation of every operation failing once, in histories of several sessions",
     ONE + "never run out of memory.",
     [S + "visqol_manager.cc", S + "visqol.cc", S + "comparison_patches_selector.cc", S + "gammatone_spectrogram_builder.cc", S + "fft_manager.cc", I + "amatrix.h"],
     [("owning containers unwind", "src/*.cc"), ("initialised only after configuration completed", S + "visqol_manager.cc: Init")],
     (), ["outcome of the failing call", "results of later calls", "live heap blocks"])

prop("C15", "A failing lattice backend never yields a score",
     "If the neural backend cannot load its model, build, allocate, take its accelerator or offer its signature, configuration is refused; if it "
     "cannot run, the comparison fails and no score, stale or made up, is returned. A merely unavailable accelerator is not fatal and changes no score, "
     "later healthy operations are unaffected, and backend objects live exactly as long as their session and are released in a safe order.",
     ["fault_sequences", "histories", "configurations"], "every backend step failing with every status, in histories of sessions and comparisons",
     "The existing tests do not build the lattice backend here, and elsewhere use a backend that works.",
     [S + "tflite_quality_mapper.cc", I + "tflite_quality_mapper.h", S + "visqol.cc"],
     [("every backend status is checked", S + "tflite_quality_mapper.cc: Init, PredictQuality"),
      ("a score that is not a number is refused", S + "visqol.cc: CalculateSimilarity"),
      ("member order decides release order", I + "tflite_quality_mapper.h")],
     [("interpreter_, delegate_, model_", "backend objects of a session", I + "tflite_quality_mapper.h")], ["status of Init", "results", "backend objects alive"])

prop("C16", "Every well-formed row of a batch list is read, once and in order",
     "Reading a batch list gives the first two fields of every row after the header that has at least two, in order, with LF or CRLF endings, blank lines, a "
     "missing final newline, and long or unusual paths, however reads are split or interrupted. Rows without two fields are skipped without ending the run. "
     "If the list cannot be opened or reading fails, the pairs are a leading part of the list and the loss is reported.",
     ["inputs", "fault_sequences"], "every list and every sequence of short, interrupted and failing reads",
     ONE + "read two fixed lists.",
     [S + "commandline_parser.cc"],
     [("line and field splitting", S + "commandline_parser.cc: ReadFilesToCompare"), ("stream state checked at the end", S + "commandline_parser.cc: ReadFilesToCompare")],
     (), ["VisqolCommandLineParser::BuildFilePairPaths", "standard error"])

prop("C17", "Every row of a training table is read, in order",
     "Reading a training table gives one row for every line, in order, holding the numeric fields between the delimiters and skipping fields that are not "
     "numbers, however reads are split or interrupted. If the file cannot be opened or reading fails, the rows are a leading part of the table and the loss is reported.",
     ["inputs", "fault_sequences"], "every table and every sequence of short, interrupted and failing reads",
     ONE + "read one fixed table.",
     [S + "svr_training/training_data_file_reader.cc"],
     [("line and field splitting", S + "svr_training/training_data_file_reader.cc: Read"), ("stream state checked at the end", S + "svr_training/training_data_file_reader.cc")],
     (), ["TrainingDataFileReader::Read", "standard error"])

prop("C18", "The command line runs as asked, or says why and fails",
     "A command line with options that do not parse, or that names an input, batch list or needed model that does not exist or cannot be examined, or a model "
     "that cannot be loaded, ends with a non-zero exit code and a message, and creates or changes no output file. Any other ends with zero after every pair was compared "
     "as its options say, in order; every pair that could not be compared, its files vanished or unreadable since they were checked included, is reported on standard "
     "error and never passed over in silence.",
     ["configurations", "fault_sequences"], "every combination of options, missing and failing files, and files that vanish between check and use",
     ONE + "parse a few fixed argument lists and never run the program.",
     [S + "main.cc", S + "commandline_parser.cc", I + "file_path.h"],
     [("existence checks before anything is run", S + "commandline_parser.cc: Parse"), ("failure to configure ends the program", S + "main.cc"),
      ("pairs that vanish are reported", S + "commandline_parser.cc: BuildFilePairPaths")],
     (), ["exit code", "standard error", "files on the simulated disk"])

prop("C19", "All entry points agree on the same pair and configuration",
     "The same pair of signals under the same configuration gives bit for bit the same score, per-band values, number of patches and lag, or an error, through the manager with files, the "
     "manager with samples, the API, the command line and a batch, in any order and however the disk splits its reads.",
     ["inputs", "configurations", "histories"], "every pair, configuration and order of the entry points, under benign read faults",
     ONE + "call each entry point on its own examples.",
     [S + "visqol_manager.cc", S + "visqol_api.cc", S + "main.cc", S + "commandline_parser.cc", S + "misc_audio.cc"],
     [("every entry point ends in one comparison routine", S + "visqol_manager.cc: Run"), ("option defaults", S + "visqol_api.cc: Create, commandline_parser.cc")],
     (), ["results returned, debug JSON"])

prop("C20", "Writers that append to the same outputs at once lose and mix nothing",
     "When several threads or processes append results to the same results CSV or debug JSON at the same time, every row and every JSON object arrives exactly once and unbroken, those of one "
     "writer in its order, and the CSV starts with a header; at most one header per writer is added, and none if the file had content before they started.",
     ["schedules", "histories"], "every interleaving of the writers' file calls",
     ONE + "write from one thread to a file of their own.",
     [S + "include/sim_results_writer.h"],
     [("each record reaches the file in one appending write", S + "include/sim_results_writer.h: WriteResultsToCSV, WriteDebugJSON"), ("append mode", S + "include/sim_results_writer.h")],
     (), ["CSV and JSON files on the simulated disk"])

prop("C21", "The figures of one result agree with each other",
     "In every result that is returned or written, whatever was compared, failed or was reconfigured before and however reads are split or allocations and the neural backend fail meanwhile, the "
     "figures are those of one complete comparison: the overall similarity is the mean of the bands, every band is the mean (and the mean of the lowest tenth) of that band over the "
     "listed patches, every patch's similarity is the mean of its bands, patches lie in order inside the reference and match degraded intervals of equal length (or none, with similarity 0), and the "
     "lag is 0 when global alignment is off. A recording compared with itself has similarity 1 in every band, lag 0 and patches that match themselves.",
     ["inputs", "configurations", "histories", "fault_sequences"], "every signal pair, configuration and history, under read, allocation and backend faults",
     ONE + "look at the score and a few figures of fixed pairs.",
     [S + "visqol.cc", S + "visqol_manager.cc", S + "comparison_patches_selector.cc", S + "neurogram_similiarity_index_measure.cc"],
     [("aggregation over patches", S + "visqol.cc: CalcPerPatchMeanFreqBandMeans, CalcPerPatchFreqBandQuantile"), ("message", S + "visqol_manager.cc: PopulateSimResultMsg"),
      ("lost patches", S + "comparison_patches_selector.cc: FindMostOptimalDegPatches")],
     (), ["results returned, debug JSON"])

PURE = ("a pure function of its arguments: no schedule, clock, I/O, randomness or fault can affect it (C01, C02, C03, C12 decide that nothing does), so a simulated "
        "execution decides no more than calling it on sampled inputs, which is another technique")
prop("C30", "Scores are bounded and identical signals score highest",
     "Every score is finite and between 1 and 5, and no degraded version of a reference scores higher than the reference compared with itself.",
     ["inputs"], "every pair of signals", "Tests compare a few fixed pairs.", [S + "visqol.cc", S + "svr_similarity_to_quality_mapper.cc", S + "speech_similarity_to_quality_mapper.cc"],
     [("clamping", S + "svr_similarity_to_quality_mapper.cc")], na="The ordering is " + PURE + ". The bound is checked as part of C07 on the pairs it generates.")
prop("C31", "The score does not depend on playback level",
     "Scaling the degraded signal by a constant that avoids clipping does not change the score.", ["inputs"], "every pair and gain", "Tests scale one file.",
     [S + "misc_audio.cc"], [("level matching", S + "misc_audio.cc: ScaleToMatchSoundPressureLevel")], na="It is " + PURE + ".")
prop("C32", "Global alignment finds the true delay",
     "If the degraded signal is the reference delayed or advanced by less than half its length, the reported lag is that delay.", ["inputs"], "every signal and delay",
     "Tests use two delays.", [S + "alignment.cc", S + "xcorr.cc", S + "envelope.cc"], [("cross-correlation of envelopes", S + "alignment.cc")], na="It is " + PURE + ".")
prop("C33", "The patch matching is optimal",
     "The degraded patches chosen maximise the total similarity over all order-preserving choices within the search window.", ["inputs"], "every spectrogram pair",
     "Tests use small fixed matrices.", [S + "comparison_patches_selector.cc"], [("dynamic programming", S + "comparison_patches_selector.cc")], na="It is " + PURE + ".")
prop("C34", "Reference scores of the conformance files do not change",
     "Each conformance pair scores within its published tolerance of the published value.", ["inputs"], "the published pairs",
     "Tests cover them where the backends are available.", [I + "conformance.h"], [("fixed constants", I + "conformance.h")], na="It is " + PURE +
     "; the FFT and neural backends are stubs in the simulator, so its absolute scores are not the published ones.")

if __name__ == "__main__":
    NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
    checks, na = [], []
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({k: v for k, v in p.items() if k not in ("claim", "na")}, ensure_ascii=False) + "\n")
            if p["id"] in props.ALL:
                q = props.ALL[p["id"]]
                checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"],
                                   thorough_cmd="python3 check.py %s thorough" % p["id"], technique=TECH + NOTES[p["id"]][0],
                                   level=q.level, level_note=NOTES[p["id"]][1]))
            else:
                na.append(dict(property=p["id"], reason=p["na"] or "its check is not built yet"))
    m = dict(version=1, setup_cmd="python3 check.py setup",
             hooks=dict(guard="VISQOL_SIM", enable="the checks compile /repo/src with -DVISQOL_SIM; no hook was needed, so the define guards nothing: every seam "
                        "(libc file calls, allocation, threads, TFLite, pffft) is taken at link time", source_commits=[]),
             checks=checks, not_applicable=na,
             notes="check.py builds the simulator from /repo's working tree (objects cached under build/ by content). Exit 3 is an error of the machinery. "
                   "known_findings.txt lists the defects found and repaired.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")
