"""What each check builds and runs."""
TRUSTED = [
    "file system, clock, entropy, memory limits and process death are simulated (sim/simkit.cpp); libstdc++, libc math and the compiler are real",
    "a crash is a process death: completed system calls survive, buffered data is lost, the last write may be torn",
]
MODEL = ["happyml DSL and loader, NeuralNetworkForTraining, nodes, layers, activations, losses, optimizers, tensors"]
LANG = ["parser, statements, ExecutionContext, dataset_utils, file readers, writers and sorter, encoders"]
THREADS = ["-fsanitize=thread", "-D_GLIBCXX_USE_TBB_PAR_BACKEND=0", "-include", "SIM/compat/par_threads.hpp", "-DHAPPYML_STATS_CONCURRENT_ELEMENTS=sim::stats_threshold"]
CHECKS = {
    "hooks": {"guard": "HAPPYML_STATS_CONCURRENT_ELEMENTS", "enable": "-DHAPPYML_STATS_CONCURRENT_ELEMENTS=sim::stats_threshold for the C01 harness (checks.py); undefined, the shipped threshold of 100000000 elements applies", "source_commits": ["faf7532"]},
    "harnesses": {
        "text": {"src": "text.cpp"},
        "data": {"src": "data.cpp"},
        "models": {"src": "models.cpp"},
        "learn": {"src": "learn.cpp"},
        "lang": {"src": "lang.cpp"},
        "tokens": {"src": "tokens.cpp"},
        "repro": {"src": "repro.cpp"},
        "resources": {"src": "resources.cpp"},
        "programs": {"src": "programs.cpp"},
        "sessions": {"src": "sessions.cpp", "coop": True},
        "search": {"src": "search.cpp", "sched": True, "flags": THREADS},
        "stats": {"src": "stats.cpp", "sched": True, "flags": THREADS},
    },
    "properties": {
        "D01": {"harness": "lang", "real": LANG,
                "note": "Seeded exploration of source tables (column kinds, shapes, order, unused columns, duplicates, quoting, csv and tsv, headers) x I/O splits; every stored row decoded and compared with the source. Trusts the simulated file system."},
        "D02": {"harness": "lang", "real": LANG,
                "note": "Seeded exploration of source tables x crash points, failing I/O, full disks and failing allocations; after a restart the dataset is absent or complete, and repeating the statement completes it. Trusts the simulated file system."},
        "D08": {"harness": "lang", "real": ["convert_txt_to_csv, loadDelimitedValuesDataset, delimited reader and writer, encoders, InMemoryTrainingDataSet"],
                "note": "Seeded exploration of texts x limits and of delimited records x encoders x failing and split I/O, crashes, full disks and failing allocations; words and records compared with the source. Trusts the simulated file system and the delimited reader (checked by D04)."},
        "T01": {"harness": "lang", "real": LANG + MODEL,
                "note": "Seeded exploration of small learnable datasets x goals x crash points and failing I/O (most while the task is saved) x clocks; after a restart the task is absent or executable, and repeating the statement makes it executable. Trusts the simulated file system; training data are small."},
        "T02": {"harness": "lang", "real": LANG + MODEL,
                "note": "Seeded exploration of tasks x datasets and inputs to execute on x failing I/O and removed files; every printed result compared with the saved model's prediction. Trusts the simulated file system, and model loading (checked by M01)."},
        "T03": {"harness": "lang", "real": LANG + MODEL,
                "note": "Seeded exploration of small learnable datasets x test datasets with other column orders, labels and ranges x random draws x failing reads and writes; the last accuracy create task reports compared with the saved task's labels of the test records after a restart. Trusts the simulated file system and model loading (checked by M01)."},
        "B01": {"harness": "tokens", "real": ["BytePairEncoderModel: save, load, train, encode, decode"],
                "note": "Seeded exploration of trainings x saves over or beside earlier tokenizers x loads into fresh or used ones with crashes, I/O faults, full disks, failing allocations and cut files; codes compared with those before saving. Trusts the simulated file system."},
        "B02": {"harness": "tokens", "real": ["BytePairEncoderModel: training from memory, files and folders, encode, decode"],
                "note": "Seeded exploration of training histories x alphabets x directory orders x split and failing reads x failing allocations; round trips of probe texts, and codes of a repeated history in another environment. Trusts the simulated file system."},
        "C01": {"harness": "stats", "real": ["TensorStats, its worker threads, futures and mutexes, tensors and views"],
                "note": "Seeded exploration of tensors x thread schedules (preemption at memory accesses and synchronisation calls) x failing thread starts and allocations; every statistic compared with the one-thread result. Trusts the scheduler; sequentially consistent memory only."},
        "C02": {"harness": "search", "real": ["Hyperband, ConfigurationEvaluator, its evaluating threads"] + MODEL,
                "note": "Seeded exploration of searches and parallel evaluations x thread schedules x clocks x diverging trainings x failing I/O, allocations and thread starts; every saved network loaded and scored again. The parallel algorithm's thread pool is a stand-in; sequentially consistent memory only."},
        "R01": {"harness": "repro", "real": LANG + MODEL + ["BytePairEncoderModel", "Shuffler, splitData, sampleData"],
                "note": "Seeded exploration of datasets, tasks, networks and tokenizers; the same work with the same random draws in two environments with other memory contents, addresses, clocks, directory orders and I/O splits, results and files compared byte for byte. Logs and elapsed times are not compared."},
        "R02": {"harness": "resources", "real": LANG + MODEL + ["BytePairEncoderModel", "BinaryDataSet, FileSorter, text readers and writers"],
                "note": "Seeded exploration of repeated work x the same failing I/O, full disk or failing allocation in every repetition; open files and live memory compared between repetitions. Memory from operator new only; threads are not covered."},
        "P01": {"harness": "programs", "real": ["main.cpp, create_tokenizer.cpp", "InterpreterSession, lexer, parser", "BytePairEncoderModel"] + LANG,
                "note": "Seeded exploration of script lists, interactive input and texts to train the default tokenizer on x crash points, failing I/O, full disks and failing allocations; compared with the scripts executed one by one and a tokenizer trained without faults. Trusts the simulated file system, single scripts (I01) and training (B02)."},
        "N01": {"harness": "sessions", "real": ["InterpreterSession, lexer, parser"] + LANG + MODEL,
                "note": "Seeded exploration of two or three sessions x the system calls at which another one goes on x crash points and I/O errors that hit one of them; every answer and the files left compared with the sessions one after the other. Sessions alternate at system calls only; trusts the simulated file system and single statements (D01, D02, T01, T02)."},
        "I01": {"harness": "lang", "real": ["InterpreterSession, lexer, parser"] + LANG,
                "note": "Seeded exploration of scripts x layout x unreadable files and I/O splits; output, errors and files compared with the same statements executed one by one. Trusts the simulated file system and single statements (checked by D01, D02, T02)."},
        "I02": {"harness": "lang", "real": ["InterpreterSession, lexer, parser"] + LANG,
                "note": "Seeded exploration of interactive sessions x failing I/O, full disks and failing allocations while a line is executed; every answer compared with the line executed on its own. The keyboard is a stand-in."},
        "D03": {"harness": "text", "real": ["FileSorter and the standard streams it uses"],
                "note": "Seeded exploration of inputs x chunk sizes x bystander files x I/O faults and crash points; result compared byte for byte with a reference sort. Trusts the simulated file system."},
        "D04": {"harness": "text", "real": ["DelimitedTextFileWriter/Reader, TextEncoderDecoder, save_config/read_config"],
                "note": "Seeded exploration of records x delimiters x I/O splits and faults; records read by a second process compared with those written. Trusts the simulated file system."},
        "D05": {"harness": "text", "real": ["TextLinePathReader, std::filesystem directory iteration"],
                "note": "Seeded exploration of directory contents x listing orders x I/O splits and failing opens/reads; delivered lines compared with the files. Trusts the simulated file system."},
        "D06": {"harness": "data", "real": ["BinaryDatasetWriter, BinaryDatasetReader, LruCache, tensors"],
                "note": "Seeded exploration of column layouts x values x duplicates x access orders x truncations, I/O faults, crashes and failing allocations; every cell and header field compared with a reference model. Trusts the simulated file system."},
        "D07": {"harness": "data", "real": ["BinaryDataSet, InMemoryTrainingDataSet, Shuffler"],
                "note": "Seeded exploration of sizes x split fractions x histories of passes, restarts and simulated shuffles with failing reads; each pass checked for exactly-once delivery, parts for partition. Trusts the simulated file system and entropy."},
        "M01": {"harness": "models", "real": MODEL,
                "note": "Seeded exploration of networks x training x save/load/resave over simulated processes with split and interrupted I/O; predictions compared bit for bit, settings by one further training step. Trusts the simulated file system."},
        "M02": {"harness": "models", "real": MODEL,
                "note": "Seeded exploration of save histories x crash points (torn writes) x failing, short and full-disk I/O; everything on disk afterwards loads with the predictions of an acknowledged or attempted save, or fails. Trusts the simulated file system; a crash loses no completed write."},
        "M03": {"harness": "models", "real": MODEL,
                "note": "Seeded exploration of histories of saves, labels, trainings and loads x clocks that freeze, jump and step back x I/O faults; every saved version reloaded and compared. Trusts the simulated file system and clock."},
        "M04": {"harness": "models", "real": MODEL,
                "note": "Seeded exploration of loss histories (scripted and real) x shuffles x clocks x failing checkpoints and crashes; a recorder remembers the predictions of every epoch. Trusts the simulated file system and entropy."},
        "M05": {"harness": "models", "real": MODEL + ["DefaultExitStrategy, ElapsedTimer"],
                "note": "Seeded exploration of limits x loss histories x simulated record costs and stalls x wall clock behaviours; each decision compared with a reference. Decisions within rounding of a limit are skipped. Trusts the simulated clocks."},
        "M06": {"harness": "models", "real": MODEL,
                "note": "Seeded exploration of call sequences x failing inputs x failing allocations and reads x memory fills x clocks; compared with a fresh process. Trusts the simulated allocator."},
        "M08": {"harness": "models", "real": MODEL,
                "note": "Seeded exploration of pairs of networks x interleavings of their operations x failing calls, I/O and allocations of one of them; results and files compared bit for bit with each network used alone. Turns are whole calls, not threads (those are C02's)."},
        "M07": {"harness": "learn", "real": MODEL,
                "note": "Seeded exploration of networks x weights x data x shuffles x batch sizes x optimizers x losses against a double-precision reference; numerically ill-conditioned runs (about a tenth) are skipped. Faults do not apply; only entropy and clock are simulated."},
    },
}
