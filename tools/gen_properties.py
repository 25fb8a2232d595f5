import os
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    a={"files":["src/"+f for f in files],"mechanism":[{"name":n,"where":"src/"+w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":"src/"+w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("D01","An acknowledged create dataset stores exactly the source's records",
  "When a create dataset statement reports success, the stored dataset holds exactly the distinct records of the source file: every record whose given values differ from all others appears once with its own expected values, nothing else appears, the header is not a record, and each declared column carries the value the source held at its declared position, decodable back to it. The source file itself is left unchanged. None of this depends on which columns are given or expected, on their declaration order, or on how reads and writes happen to be split.",
  ["inputs","configurations","fault_sequences"],
  "every source table (size, quoting, duplicates, unused columns), every legal column declaration (number, label, given/expected, multi-column groups, order), every pattern of short or interrupted reads and writes",
  "The one create-dataset test runs a fixed file with a fixed declaration on a healthy disk; it cannot range over tables, declarations and I/O splits.",
  ["lang/statements/create_dataset_statement.hpp","util/dataset_utils.hpp","util/text_file_sorter.hpp","util/file_reader.hpp","util/file_writer.hpp","training_data/data_encoder.hpp","training_data/training_dataset.hpp"],
  [("CreateDatasetStatement::execute","lang/statements/create_dataset_statement.hpp"),("update_column_positions / create_binary_dataset_from_delimited_values / normalize_and_standardize_dataset","util/dataset_utils.hpp"),("BinaryDatasetWriter dedupe","util/file_writer.hpp")],
  ["dataset.bin through BinaryDatasetReader / BinaryDataSet and the statement's result"])
p("D02","A failed or crashed create dataset never leaves a partial dataset visible",
  "If create dataset is cut short by a crash or fails because of a disk or memory error, then afterwards, including after a restart, the dataset either does not exist or is complete and correct; it never exists with missing, truncated or foreign records. Success is never reported unless the complete dataset is on disk. Repeating the same statement once the fault is gone produces the complete dataset, repeating it when the dataset is complete succeeds and changes nothing, and files that are not the statement's own are never altered.",
  ["crash_points","fault_sequences","inputs"],
  "every point at which the process can die and every disk, memory or system-call failure while a dataset is being created, followed by restart and retry",
  "No test kills the process or fails a write; the visible state after an arbitrary prefix of the I/O is never examined.",
  ["lang/statements/create_dataset_statement.hpp","util/dataset_utils.hpp","util/file_writer.hpp","lang/execution_context.hpp"],
  [("dataset_exists decides by opening dataset.bin","lang/execution_context.hpp"),("normalize_and_standardize_dataset writes the final file","util/dataset_utils.hpp"),("BinaryDatasetWriter","util/file_writer.hpp")],
  ["context dataset_exists, BinaryDatasetReader over the final file, statement results after restart"])
p("D03","External file sort keeps exactly the distinct lines, in order, or says it failed",
  "When sorting a text file reports success, the result file holds the input's header (if declared) followed by exactly the input's non-empty lines in ascending order, with duplicates removed when asked and kept otherwise, whatever the chunk size. A read, write or open failure makes the sort report failure rather than silently lose lines. The input file and every unrelated file in the directory are left as they were and no temporary file remains after a successful sort.",
  ["inputs","fault_sequences","configurations"],
  "every input file, chunk size, header and duplicate option, directory contents and every sequence of disk faults during the sort",
  "The sorter tests use two small files and a healthy disk; they never fail a chunk write nor place other files beside the input.",
  ["util/text_file_sorter.hpp"],
  [("FileSorter::sort / merge_chunks","util/text_file_sorter.hpp")],
  ["result file bytes, return value, directory listing before and after"])
p("D04","Delimited text written and read back gives the same records",
  "Any records written to a delimited text file (comma, tab or colon separated) and closed without error are read back as the same number of records with the same fields, up to trimming of surrounding blanks and of one pair of enclosing quotes, for every field content including delimiters, quotes, angle brackets, digits mixed with punctuation and embedded line breaks. How reads and writes are split by the operating system makes no difference. A failed write is reported, not dropped.",
  ["inputs","fault_sequences"],
  "every list of records over every character a field may hold, every delimiter, every split, interruption or failure of reads and writes",
  "Tests round-trip a handful of hand-picked strings; escaping bugs live in combinations of characters and buffer boundaries they do not sample.",
  ["util/file_writer.hpp","util/file_reader.hpp","util/text_encoder_decoder.hpp","util/data_util.hpp"],
  [("DelimitedTextFileWriter::writeRecord","util/file_writer.hpp"),("DelimitedTextFileReader::nextRecord / decode","util/file_reader.hpp"),("TextEncoderDecoder","util/text_encoder_decoder.hpp")],
  ["records returned by the reader"])
p("D05","Reading a path of text files delivers every line exactly once",
  "Reading lines from a file, or from a directory of files, delivers every line of every regular file exactly once and in file order within each file, skipping exactly one header line per file when asked, for any directory listing order and any mix of empty, header-only, unterminated and large files. The reader says it has no more lines exactly when all have been delivered. A file that cannot be opened or read is reported, and never makes later files disappear silently.",
  ["inputs","configurations","fault_sequences"],
  "every directory content and listing order, every header option, every short read and every open or read failure",
  "Directory order is whatever the test machine's file system returns, and no test has an empty file between two others or a failing open.",
  ["util/file_reader.hpp"],
  [("TextLinePathReader","util/file_reader.hpp")],
  ["sequence of lines returned until hasNext is false"])
p("D06","Binary dataset files read back what was written, in any access order",
  "Every row written to a binary dataset file is read back with the same given and expected values, shapes, labels, names and column statistics, at its index, in any access order; with duplicate suppression on, a row is dropped only if its given values equal those of a row already written. Renormalising on read converts each column with that column's own statistics. A file that ends inside its header or inside a row, or a failing read, is reported as an error, and made-up rows are never returned.",
  ["inputs","histories","fault_sequences"],
  "every metadata layout, every sequence of rows, every order of reads, every truncation and every short, interrupted or failed read or write",
  "Tests read a file sequentially once on a healthy disk with single-column layouts; multi-column renormalisation, random access and torn files are not reached.",
  ["util/file_writer.hpp","util/file_reader.hpp","util/column_metadata.hpp","util/lru_cache.h","util/tensor_utils.hpp","types/tensor_impls/full_tensor.hpp","types/tensor_impls/quarter_tensor.hpp","types/tensor_impls/pixel_tensor.hpp"],
  [("BinaryDatasetWriter::writeRow / writeHeader","util/file_writer.hpp"),("BinaryDatasetReader::readHeader / readRow","util/file_reader.hpp"),("LruCache","util/lru_cache.h")],
  ["tensors and metadata returned by the reader"])
p("D07","Each epoch visits every record once, and splits partition the dataset",
  "Whatever random shuffles occur, one pass over a dataset (in memory or on disk) returns every record exactly once with its own given/expected pairing, reports exhaustion exactly then, and restarting or reshuffling makes the next pass complete again. Splitting a dataset into a training and a test part yields two disjoint parts that together cover every record, for any fraction and size. A record whose reading failed can be asked for again; it is neither skipped nor repeated.",
  ["schedules","histories","configurations"],
  "every dataset size, split fraction, batch size, every outcome of every shuffle, every sequence of next/batch/restart/shuffle calls",
  "Shuffle order comes from hardware entropy in the tests and cannot be controlled; split rounding is tried for no sizes at all.",
  ["training_data/training_dataset.hpp"],
  [("InMemoryTrainingDataSet","training_data/training_dataset.hpp"),("BinaryDataSet::nextRecord, split, shuffle","training_data/training_dataset.hpp")],
  ["records returned by nextRecord/nextBatch"])
p("D08","Text and delimited sources are taken over without losing or repeating anything",
  "Converting a text file into cells keeps every word of the text exactly once and in order, and makes no cell longer than the limit unless it is a single word. Loading delimited values into memory gives one record per line with its own given and expected values in the declared order and encoding. A missing or unreadable source, a line that lacks fields, or a result that could not be written completely is reported, never taken for an empty or shorter source.",
  ["inputs","fault_sequences"],
  "every text, limit, column order and encoder, every split of reads and writes, every failing open, read, write or allocation",
  "The tests convert one file and look at nothing.",
  ["util/dataset_utils.hpp","util/file_reader.hpp"],
  [("convert_txt_to_csv, loadDelimitedValuesDataset","util/dataset_utils.hpp")],
  ["words of the cells, records of the loaded dataset, success reported"])
p("M01","A saved model predicts identically after a restart",
  "A network that is saved and then loaded by a new process has the same topology and gives exactly the same predictions for every input as the network had at the moment it was saved, for every supported combination of layers, activations, bit widths, biases, normalisation, several inputs and several outputs. The same holds when only the knowledge is saved and loaded under a label, and when the loaded model is saved again, and split or interrupted reads and writes make no difference. The settings come back too: one more plain gradient descent step on the same data changes the loaded model exactly as it would have changed the saved one.",
  ["configurations","inputs","crash_points","fault_sequences"],
  "every network topology the builder accepts, every weight value, every input, every clean restart after an acknowledged save, all short or interrupted I/O",
  "Two tests save and load one small network in the same process; per-layer, per-bit-width persistence across restarts is unsampled.",
  ["ml/happyml_dsl.hpp","ml/neural_network.hpp","ml/neural_network_node.hpp","ml/layers/fully_connected_layer.hpp","ml/layers/convolution_2d_valid_layer.hpp","ml/layers/bias_layer.hpp"],
  [("NeuralNetworkForTraining::saveAs / saveKnowledge","ml/neural_network.hpp"),("loadNeuralNetworkForTraining","ml/happyml_dsl.hpp"),("layer saveKnowledge/loadKnowledge","ml/layers/fully_connected_layer.hpp")],
  ["predictions before save and after reload in a fresh process"])
p("M02","An interrupted or failed save never yields a silently wrong model",
  "If saving a model or its knowledge is cut short by a crash, or any read or write fails during saving or loading, then loading afterwards either yields a model that predicts exactly as the saved (or the previous complete) one did, or fails with an error. It never silently returns a network with missing, torn, stale-mixed or made-up weights. A save that could not write everything does not report success.",
  ["crash_points","fault_sequences","configurations"],
  "every crash point and disk fault during save or load, every topology, with or without an earlier saved version",
  "No test interrupts a save, truncates a knowledge file or fails a read, so garbage weights after a partial write are invisible to them.",
  ["ml/neural_network.hpp","ml/neural_network_node.hpp","ml/happyml_dsl.hpp","types/base_tensors.hpp","types/tensor_impls/full_tensor.hpp","types/tensor_impls/half_tensor.hpp","types/tensor_impls/quarter_tensor.hpp"],
  [("NeuralNetworkForTraining::saveAs / saveKnowledge / loadKnowledge","ml/neural_network.hpp"),("BaseTensor::save and stream constructors","types/base_tensors.hpp")],
  ["result of saving; predictions or error after restart and load"])
p("M03","Saving a model never disturbs other saved models",
  "Saving without overwrite keeps every previously saved model loadable with its own predictions and makes the new model complete at its own place, even when saves happen within one clock tick or the clock steps backwards. Saving with overwrite replaces only the model of that name, and saving knowledge under one label leaves other labels as they were. Reloading any saved version gives exactly the predictions it had when saved.",
  ["histories","schedules","configurations"],
  "every sequence of saves, overwrites, trainings and loads over several names and labels, under every behaviour of the clock",
  "Collisions need two saves in the same clock tick or a clock step, which a test on the real clock cannot arrange.",
  ["ml/neural_network.hpp"],
  [("NeuralNetworkForTraining::saveAs / saveKnowledge","ml/neural_network.hpp")],
  ["directory tree and predictions of every saved version"])
p("M04","Training ends with the best network it saw",
  "When training with best-state retention ends normally, the network predicts exactly as at an epoch with the lowest test loss seen (the training loss if there is no test data), the returned loss is that epoch's loss, and no temporary checkpoint is left on disk. This holds whatever the shuffles and the clock do. If a checkpoint cannot be written or read back, training reports it instead of silently continuing with other weights.",
  ["schedules","histories","fault_sequences"],
  "every shuffle outcome, epoch-loss history, clock behaviour and disk fault during training",
  "Tests accept any network whose loss is small; none compares the retained weights with the best epoch or fails a checkpoint.",
  ["ml/neural_network.hpp","ml/exit_strategy.hpp"],
  [("NeuralNetworkForTraining::train","ml/neural_network.hpp")],
  ["returned loss, loss re-evaluated after training, files left behind"])
p("M05","Training stops when its exit strategy says so",
  "Training runs at least the configured minimum and at most the configured maximum number of epochs (the minimum wins), stops at a loss at or below the zero loss or a degradation beyond the limit, stops when the configured total elapsed time has passed, and stops after the configured number of epochs without sufficient improvement, no earlier and no later than the end of the epoch in which the condition is first met. The elapsed-time limit counts time since training started, and a wall clock that jumps, freezes or steps back neither ends training early nor keeps it from ending by its other limits.",
  ["schedules","configurations","histories"],
  "every combination of limits, every history of epoch losses and every behaviour of the clock",
  "Elapsed-time behaviour needs a controlled clock; the tests only ever run a few milliseconds of real time.",
  ["ml/exit_strategy.hpp","ml/neural_network.hpp","util/timers.hpp"],
  [("DefaultExitStrategy::isDone","ml/exit_strategy.hpp"),("ElapsedTimer","util/timers.hpp"),("train loop","ml/neural_network.hpp")],
  ["number of epochs run against simulated time"])
p("M06","Predicting and testing never change the network, even when they fail",
  "Predicting and evaluating a network are pure: repeated and reordered predictions, tests and accuracy measurements give identical results, agree with each other and do not change what the network has learned. A prediction that fails part-way (wrong input, memory exhausted) leaves the network predicting exactly as before, and a training run that fails part-way leaves nothing behind: after the saved knowledge is loaded again it predicts and learns exactly as a fresh process with that knowledge does. Results never depend on uninitialised memory, the clock or earlier inputs.",
  ["histories","fault_sequences","inputs"],
  "every sequence of predictions, tests and failed calls, every allocation failure point, every fill of fresh memory",
  "A failing allocation in the middle of a forward pass cannot be produced by the tests, and uninitialised memory is usually zero there.",
  ["ml/neural_network.hpp","ml/neural_network_node.hpp"],
  [("NeuralNetworkNode::sendOutput / doForward","ml/neural_network_node.hpp"),("NeuralNetwork::predict","ml/neural_network.hpp")],
  ["predictions before and after the disturbed call"])
p("M07","Training applies exactly the gradient of every record of every batch",
  "For every shuffle outcome and batch size, an epoch of training changes the weights as a reference implementation of the network, loss and optimizer does (up to rounding) when given the same records in the same order: each record contributes once, batches are averaged over the records they contain, the last partial batch included, every branch and every channel gets its own error, and predictions and reported losses are those of the reference, averaged over all records. This covers networks of fully connected, convolution, bias, flatten and concatenation layers with every activation, loss, optimizer, L2 and norm clipping setting at full precision (not dropout, normalisation or reduced bit widths).",
  ["schedules","inputs","configurations"],
  "every shuffle order, batch size, dataset size, network, loss and optimizer of the kinds named",
  "Tests only check that training converges; a wrong final batch, a skipped record or a mis-weighted average still converges.",
  ["ml/neural_network.hpp","ml/optimizers/sgdm_optimizer.hpp","ml/optimizers/adam_optimizer.hpp","ml/optimizers/mbgd_optimizer.hpp","ml/layers/fully_connected_layer.hpp","ml/layers/bias_layer.hpp"],
  [("NeuralNetworkForTraining::train","ml/neural_network.hpp"),("optimizers","ml/optimizers/adam_optimizer.hpp")],
  ["predictions after each epoch against the reference model; returned losses"])
p("M08","Networks in one process do not affect each other",
  "Two networks used in turn in one process - built, trained, tested, used for predictions, saved, labelled and reloaded in any interleaving - each give exactly the results and the files they give when used alone with the same random draws, also when they are equal, share a repository, or when calls of one of them fail because of wrong input, I/O or exhausted memory.",
  ["histories","schedules","fault_sequences"],
  "every pair of networks and every interleaving of their operations",
  "Tests use one network at a time.",
  ["ml/neural_network.hpp","ml/neural_network_node.hpp","ml/happyml_dsl.hpp","ml/optimizers/adam_optimizer.hpp"],
  [("NeuralNetworkForTraining","ml/neural_network.hpp"),("optimizers","ml/optimizer_factory.hpp")],
  ["predictions, losses and files of each network"])
p("T01","Create task is all-or-nothing across crashes and can be repeated",
  "After create task reports success, the task exists and can be executed after any restart. If it is interrupted by a crash or a disk error at any point, or fails for any other reason, then afterwards the task is either absent, so that repeating the statement creates it, or complete and executable; it is never reported as existing while unusable. Creating a task always ends, with success or a reported failure, and never changes the dataset or other tasks.",
  ["crash_points","fault_sequences","histories"],
  "every crash point and disk fault during create task, followed by restart, retry and execution",
  "Task tests cover only the healthy path in one process.",
  ["util/task_utils.hpp","lang/statements/create_task_statement.hpp","lang/execution_context.hpp"],
  [("create_label_task","util/task_utils.hpp"),("task existence test","lang/execution_context.hpp")],
  ["statement results, task files and execution after restart"])
p("T02","Execute task labels every record with the model's own prediction",
  "Executing a task on a dataset or on given inputs prints exactly one result per record, shown with that record's own given values, and each result is what the task's saved model predicts for that record, whose columns go by their names; repeated and restarted executions give the same results, and so does the same input written as a statement, whichever way its values are quoted, escaped and listed. Executing changes neither task nor dataset. A missing task, dataset, given column or file of either, or a failing read, is reported as a failure, never as success with missing or other results.",
  ["inputs","histories","fault_sequences"],
  "every task, dataset and input record, every sequence of executions and restarts, every disk fault while reading or writing",
  "Tests execute a task once on hand-written inputs and do not compare it with the saved model, nor across restarts or faults.",
  ["util/task_utils.hpp","lang/statements/execute_task_statement.hpp"],
  [("execute task on dataset / given","util/task_utils.hpp"),("ExecuteTaskStatement","lang/statements/execute_task_statement.hpp")],
  ["output rows against predictions of the loaded model"])
p("T03","The accuracy create task reports is that of the task it keeps",
  "When create task tests with a dataset of its own, the accuracy it reports last is exactly the share of that dataset's records whose expected labels the saved task gives them after a restart, whatever shuffles occurred, however many networks were tried and failed before, and however the test dataset differs from the training one in the order of its columns, the labels it happens to hold and the range of its numbers. If it says the model is accurate, that share has reached 90%.",
  ["inputs","histories"],
  "every pair of a training and a test dataset with the same columns, every goal, every sequence of random draws, including those whose networks fail",
  "Tests create a task from one fixed dataset and only look at whether it succeeds, never at what the accuracy it reports is worth for the saved task.",
  ["util/task_utils.hpp","ml/neural_network.hpp","util/file_reader.hpp","lang/statements/create_task_statement.hpp"],
  [("create_label_task / attempt_training_with_logging","util/task_utils.hpp"),("compute_categorical_accuracy / compute_binary_accuracy","ml/neural_network.hpp"),("CreateTaskStatement","lang/statements/create_task_statement.hpp")],
  ["last accuracy printed against the labels of the saved task"])
p("I01","Scripts run their statements in order and stop at the first failure",
  "A script executes its statements in source order, each exactly once, and stops at the first statement that fails or at exit: nothing after it is executed, and the failure is reported on the error output. A script that cannot be parsed executes nothing and reports the error. The outcome does not depend on how reads of the script file are split, and a script file that is missing or unreadable is reported, never treated as an empty script.",
  ["programs","fault_sequences"],
  "every script built from the supported statements, every failing position, every read fault",
  "The interpreter tests run a few fixed one- or two-statement scripts.",
  ["lang/interpreter.hpp","lang/parser/parser.hpp","lang/statements/code_block_statement.hpp","lang/happyml_script_init.hpp"],
  [("InterpreterSession::interpretCommands / interpretFile","lang/interpreter.hpp"),("CodeBlock::execute","lang/statements/code_block_statement.hpp")],
  ["statement effects in order, error output and the session's result"])
p("I02","An interactive session survives any failing statement",
  "In an interactive session every line the user types, including empty, malformed and failing ones, is answered and the session continues with its state intact until exit or end of input; no statement failure, missing dataset, disk error or memory shortage ends the session. Continued lines are joined exactly, and after a failure later statements behave as if the failed one had not been typed.",
  ["programs","fault_sequences","histories"],
  "every sequence of typed lines and every fault while one of them runs",
  "No test drives the interactive session at all.",
  ["lang/interpreter.hpp","lang/statements/print_statement.hpp","lang/execution_context.hpp"],
  [("InterpreterSession::interactiveInterpret","lang/interpreter.hpp")],
  ["session output per line and process survival"])
p("N01","Sessions that work at the same time don't disturb each other",
  "Several happyml processes can work in one repository at the same time. Whatever the order in which their accesses to the disk interleave, creating, printing, executing and describing datasets and tasks answers and stores the same as if the sessions had run one after the other, as long as they create things of different names; a dataset another session is just creating, or replacing, is seen as it was before or complete, never in between; and an I/O error that hits one session, or a crash, does no harm to what the others made.",
  ["schedules","fault_sequences","histories","crash_points"],
  "every interleaving of the system calls of several processes, with every error or crash",
  "Tests run one process with one session; what two of them do to each other's files depends on the interleaving.",
  ["lang/interpreter.hpp","lang/statements/create_dataset_statement.hpp","util/dataset_utils.hpp","util/text_file_sorter.hpp","util/task_utils.hpp","util/file_reader.hpp"],
  [("intermediate files in the folder of the dataset","lang/statements/create_dataset_statement.hpp"),("complete file gets the final name","util/dataset_utils.hpp"),("FileSorter chunk files","util/text_file_sorter.hpp")],
  ["answers of every session and the files left, compared with the sessions one after the other"])
p("P01","The programs do what they are asked and report it truthfully",
  "The happyml program executes the scripts given on its command line one after the other, each completely before the next, as if the user had run them one by one in one session: an exit statement ends it without executing a later script, a script that is missing or cannot be executed ends it with a nonzero status and a message before any later script is executed, and it ends with status 0 when every script succeeds. Without arguments it offers the interactive session. The create_tokenizer program ends with status 0 only when the default tokenizer trained on all of the given file or folder has been saved where datasets and tasks find it; when it is called wrongly, cannot read the text completely, cannot save, or crashes, it says so through its status and never leaves a default tokenizer that is neither the new nor the earlier one, and a text it could not read leaves the earlier tokenizer as it was.",
  ["programs","fault_sequences","crash_points","inputs"],
  "every list of scripts, every text or folder, every failing call, full disk or crash point",
  "No test runs the programs; their status and what they leave on disk after a failure are never looked at.",
  ["main.cpp","create_tokenizer.cpp","lang/interpreter.hpp","ml/byte_pair_encoder.hpp"],
  [("main of happyml","main.cpp"),("main of create_tokenizer","create_tokenizer.cpp"),("InterpreterSession::interpretFile","lang/interpreter.hpp")],
  ["exit status, output and files of both programs; codes of the default tokenizer"])
p("B01","A saved tokenizer loads back to the same tokenizer, or fails loudly",
  "A byte-pair tokenizer that is saved and loaded, by the same or another process and into a fresh or an already used instance, encodes every text to the same codes, decodes them alike and learns on alike. A missing, unreadable or incomplete file makes loading fail and leaves the loading instance as it was, whatever crash or fault cut the save short, and a save that could not write everything does not report success.",
  ["inputs","crash_points","fault_sequences"],
  "every training text, every text encoded afterwards, every crash point and disk fault during save or load",
  "Tests save and load one tokenizer on a healthy disk into a fresh instance.",
  ["ml/byte_pair_encoder.hpp"],
  [("BytePairEncoderModel::save / load","ml/byte_pair_encoder.hpp")],
  ["encode/decode results before and after"])
p("B02","Tokenizing loses nothing",
  "Decoding the codes of any text made of characters the tokenizer was trained on gives back that text, for every training history, including training continued with more text and training on repeated or overlapping patterns, and, early stopping aside, the codes depend on the text and the training history only: not on how reads are split, the order of directories, time or memory contents. A tokenizer that is given another's codes gives the same codes and loses nothing either. A training file that could not be read completely is reported, and a failed training leaves a tokenizer that still loses nothing.",
  ["inputs","histories"],
  "every training history and every text over the trained alphabet",
  "Tests use a few English words with one training pass.",
  ["ml/byte_pair_encoder.hpp","util/data_util.hpp"],
  [("BytePairEncoderModel::train / train_on_file / train_on_folder / encode / decode","ml/byte_pair_encoder.hpp")],
  ["decode(encode(text))"])
p("C01","Parallel tensor statistics equal the sequential ones under every schedule",
  "Statistics of a tensor computed by several threads equal those computed by one, for every tensor content and every interleaving of the worker threads; no element is missed or counted twice and the result never depends on the schedule. The computation finishes, and a failure to start a worker is reported rather than giving a wrong result.",
  ["schedules","inputs","fault_sequences"],
  "every interleaving of the worker threads, every tensor, every failure to start a thread",
  "The parallel path only runs above a hundred million elements and its interleavings are not controllable in a test.",
  ["util/tensor_stats.hpp"],
  [("TensorStats parallel bag population and merge","util/tensor_stats.hpp")],
  ["all statistics getters"],"guarded override of the element-count threshold that switches to the parallel path")
p("C02","Parallel hyper-parameter search returns the best network it evaluated",
  "A hyper-parameter search evaluates every configuration of each round exactly once, keeps the better-scoring ones for the next round, and returns a configuration whose score is the best of all evaluated, together with that configuration's own trained network, for every interleaving of the parallel evaluations and every behaviour of the clock. Evaluations end within the epoch limit given. No temporary model is left behind, and a failing evaluation is reported or skipped without corrupting the others.",
  ["schedules","fault_sequences","configurations"],
  "every interleaving of parallel evaluations, clock behaviour, random draw and I/O fault",
  "The search is only run by examples on the real thread pool; results there are unrepeatable.",
  ["ml/hyperband/hyperband.hpp","ml/hyperband/configuration_evaluator.hpp","ml/hyperband/hyperband_random_search.hpp"],
  [("Hyperband::run","ml/hyperband/hyperband.hpp"),("ConfigurationEvaluator","ml/hyperband/configuration_evaluator.hpp")],
  ["returned configuration, evaluation records and files left"])
p("R01","Results depend only on inputs and random draws",
  "With the same inputs and the same random draws, every operation (creating datasets, training, predicting, saving, tokenizing) gives byte-identical files and identical results, whatever the contents of fresh memory, the speed or value of the clock, the listing order of directories, and the way the operating system splits reads and writes.",
  ["schedules","fault_sequences","inputs"],
  "every memory fill, clock behaviour, directory order and I/O split, for the same inputs and random draws",
  "Tests run each operation once in one environment and cannot vary the environment with the random draws held fixed.",
  ["training_data/training_dataset.hpp","ml/neural_network.hpp","util/dataset_utils.hpp","types/tensor_impls/tensor_from_xavier.hpp","types/tensor_impls/tensor_from_random.hpp"],
  [("random_device/mt19937 use","training_data/training_dataset.hpp"),("initialize_column_metadata","util/dataset_utils.hpp")],
  ["bytes of all files written and all results, compared between two simulated environments"])
p("R02","Operations give back the memory and files they used",
  "Every operation (building, training, testing, saving and loading networks, creating and reading datasets, sorting and converting text, running statements, scripts and tasks, training and storing tokenizers) gives back the open files and the memory it used, whether it succeeds or fails on wrong input, an I/O error, a full disk or exhausted memory: repeating the same work does not make the process grow or run out of file handles, and what it no longer needs does not pile up on disk. An object that is dropped releases everything it held.",
  ["histories","fault_sequences","inputs"],
  "every sequence of operations repeated any number of times, every failing call or allocation repeated with it",
  "Each test runs an operation once or twice and then the process ends; nothing looks at what is still held, least of all after a failure.",
  ["ml/neural_network.hpp","ml/neural_network_node.hpp","training_data/training_dataset.hpp","util/file_reader.hpp","util/file_writer.hpp","util/text_file_sorter.hpp","util/task_utils.hpp","lang/interpreter.hpp"],
  [("weak back references between nodes","ml/neural_network_node.hpp"),("BinaryDatasetReader / BinaryDatasetWriter own their streams","util/file_reader.hpp"),("FileSorter chunk files","util/text_file_sorter.hpp")],
  ["open files, allocated blocks and bytes, files on disk after each repetition"])
# pure functions: not applicable
p("F01","Tensor views compute their mathematical definition",
  "Every tensor view (sum, product, transpose, convolution, reshape, scaling and so on) yields, at each position, exactly the value its mathematical definition gives for its operands, and materialising a view changes no value.",
  ["inputs"],"every operand shape and value",
  "Unit tests sample a few shapes and values.",
  ["types/base_tensors.hpp","types/tensor_views/matrix_multiply_tensor_view.hpp"],
  [("getValue of each view","types/tensor_views/matrix_multiply_tensor_view.hpp")],["values of the view"])
p("F02","Half and quarter float conversions are the nearest representable value",
  "Converting a float to a half or quarter float and back gives the nearest representable value, preserving sign, zero, infinity and not-a-number, monotonically.",
  ["inputs"],"every float and bias","Tests try a few dozen values out of 2^32.",
  ["types/half_float.hpp","types/quarter_float.hpp"],[("float conversion routines","types/quarter_float.hpp")],["converted values"])
p("F03","Activation and loss derivatives match their functions",
  "The derivative each activation and loss supplies is the derivative of the function it supplies at every input where that exists.",
  ["inputs"],"every tensor input","Tests check a few points.",
  ["ml/activators/sigmoid_approx_activation_function.hpp","ml/losses/mse_loss.hpp"],[("activate/derivative and calculateError/compute_loss_derivative pairs","ml/losses/smae_loss.hpp")],["function and derivative values"])
p("F04","The script grammar accepts exactly the documented statements",
  "Every documented statement form is parsed to the statement it denotes with its arguments, and every other text is rejected with an error naming its place.",
  ["programs"],"every source text","Lexer and parser tests cover a fixed list of texts.",
  ["lang/lexer/lexer.hpp","lang/parser/parser.hpp"],[("Lexer::lex","lang/lexer/lexer.hpp"),("Parser::parse","lang/parser/parser.hpp")],["parse results"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
import os
for x in P:
    jsonschema.validate(x,s)
    for fn in x["anchors"]["files"]:
        if not os.path.exists("/repo/"+fn): print("missing",x["id"],fn)
    if x["statement"].count(". ")>2: print("sentences",x["id"])
print(len(P))
