"""Writes /verif/properties.jsonl (kept as a script only so the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/megatron/energon/" + f for f in files],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Sharding gives every sample to exactly one worker, in balanced amounts",
  "When a dataset split is divided over all ranks and all workers per rank, the sample ranges assigned to the workers cover every sample of every shard exactly once: no sample is lost and none is assigned twice. The number of samples of any two workers differs by at most one, and each worker gets one contiguous part of the dataset's sample order. This holds for every list of shards (including empty ones), every world size, every number of workers (0 counts as one) and every rotation offset.",
  ["inputs", "configurations"], "all shard count lists with at least one sample or more, world_size>=1, rank<world_size, num_workers>=0, rotation offsets in [0, global workers), with or without a sequence length limit",
  "Tests use two or three fixed shard layouts and world sizes; the guarantee is over all shard count lists and all worker grids.",
  ["flavors/webdataset/sharder.py", "task_encoder/loader.py", "flavors/webdataset/base_webdataset.py"],
  [("remainder distribution and prefix offsets", "sharder.py: Sharder.shard_workers"), ("walk over shards by cumulative offset", "sharder.py: Sharder._split_shards")],
  [("ShardInfo.offset/count", "half open sample range of one tar file", "flavors/webdataset/structs.py")],
  ["return value of Sharder.shard_workers for every rank"])

p("C02", "Worker slices depend only on world_size x workers, remainders spread evenly",
  "The sample range of a global worker depends only on the shards, the number of global workers (ranks times workers per rank), its position among them and the rotation offset, so splitting the same global workers over a different number of ranks reproduces the same ranges. The surplus samples of a dataset which does not divide evenly go to workers according to a permutation of all workers starting at the rotation offset, and the datasets of a training mixture continue the rotation where the previous one stopped, so that the surplus over several datasets also differs by at most one between workers.",
  ["inputs", "configurations"], "all shard lists, all factorisations of the global worker count, all rotation offsets, all sequences of datasets",
  "Tests compare two or three configurations; the guarantee is over all factorisations and dataset sequences.",
  ["flavors/webdataset/sharder.py", "flavors/webdataset/base_webdataset.py"],
  [("global index arithmetic", "sharder.py: Sharder.shard_workers"), ("balanced order", "sharder.py: Sharder._generalized_bit_reversal"), ("rotation carried between datasets", "worker rotation offset passed by the dataset factories")],
  [], ["Sharder.shard_workers", "Sharder._generalized_bit_reversal"])

p("C03", "Limiting sequence length splits ranges without losing or repeating samples",
  "With a maximum number of samples per sequence, a worker's range of a shard is cut into consecutive, non overlapping, non empty pieces which together are exactly the range. No piece is longer than one and a half times the limit, and pieces of one range differ in length by at most one. All tar files of a joined shard group are cut at the same sample positions, and the cut positions are relative to the start of the tar file.",
  ["inputs", "configurations"], "all range starts and ends, all limits >= 1 or None, all numbers of joined shard files",
  "Only a few lengths are used in tests; rounding errors appear only for particular length/limit pairs.",
  ["flavors/webdataset/sharder.py"], [("piece offsets", "sharder.py: Sharder._split_shard")],
  [], ["Sharder._split_shard", "Sharder.shard_workers"])

p("C04", "A worker's epoch yields each of its samples exactly once and resumes exactly",
  "In one epoch, the sample reader of a worker yields every sample of the shard slices assigned to that worker exactly once, whatever the number of parallel slice iterators, the shuffling and the seed; with training shuffling off, the samples come in slice order. Every yielded sample carries a restore key that names the shard file and sample position it came from. If the state is saved after any number of yielded samples and restored in a fresh reader, the reader continues with exactly the samples the original would have yielded next, across epoch ends as well.",
  ["inputs", "configurations", "histories", "crash_points"], "all slice lists, numbers of parallel iterators, epochs per shuffle, seeds and all positions at which the state is saved",
  "Tests sample a few layouts and save points.",
  ["flavors/webdataset/sample_loader.py", "flavors/webdataset/single_shard_reader.py"],
  [("slice queue and active iterators", "sample_loader.py: WebdatasetSampleLoaderDataset"), ("state per active slice", "sample_loader.py: save_state/restore_state")],
  [("shards to consume, active shards, epoch counters", "pending part of the epoch", "sample_loader.py")],
  ["iteration of the dataset, __restore_key__, save_state/restore_state"])

p("C05", "A shard slice reads exactly the tar samples in its index range",
  "Reading a slice with offset o and count c of an indexed tar file yields exactly the samples number o to o+c-1 of the file in order, each with all of its files grouped under its key and nothing of its neighbours. The tar index stores, for every sample, the byte offset at which its first entry starts, followed by the offset of the end of the samples, so that index and grouping agree for every sequence of file names.",
  ["inputs"], "all tar files with contiguous sample groups, all slices 0<=o, o+c<=n, all file name patterns incl. dotted directories, dot files and non file entries",
  "Tests use a few regularly named tar files.",
  ["flavors/webdataset/itar.py", "flavors/webdataset/single_shard_reader.py", "flavors/webdataset/prepare.py", "flavors/webdataset/sample_loader.py"],
  [("index lookup", "itar.py: get_itar_byte_offset / ITarFile / TarIndexReader"), ("grouping by key", "single_shard_reader.py"), ("index building", "prepare.py: shard info and index writer")],
  [], ["sample dictionaries produced for a ShardInfo", ".tar.idx contents"])

p("C06", "A sub file window behaves exactly like a file holding only those bytes",
  "A stream opened on the byte window [offset, offset+size) of a file returns, for every sequence of reads and seeks, what a separate file with just these bytes would return, seek positions being clamped to the window: never a byte outside the window, end of file exactly at the window end, and positions relative to the window start.",
  ["inputs", "histories"], "all file contents, windows, read sizes (including read-all) and seek sequences",
  "No test exercises the window with arbitrary read/seek sequences.",
  ["flavors/webdataset/itar.py"], [("clamped reads", "itar.py: SubFileReader")],
  [("offset,size,position", "window bounds and current position", "itar.py: SubFileReader")], ["read/seek/tell return values"])

p("C07", "Retrying streams return the exact bytes despite short reads and read errors",
  "A retrying stream returns, for every sequence of reads and seeks, exactly the bytes the underlying file holds at the current position - never missing, repeated or reordered ones - however often the underlying stream raises errors or returns short data, as long as the number of retries is not exhausted. If retries are exhausted, the read fails with the error instead of returning wrong data.",
  ["fault_sequences", "inputs", "histories"], "all read sizes, seek positions and placements of errors/short reads in the underlying stream",
  "There is no test with injected faults; the property is over all fault placements.",
  ["retry_stream.py"], [("reopen, seek to position and continue", "retry_stream.py: RetryReadStream.read")],
  [("_pos,_total", "position of the next byte and file size", "retry_stream.py")], ["read/seek/tell return values, reads of the underlying stream"])

p("C08", "Buffers neither lose nor duplicate samples; shuffling is a permutation",
  "A shuffle buffer yields exactly the multiset of its input samples, never holds more than its configured size, and emits a sample only when the buffer is full or the input is exhausted. The stored restore keys of a sample buffer always belong, position by position, to the samples in the buffer, whatever appends, extends, pops, assignments, deletions, flushes and clears are applied. After saving and restoring, the buffer holds the same samples in the same order.",
  ["inputs", "histories", "crash_points"], "all input sequences, buffer sizes, random draws, operation sequences and save points",
  "Tests look at one stream with one seed.",
  ["wrappers/buffer.py", "wrappers/shuffle_buffer_dataset.py"],
  [("lock step lists", "buffer.py: SavableSampleBuffer"), ("fill and pop loop", "shuffle_buffer_dataset.py: __iter__")],
  [("_buffer,_restore_keys", "samples and their keys per worker", "buffer.py")], ["yielded samples, len, save_state"])

p("C09", "Batching forms consecutive full batches, reports its length and keys right",
  "Batching combines the input samples, in order and without gaps or repeats, into consecutive groups of exactly the batch size; the incomplete rest is emitted as one shorter batch, or dropped if so configured. A batch whose batcher fails or skips is left out without affecting any other batch. Each batch carries restore keys of exactly the samples in it, and the reported length is the number of batches yielded over all workers of the rank when samples are spread evenly.",
  ["inputs", "configurations", "fault_sequences"], "all input lengths, batch sizes, drop_last settings, worker numbers and all subsets of failing or skipping batches",
  "Tests use fixed batch sizes and hardly any failing batchers.",
  ["wrappers/batch_dataset.py"], [("collect and flush", "batch_dataset.py: BatchDataset.__iter__"), ("length formula", "batch_dataset.py: BatchDataset.__len__")],
  [], ["yielded batches, __restore_key__, len()"])

p("C10", "Group batching only mixes samples of one group and never loses any",
  "When batches are formed by group, every batch contains only samples with the same group key, in arrival order, has exactly the fixed size asked for its group, and every input sample which is not skipped appears in exactly one batch; at the end the incomplete groups are emitted in full, or dropped if so configured. A failing or skipping batch, or a failing group key, affects only its own samples. Saving and restoring at any point keeps the samples collected so far in every group.",
  ["inputs", "configurations", "fault_sequences", "crash_points"], "all input sequences, group assignments, group batch sizes, failing batches and save points",
  "Tests use one group function and do not save in the middle of groups.",
  ["wrappers/group_batch_dataset.py"], [("bucket per group", "group_batch_dataset.py: GroupBatchDataset.__iter__"), ("bucket state", "save_state/merge_states/restore_state")],
  [("buckets", "collected samples per group key", "group_batch_dataset.py")], ["yielded batches, restored batches"])

p("C11", "Packing keeps every sample in exactly one pack, in order, across restores",
  "Packing hands the pre packer windows of at most the buffer size of consecutive input samples, and every sample of a window ends up in exactly the pack(s) the pre packer put it in: packs are finalised in the order given, each from exactly its own samples, and nothing is carried over or dropped, except for packs whose packer fails or skips. Saving and restoring at any point continues with exactly the remaining packs, samples and window. A pack can be rebuilt from its restore key.",
  ["inputs", "configurations", "fault_sequences", "crash_points"], "all input lengths, buffer sizes, pre packer partitions, failing packers and save points",
  "Tests use a single packer and a few save points.",
  ["wrappers/packing_dataset.py", "wrappers/buffer.py"], [("reading / pre packing / packing buffers", "packing_dataset.py: PackingDataset.__iter__")],
  [("pre packing lengths and buffers", "pending packs", "packing_dataset.py")], ["yielded packs, state"])

p("C12", "Mapping, filtering and skipping affect only the sample concerned",
  "Mapping yields, in input order, exactly one result per input sample (or all results of a generator function), filtering yields exactly the samples accepted, in order, and an iterator map yields what its function produces. A function that skips or fails on a sample removes only that sample: all other samples come out unchanged, in order and with their own restore key, while fatal errors stop iteration. Every sample gets a sample index of its own that is passed on to the function.",
  ["inputs", "fault_sequences", "configurations"], "all input sequences and all subsets of inputs that are skipped, fail or generate any number of outputs",
  "Tests use only a few patterns of failing samples.",
  ["wrappers/map_dataset.py", "wrappers/filter_dataset.py", "wrappers/iter_map_dataset.py", "wrappers/log_sample_dataset.py", "wrappers/gc_dataset.py"],
  [("per sample try/skip", "map_dataset.py: MapDataset.__iter__"), ("filter", "filter_dataset.py: __iter__"), ("iterator map", "iter_map_dataset.py: __iter__")],
  [], ["yielded samples, __restore_key__"])

p("C13", "Limits and virtual epochs have exactly the requested length over all workers",
  "A limit or virtual epoch of length n yields exactly n samples in total over all workers of the rank and per pass, provided the inner dataset holds enough: each worker yields its share, and shares differ by at most one. A limit yields a prefix of the inner dataset; virtual epochs continue the inner dataset where the previous epoch stopped, so their concatenation is exactly the inner sequence. The reported length is n (for limits: or the inner length if smaller), also after saving and restoring in the middle.",
  ["inputs", "configurations", "crash_points", "histories"], "all lengths, worker numbers, worker ids, inner lengths and save points",
  "Tests use one or two lengths and worker numbers.",
  ["wrappers/limit_dataset.py", "wrappers/epochize_dataset.py"], [("per worker share", "limit_dataset.py / epochize_dataset.py __iter__")],
  [("current offset / active iterator", "progress within the pass", "limit_dataset.py, epochize_dataset.py")], ["yielded samples, len()"])

p("C14", "Repeat, concat and blend yield the inner samples as configured, nothing else",
  "Repeating yields the whole inner dataset exactly the given number of times (forever if unlimited) in every pass, and concatenating yields each dataset completely, one after the other. Blending is endless and takes every sample from one of the datasets which have samples: the samples taken from each dataset are that dataset's own sequence in order (starting over when it ends), and a dataset's weight is its probability of being drawn. Restoring a saved state continues each of them with exactly the remaining samples.",
  ["inputs", "configurations", "histories", "crash_points"], "all inner lengths (including empty inner datasets), repeat counts, weights, random draws and save points",
  "Tests use few datasets, weights and save points.",
  ["wrappers/repeat_dataset.py", "wrappers/concat_dataset.py", "wrappers/blend_dataset.py"],
  [("repeat counter", "repeat_dataset.py"), ("sequential iteration", "concat_dataset.py"), ("weighted choice among live iterators", "blend_dataset.py")],
  [("repetition counter, exhausted flags", "progress", "repeat_dataset.py, blend_dataset.py")], ["yielded samples"])

p("C15", "Saving, merging and restoring a pipeline continues it exactly for every worker",
  "For every pipeline of dataset wrappers (with virtual epochs outermost, as the task encoder builds them), saving the state of a worker after any number of samples, merging the states of all workers of the rank and restoring the merged state into an identical pipeline makes every worker continue with exactly the samples, restore keys and sample indices it would have yielded without interruption. Workers do not influence each other through the merged state, restoring an empty state resets everything to the start, and neither saving nor iterating afterwards changes a state saved or restored earlier.",
  ["configurations", "crash_points", "histories"], "all compositions of wrappers, worker numbers, save points, and repeated save/restore cycles",
  "Tests save and restore at a few points of a few pipelines.",
  ["wrappers/base.py", "wrappers/buffer.py", "wrappers/map_dataset.py", "wrappers/batch_dataset.py", "wrappers/group_batch_dataset.py", "wrappers/limit_dataset.py", "wrappers/repeat_dataset.py", "wrappers/epochize_dataset.py", "rng.py", "flavors/base_dataset.py"],
  [("save_state / merge_states / restore_state of every wrapper", "wrappers/*.py"), ("per worker entry of the merged state", "SampleIndex, WorkerRng")],
  [("merged state lists", "one entry per worker of the rank", "wrappers/*.py")], ["samples, restore keys and sample indices after restore"])

p("C16", "Loader checkpoints resume the stream without loss or repetition",
  "A savable loader whose state is taken after any number of samples and restored into a new loader yields exactly the samples that the original loader would have yielded next, in the same order, for every number of workers, prefetch depth and checkpoint interval. Workers keep taking turns starting with the worker whose turn it was, and the state may be taken before the first sample, right after a restore, again and again, and at an epoch end.",
  ["configurations", "crash_points", "histories"], "all numbers of workers, checkpoint intervals, numbers of stored checkpoints, save positions and chains of restores",
  "Tests save at one or two positions with fixed checkpoint settings.",
  ["savable_loader.py", "worker.py"], [("checkpoint selection and skip count", "savable_loader.py: get checkpoint / skip handling"), ("worker rotation after restore", "savable_loader.py and worker.py: worker_id_offset")],
  [("checkpoints, worker sample counters, next worker id", "which states can be restored", "savable_loader.py")], ["samples of the restored loader"])

p("C17", "Worker identities, seeds and sample indices are unique and stable",
  "Every worker over all ranks has its own global worker id, computed from rank, workers per rank and its id within the rank - also after a restore that rotates worker processes - and ids of all workers are exactly 0 to the number of global workers minus one. Sample and batch indices passed to user code are unique over the workers of a rank and strictly increase. Seeds depend only on the global worker id and the seed offset.",
  ["configurations", "histories"], "all world sizes, ranks, worker numbers, worker processes, restore offsets and index sequences",
  "Tests run one or two workers; offsets beyond two workers are never exercised.",
  ["worker.py", "wrappers/base.py", "savable_loader.py"], [("id arithmetic", "worker.py: rank_worker_id/global_worker_id/worker_seed"), ("index arithmetic", "worker.py: active_worker_sample_index; wrappers/base.py: SampleIndex")],
  [("_sample_index_stack", "indices of the active sample", "worker.py")], ["return values"])

p("C18", "A sample rebuilt from its restore key is the same sample",
  "For every pipeline whose user functions are stateless, rebuilding a yielded sample from its restore key gives a sample with the same content, the same restore key and the same sample index and random seeds in the user functions, in any process for any rank and worker and without disturbing the iteration state.",
  ["configurations", "inputs", "histories"], "all pipelines of wrappers that claim to be restorable, all yielded samples",
  "Tests restore a few samples of a few pipelines.",
  ["wrappers/map_dataset.py", "wrappers/batch_dataset.py", "wrappers/group_batch_dataset.py", "wrappers/packing_dataset.py", "wrappers/blend_dataset.py", "wrappers/concat_dataset.py", "wrappers/iter_map_dataset.py", "flavors/webdataset/sample_loader.py", "flavors/base_dataset.py", "savable_loader.py"],
  [("restore key per wrapper", "set_sample_restore_key / restore_sample of every wrapper")],
  [], ["restore_sample(key) compared to the yielded sample"])

p("C19", "Mixtures apply the product of weights and inner settings override as documented",
  "In nested dataset mixtures each leaf dataset is drawn with the product of the normalised weights along its path, so weights at every level sum to one. Subflavors are merged with outer values taking precedence, the split part given at the outermost place applies only where the inner one has none of its own, and the shuffle-over-epochs factor multiplies through, with -1 (infinite) staying infinite. Every leaf dataset appears exactly once for each place it is listed.",
  ["inputs", "configurations"], "all nesting structures, weights, subflavors and split settings",
  "Tests use a few fixed metadataset files.",
  ["metadataset/metadataset.py", "metadataset/metadataset_v2.py", "metadataset/dataset_loader.py", "metadataset/join_dataset_loader.py", "metadataset/loader_interface.py", "task_encoder/base.py", "task_encoder/loader.py"],
  [("weight normalisation and product", "metadataset*.py: get_datasets; task_encoder/base.py: build_train_datasets")],
  [], ["LoadedDataset weights/repetitions/subflavors"])

p("C20", "Typed configuration loading accepts exactly matching data and converts it right",
  "Loading raw configuration data into a type yields a value that conforms to the type and whose leaves equal the raw data, for all nestings of dataclasses, lists, tuples, dicts, optionals, unions and literals; missing or wrongly typed fields, and in strict mode unknown ones, are rejected with an error rather than dropped or replaced by a default. Converting a dataclass to raw data and loading it again gives an equal object.",
  ["inputs"], "all types built from the supported constructors and all raw data trees",
  "Tests load only well formed files of a few types.",
  ["typed_converter.py", "dataset_config.py"], [("recursive conversion", "typed_converter.py: raw_to_typed, to_json_object")],
  [], ["return value or raised error"])

p("C21", "Paths are joined, normalised and split consistently, local and remote alike",
  "A path object represents its protocol and parts: '.' parts and repeated slashes vanish, and in joined and remote paths '..' removes the previous part, but never the root or the remote name (an error is raised). Joining with a relative path appends, with an absolute path replaces the path; parent, name, suffix and relative_to are consistent with joining, and turning a path into its string and back gives an equal path with the same hash.",
  ["inputs"], "all path strings over the allowed alphabet and all sequences of joins and parents",
  "Tests check a dozen fixed path strings.",
  ["epathlib/epath.py"], [("part resolution", "epath.py: EPath._resolve / __truediv__ / parent / relative_to")],
  [], ["str, parts, ==, hash of EPath objects"])

p("C22", "Preparing a dataset puts every shard in exactly one split part",
  "Preparing a dataset with split ratios assigns every shard (that is not excluded) to exactly one split part - none is lost, none is in two parts -, the sizes of the parts follow the ratios to within rounding, and the recorded sample count of every shard is the number of samples in it. Splitting by patterns assigns exactly the matching shards.",
  ["inputs", "configurations"], "all numbers of shards, all ratio lists summing to at most one, shuffled or not",
  "Tests use one or two ratios and shard counts.",
  ["flavors/webdataset/prepare.py"], [("cumulative ratio boundaries", "prepare.py: WebdatasetPreparator.prepare_dataset")],
  [], ["split.yaml, .info.yaml and tar index written"])

p("C23", "Random functions are reproducible and isolated from outside randomness",
  "A user function marked as stateless with restored seeds sees random numbers that depend only on the worker's seed and the sample index, not on what was drawn before, and calling it leaves the global random generators exactly as they were. A worker's random generator yields, after saving and restoring its state, exactly the numbers it would have yielded, and shuffling returns a permutation.",
  ["histories", "inputs", "configurations"], "all call sequences, generators (torch, numpy, random), plain and generator functions, failing functions, and save points",
  "Tests check one function in one order.",
  ["task_encoder/base.py", "rng.py"], [("seed, run, restore", "task_encoder/base.py: stateless"), ("state capture", "rng.py: WorkerRng, SystemRng")],
  [("global generator states", "must be unchanged around a call", "rng.py")], ["random numbers drawn"])

p("C24", "Tensor batching preserves every element and pads only the remainder",
  "Stacking a batch of tensors with padding yields a tensor of the maximal extent in every dimension that holds every input tensor unchanged at the origin of its slot and the pad value everywhere else; batching by concatenation or list keeps all elements in order. Batching of samples treats every field consistently and keeps keys and restore keys of all samples in order.",
  ["inputs"], "all numbers and shapes of tensors of equal rank, all pad values, all sample types",
  "Tests use one or two shapes.",
  ["task_encoder/base.py"], [("padding and stacking", "task_encoder/base.py: batch_pad_stack, batch_stack, batch_list, generic_batch, generic_concat")],
  [], ["returned tensors"])

p("C25", "Transform pipelines keep coordinates and sizes consistent when composed",
  "Merging a sequence of geometric image transforms into one gives, for every image size, the same output size and the same coordinate mapping as applying the transforms one after another, whatever other transforms stand between them. Geometric parameters (crop offsets, resize targets, flips) lie within the image they are applied to.",
  ["inputs", "configurations"], "all sequences of supported transforms, image sizes and random draws",
  "Tests apply each transform once to one image size.",
  ["transforms/merge.py", "transforms/mappers.py"], [("matrix composition", "merge.py: MergeTransform; mappers.py: apply_transform of each mapper")],
  [], ["composed matrix and output size"])

p("C26", "Joined datasets pair exactly the samples with the same position",
  "Joining datasets yields one joined sample per common position, made of exactly the samples at the same position in every joined dataset, for every distribution over workers; datasets whose shards do not correspond are rejected instead of being paired wrongly. Restore keys identify the parts of a joined sample.",
  ["inputs", "configurations"], "all shard layouts, numbers of joined datasets, worker grids and slice lengths",
  "Tests join two datasets of one layout.",
  ["flavors/webdataset/joined_webdataset.py", "flavors/webdataset/sample_loader.py"], [("grouped shard lists and shape check", "joined_webdataset.py")],
  [], ["joined samples"])

p("C27", "Every sample is cooked, decoded or excluded by the first matching rule only",
  "A crude sample is converted by the first registered cooker whose required subflavors all match (and is reported as an error if none does), samples and shards on the exclusion list are skipped and no others, and a sample which fails decoding or conversion is reported to the error handler and left out without affecting other samples. Field mappings read exactly the configured field of the sample.",
  ["inputs", "fault_sequences", "configurations"], "all cooker lists, subflavor dictionaries, exclusion sets, field maps and failing samples",
  "Tests use two cookers and one exclusion.",
  ["task_encoder/cooking.py", "task_encoder/base.py", "flavors/webdataset/field_access.py", "flavors/webdataset/single_shard_reader.py", "flavors/webdataset/base_webdataset.py", "flavors/webdataset/error_handler.py"],
  [("cooker choice", "cooking.py"), ("exclusion", "single_shard_reader.py / base_webdataset.py"), ("field access", "field_access.py")],
  [], ["cooked samples, skipped samples"])

p("C28", "Loader threads, queues and processes always make progress and end cleanly",
  "Whatever the timing of worker processes, command threads and the consumer, a loader never deadlocks while samples remain, a checkpoint request is always answered and worker processes end when the loader is dropped.",
  ["schedules"], "all interleavings of consumer, worker processes and command threads",
  "Tests run whatever interleaving the machine happens to produce.",
  ["savable_loader.py"], [("command thread and queues", "savable_loader.py")], [], ["progress of the loader"])

p("C29", "Task encoders build the pipeline of every configured step in order",
  "The task encoder builds, for training, the pipeline crude samples, cooking, blending or concatenation, sample encoding, packing or batching or grouped batching, batch encoding, virtual epochs or limits, with shuffle buffers where configured; every configured step is applied to every sample or batch exactly once and in this order, and steps not configured or not overridden are left out. The validation pipeline yields every sample of every dataset exactly once in order. All configured sizes (buffers, batch size, limits, epoch length, shuffle factors) reach the step they are meant for.",
  ["inputs", "configurations"], "all combinations of overridden methods, batch sizes, packing, grouping, shuffle buffer sizes, limits and numbers of workers",
  "Tests build a few task encoders and look at the first samples.",
  ["task_encoder/base.py", "task_encoder/loader.py"], [("pipeline construction", "task_encoder/base.py: build_train_datasets, build_val_datasets, build_batch, build_encode_sample, build_cook_crude_sample")],
  [], ["samples and batches of the built dataset"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
