import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":m,"where":w} for m,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

API=["ce_stt_process / ce_stt_end_of_stream return values", "utt->hyp", "utt->loglikelihood_per_frame"]
p("C01","Final transcript and score do not depend on how the audio was sliced",
 "For the same recognizer, format and audio bytes, the final transcript and the final score after end-of-stream are identical (bit for bit) however the bytes were cut into calls, including cuts inside a sample, cuts of one byte, and one call for everything.",
 ["inputs","histories","configurations"],"every audio byte string, every partition of it into non-empty calls, every model / context / batch-size configuration",
 "Tests feed one file in one fixed slicing (fbank_test uses fixed chunks); no test drives the whole pipeline, and partitions are exponential in the length.",
 ["src/ce_stt.cc","src/pcm_reader.cc","src/fbank.cc","src/am.cc","src/decoder.cc"],
 [("bytes of an incomplete sample are carried over","src/pcm_reader.cc WaveReader::Process"),("samples of an incomplete frame are carried over","src/fbank.cc Fbank::Process"),("frames of an incomplete batch are carried over","src/am.cc AcousticModel::Process")],
 [("WaveReader::buffer_","bytes of a partial sample","src/pcm_reader.h"),("Fbank::Instance::wave_buffer","samples not yet covered","src/fbank.h"),("AcousticModel::Instance::feats_buffer","frames not yet scored","src/am.h")],API)
p("C02","Every process call reports exactly the samples that became complete",
 "Each successful process call returns the number of samples completed by its bytes together with the bytes left over from earlier calls, so after any history of calls the returned counts add up to the total bytes fed divided by the sample size, rounded down. This holds for 8, 16 and 32 bit audio and is unaffected by rejected calls in between.",
 ["inputs","histories"],"every sequence of process calls of any positive sizes, interleaved with rejected calls, for each supported sample width",
 "No test calls the streaming API; unit tests read whole files only.",
 ["src/ce_stt.cc","src/pcm_reader.cc"],[("carry-over buffer of partial samples","src/pcm_reader.cc WaveReader::Process"),("sample count returned","src/ce_stt.cc ce_stt_process")],
 [("WaveReader::buffer_","bytes of a partial sample","src/pcm_reader.h")],["ce_stt_process return value"])
p("C03","Feature extraction is the same streamed as in one shot, and is prompt",
 "Over any history of pushes the feature extractor emits exactly the rows one-shot extraction of the concatenated samples gives, each once, in order, bit for bit. After every push it has emitted every frame fully covered by the samples so far (25 ms window, 10 ms step, no padding) and never a frame that is not covered.",
 ["inputs","histories"],"every sample sequence and every partition into pushes, including empty pushes and several streams interleaved on one extractor",
 "fbank_test has one wav and one chunk size; carry-over errors appear only at particular residues of chunk size against window and step.",
 ["src/fbank.cc","src/fbank.h"],[("append, extract, drop consumed steps","src/fbank.cc Fbank::Process"),("frame count","src/fbank.cc Fbank::CalcNumFrames")],
 [("Fbank::Instance::wave_buffer","samples not consumed","src/fbank.h")],["rows emitted per push"])
p("C04","Acoustic scoring yields exactly one score row per frame, whatever the batch",
 "For any stream of feature frames the acoustic model emits, over the stream and its end, exactly one score row per frame in frame order, and row t is the network applied to frames t-left..t+right with the first and last frame repeated beyond the edges, minus the log prior. The rows do not depend on the configured batch size (up to floating-point rounding), and during the stream a row is delivered as soon as a whole batch with its right context is available.",
 ["inputs","histories","configurations"],"every frame count (including streams shorter than the contexts), contexts, batch size, and interleaving of several streams on one model",
 "nnet_test checks single layers on fixed matrices; there is no test of batching, of edges or of streams shorter than a batch.",
 ["src/am.cc","src/am.h","src/nnet.cc"],[("edge padding and sliding batch","src/am.cc AcousticModel::Process / EndOfStream / ComputeBatch")],
 [("feats_buffer","frames waiting with their context","src/am.h")],["rows returned by Process/EndOfStream"])
p("C05","Partial transcripts are the best path of the audio heard so far",
 "After any process call the visible transcript is the best path (ignoring final weights) over the frames decoded up to the last refresh point, refresh points being every 20th decoded frame; before the first refresh it is empty. It is a function of the bytes received so far only, never of how they were sliced, and a decoded frame is one for which a full batch with right context was available.",
 ["inputs","histories","configurations"],"every audio prefix and slicing, every model and batch/context configuration",
 "No test looks at partial results.",
 ["src/ce_stt.cc","src/decoder.cc","src/am.cc"],[("refresh every 20 frames","src/ce_stt.cc ce_stt_process"),("best token without final weights before end of stream","src/decoder.cc Decoder::BestPath")],None,["utt->hyp after each ce_stt_process"])
p("C06","The final transcript is the minimum-cost path of the decoding graph",
 "When no hypothesis on the best path ever falls outside the search beam, the transcript after end-of-stream is the word sequence of a minimum-cost accepting path through the decoding graph for the audio: graph costs, scaled acoustic costs, the language-model difference costs when a large language model is configured, and final costs. If no accepting path survives, the transcript is empty.",
 ["inputs","histories","configurations"],"every decoding graph (with epsilon arcs and epsilon output labels), language-model pair, acoustic model and audio, under any slicing",
 "There is no decoder test at all; optimality is a statement over all paths.",
 ["src/decoder.cc","src/fst.cc","src/ce_stt.cc","src/symbol_table.cc"],[("token passing","src/decoder.cc ProcessEmitting / ProcessNonemitting / InsertTok"),("best token and back-trace","src/decoder.cc BestPath")],
 [("toks_","live hypotheses","src/decoder.h"),("olabels_pool_","word histories","src/decoder.h")],["utt->hyp after ce_stt_end_of_stream"])
p("C07","The reported score is the cost of the reported path per decoded frame",
 "Whenever the visible non-empty transcript was refreshed, the score next to it is the total cost of that path divided by the number of frames decoded at that moment. Before end-of-stream final costs are not part of it; after end-of-stream each final cost (graph and language model) is part of it exactly once.",
 ["inputs","histories","configurations"],"every model, audio and slicing; at every refresh and at the end",
 "No test reads the score; an accounting slip leaves the transcript unchanged.",
 ["src/decoder.cc","src/ce_stt.cc"],[("path cost","src/decoder.cc BestPath"),("per-frame score","src/ce_stt.cc StoreHypText")],None,["utt->loglikelihood_per_frame"])
p("C08","Background collection of word histories never changes a live history",
 "Reclaiming unreachable word-history nodes never frees, alters or reuses a node that a live hypothesis still reaches, at whatever frames collection runs and however many times; and every node that is no longer reachable when a collection runs is reclaimed by it and becomes reusable. A transcript therefore never loses, repeats or swaps already recognised words because of collection.",
 ["histories","inputs"],"every sequence of allocations, links, root changes, explicit frees and collections over pools of any block size; every utterance long enough to collect",
 "pool_test runs one collection on one hand-made list; the failures need two or more collections with reuse in between.",
 ["src/pool.h","src/decoder.cc","src/decoder.h"],[("mark and sweep","src/pool.h GCPool::GC"),("unlink on collection","src/decoder.cc OLabel::OnCollect"),("collection every 20 frames","src/decoder.cc Decoder::Process")],
 [("free_","reusable nodes","src/pool.h"),("state_","mark state of a node","src/pool.h")],["chains read back from the roots","utt->hyp of long utterances"])
p("C09","An utterance's working memory does not grow with the length of the audio",
 "Once an utterance is under way, the memory it holds is bounded by the size of the search space and of the transcript and does not keep growing with the amount of audio already processed.",
 ["histories","inputs"],"every audio length and slicing with the number of recognised words bounded",
 "Tests run a few hundred frames at most and never measure memory.",
 ["src/decoder.cc","src/pool.h","src/fbank.cc","src/am.cc","src/pcm_reader.cc"],[("tokens are returned to the pool","src/decoder.cc ProcessEmitting / InsertTok"),("history collection","src/pool.h GCPool::GC"),("consumed samples, frames and bytes are dropped","src/fbank.cc, src/am.cc, src/pcm_reader.cc")],
 [("toks_pool_","tokens of the beam","src/decoder.h")],["heap held between process calls (allocator seam)"])
p("C10","Utterances running concurrently on one recognizer are isolated",
 "When several threads each drive their own utterances on a shared recognizer, under every interleaving each utterance returns the same sample counts, partial and final transcripts and scores as when it runs alone, and nothing crashes or blocks.",
 ["schedules","inputs","configurations"],"every interleaving, at the granularity of basic blocks, of calls from any number of threads on distinct utterances sharing a recognizer (with or without a large language model)",
 "No test starts a thread; shared mutable state corrupts only under particular interleavings.",
 ["src/ce_stt.cc","src/am.cc","src/fbank.cc","src/nnet.cc","src/decoder.cc","src/fst.cc","src/srfft.cc","src/matrix.cc"],[("recognizer is read-only after loading; all mutable state is per utterance","src/ce_stt.cc ce_utt_internal_t"),("const methods with per-stream instances","src/fbank.h, src/am.h"),("per-utterance language-model cache","src/decoder.cc CachedFst")],None,API+["scheduler: deadlock and progress"],
 "none in /repo: pre-emption points come from compiler instrumentation (-fsanitize-coverage)")
p("C11","Utterance results do not depend on what the process did before",
 "The result of an utterance depends only on the model files, the format and its audio: not on earlier, abandoned, failed or still-open utterances on the same or other recognizers, on recognizers having been created or destroyed before, on the order of creation, or on the contents of recycled memory.",
 ["histories","inputs","configurations"],"every history of recognizer and utterance creations, calls, failures and destructions in one process; every content of uninitialised memory",
 "Tests run one object once in a fresh process.",
 ["src/ce_stt.cc","src/am.cc","src/fbank.cc","src/decoder.cc","src/fst.cc","src/symbol_table.cc","src/configuration.cc"],[("all per-stream state is created fresh","src/ce_stt.cc ce_utt_init"),("fixed seed for beam sampling","src/decoder.cc GetCutoff")],None,API)
p("C12","Quantised matrix multiplication is independent of worker threads and timing",
 "The 8-bit integer matrix product is bit-identical for every configured number of worker threads, under every scheduling of those workers and for several callers at once, and every call returns, also when worker threads cannot be created. Changing the thread count or releasing the resources between calls never changes a later result.",
 ["schedules","inputs","histories"],"every matrix shape, thread limit, call history, and every interleaving of callers and workers (with stalled workers, spurious wake-ups and late starts)",
 "gemm_test runs single-threaded by default on one schedule chosen by the OS.",
 ["src/gemmlowp/eight_bit_int_gemm/eight_bit_int_gemm.cc","src/gemmlowp/internal/multi_thread_gemm.h","src/gemmlowp/internal/single_thread_gemm.h","src/gemmlowp/internal/block_params.h"],[("worker hand-over by state, mutex and condition","src/gemmlowp/internal/multi_thread_gemm.h Worker / BlockingCounter / WorkersPool"),("one global context behind a lock","src/gemmlowp/eight_bit_int_gemm/eight_bit_int_gemm.cc")],
 [("Worker::state_","hand-over state","multi_thread_gemm.h")],["result matrices","scheduler: deadlock and progress"],"none in /repo: pthread calls are wrapped at link time")
p("C13","Loading under I/O faults fails cleanly or yields the intact recognizer",
 "If while loading a model any file cannot be opened, any read fails, a binary model file is cut short, or its signature or section size is damaged, initialisation returns NULL with a non-empty error message, never crashes, hangs or throws. It may return a recognizer only if that recognizer gives the same transcripts as the undamaged model, and a failed attempt never affects a later attempt with intact files.",
 ["fault_sequences","crash_points","configurations"],"every fault kind (missing file, open failure, read error at any byte, interrupted read, truncation at any byte, damaged identification bytes or sizes) on every file of every model, followed by retries",
 "Tests load intact files; the failing read can be any of hundreds.",
 ["src/ce_stt.cc","src/util.cc","src/am.cc","src/nnet.cc","src/matrix.cc","src/vector.cc","src/fst.cc","src/symbol_table.cc","src/configuration.cc","src/openfst/include/fst/const-fst.h","src/openfst/lib/fst.cc"],[("every read is checked and the status propagated","src/util.h PK_CHECK_STATUS, ReadableFile::Read"),("section names and sizes are verified","Vector/Matrix/Nnet/Fst::Read"),("cleanup on failure","src/ce_stt.cc ce_stt_init")],None,["ce_stt_init result","ce_stt_last_error","later transcripts"])
p("C14","How the operating system splits reads never changes what is loaded",
 "Model files, word lists, configurations and audio headers load to the same recognizer and format whether the operating system returns reads whole, in arbitrarily short pieces or with interruptions that the I/O layer retries.",
 ["fault_sequences","inputs"],"every sequence of short-read lengths (down to one byte) on every file",
 "On a local disk every read returns whole.",
 ["src/util.cc","src/pcm_reader.cc","src/openfst/include/fst/const-fst.h","src/openfst/lib/mapped-file.cc"],[("full-record reads","src/util.cc ReadableFile::Read"),("line reads","src/util.cc ReadableFile::ReadLine")],None,["ce_stt_init result and transcripts","ce_read_pcm_header"])
p("C15","Destroying recognizers and utterances returns everything they acquired",
 "After an utterance or a recognizer is destroyed, or an initialisation has failed at any point, all memory and file handles acquired for it are released, so repeating any history of loading, decoding, failing and destroying does not grow the process. Destroying needs no memory: it succeeds while every allocation fails.",
 ["histories","fault_sequences"],"every history of successful and failed initialisations, utterances destroyed at any stage, and I/O faults at any read",
 "No test checks for leaks, and the failing paths are never run.",
 ["src/ce_stt.cc","src/util.cc","src/pool.h","src/vector.cc","src/matrix.cc","src/decoder.cc"],[("owners free what they hold","src/ce_stt.cc ce_stt_destroy / ce_utt_destroy"),("files close with their owner","src/util.cc ReadableFile::~ReadableFile")],None,["allocator seam: live blocks","file seam: open handles"])
p("C16","Audio header reading is exact: right format and position, or an error",
 "Reading an audio header succeeds only if all of the header was read and is a well-formed mono PCM header, and then reports the stored format and leaves the stream at the first audio byte, never closing it. On any read error, truncation or mismatch it returns NULL with a non-empty message and does not crash.",
 ["fault_sequences","inputs"],"every truncation point and read-error point of the header, every damaged identification field, every short-read pattern, and several streams in turn",
 "Tests read intact files only.",
 ["src/pcm_reader.cc","src/ce_stt.cc","src/util.cc"],[("field-by-field verification","src/pcm_reader.cc ReadPcmHeader"),("borrowed stream","src/util.cc ReadableFile(FILE*)")],None,["ce_read_pcm_header result, format, stream position"])
p("C17","Rejected calls report an error and leave the stream untouched",
 "Calls with a NULL utterance, NULL or empty data, or an unsupported audio format report failure (where the call can) with a non-empty message and never crash, and a rejected call changes nothing: counts, partial and final transcripts and scores are those of the same history without it. Ending an already ended stream again changes nothing.",
 ["histories","inputs"],"every placement and repetition of rejected calls and of repeated end-of-stream in any utterance history, including search dead-ends and audio shorter than one frame",
 "No test makes a wrong call.",
 ["src/ce_stt.cc","src/pcm_reader.cc","src/am.cc","src/decoder.cc"],[("parameter checks","src/ce_stt.cc CheckParamUtt"),("checks before state changes","src/pcm_reader.cc WaveReader::Process / SetFormat")],None,API+["ce_stt_last_error"])
p("C18","An allocation failure in one utterance harms nothing else",
 "If memory allocation fails at any point while an utterance is created, fed or ended, the failure surfaces as the allocation exception or an error; the failed utterance can still be destroyed safely, even while memory is still short, and the recognizer and all other utterances, before and after, give unchanged results.",
 ["fault_sequences","histories"],"every allocation made inside any utterance call failing (once or repeatedly), in any history with other utterances",
 "Allocation never fails in tests.",
 ["src/ce_stt.cc","src/decoder.cc","src/pool.h","src/hashtable.h","src/vector.cc","src/matrix.cc","src/fbank.cc","src/am.cc"],[("shared objects are never modified by utterances","src/ce_stt.cc"),("owning objects stay destructible","src/pool.h, src/hashtable.h, src/vector.cc")],None,["API results of the other utterances","destruction of the failed one"])
p("C19","Batch decoding reports every listed file in order or fails visibly",
 "For a list of audio files the command-line program prints one line per entry, in order, holding the entry's name and exactly the transcript that decoding that file alone gives. If any file cannot be opened, is malformed or fails while being read, the program exits with a non-zero status and prints no transcript for that entry; all earlier lines are intact. The exit status is also non-zero if the output could not be written in full.",
 ["fault_sequences","inputs","histories"],"every list (any length, with or without a final newline), every mixture of files, and every open or read fault at any position",
 "The program has no test; read errors do not happen in tests.",
 ["src/main.cc","src/util.cc","src/ce_stt.cc"],[("loop over the list","src/main.cc process_scp"),("per-file decode","src/main.cc ProcessAudio")],None,["standard output and exit status"])
p("C20","Text model files mean the same whatever their line layout and read pattern",
 "Configurations, word lists and file lists are read line by line with the same result for LF or CRLF line ends, with or without a newline after the last line, and however the reads are split. Every line is seen exactly once and in full, and a malformed line or a read error is reported as an error rather than as a shorter file; so is a block of zero bytes, as a crash leaves it, in place of text.",
 ["inputs","fault_sequences"],"every file content of any number of lines up to the supported line length, each line ending style, every short-read pattern and read-error point",
 "configuration_test reads two small well-formed files.",
 ["src/util.cc","src/configuration.cc","src/symbol_table.cc"],[("line reader","src/util.cc ReadableFile::ReadLine"),("line parsing","src/configuration.cc, src/symbol_table.cc")],None,["values looked up after reading"])
p("C21","Language-model caching never changes a lookup result",
 "Looking up a word in a language-model state through the cache gives the same answer, next state and weight as the uncached model for every history of earlier lookups, whatever collisions occurred, and the uncached model itself gives the sum of back-off costs to the first state that has the word, minus the small model's cost.",
 ["histories","configurations"],"every sequence of (state, word) lookups, cache sizes down to one entry, back-off models of any depth",
 "fst_test makes a handful of lookups in an order that never collides in the one-million-entry cache.",
 ["src/fst.cc","src/fst.h"],[("direct-mapped cache","src/fst.cc CachedFst::GetArc"),("back-off and first-state index","src/fst.cc LmFst::GetArc / InitBucket0")],
 [("buckets_","cached arcs","src/fst.h")],["GetArc / Final results"])
p("C22","The search's state table behaves as a map through growth and failures",
 "For any history of insertions, updates, lookups and clears, across any number of growths and hash collisions, every key maps to its latest value and absent keys are reported absent; an allocation failure while growing leaves the table with its previous contents.",
 ["histories","fault_sequences"],"every operation sequence over any keys, initial sizes, and allocation failures at any growth",
 "hashtable_test inserts one sequential key range.",
 ["src/hashtable.h","src/hashtable.cc"],[("open addressing, growth by re-insertion","src/hashtable.h Insert / Lookup / ExtendBuckets")],
 [("buckets_, empty_","slots","src/hashtable.h")],["Find results"])
p("C23","The work per second of audio does not grow with the length of the utterance",
 "Decoding a given stretch of audio late in an utterance takes the same amount of work as early in it, up to what is linear in the number of words recognised so far, and ending the stream takes no more work than the audio still held in an incomplete batch plus a walk over the words: no call ever goes again through audio that was already decoded.",
 ["histories","inputs"],"every audio length, slicing, model and batch configuration, for audio that repeats",
 "Tests run a few hundred frames at most and measure no work; wall-clock time would be too noisy to judge.",
 ["src/ce_stt.cc","src/decoder.cc","src/pool.h","src/fbank.cc","src/am.cc","src/pcm_reader.cc","src/hashtable.h"],[("consumed bytes, samples and frames are dropped","src/pcm_reader.cc, src/fbank.cc, src/am.cc"),("collection keeps the histories small","src/decoder.cc Decoder::Process"),("the search is pruned to the beam","src/decoder.cc GetCutoff")],
 [("feats_buffer, wave_buffer, buffer_","what is held between calls","src/am.h, src/fbank.h, src/pcm_reader.h")],["executed basic blocks and bytes copied per stretch of audio (scheduler and allocator seams)"])
p("C24","A model conversion that succeeds is exact, one that fails is never a model",
 "A converter of tool/ (convert_am.py, convert_trans.py, convert_fstfmt.py, convert_unigram.py, convert_cmvn_stats.py, prune_lm.py) succeeds (exit status 0) on every intact input when nothing fails, and whenever it succeeds each file it wrote loads in the recogniser with exactly the values of the input, up to rounding to 32-bit floats. An input that ends before the end marker or the count it announces is refused with a non-zero exit status. After any failure (of an open, read, write or close) or a crash at any point, each target file is absent, unchanged, refused by its reader, or holds exactly the converted values: never a different model.",
 ["inputs","fault_sequences","crash_points"],"every network, transition map, graph, back-off model and statistics in the converters' input formats, every failing or short call, crash after any byte written, early end of the input, and sequences of attempts on one target",
 "No test runs a converter.",
 ["tool/convert_am.py","tool/convert_trans.py","tool/convert_fstfmt.py","tool/convert_unigram.py","tool/convert_cmvn_stats.py","tool/prune_lm.py","src/vector.cc","src/nnet.cc","src/fst.cc"],
 [("network text to layers","tool/convert_am.py read_nnet / AM.write"),("sections sized before they are written","tool/*.py write_vec / Fst::Read / Vector::Read"),("end marker of a language model","tool/convert_unigram.py read_unigram")],
 None,["exit status","files left behind, through the loaders"])
p("N01","The FFT and mel filter bank compute the mathematically defined spectrum",
 "The power spectrum and mel energies of a window equal their mathematical definition up to rounding.",
 ["inputs"],"every window","srfft_test compares a few vectors.",
 ["src/srfft.cc","src/fbank.cc"],[("split-radix FFT","src/srfft.cc SRFFT::Compute")])
p("N02","Each network layer computes its defining formula",
 "Every layer type maps an input matrix to its defining formula (affine, ReLU, normalise, splice, softmax, log-softmax, batch-norm, narrow) up to rounding.",
 ["inputs"],"every input matrix and parameters","nnet_test has one fixed example per layer.",
 ["src/nnet.cc","src/matrix.cc","src/vector.cc"],[("Propagate","src/nnet.cc")])
p("N03","The 8-bit product approximates the real product within its quantisation step",
 "The quantised matrix product differs from the exact real product by at most what the quantisation of the operands allows.",
 ["inputs"],"every pair of matrices","gemm_test samples random matrices.",
 ["src/matrix.cc","src/gemmlowp/public/gemmlowp.h"],[("quantise, multiply, dequantise","src/matrix.cc")])
p("N04","Cepstral mean normalisation matches its sliding-window definition",
 "Online mean normalisation of a frame equals the defined smoothing of global, speaker and window statistics.",
 ["inputs"],"every feature sequence","cmvn_test is not in the test list.",
 ["src/cmvn.cc"],[("CMVN::GetFrame","src/cmvn.cc")])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
