prop("B01", "A buffer's views all address the same samples, in the documented order",
 "For any channel count and number of frames, sample s of channel c of a buffer lives at interleaved position c + channels*s, and every way of reaching it (by channel and sample, by index, through interleaved, sequential, constant or reverse iterators and their arithmetic) reads and writes exactly that sample. A traversal in either order visits every sample exactly once, and building, copying, moving, growing or reserving a buffer keeps shape, sample rate and content, copies being independent.",
 ["inputs"], "all contents, 1-4 channels, up to 6 frames, every position and every iterator step within the buffer; copies into, and reshapes of, buffers of 1-3 channels and 0-3 frames",
 "tests use one 4-channel or stereo layout with fixed numbers; they cannot cover every shape, position and step",
 [H+"dsp/buffer.hpp", H+"audio_buffer.hpp", "src/audio_buffer.cpp"],
 [("index arithmetic of the buffer and its two iterator families", H+"dsp/buffer.hpp"), ("buffer construction", "src/audio_buffer.cpp")], observe=["at()", "iterator dereference", "size()/channels()/channel_capacity()"])
prop("B02", "A ring buffer repeats its content for every position, positive or negative",
 "Position k of a ring buffer of any size is its element k modulo the size, for every k including negative ones, by index or through an iterator after any walk in both directions; a write through one position is seen at every equivalent position and nowhere else. Only changing the size moves the wrap point, and one pass from begin to end is exactly one lap.",
 ["inputs", "histories"], "sizes up to 7, positions from -3 to +4 laps, every walk of 4 moves",
 "tests read a handful of positions of one buffer",
 [H+"dsp/buffer.hpp"], [("wrap-around of index and iterator", H+"dsp/buffer.hpp RingBuffer")], observe=["operator[]", "iterators"])
prop("C01", "Sample format conversion is lossless, monotone and in range",
 "Every stored 8-bit or 16-bit sample, signed or unsigned, decodes to a value in [-1, 1] and encodes back to the same stored value. Every sample in [-1, 1] encodes to its scaled value off by less than one step, without wrapping around, and both directions keep the order of samples and the ends of the scale; float samples pass unchanged.",
 ["inputs"], "all values of the stored formats; all doubles in [-1, 1]",
 "tests check a few values per format; lossless round trips over 65536 values and IEEE rounding over all doubles need the full range",
 [H+"audio_buffer.hpp", "src/audio_buffer.cpp"], [("conversion functions between samples and stored formats", H+"audio_buffer.hpp and src/audio_buffer.cpp")], observe=["converted values"])
prop("C02", "Byte codecs are little-endian and lossless; whole-buffer conversion keeps order",
 "Every 16-bit and 32-bit integer is written as its little-endian bytes, exactly two or four of them, and read back as the same value, for signed and unsigned integers and characters and through pointers or iterators. Converting a whole buffer visits every sample exactly once in interleaved or sequential order, writes exactly that many values and leaves the buffer unchanged.",
 ["inputs"], "all 16-bit and 32-bit values and byte pairs; buffers of 1-3 channels, up to 4 frames, all contents",
 "tests check single values", [H+"audio_buffer.hpp", "src/audio_buffer.cpp"], [("byte packing and unpacking", "src/audio_buffer.cpp / "+H+"audio_buffer.hpp"), ("buffer conversion loops", H+"audio_buffer.hpp")], observe=["bytes produced", "values read back"])
prop("M01", "Memory streams behave like a byte array with a position, whatever the history",
 "After any sequence of writes and seeks within its content, an output stream holds exactly the bytes of the history, overwriting where the position is inside and growing where it is not; an input stream returns the bytes at its position in order, never more than exist, and asking for more stops it. A stream is good exactly while it is new or started, never after a stop or an error.",
 ["histories", "inputs"], "histories of 3 writes/reads/seeks with up to 4-7 bytes each, any bytes; pairs of writes of up to 1000 bytes at any overlap; 70000 bytes; 4 state changes",
 "tests follow one fixed history; overwrite-and-grow and past-the-end cases depend on the combination of position, length and size",
 [H+"io/mstream.hpp", "src/io/mstream.cpp"], [("reading and writing at the position", "src/io/mstream.cpp"), ("stream state", H+"io/mstream.hpp")], state=[("position", "where the next read or write goes", H+"io/mstream.hpp")], observe=["content of the byte array", "bytes read", "good()/bad()"])
prop("W01", "RIFF headers and chunks encode every field at its place and decode to the same",
 "Chunk headers, the file header, the format chunk and unknown chunks put every field, for every value, little-endian at its place in the RIFF/WAVE layout, with the payload length as the size of an unknown chunk, and decoding the bytes gives the same fields back. Whatever the order in which channels, rate and sample size of a wave are configured, byte rate and block alignment follow from them.",
 ["inputs", "histories"], "all field values; payloads up to 6 bytes; every sequence of 4 configuration calls",
 "tests encode one fixed header; a swapped or truncated field shows only for values whose bytes differ",
 [H+"io/wav.hpp", "src/io/wav.cpp"], [("chunk encoders and decoders", "src/io/wav.cpp")], observe=["encoded bytes", "decoded fields"])
prop("W02", "The wave writer produces a canonical file for any configuration and history",
 "For any channel count, sample rate, 8- or 16-bit sample size (set in any order) and any sequence of written buffers, the finished file is the 44-byte RIFF/WAVE/fmt/data header followed by exactly the encoded samples in interleaved order. Every length, rate, byte-rate and alignment field in it describes that data, starting the writer starts its stream and stopping it stops the stream.",
 ["inputs", "histories"], "1-3 channels, all rates, up to 2 buffers of up to 2 frames with any sample values, plus lengths beyond 8 and 16 bits; two writers in turns",
 "tests write one fixed configuration; header fields that depend on several settings and on the history go wrong only in combination",
 [H+"io/wav.hpp", "src/io/wav.cpp"], [("header fields patched at the end", "src/io/wav.cpp WaveWriter")], state=[("bytes written", "drives the length fields", H+"io/wav.hpp")], observe=["content of the output stream"])
prop("W03", "The wave reader returns exactly the samples of a file with any chunk layout",
 "For any well-formed 8- or 16-bit file - extended format chunks, unknown chunks of any size before, between and after, audio split over several data chunks - the reader reports the file's format and returns every sample in order. This holds for every sequence of read sizes; each buffer has the requested size and the file's channels and rate, silence follows the last sample, the reader is done exactly then, and it works the same as the source of a chain.",
 ["inputs", "histories"], "1-3 channels, all rates, up to 6 frames of any bytes, up to 3 data chunks, format chunks up to 42 bytes, unknown chunks up to 5 bytes and some beyond 500, read sizes 1-6, 4 changing reads; two readers in turns or one after the other on a rewound stream; a file of 70,000 bytes with one symbolic",
 "tests read one small canonical file; chunk layouts crossing read boundaries are combinations they do not contain",
 [H+"io/wav.hpp", "src/io/wav.cpp"], [("chunk scan and block refill", "src/io/wav.cpp WaveReader"), ("source module", "src/io/wav.cpp WaveSource")], state=[("bytes left in the data chunk", "decides where the next sample comes from", H+"io/wav.hpp")], observe=["get_data()", "done()", "format getters"])
prop("W04", "What the wave writer writes, the wave reader reads back",
 "Any configuration and any sequence of buffers written to a file come back from the reader: the same channels, rate, sample size and derived rates, and every sample as its stored-format value, in order, for any split of the writes and of the reads.",
 ["inputs", "histories"], "1-3 channels, 8/16 bit, all rates, 1-2 blocks of 1-3 frames, read sizes 1-3, any sample values",
 "no test connects writer and reader", [H+"io/wav.hpp", "src/io/wav.cpp", "src/audio_buffer.cpp"], [("writer and reader agree on layout and encoding", "src/io/wav.cpp")], observe=["get_data()", "format getters"])
prop("W05", "No file content makes the wave reader read outside its memory or hang",
 "For truncated files, wrong ids, any size fields, any unknown chunk and any format fields, starting the reader and reading from it terminates, touches no memory outside its buffers and yields buffers of the requested shape.",
 ["inputs", "fault_sequences"], "files of up to about 60 bytes with the id, size, format or payload bytes arbitrary (one group at a time), every truncation of the header; up to 8 channels; chunks that claim up to 2^32-1 bytes",
 "hostile length fields need specific 32-bit values", [H+"io/wav.hpp", "src/io/wav.cpp", "src/io/mstream.cpp"], [("length fields drive reads and skips", "src/io/wav.cpp WaveReader")], observe=["termination", "memory safety", "buffer shape"])
prop("K01", "Every convolution entry point computes the full linear convolution",
 "For any signal and kernel the input-side and output-side algorithms, over pointers, iterators, one channel of an interleaved buffer or whole buffers, produce exactly the length n+k-1 linear convolution of the two. They write nothing else and leave their inputs unchanged.",
 ["inputs"], "lengths up to 5 and 4 (7 and 6 thorough) with any values, 17x11 for impulses anywhere, 70000 samples; two convolutions in a row",
 "tests use one signal and kernel; index errors at the edges depend on the ratio of the lengths",
 [H+"dsp/conv.hpp", "src/dsp/conv.cpp"], [("convolution loops", H+"dsp/conv.hpp")], observe=["output samples"])
prop("F01", "Every Fourier transform equals its defining sum, and the inverses invert it",
 "For any input the direct and radix-2 transforms, real and complex, out of place and in place (bit-reversed), equal the DFT sum at every component, and every inverse recovers the signal. Nothing outside the output is written and out-of-place transforms leave the input alone.",
 ["inputs"], "direct transforms up to 10 points (the real one to 14), radix-2 up to 16 (32 thorough), inputs any reals in [-1, 1]; two transforms in a row up to 8; 256 points with one symbolic component; result within 1e-9 in exact arithmetic with a rounding bound",
 "tests compare one signal per routine", [H+"dsp/ft.hpp", "src/dsp/ft.cpp", H+"dsp/util.hpp"], [("butterflies and twiddle factors", H+"dsp/ft.hpp")], observe=["transform output"])
prop("F02", "Bit reversal, packing and pointwise products move every value to its place",
 "Bit reversal is the permutation of that name and its own inverse for every power of two; pointwise products, real-to-complex and even/odd packing produce exactly their documented values and touch nothing else; sinc is sin(x)/x with value one at zero.",
 ["inputs"], "sizes to 64 for the permutation, 4-7 for the others, any values; 81 points for sinc", "tests use one size",
 [H+"dsp/util.hpp", "src/dsp/util.cpp"], [("index permutation", H+"dsp/util.hpp"), ("sinc", "src/dsp/util.cpp")], observe=["output values"])
prop("N01", "Windows and filter kernels equal their defining formulas at every index",
 "Every window equals its formula for each size and index and is symmetric and within 0..1; the sinc kernel is the windowed sinc normalised to unit gain for every frequency, size and window; spectral inversion and reversal are the documented transformations.",
 ["inputs"], "window sizes 2-24, every index, generalised parameter any real in [0, 1]; sinc kernels of odd size to 17 at 9 frequencies; spectral transforms up to size 8 on any values",
 "tests compare one size of each", [H+"dsp/window.hpp", H+"dsp/kernel.hpp", "src/dsp/window.cpp", "src/dsp/kernel.cpp"], [("window formulas", "src/dsp/window.cpp"), ("sinc kernel and spectral transformations", H+"dsp/kernel.hpp")], observe=["values"])
prop("I01", "Recursive filters follow their difference equation however the signal is split",
 "For any coefficients and input, the IIR filter's output follows y[n] = sum a_i x[n-i] + sum b_i y[n-1-i] with zero history at the beginning, in place or out of place, for every split into blocks and for long runs. Single-pole filters use the documented coefficients for any cutoff, and the frequency response is the ratio of its coefficient polynomials.",
 ["inputs", "histories"], "0-4 coefficients each, 5 (7) samples and every split with any small integers, 24 samples with any reals; two filters in turns; retuned single poles; 66,000 samples with one symbolic value; 9 cutoffs x 6 rates; 9 response angles",
 "tests use one filter and one block", [H+"dsp/iir.hpp", "src/dsp/iir.cpp"], [("histories and coefficient indexing", H+"dsp/iir.hpp")], state=[("previous inputs and outputs", "the recursion's memory", H+"dsp/iir.hpp")], observe=["filter output"])
prop("S01", "Streaming convolution filters give the same output however the signal is cut",
 "A convolution filter module's output, per channel, is the convolution of the whole signal so far with its kernel, for any sequence of block lengths, and every block keeps its size, channels and sample rate. A restart forgets the past, takes new settings and returns the kernel unchanged; the sinc filter uses the windowed-sinc kernel of the chosen type and cutoffs.",
 ["histories", "inputs"], "1-2 channels, kernels to 4, up to 3 blocks of 1-3 frames, any values; sinc filters of odd size 3-11, 4 types, 27 cutoff/rate combinations; restarts with other settings, on up to 3 channels, and two filters in turns; kernels of 130 taps and 7 channels with one symbolic value",
 "tests feed one block; carry-over between blocks needs several blocks of several lengths", [H+"filter_module.hpp"], [("overlap carried between blocks", H+"filter_module.hpp BaseConvFilter"), ("kernel construction", H+"filter_module.hpp SincFilter")], state=[("overlap", "tail of the earlier blocks", H+"filter_module.hpp")], observe=["output buffer"])
prop("A01", "A module chain runs every module once, in order, with consistent information",
 "For any chain, processing runs the source first and each module exactly once per block, and the output is the modules' functions composed in chain order. An info sync gives every module the sink's settings, or those of a module in front that changes them, however often it is repeated. Start, stop and finish reach every module once, the source first, and set its state; finished modules are counted. Statically typed chains do the same, and a period sink handles its number of blocks.",
 ["inputs", "programs", "histories"], "chains of 2-5 modules of 3 kinds, blocks of 0-2 frames and 1-2 channels with any values, any settings, up to 4 operations; 70,000 samples on 1-7 channels with one symbolic value",
 "order, composition and synchronisation must hold for every composition of modules; tests fix one", [H+"audio_module.hpp", H+"base_module.hpp", H+"source_module.hpp", H+"sink_module.hpp", "src/base_module.cpp", H+"amp_module.hpp"], [("recursive meta operations", H+"audio_module.hpp"), ("period loop", "src/sink_module.cpp")], state=[("module info and chain info", "what modules size their blocks by", H+"base_module.hpp"), ("module state", "set by start, stop, finish, done", H+"base_module.hpp")], observe=["order of calls", "output block", "get_info()", "get_state()", "module_num and module_finish"])
prop("X01", "Mixers add all inputs and give every consumer the whole block",
 "A down mixer's output has the chain's shape and is, sample by sample, the sum of all inputs, shorter inputs counting as silence and longer ones cut, with nothing left from earlier blocks. An up mixer gives every consumer the same whole block. Start, stop, finish and info sync reach every input exactly once; states and counts are right.",
 ["inputs", "histories", "programs"], "0-3 inputs of 0-3 frames, 1-3 channels, inputs with other channel counts, 1-3 consumers, 2 blocks, any values; 7 channels with one symbolic value; up to 3 operations; the three mixer classes",
 "tests mix two equal mono constants", [H+"module_mixer.hpp", "src/module_mixer.cpp"], [("summing and fan-out", "src/module_mixer.cpp")], state=[("input buffers", "collected per block", H+"module_mixer.hpp")], observe=["output blocks", "calls at the inputs", "get_info()", "module counts"])
prop("G01", "A whole chain renders the composition of its modules for any block size",
 "A chain that mixes oscillators and sources through gains and offsets, convolves them with a filter and re-cuts them with a uniform buffer plays, frame by frame and on every channel, the composition of what its modules do. The sound does not depend on the block size, nor on changing it between blocks. Audio rendered through a chain into a wave file and played back through another chain from that file is the audio that was rendered.",
 ["inputs", "histories", "programs"], "square and sawtooth sources plus an arbitrary signal of 6 samples, gains and offsets of any integer in -4..4, a 3 tap kernel, 1-3 channels, 3 blocks of 1-4 frames changing size in between, producers working in 1-3 frames behind a uniform buffer; files of 8 or 16 bits, 1-2 channels, any two sample values, read in blocks of 1-4",
 "tests run modules alone; a defect that only shows where blocks, channels and histories of several modules meet needs every combination of cuts", [H+"audio_module.hpp", H+"amp_module.hpp", "src/module_mixer.cpp", "src/fund_oscillator.cpp", H+"filter_module.hpp", "src/meta_audio.cpp", "src/io/wav.cpp"], [("processing a chain", H+"audio_module.hpp"), ("wave source and writer", "src/io/wav.cpp")], state=[("oscillator phase", "carries over blocks", H+"base_oscillator.hpp"), ("filter tail and re-cutting position", "carry over blocks", H+"filter_module.hpp")], observe=["the sink's blocks", "states of the sources"])
prop("U01", "Block-shaping modules deliver exactly their signal in the chain's shape",
 "A uniform buffer re-cuts incoming blocks of any sizes into blocks of the chain's size, keeping every sample of every channel in order, and takes no block before it needs one. A buffer module repeats its stored block unchanged whatever the chain's settings. A constant module fills every block with its current value in the chain's shape.",
 ["inputs", "histories"], "output size 1-4 frames, incoming blocks 0-4 (6) frames in every sequence, 1-2 (3) channels, 2 output blocks, any values; incoming blocks of other channel counts, a chain size that changes, 70,000 samples on up to 7 channels with one symbolic value",
 "tests use mono and one ratio of sizes; leftovers between blocks depend on the whole sequence of sizes", [H+"meta_audio.hpp", "src/meta_audio.cpp"], [("re-cutting loop", "src/meta_audio.cpp UniformBuffer"), ("repeat", "src/meta_audio.cpp BufferModule")], state=[("read position in the incoming block", "decides what comes next", H+"meta_audio.hpp")], observe=["output blocks", "number of blocks taken"])
prop("T01", "Chain time, counters and latency figures are exact for any clock",
 "Chain time is the number of whole frames times the frame length for any position, channel count and rate, through any sequence of updates. A counter counts blocks and samples exactly and passes audio through unchanged. For any clock readings, latency figures are the measured times, their sums and averages and their excess over the duration of the audio produced; reset starts all of them over.",
 ["inputs", "histories", "schedules"], "positions to 1.3 million samples, rates to 192000, 1-6 channels, 3 updates; 3 blocks of 0-3 frames and 1-2 channels, also with incomplete last frames and rates from 1 Hz; clock advancing by any amount up to 1000 s between readings",
 "tests run against the real clock and cannot pin its readings", [H+"chrono.hpp", "src/chrono.cpp", H+"meta_audio.hpp", "src/meta_audio.cpp"], [("time arithmetic", H+"chrono.hpp ChainTimer"), ("statistics", "src/meta_audio.cpp LatencyModule")], state=[("sample position", "drives chain time", H+"chrono.hpp"), ("totals", "feed the averages", H+"meta_audio.hpp")], observe=["get_time()", "counts", "latency getters", "passed block"])
prop("Q01", "Dot products are exact sums and collections own each object exactly once",
 "The dot product over any iterators and element type is the sum of the products of the first n pairs. A collection keeps its objects in order through any sequence of additions, removals, releases and clears; every object is destroyed exactly once, by the collection or by whoever released it.",
 ["inputs", "histories"], "up to 5 pairs of any reals or integers; 4 collection operations", "the type of the accumulator and double frees show only for particular values or sequences",
 [H+"dsp/matrix.hpp", H+"utils.hpp"], [("accumulation", H+"dsp/matrix.hpp dot_product"), ("ownership", H+"utils.hpp Collection")], observe=["result", "destructor calls"])
prop("O01", "Oscillators produce their waveform on every channel, seamlessly across blocks",
 "Frame n of every channel of a sine, square, sawtooth or triangle oscillator is that waveform at frequency * (phase + n) / rate, however the signal is cut into blocks; it stays within [-1, 1]. The modulated oscillators follow the phase accumulated from their frequency parameter over the rate in the same way.",
 ["inputs", "histories"], "1-3 channels, blocks of 0-4 frames; sine at any real frequency to 20 kHz, the others at 10-201 frequencies; modulation values per frame; 1e-9 with a rounding bound",
 "tests check one mono block", [H+"fund_oscillator.hpp", "src/fund_oscillator.cpp", H+"base_oscillator.hpp"], [("waveform loops and phase", "src/fund_oscillator.cpp")], state=[("phase", "carries the signal across blocks", H+"base_oscillator.hpp")], observe=["output blocks", "get_phase()"])
prop("R01", "Module parameters follow their value or module in their owner's shape",
 "A constant parameter is a block of its current value in its owner's incoming block size, channels and rate, through any sequence of value changes, syncs and modules linked in between; a parameter fed by modules delivers one of their blocks per request. Starting, stopping and syncing an owner does the same, once, to every parameter and everything behind it, without entering its chain's count.",
 ["inputs", "histories"], "1-3 frames, 1-2 channels, any values and rates, 3 operations; module, source and sink owners with two parameters each",
 "changing a value after a sync, or an owner with several parameters, needs a sequence of operations", [H+"module_param.hpp", "src/module_param.cpp"], [("parameter chain configuration", "src/module_param.cpp ModuleParam"), ("forwarding to parameters", H+"module_param.hpp")], state=[("parameter's own chain information", "sizes its blocks", H+"module_param.hpp")], observe=["parameter blocks", "states", "hook calls"])
prop("E01", "Each envelope has its defined value at every time, however it is cut",
 "At any time before or after its limits, a constant envelope is its start value, a jump is the start value for the frames that end by the stop time and the stop value after, and linear and exponential ramps follow their formulas; on every channel, for any sequence of block sizes, with time advancing by the frames produced. A duration envelope runs from the moment it is started for its duration.",
 ["inputs", "histories"], "1-3 channels, 2-3 blocks of 0-3 frames, positions to frame 4999, any values; 5-33 channels, 70,000 frames and times past 2^31 ns at picked frames; any stop times for jumps and durations, fixed sets of ramp times",
 "tests use one mono block per envelope that lies wholly before or around the stop time", [H+"envelope.hpp", "src/envelope.cpp"], [("value at the current time", "src/envelope.cpp"), ("remaining frames", H+"envelope.hpp BaseEnvelope")], state=[("timer", "the envelope's position", H+"envelope.hpp")], observe=["output blocks", "get_time()", "start and stop time"])
prop("E02", "A chain of envelopes always plays the envelope that is due",
 "At every frame a chained envelope has the value of the first envelope that is not over yet; before the first one the chain's start value, between two the previous stop value, after the last its stop value. This holds for any times (also inside a frame), any cut into blocks, on every channel, after adding envelopes while it plays, after a restart and when the timer already runs; an envelope without end plays until the user moves on.",
 ["inputs", "histories"], "0-3 envelopes with any start and stop times up to 5-6 frames (ramps: five sets of times), any values, 1-2 channels, blocks of 1-7 frames; restarts in the middle and envelopes added before a start",
 "transitions depend on stop times falling inside frames and blocks, and on when envelopes are added", [H+"envelope.hpp", "src/envelope.cpp"], [("switching and gap filling", "src/envelope.cpp ChainEnvelope")], state=[("current envelope and position", "decides what plays", H+"envelope.hpp")], observe=["output blocks", "get_current()", "get_time()"])
prop("E03", "An ADSR envelope attacks, decays, sustains and releases from any point",
 "From its start an ADSR envelope rises linearly to one over the attack, falls linearly to the sustain level over the decay and holds it; finished at any time it falls linearly from its value at that time to zero over the release, stays zero, and reports that it is done exactly once, when the release is complete. The same holds when the timer already runs, when it is started again during or after a release, and when it is finished again during one.",
 ["inputs", "histories"], "4 attack, 3 decay and 3 release times (zero, whole and fractional frames), any sustain level, finish at frames 0-7, start at frames 0-3, 2 rounds, 1-2 channels",
 "the existing test sets no times and never processes; stage ends and the release depend on when it is finished", [H+"envelope.hpp", "src/envelope.cpp"], [("stages", "src/envelope.cpp ADSREnvelope")], state=[("current stage", "decides the value the release starts from", H+"envelope.hpp")], observe=["output blocks", "calls of done()"])
prop("P01", "A parallel module delivers every block once, in order, under every schedule",
 "Under every interleaving the blocks taken from a parallel module are the source's blocks, each once, in order and unchanged; at most the limit is stored and a raised limit lets production continue and a lowered one loses nothing. Stop, restart and destruction always return and end the thread: nothing is produced afterwards and a new run starts empty. State operations reach the modules behind it only while these are not processing. There is no data race and no deadlock.",
 ["schedules", "histories"], "every schedule with up to 5 preemptions (2 for two parallel modules in a row; thorough 6-9 and 3), limits 1-2, up to 3 blocks, restart with and without stop; any block values",
 "a wakeup lost between a check and a wait, or a state change during processing, shows in a handful of interleavings only", [H+"parallel.hpp"], [("queue and thread protocol", H+"parallel.hpp")], state=[("queue, limit and done flag", "shared between the two threads", H+"parallel.hpp")], observe=["blocks taken", "size()", "calls at the source", "termination"])
prop("L01", "The ALSA sink delivers every frame, whatever the device answers",
 "The sink opens the configured device, applies every setting that is given and leaves the rest to the device. Each block reaches the device as interleaved 16 bit frames, each frame once and in order, although the device may accept only part of a write or run dry; a block is cut short only when the device keeps failing. Missing or broken devices are reported and ignored, every opened device is closed once after being drained, nothing is used after it is closed, and device information has each device's names and limits.",
 ["inputs", "fault_sequences", "histories"], "0-3 devices with missing hints, 4 writes each answered by acceptance of any part, underrun or error; 1-3 channels, blocks of 0-2 frames, any sample values; 3 operations of start, failing start, write, stop; device names that are prefixes of each other",
 "the sandbox and CI have no sound device; partial writes and underruns depend on the hardware's timing", [H+"io/alsa_module.hpp", "src/io/alsa_module.cpp"], [("write loop and recovery", "src/io/alsa_module.cpp ALSASink::process"), ("device setup and shutdown", "src/io/alsa_module.cpp ALSABase::alsa_start/alsa_stop"), ("device queries", "src/io/alsa_module.cpp DeviceInfo")], state=[("pcm handle", "tells whether the device is running", H+"io/alsa_module.hpp")], observe=["calls and data received by the ALSA library", "device information", "return code"])
prop("M02", "File streams behave like the file's bytes with a position, and report failures",
 "Reading a file stream gives the file's bytes in order from the position, touches nothing beyond them, and ends the stream exactly when something past the end is requested. Writing produces the file that the writes and seeks describe, gaps filled with zeros. A file that cannot be opened, or data that cannot be stored, is always visible in the stream's state. A wave file written through one and cut anywhere gives back every sample that is in it, whether the streams were opened before or by the reader and writer.",
 ["inputs", "histories", "crash_points", "fault_sequences"], "files of 0-4 bytes (any content), 4 operations; full devices with writes of 0-1200 bytes; 8 and 16 bit wave files of 1-2 channels and 0-3 frames cut at every byte",
 "tests write and read one short file", [H+"io/mstream.hpp", "src/io/mstream.cpp", "src/io/wav.cpp"], [("file streams", H+"io/mstream.hpp BaseFStream, src/io/mstream.cpp FIStream/FOStream"), ("reading a truncated file", "src/io/wav.cpp WaveReader")], state=[("stream state", "tells the user whether the stream is usable", H+"io/mstream.hpp")], observe=["bytes read", "file content", "stream state"])
