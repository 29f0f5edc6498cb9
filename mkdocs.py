#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing; both files are committed)."""
import json, os
from props import PROPS
V = os.path.dirname(os.path.abspath(__file__))
H = "include/maec/"
def P(id, title, statement, over, text, why, files, mech, observe=None, tech=None, note=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe or [], tech=tech, note=note)
T_MODEL = "runtime monitoring: ASan+UBSan build of the real code, random operation histories, online reference-model monitor"
L = [
P("P01", "Buffer addressing, views and container operations agree",
  "For every buffer of any number of channels and frames, sequential and interleaved iterators, random access, channel/frame addressing and conversions between layouts all address the same samples: each walk visits every sample exactly once in its documented order. Container operations (resizing, appending, clearing, assignment, copies and moves, reserving and shrinking) keep the audio metadata and never touch memory outside the buffer.",
  ["inputs", "histories"], "all buffer shapes, all constructors, all sequences of container operations and iterator movements (including arithmetic and comparison) on them",
  "Tests use a handful of fixed shapes (mostly mono or square); an index formula that is wrong only when frames differ from channels, or for an iterator moved backwards across a channel, passes them.",
  [H+"dsp/buffer.hpp", H+"audio_buffer.hpp", "src/dsp/buffer.cpp", "src/audio_buffer.cpp"],
  [("interleaved/sequential index mapping of the iterators", H+"dsp/buffer.hpp"), ("container interface of BaseBuffer and channel metadata", H+"dsp/buffer.hpp")],
  ["iterator dereferences", "buffer contents after each operation"], T_MODEL),
P("P02", "Ring buffers behave as an endless repetition of their content",
  "A ring buffer of any size keeps exactly its most recent samples in order: reading at any signed position, and iterating any distance forwards or backwards, is the same as indexing the infinite repetition of its content. No position or iterator movement reads or writes outside the ring.",
  ["inputs", "histories"], "all ring sizes, all signed positions and offsets, all histories of writes, cursor moves and iterator arithmetic",
  "Tests use small rings and positions near zero; wrap-around of negative positions depends on the size (it was only right for powers of two).",
  [H+"dsp/buffer.hpp"], [("position wrapping of RingBuffer and its iterators", H+"dsp/buffer.hpp")], ["ring reads, writes and iterator dereferences"], T_MODEL),
P("P03", "Sample formats and byte codecs convert exactly and back",
  "Converting any integer sample code to floating point stays in [-1, 1], is monotone, and converting back gives the same code; converting any value in [-1, 1] to a code is within one quantisation step and never overflows. Byte codecs write any 16/32 bit value in little-endian byte order and read the same value back.",
  ["inputs"], "every code of the 8 and 16 bit formats, every value in [-1,1], every 16/32 bit word",
  "Tests check a few values; asymmetry at full scale, rounding at boundaries and sign extension are all-input facts.",
  [H+"audio_buffer.hpp", "src/audio_buffer.cpp", H+"io/mstream.hpp", "src/io/mstream.cpp"],
  [("sample format conversion functions", H+"audio_buffer.hpp"), ("integer/character conversion helpers", H+"io/mstream.hpp")], ["conversion results"],
  "runtime monitoring: exhaustive slices of the code space and random values run through the real converters under UBSan (float-cast-overflow), exact-arithmetic oracle"),
P("P04", "Streams are faithful byte stores, whatever the medium",
  "Whatever sequence of writes, reads and seeks is applied, memory and file streams behave as one byte array with a position: what was written at an offset is what is read from it, sizes and positions are true, and reads beyond the end return only what is there and set the stream's end/failure state. Failures of the medium are reported by the state and never corrupt memory.",
  ["histories", "fault_sequences"], "all histories of write/read/seek operations with overwrites, on memory and file streams; media that cannot be opened or are full",
  "Tests write once and read once; overwriting, seeking past the end, short reads and media faults need histories.",
  [H+"io/mstream.hpp", "src/io/mstream.cpp"], [("position and size bookkeeping of the character streams", "src/io/mstream.cpp"), ("state flags", H+"io/mstream.hpp")],
  ["bytes and positions returned by the streams", "files on disk"], "runtime monitoring: byte-array model monitor over random histories with injected open failures and a full device, ASan+UBSan"),
P("P05", "The WAVE writer produces a valid file holding exactly the audio given",
  "For any channel count, sample rate, 8 or 16 bit depth and any division of the audio into buffers, the finished file is a valid RIFF/WAVE file whose header fields (sizes, rates, alignment) are consistent with its length and whose data are the quantised samples in order. Reading the file back gives those samples.",
  ["inputs", "configurations"], "all channel counts, rates, supported depths, partitions of the audio into writes, and memory or file media, also when one writer is used again",
  "Tests write one fixed buffer and read it with the same library, so errors that cancel, or depend on the partition or the channel count, are invisible.",
  [H+"io/wav.hpp", "src/io/wav.cpp"], [("header bookkeeping (written bytes, final rewrite)", "src/io/wav.cpp")], ["bytes of the written file"],
  "runtime monitoring: written bytes compared with an independent RIFF encoder and read back, ASan+UBSan"),
P("P06", "The WAVE reader returns exactly the audio of any valid file",
  "For any valid PCM WAVE file, in whatever order and number its extra chunks, padding and data chunks come, reading it in buffers of any sizes returns every sample exactly once, in order, on the right channel, then reports done; the reported format is that of the file. The same holds for the source module that plays a file in a chain, which counts as done there exactly once when the chain is told to finish.",
  ["inputs", "configurations"], "all valid layouts (extended format chunks, unknown chunks of odd and even size anywhere, several data chunks, trailing bytes), formats and buffer-size sequences",
  "Tests read a canonical 44-byte header file with one buffer size.",
  [H+"io/wav.hpp", "src/io/wav.cpp"], [("chunk walk and data accounting of WaveReader", "src/io/wav.cpp"), ("WaveSource", H+"io/wav.hpp")], ["samples and done state returned per buffer"],
  "runtime monitoring: files from an independent generator, read with random partitions, sample-by-sample oracle, ASan+UBSan"),
P("P07", "Hostile or truncated WAVE input is handled without harm",
  "Any byte sequence given as a WAVE file - truncated, with any header field values, or random - is either read or rejected: the reader terminates, never accesses memory outside its buffers, never allocates in proportion to a lying size field, and returns at most the samples that the bytes contain. Missing files are reported as failures.",
  ["inputs", "fault_sequences"], "all byte strings, in particular valid files cut at each offset and with each header field replaced by boundary values",
  "Tests contain no malformed file.",
  [H+"io/wav.hpp", "src/io/wav.cpp", "src/io/mstream.cpp"], [("header validation and chunk walk", "src/io/wav.cpp")], ["sanitizer reports, returned samples, stream positions, progress"],
  "runtime monitoring: ASan+UBSan with allocation limit and watchdog over cut, mutated and random files"),
P("P08", "Chains process, configure and control every module once, in order",
  "In any chain of modules, each request on the last module processes every module exactly once, source first, each receiving the audio its predecessor produced; start, stop, finish and info-sync likewise reach every module once, in order, leaving the documented state and chain configuration. This holds for run-time linked chains, compile-time chains (which compute the same audio), copies of sinks, relinked chains, and repeated syncs.",
  ["programs", "histories", "configurations"], "all chain lengths, link orders, configurations and histories of sync/start/process/finish/stop/relink",
  "Tests link two or three counting modules once; state after relinks, repeated syncs, copies of sinks and overridden hooks depends on histories.",
  [H+"audio_module.hpp", H+"base_module.hpp", H+"sink_module.hpp", H+"source_module.hpp", H+"amp_module.hpp", "src/base_module.cpp", "src/sink_module.cpp", "src/amp_module.cpp"],
  [("recursive meta_* calls and buffer hand-over", H+"audio_module.hpp"), ("chain info shared from the sink", H+"sink_module.hpp")], ["call log with state and values of each module"],
  "runtime monitoring: trace-specification checker over the recorded call log of instrumented modules, ASan+UBSan"),
P("P09", "Mixers add, split and copy their inputs without loss",
  "For any tree of mixers, each output sample is the sum of the corresponding samples of all inputs (zero where an input is shorter), each input is processed exactly once per round in link order, and splitting mixers give each output an independent copy of the audio. Configuration and lifecycle calls reach all inputs once.",
  ["programs", "inputs", "configurations"], "all trees of mixers and sources, input counts (including zero), buffer lengths, channels, and re-configurations between rounds",
  "Tests mix two equal mono constants.",
  [H+"module_mixer.hpp", "src/module_mixer.cpp"], [("summing and buffer ownership of the mixers", "src/module_mixer.cpp")], ["leaf call log, output samples, buffer identity"],
  "runtime monitoring: recursive reference model and call-order monitor over random mixer trees, ASan+UBSan"),
P("P10", "Meta modules and parameters are transparent to the audio",
  "Re-blocking, counting, timing, repeating and constant modules lose and invent no sample: outputs carry the input stream in order, counters equal what passed, latency statistics are consistent with the clock, repeated buffers are exact copies. A module parameter delivers exactly what its module produces (or its constant), in the configuration of its owner.",
  ["inputs", "histories", "configurations"], "all input block-length sequences, channel counts, re-configurations and call histories",
  "Tests use one block length and one channel.",
  [H+"meta_audio.hpp", "src/meta_audio.cpp", H+"module_param.hpp", "src/module_param.cpp", H+"chrono.hpp"],
  [("re-blocking of UniformBuffer", "src/meta_audio.cpp"), ("parameter forwarding", H+"module_param.hpp")], ["sample streams in and out, counters, clock"],
  "runtime monitoring: stream-conservation monitor over numbered samples and recorded calls, ASan+UBSan"),
P("P11", "Oscillators play the ideal waveform continuously",
  "For any frequency, phase, sample rate and channel count, each frame of an oscillator is the ideal waveform at that time, identical on all channels and within [-1, 1], and does not depend on how the audio is cut into buffers. A modulated oscillator follows its frequency parameter with continuous phase.",
  ["inputs", "configurations"], "all waveforms, frequencies (zero, negative, above Nyquist), phases up to long running times, rates, channels and buffer partitions",
  "Tests compare the first buffer of one frequency with loose bounds.",
  [H+"base_oscillator.hpp", H+"fund_oscillator.hpp", "src/base_oscillator.cpp", "src/fund_oscillator.cpp"],
  [("phase accumulation", "src/base_oscillator.cpp"), ("waveform formulas", "src/fund_oscillator.cpp")], ["every output sample"],
  "runtime monitoring: sample-by-sample comparison with long-double waveforms over random configurations and partitions, UBSan"),
P("P12", "Timers and envelopes follow audio time exactly",
  "A chain timer's time is the number of whole frames times the frame duration for every history of updates. Each envelope outputs, for the time of each frame and on all channels, the documented value; a chain of envelopes plays them in order and fills gaps with the last value, wherever stop times fall relative to buffers and even when envelopes are added while playing. An ADSR envelope rises, decays, holds and releases with its key and is done exactly when its release is over.",
  ["inputs", "histories", "configurations"], "all timer histories; envelope times, values, rates, channels; chains with gaps, overlaps, zero lengths; buffer partitions; moments of adding, restarting and releasing",
  "Tests use envelopes whose times are multiples of whole buffers, in one channel; ADSR is not tested at all.",
  [H+"chrono.hpp", "src/chrono.cpp", H+"envelope.hpp", "src/envelope.cpp"],
  [("frame counting of ChainTimer", H+"chrono.hpp"), ("envelope switching of ChainEnvelope", "src/envelope.cpp")], ["every output sample, timer and state after each buffer"],
  "runtime monitoring: time-line model monitor over random envelope chains and histories, ASan+UBSan"),
P("P13", "Parallel parts hand over every buffer once, in order, and never race",
  "A module chain moved to its own thread delivers exactly the buffers the sequential chain would, each once and in order, reading ahead up to its limit and no further. Start, stop, finish, sync, limit changes and destruction at any moment neither hang, crash, lose or duplicate a buffer, nor touch a module while it is being processed.",
  ["schedules", "histories"], "all interleavings of worker, consumer and controlling threads, all read-ahead limits, speeds, and histories of control calls",
  "Tests sleep for seconds around one schedule of one worker; a wake-up lost between a check and a wait, or a state change during processing, needs a schedule they never produce.",
  [H+"parallel.hpp", "src/base_module.cpp"], [("queue, condition variable and stop flag of ParallelModule", H+"parallel.hpp"), ("count of finished modules", "src/base_module.cpp")],
  ["event log of produced and taken buffers", "lifecycle hooks of the modules behind", "ThreadSanitizer"],
  "runtime monitoring: ThreadSanitizer and ASan runs under delays injected at interposed mutex/condition calls, FIFO/conservation/exclusion checker over the event log",
  "Held on all schedules observed (distinct event orders are counted in the evidence). Monitors use relaxed atomics only, so they hide no race. A case that does not end within 40 s (it takes milliseconds) counts as a hang."),
P("P14", "Convolution computes the exact defining sum for all signals",
  "For any two signals, of any lengths (including empty), value types and iterator kinds, input-side, output-side and FFT convolution all yield the defining sum, with the documented output length, and touch nothing outside the given ranges. Convolving multi-channel buffers treats every channel on its own and keeps channels and sample rate.",
  ["inputs", "configurations"], "all signal and kernel lengths, value types, iterator kinds, channel counts",
  "Tests use one signal and one kernel of doubles in one channel.",
  [H+"dsp/conv.hpp", "src/dsp/conv.cpp"], [("convolution loops and output length", H+"dsp/conv.hpp"), ("convolution of buffers", "src/dsp/conv.cpp")], ["every output value, guard values around the output"],
  "runtime monitoring: value-by-value comparison with a long-double reference over random shapes, ASan+UBSan"),
P("P15", "Fourier transforms match their definition and invert exactly",
  "For every supported size, signal, stride and value type, each FFT variant yields the bins of the discrete Fourier transform up to rounding, the variants agree with each other, and the inverse of a transform returns the signal. Bit reversal is a permutation and its own inverse.",
  ["inputs", "configurations"], "all sizes, signals, strides, both directions, real and complex data, single and double precision",
  "Tests transform one fixed signal of one size.",
  [H+"dsp/ft.hpp", "src/dsp/ft.cpp", H+"dsp/util.hpp"], [("butterflies and twiddle factors", H+"dsp/ft.hpp")], ["every bin"],
  "runtime monitoring: bin-by-bin comparison with a long-double DFT, cross-variant and round-trip monitors, ASan+UBSan"),
P("P16", "Recursive filters follow their difference equation for whole streams",
  "For any coefficients, an IIR filter's output is the difference equation over the whole stream, independent of how the stream is cut into blocks and of in-place use; changing coefficients or sizes takes effect from the next sample on with the history kept. The reported frequency response is that of the filter, and single pole filters pass and stop what their type and cutoff say.",
  ["inputs", "histories", "configurations"], "all numbers and values of coefficients, block partitions, histories of changes, stream lengths beyond 2^31 samples",
  "There are no tests of the recursive filters.",
  [H+"dsp/iir.hpp", "src/dsp/iir.cpp", H+"dsp/buffer.hpp"], [("history ring buffers of IIRFilter", H+"dsp/iir.hpp"), ("frequency response", H+"dsp/iir.hpp")], ["every output value, response values"],
  "runtime monitoring: difference-equation model monitor over random filters and histories, ASan+UBSan"),
P("P17", "FIR filter modules convolve the whole stream and meet their response",
  "For any kernel, channel count and sequence of block lengths, a FIR filter module's output is the convolution of each channel's whole stream with the kernel, cut into blocks of the incoming lengths. Windows and kernels have the documented values for every size, and a sinc filter of each type passes and stops the frequencies it is set to, relative to the sample rate of its chain.",
  ["inputs", "histories", "configurations"], "all kernels and sizes, filter types and frequencies, block-length sequences, channels, sessions and kernel changes",
  "Tests compare fixed kernels of one size; the filter modules are not tested.",
  [H+"filter_module.hpp", H+"dsp/kernel.hpp", "src/dsp/kernel.cpp", H+"dsp/window.hpp", "src/dsp/window.cpp"],
  [("overlap-add of BaseConvFilter", H+"filter_module.hpp"), ("kernel generation", "src/dsp/kernel.cpp")], ["every output sample, kernel values, measured gains"],
  "runtime monitoring: stream-convolution model monitor and measured frequency response over random filters, ASan+UBSan"),
P("P18", "ALSA devices get every frame once and every handle is released once",
  "For any set of devices, settings and device behaviour (short writes, underruns, errors), an ALSA sink sends every frame of its chain to the device once and in order, in the format the device accepted, never uses a handle that is not open, and releases every handle and name once. Device queries report what the devices offer.",
  ["inputs", "fault_sequences", "histories"], "all device sets, accepted parameters, write results and error codes, call histories",
  "The test needs no device and only constructs objects; short writes, underruns and failing devices need hardware that misbehaves.",
  [H+"io/alsa_module.hpp", "src/io/alsa_module.cpp"], [("device writes and recovery of ALSASink", "src/io/alsa_module.cpp"), ("device enumeration", "src/io/alsa_module.cpp")], ["log of all libasound calls with their arguments and data"],
  "runtime monitoring: recording stand-in for libasound with fault injection, protocol and conservation checker over its call log, ASan+UBSan",
  "Held on every execution observed. The stand-in in harness/p18_alsa.cpp follows the documented behaviour of libasound; a real device is not available here."),
P("P19", "Matrix products are exact; collections own and free objects once",
  "For any shapes and value types, matrix and dot products are their defining sums and results get the right shape. A collection hands out its objects in the order given, frees each exactly once when removed, cleared or destroyed, and never one that was released. Amplitude modules change every sample of every channel by exactly their value, in the order of the chain.",
  ["inputs", "histories", "configurations"], "all shapes, value types, iterator kinds; all histories of a collection; all values, lengths and orders of amplitude modules",
  "Tests never multiply a matrix, free no object of a collection, and use one gain.",
  [H+"dsp/matrix.hpp", H+"utils.hpp", H+"amp_module.hpp", H+"meta.hpp", H+"dsp/filt.hpp"], [("rows and columns through iterators", H+"dsp/matrix.hpp"), ("ownership", H+"utils.hpp")], ["every entry, destructor log, every sample"],
  "runtime monitoring: reference sums, algebraic laws and an ownership ledger over random shapes and histories, ASan+UBSan"),
P("P20", "Whole graphs play the same audio however it is cut into buffers",
  "For any graph built of sources, modulated sources, envelopes, files, gains, mixers, filters, counters, re-blocking and parallel modules, each frame played equals the frame-by-frame combination of what the parts play, for every sequence of buffer sizes (also changed while playing) and every period count. Audio written to a WAVE file and played by another chain comes back within one code step, complete and in order.",
  ["programs", "inputs", "configurations"], "all graphs, channel counts, rates and partitions of the audio into buffers",
  "Tests exercise modules one at a time with one buffer size; how modules with state of their own interact when buffers change is not tested.",
  [H+"audio_module.hpp", H+"sink_module.hpp", H+"filter_module.hpp", "src/meta_audio.cpp", "src/module_mixer.cpp", "src/envelope.cpp", "src/fund_oscillator.cpp", "src/io/wav.cpp", H+"parallel.hpp"],
  [("state carried from buffer to buffer in each module", H+"filter_module.hpp"), ("configuration passed backwards", H+"audio_module.hpp")], ["every frame at the sink, counters, file bytes"],
  "runtime monitoring: frame-wise reference model and metamorphic partition monitor over random graphs, ASan+UBSan",
  "Held on every graph observed. Oscillators and envelopes inside a graph are compared with the same source played alone in one buffer (their waveforms are decided by P11 and P12)."),
P("P21", "Objects that share nothing can be used by several threads at once",
  "Any parts of the library that are not connected to each other - chains, mixers, filters, envelopes, parallel modules, WAVE files, convolutions, transforms, recursive filters, buffers - can be made, played and destroyed in different threads at the same time: each plays exactly what it plays alone, and no thread touches memory another one writes. Constant objects may be read by several threads at once.",
  ["schedules", "programs"], "all interleavings of threads that use objects of their own, and of readers of constant objects",
  "Tests run in one thread; a scratch buffer or table made static passes all of them and mixes the audio of two chains.",
  [H+"audio_module.hpp", H+"dsp/ft.hpp", H+"dsp/conv.hpp", H+"dsp/iir.hpp", H+"dsp/kernel.hpp", H+"filter_module.hpp", "src/fund_oscillator.cpp", "src/envelope.cpp", "src/io/wav.cpp", "src/io/mstream.cpp", "src/audio_module.cpp"],
  [("state is in objects: no static or global state that changes", H+"audio_module.hpp"), ("scratch memory of convolutions, transforms and filters", H+"dsp/conv.hpp")],
  ["audio of each thread", "memory accesses (race detector)"],
  "runtime monitoring: ThreadSanitizer and ASan builds, barrier-released groups of threads, differential monitor against the same parts played alone"),
P("P22", "Playing holds bounded memory, and everything acquired is given back",
  "What a part or chain holds - memory, open files, threads - does not grow with the number of rounds it plays nor of sessions it is started and stopped in, and once it is destroyed all of it is given back: also when it was stopped midway, never stopped or never started. A stopped stream has closed its file, with all that was written in it. An object that is assigned to gives back what it held.",
  ["histories", "configurations"], "all parts, numbers of rounds and sessions, and points at which a session is abandoned",
  "Tests play a few rounds once; a list that grows by one entry per round, a buffer released instead of freed or a file kept open shows after hours.",
  [H+"audio_module.hpp", H+"parallel.hpp", H+"filter_module.hpp", H+"module_mixer.hpp", H+"utils.hpp", H+"dsp/buffer.hpp", "src/audio_module.cpp", "src/module_mixer.cpp", "src/envelope.cpp", "src/io/wav.cpp", "src/io/mstream.cpp", "src/fund_oscillator.cpp"],
  [("ownership of buffers passed along a chain", H+"audio_module.hpp"), ("closing of files", "src/io/mstream.cpp"), ("end of worker threads", H+"parallel.hpp")],
  ["bytes allocated, open files and threads of the process, after every round and session"],
  "runtime monitoring: allocator statistics of ASan, file descriptors and threads of the process sampled in every round, across sessions and after destruction"),
P("P23", "The work of a round depends on the audio in it, not on what came before",
  "Processing a buffer takes a number of steps that is bounded by the audio in the buffer and the settings of the chain: it does not grow with the number of rounds or sessions played, nor with high phases, times and counts, and twice the audio, channels, modules, mixer inputs or envelopes take about twice the steps (transforms a little more). Reading and writing files and byte streams, appending and walking buffers cost the same for each sample.",
  ["histories", "inputs", "configurations"], "all parts, lengths of play, numbers of sessions, phases, times, counts and buffer sizes",
  "Tests play a few buffers and do not look at cost; a search from the start of a list, a phase wrapped by a loop or a copy of everything read so far makes audio break up after hours.",
  [H+"audio_module.hpp", H+"base_oscillator.hpp", H+"chrono.hpp", H+"dsp/buffer.hpp", H+"dsp/iir.hpp", H+"dsp/ft.hpp", H+"dsp/conv.hpp", H+"filter_module.hpp", "src/envelope.cpp", "src/fund_oscillator.cpp", "src/module_mixer.cpp", "src/io/wav.cpp", "src/io/mstream.cpp"],
  [("state carried from round to round", H+"filter_module.hpp"), ("search for the envelope that plays", "src/envelope.cpp"), ("iterators that move in one step", H+"dsp/buffer.hpp")],
  ["basic blocks executed, bytes moved and allocations of each round"],
  "runtime monitoring: compiler-inserted coverage callbacks as an exact step counter; growth and scaling monitors over long sessions, many sessions and late states",
  "Held on every execution observed. Steps are counted by instrumentation, not timed, so the verdict does not depend on the machine. The worker thread of parallel modules and the inside of the standard library's file streams are not counted."),
]
NA = []
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in L:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                observe_at=p["observe"], hook_needed=None))) + "\n")
    ids = {p["id"]: p for p in L}
    checks = []
    for k in sorted(PROPS):
        p = ids[k]
        checks.append(dict(property=k, quick_cmd="python3 check.py %s" % k, thorough_cmd="VERIF_TIER=thorough python3 check.py %s --thorough" % k,
            evidence_file="evidence/%s.json" % k, technique=p["tech"], level="exploration",
            level_note=p["note"] or "Held on every execution observed; the workload is random with a fixed seed (counts and observed events in the evidence file). Trusts the compiler, the sanitizers and the reference model in harness/%s." % PROPS[k]["src"][0]))
    na = [dict(property=a, reason=b) for a, b in NA]
    json.dump(dict(version=1, setup_cmd="python3 check.py --build-all", checks=checks, not_applicable=na,
        notes="No hooks in /repo: all monitors sit in harness modules that implement the library's public interfaces. Known findings: known_findings.txt."),
        open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(L), "properties,", len(checks), "checks; unclaimed:", [p["id"] for p in L if p["id"] not in PROPS and p["id"] not in [a for a, _ in NA]])
main()
