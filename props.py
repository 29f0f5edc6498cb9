"""What each check builds and how its evidence is described."""
PROPS = {
    "P01": dict(
        src=["p01_buffer.cpp"],
        rule="random buffer shapes, constructors, container-operation histories and iterator walks; non-trivial = more than one "
             "channel and more than one frame (histories: more than six operations)",
        min_events={"iterator_ops": 1000, "container_ops": 1000, "buffer_views_checked": 500},
    ),
}
PROPS.update({
    "P02": dict(
        src=["p02_ring.cpp"],
        rule="random operation histories on rings of sizes 1..100 with positions far outside the ring on both sides; "
             "non-trivial = size above one",
        min_events={"ring_ops": 1000, "iterator_wraps": 100, "negative_positions": 100},
    ),
    "P03": dict(
        src=["p03_convert.cpp"],
        rule="every code of the 8 and 16 bit formats and every 16 bit codec value (exhaustive slices), random values in [-1,1] "
             "and random 32 bit words; non-trivial = distinct values / word above one byte",
        min_events={"codes_decoded": 100000, "codec_values": 10000},
    ),
})
PROPS.update({
    "P04": dict(
        src=["p04_mstream.cpp"],
        rule="random write/read/seek histories applied in parallel to memory streams, file streams and a byte-array model, plus injected "
             "open failures and a size-limited medium; non-trivial = overwrites happened / more than two operations on data",
        min_events={"stream_ops": 1000, "overwrites": 100, "short_reads": 100, "faults_injected": 50},
    ),
})
PROPS.update({
    "P05": dict(
        src=["p05_wavwrite.cpp"],
        rule="random channel counts, rates, 8/16 bit, splits of the audio over write calls, memory and file streams, setter orders, "
             "compared byte for byte with an independent RIFF encoder and read back; non-trivial = more than one sample written",
        min_events={"buffers_written": 500, "bytes_compared": 10000, "buffers_read": 500},
    ),
})
PROPS.update({
    "P06": dict(
        src=["p06_wavread.cpp"],
        rule="random valid RIFF files (1-6 channels, 8/16 bit, extended format chunks, unknown chunks of odd and even size before, between and "
             "after several data chunks, bytes behind the RIFF chunk) read from memory and from files with fixed and changing buffer sizes; "
             "non-trivial = more than one sample in the file",
        min_events={"buffers_read": 5000, "samples_compared": 50000, "trailing_chunk_reads": 50, "chain_rounds": 500},
    ),
    "P07": dict(
        src=["p07_wavhostile.cpp"],
        rule="valid files cut at offsets over their whole length, mutated fields and bytes, arbitrary header field values, random bytes, "
             "missing files; non-trivial = every non-empty input",
        min_events={"files_cut": 5000, "files_mutated": 5000, "get_data_calls": 10000},
    ),
})
PROPS.update({
    "P08": dict(
        src=["p08_chain.cpp"],
        rule="random chains of 2-10 logging modules with random buffer size, channels, sample rate, period count, repeated syncs, relinks and "
             "start/process/finish/stop histories; the recorded call log (order, state at the call, storage identity, values) is checked against "
             "the trace specification; compile-time chains compared with run-time ones; non-trivial = more than one inner module",
        min_events={"process_calls": 10000, "lifecycle_calls": 10000, "static_compared": 10000, "relinks": 1000},
    ),
})
PROPS.update({
    "P09": dict(
        src=["p09_mixer.cpp"],
        rule="random trees (depth up to 4, up to 4 inputs per mixer) of sources, gains and the three mixers, inputs of other lengths than "
             "configured, re-configuration between rounds, against a recursive model and its expected call order; non-trivial = more than one source / output",
        min_events={"mixed_samples": 20000, "leaf_calls": 5000, "copies_checked": 2000},
    ),
})
PROPS.update({
    "P10": dict(
        src=["p10_meta.cpp"],
        rule="random block-length streams, channel counts and re-configurations through each meta module and through modules with parameters; "
             "recorded sample streams, call counts and clock readings checked; non-trivial = more than one sample / channel",
        min_events={"uniform_samples": 50000, "counter_rounds": 1000, "latency_rounds": 300, "param_rounds": 2000, "repeats": 1000},
    ),
})
PROPS.update({
    "P11": dict(
        src=["p11_osc.cpp"],
        rule="random waveform, frequency (zero, negative, fractions of the rate), start phase up to a day of audio, rate, channels and cuts of the "
             "stream into buffers; constant, swept and stepped modulation; compared with long double waveforms; non-trivial = more than one frame of a non-constant wave",
        min_events={"samples_checked": 500000, "modulated_frames": 100000, "fm_frames": 10000},
    ),
})
PROPS.update({
    "P12": dict(
        src=["p12_env.cpp"],
        rule="random timer histories; random envelopes (constant, step, linear, exponential, start at zero) cut into buffers of changing size; "
             "chains of up to nine envelopes with gaps, overlaps, zero lengths, stop times between frames, envelopes added while playing and restarts; "
             "ADSR keys pressed, held, released at random times; compared with a model of the time line; non-trivial = more than one envelope or frame",
        min_events={"timer_ops": 50000, "envelope_samples": 100000, "chain_samples": 200000, "adsr_samples": 100000, "added_while_playing": 500, "releases": 1000},
    ),
})
PROPS.update({
    "P13": dict(
        src=["p13_parallel.cpp"], flavors=["asan", "tsan"],
        rule="random read-ahead limits, speeds of source and consumer, sessions, state requests while running, graphs of parallel modules, with delays "
             "injected at every mutex, condition and thread operation; non-trivial = more than two buffers handed over; distinct = hash of the recorded event order",
        min_events={"buffers_taken": 5000, "delays_injected": 10000, "limit_reached": 500, "stops_while_waiting": 500, "destroyed_running": 50, "graph_rounds": 1000},
    ),
})
PROPS.update({
    "P14": dict(
        src=["p14_conv.cpp"],
        rule="random signal and kernel lengths including empty ones, of doubles, floats, integers and complex values, through contiguous, segmented, "
             "list and reverse iterators and through multi-channel buffers, compared with the defining sum in long double; non-trivial = both longer than one",
        min_events={"values_compared": 100000, "convolutions": 10000, "buffer_convolutions": 2000},
    ),
    "P15": dict(
        src=["p15_fft.cpp"],
        rule="random sizes (powers of two up to 2048 or 16384, any size for the DFT), random, pulse, tone and integer signals, strides, both signs; compared bin "
             "by bin with the defining sum in long double, with each other, and after the inverse; non-trivial = more than one or two values",
        min_events={"bins_checked": 50000, "transforms": 10000, "strided": 1000, "tones": 500},
    ),
})
PROPS.update({
    "P16": dict(
        src=["p16_iir.cpp"], flavors=["asan", "plain"], flavor_scenarios={"asan": [r"(?!half_day).*"], "plain": ["half_day"]},
        rule="random numbers of coefficients (0-8 each), stable poles, block partitions, in and out of place, coefficient changes, resizes and copies in the "
             "middle of the stream, five value types; compared with the difference equation in long double, and the frequency response with the transform of "
             "the measured impulse response; non-trivial = more than one coefficient of both kinds / more than one change",
        min_events={"values_compared": 200000, "responses": 3000, "resizes": 500, "blocks": 10000},
    ),
})
PROPS.update({
    "P17": dict(
        src=["p17_fir.cpp"],
        rule="random kernels (1-120 values, replaced while playing), block lengths including empty ones, channels and sessions, against the convolution of the "
             "whole stream; sinc filters of all types and sizes against an independent windowed sinc and its gain; kernels and windows of all sizes against their "
             "formulas; non-trivial = more than one kernel value and channel / more than two values",
        min_events={"samples_compared": 200000, "gains_checked": 10000, "kernels": 1000, "sessions": 2000, "kernel_changes": 500},
    ),
})
PROPS.update({
    "P18": dict(
        src=["p18_alsa.cpp"], alsa=True,
        rule="random sets of devices (names missing, exclusive, not to be opened, other ranges of channels and rates), settings, sessions and device faults (short "
             "writes, underruns, errors) on a recording stand-in for libasound; every call on a handle, every frame read and every release is checked; "
             "non-trivial = more than one device / more than one round on an open device",
        min_events={"samples_played": 100000, "device_queries": 5000, "underruns": 500, "short_writes": 500, "sessions_open": 1000},
    ),
})
PROPS.update({
    "P19": dict(
        src=["p19_util.cpp"],
        rule="random matrices and vectors of five value types, of all shapes, into new and used results, against the defining sums and the algebraic laws; random "
             "histories of a collection with counted destructions; random chains of gains and offsets; non-trivial = more than one row, column, object or module",
        min_events={"dot_products": 2000, "entries": 10000, "collection_ops": 20000, "freed": 1000, "released": 1000, "amplified": 50000},
    ),
})
PROPS.update({
    "P20": dict(
        src=["p20_graph.cpp"],
        rule="random graphs of sources (oscillators, modulated ones, envelopes, files, constants), gains, mixers, filters, counters, re-blocking and parallel modules, "
             "each played in two random partitions into buffers and compared with a frame-by-frame model; the audio written to a file and played by another "
             "chain; non-trivial = more than three modules",
        min_events={"frames_compared": 100000, "modules_played": 5000, "resized": 2000, "parallel_graphs": 50, "filtered_graphs": 200, "modulated_graphs": 200, "frames_through_file": 20000},
    ),
})
PROPS.update({
    "P21": dict(
        src=["p21_threads.cpp"], flavors=["tsan", "asan"],
        rule="groups of 2-6 threads released by a barrier, each making, playing and destroying parts of its own (15 kinds, one kind or any, some with the same seed), "
             "compared with the same parts played alone before or afterwards; 2-5 threads reading shared constant buffers, filters, timers and collections; the race "
             "detector and the address sanitizer watch; non-trivial = all groups",
        min_events={"parts_played": 1000, "rounds_compared": 5000, "thread_groups": 300, "shared_reads": 1000},
    ),
    "P22": dict(
        src=["p22_resources.cpp"],
        rule="parts of 15 kinds played in equal sessions again and again, in one long session, and abandoned in the middle; bytes held (counted by the allocator), open "
             "files and threads of the process are compared after each session, in each round, after the part is destroyed, and as soon as a stream is stopped; assignments; non-trivial = more than one",
        min_events={"sessions": 2000, "rounds_watched": 20000, "abandoned": 300, "assignments": 500, "files_stopped": 1000},
    ),
})
PROPS.update({
    "P23": dict(
        src=["p23_work.cpp"], flavors=["count"], libs=["-Wl,--wrap=memmove,--wrap=memcpy,--wrap=memset"],
        rule="steps (basic blocks executed, bytes moved, allocations: counted, not timed) of each round of sessions of 6000 rounds, of up to 400 equal sessions, of "
             "parts with high phases, times and counts, and of the same work on 1, 2 and 4 times the audio; the oracle is the same part earlier, or with less audio",
        min_events={"rounds_measured": 100000, "sessions_measured": 10000, "scalings_measured": 300, "late_rounds": 500},
    ),
})

# cases per scenario are multiplied by this, so that a quick run explores for some seconds on 8 cores
for _p, _n in dict(P01=25, P02=50, P03=30, P04=15, P05=25, P06=30, P07=10, P08=25, P09=30, P10=30, P11=30, P12=10, P13=2, P14=10, P15=6,
                   P16=10, P17=7, P18=20, P19=10, P20=12, P21=15, P22=15, P23=8).items():
    PROPS[_p]["scale"] = _n
PROPS["P03"]["exhaustive"] = ["all_codes", "codec16"]      # cases are slices of the whole code space
