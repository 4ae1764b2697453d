"""Table of checks: harness, entries, bounds. Budgets are seconds (quick, thorough)."""
PROPS = {}
def P(id, harness, entries, **kw):
    es = [e if isinstance(e, dict) else {"name": e} for e in entries]
    PROPS[id] = dict(id=id, harness=harness, entries=es, **kw)

THREADS = ["thread/posix/PosixThreadEngine.cpp", "thread/posix/PosixCallOnce.cpp", "thread/Thread.cpp", "self_counter.cpp", "thread/DummyCancellationToken.cpp", "thread/posix/PosixConditionVariable.cpp", "thread/CancellationToken.cpp", "core/NullPtrType.cpp", "thread/TaskLifeToken.cpp"]
CORE = ["string/string_stream.cpp", "toolkit.cpp", "exception.cpp"]

P("B01", "bits.cpp", ["bits_get", "bits_set", "bits_le", "bits_bounds", "bitstream_rt", "bitstream_strings", "bitstream_misc"],
  tus=CORE,
  bounds="bit offsets 0-7 and 11 (little-endian 0, 3, 7, 8, 12) with 22 type/width combinations of 1-64 bits over a 12-byte buffer of arbitrary bytes; stream histories of 3 (thorough 4) writes of width 1/3/8/13/32/64 from every start alignment; strings of up to 3 bytes")

P("B02", "views.cpp", ["view_data", "view_access", "view_array", "view_compare", "view_grow", "view_grow_slice", "view_convert", "view_owner", "owner_life"], tus=CORE,
  bounds="arrays of 0-6 arbitrary bytes, every 64-bit offset and size, two levels of slicing; histories of 3 appends or resizes")

P("I01", "circ.cpp", ["circ_fifo", "circ_discard", "circ_bithread", "databuf", "packetbuf", "paged"], tus=CORE + THREADS + ["io/BithreadCircularBuffer.cpp", "io/PagedBuffer.cpp", "io/BufferedDataConsumer.cpp", "io/BufferedDataSource.cpp"], log=True,
  bounds="storage of 1-4 bytes (data buffers up to 4 packets), every rotation and fill as pre-state, symbolic contents and sizes; histories of 2-4 (thorough 3-5) operations")
P("I02", "streams.cpp", ["mem_stream", "mem_seek", "chunked_stream", "buffered_stream", "buffered_seq", "offset_stream", "window_stream", "read_helpers", "read_line", "aligner", "take_skip", "sources", "packets", "pipes", "data_pipe"], tus=CORE + THREADS + ["io/DataSourceReader.cpp", "io/ByteDataConsumer.cpp", "io/PipeDataSource.cpp", "io/PipeReader.cpp", "io/BufferedPipe.cpp"], log=True,
  bounds="streams of 0-7 arbitrary bytes, histories of 3 (thorough 4) operations (offset and windowed streams: 2 (3) from every position), every 64-bit seek offset, buffers of 2-4 bytes with alignment 1-4, underlying reads of 1 byte or whole; sources of 0-8 bytes in every division into pieces of up to 5 bytes; pipes of 0-5 bytes with buffers of 1-4; 1-3 processing stages over up to 5 bytes")
P("N01", "num.cpp", ["big_add", "big_compare", "big_bits", "big_mul", "big_div", "big_div_long", "big_div_small", "big_text"], tus=CORE + ["BigNum.cpp", "Decimal.cpp", "math.cpp"],
  bounds="operands of up to 128 arbitrary bits (products: one factor a power of two, or 2401 pairs of extreme words; divisions: quotients of 0-10 with divisors of up to 92 bits and any remainder, and all divisions of 0-63 by 0-15); texts of up to 2 (thorough 3) arbitrary characters in bases 2, 10, 16 and 36; byte strings of up to 2 (3) bytes")
P("N02", "num.cpp", ["dec_arith", "dec_mul", "dec_compare", "dec_text", "dec_print", "fixed_ops", "fixed_text", "int_helpers"], tus=CORE + ["BigNum.cpp", "Decimal.cpp", "math.cpp"],
  bounds="decimals with exponents 0-3 (thorough 5) and mantissas whose result fits 64 bits; comparisons of any 64-bit mantissa with 9 extreme ones, exponents up to 18 (40) apart; decimal texts of up to 4 (5) characters of \"019.-+x\"; 16-bit fixed-point operands (quotients: 5 divisors)",
  assumptions=["results that do not fit the mantissa, fixed_point::sqrt and texts without an integral part after a sign are not decided"])
P("S01", "text.cpp", [{"name": "int_parse", "solver_ms": (24000, 60000)}, "int_bad", "int_print", "hex_print", "hex_parse", "hex_bytes", "hex_dump", "uuid", "version", "format", "parse", "builder"], tus=CORE + ["UUID.cpp", "Version.cpp", "string/string_view.cpp", "string/ToString.cpp"],
  bounds="printing: every value of all 8 integer types (of texts longer than 5 digits the first and last two digits vary); parsing: texts of up to 21 digits with sign, any bad character in texts of up to 4 characters; hexadecimal of every value of 8-64 bits with widths up to two over; byte strings of up to 3, dumps of up to 5 bytes; versions of up to 6 characters of '19.+'; formats of up to 3 pieces",
  assumptions=["a sign without digits and the text of negative numbers in hexadecimal are not decided"])
P("S02", "strings.cpp", ["view_find", "view_find_set", "view_slice", "view_compare", "replace", "filter_strip", "letters", "split_join", "joiner", "string_ref", "lines", "edit_distance", "ostream_growth"], tus=CORE + ["string/string_view.cpp", "string/ToString.cpp", "string/StringUtils.cpp"], 
  bounds="texts of up to 5-7 characters (arbitrary, or of a two-letter alphabet where matches matter), patterns of up to 2, every 64-bit position and count for slices",
  assumptions=["find_*_not_of with an empty set and ReplaceAll of an empty pattern are not decided"])

TIME = ["time/Time.cpp", "time/BrokenDownTime.cpp", "time/NtpTimestamp.cpp", "time/ElapsedTime.cpp", "time/posix/TimeEngine.cpp", "string/string_view.cpp", "string/ToString.cpp", "string/StringUtils.cpp", "math.cpp", "SystemException.cpp"]
P("T01", "times.cpp", ["dur_arith", "dur_print", "dur_parse", "instants", "elapsed", "clock_set"], tus=CORE + TIME,
  bounds="sums and differences of all values of half the 64-bit range; products, quotients, rounding and units within 4000 of 0, +-1 day, 2^53 and the extremes; printed texts of durations of 0, 1-9, 10-99 and 2562047 hours where one (thorough two) of minutes, seconds, milliseconds, microseconds takes every value and the rest are least or greatest, in 12 formats; parsed numbers of up to 3 (5) digits with any unit letter; clock readings at and next to 0, 1 s, 2^32 us and 2^49 us")
P("T02", "times.cpp", ["calendar", "calendar_fields", "calendar_compare", "days_to", "time_print", "iso_parse", "time_parse", "iso_duration", "exchange", "zones"], tus=CORE + TIME,
  bounds="7 (thorough 16) days of the year in 10 years of 1970-2400, for calendar fields 17 (18) years from 1600; one (two) of hour, minute, second, millisecond takes every value, the others are least or greatest; 5 zone offsets; fields carried over by up to 300 units and 200 days; 8 print formats, 7 forms of ISO 8601, 6 other forms, durations with 0-9 of every unit and from 7 base days over 20 spans; every NTP timestamp; Windows times, Julian days 0-99999",
  assumptions=["regular expressions follow the engine's model of std::regex (the native replay uses the real one)", "zone texts with a negative hour field, durations of 32768 hours or more in ISO text, instants beyond 32-bit time_t and ToNtpTimestamp of negative fractions are not decided"])

P("S03", "codecs.cpp", ["utf8_walk", "utf8_malformed", "single_byte", "unicode", "surrogates", "code_page", "locale_compare", "pattern_search", {"name": "range_regex", "steps": 20000000}, "human_size", "enum_names", "lang_code"], tus=CORE + ["locale/StringCodec.cpp", "locale/LocaleString.cpp", "locale/LangCode.cpp", "string/RegexUtils.cpp", "string/HumanReadableSize.cpp", "string/string_view.cpp", "string/ToString.cpp", "string/StringUtils.cpp", "EnumToString.cpp", "math.cpp", "serialization/Serialization.cpp"],
  bounds="texts of up to 2 (thorough 3) arbitrary code points in every encoding form, any 1-4 (5) bytes as UTF-8, every byte of 16 single-byte encodings and CP866; 1-3 of 13 patterns over texts of up to 5 (6) letters; ranges between 24 numbers and digit texts of 1-4 and 19-20 digits; sizes of up to 4 (6) digits",
  assumptions=["overlong UTF-8, encoded surrogates and code points beyond 0x10FFFF in UTF-8, box-drawing characters of CP866, undefined bytes, flags without names and printing of human-readable sizes are not decided"])

P("M01", "memory.cpp", ["shared_history", "self_count", "unique_history", "chains", "functions", "tokens", "holders"], tus=CORE + THREADS + ["shared_ptr.cpp", "string/ToString.cpp", "function/function_name_getter.cpp"], log=True,
  bounds="two strong and two weak pointers from 10 start states, histories of 2 (thorough 3) of 17 operations; three intrusive or two unique pointers, histories of 3 (4) of 8-9 operations; chains of 3 objects; tokens and pools of up to 3; holder histories of 4 (5)")
P("M02", "values.cpp", ["optional_history", "optional_compare", "variant_history", "variant_empty", "variant_compare", "any_history", "any_types", "tuples"], tus=CORE + ["any.cpp", "self_counter.cpp", "function/function_name_getter.cpp", "TypeInfo.cpp", "string/ToString.cpp", "string/string_view.cpp", "string/StringUtils.cpp", "serialization/Serialization.cpp", "EnumToString.cpp", "math.cpp"],
  bounds="two optionals (histories of 3, thorough 4, of 14 operations), variants or anys (2, thorough 3, of 7-10) from every initial kind of value, a copy that throws at every place; comparisons of all 32-bit values and 2-byte strings")
P("C01", "containers.cpp", ["flat_map_history", "flat_set_history", "ordered_map_history", "ordered_set_history", "flat_search", "map_compare", "bimap_history", "inplace_history", "intrusive_list", "erase_matching", "arrays"], tus=CORE + ["string/ToString.cpp", "TypeInfo.cpp"],
  bounds="flat and ordered maps and sets of 0-3 elements with either order of keys, histories of 2 (thorough 3) operations out of 14-15 kinds on keys at every place relative to the elements; searches with arbitrary 8-bit keys in up to 3 (4) elements; comparisons of containers of up to 2 elements; bimap histories of 3 (4) operations on 3 by 3 keys; in-place vectors of capacity 2 with 0-4 elements, 3 (4) operations and a copy that throws at the first or last element; every subset erased of containers of 0-4 elements; intrusive lists of 4 nodes and 5 (7) operations; all values",
  assumptions=["no requests outside the documented preconditions (iterators of another container, a flat map built from an unsorted adopted sequence); allocation does not fail"])
P("C02", "collections.cpp", ["array_list", "observable_list", "list_copies", "sorted_set", "observable_set", "sorted_multiset", "observable_multiset", "set_flavours", "sorted_dictionary", "observable_dictionary", "dictionary_flavours", "multimap_dictionary", "observable_multimap", "views", "any_keys"],
  tus=CORE + THREADS + ["thread/JoiningCancellationToken.cpp", "thread/TimedCancellationToken.cpp", "thread/posix/PosixSemaphore.cpp", "time/ElapsedTime.cpp", "time/posix/TimeEngine.cpp", "time/Time.cpp", "signal/signal_policies.cpp", "shared_ptr.cpp", "function/function_name_getter.cpp", "string/ToString.cpp", "TypeInfo.cpp", "log/LoggerMessage.cpp"], log=True,
  bounds="lists, sets, multisets, dictionaries and multi-dictionaries of 0-3 elements, plain and observable, over trees, flat storage and in insertion order; histories of 2 (thorough 3) operations out of 8-11 kinds with a forward and a reversed snapshot taken before or between them; views with histories of 3 (4) operations; lookups with arbitrary 8-bit keys in up to 2 (3) elements; all values",
  assumptions=["one thread (the locking of observable collections is exercised with X03); observers do not change the collection they observe"])
WAIT = ["thread/JoiningCancellationToken.cpp", "thread/TimedCancellationToken.cpp", "thread/posix/PosixSemaphore.cpp"]
# entry of a concurrency check: preemptions and timeouts (quick, thorough)
def C(name, pre=2, to=2, **kw): return dict(name=name, preempt=(pre, pre + 2), timeouts=(to, to + 1), **kw)
P("C04", "transactions.cpp", ["set_history", "dict_history", "list_history", "bulk_set", "bulk_dict", "bulk_list", "any_values", "views", C("concurrent_dict", race=True), C("concurrent_list", race=True), C("concurrent_watch", race=True), C("cancelled_start", pre=1, race=True)],
  tus=CORE + THREADS + WAIT + ["time/ElapsedTime.cpp", "time/posix/TimeEngine.cpp", "time/Time.cpp", "signal/signal_policies.cpp", "shared_ptr.cpp", "function/function_name_getter.cpp", "string/ToString.cpp", "TypeInfo.cpp", "EnumToString.cpp", "log/LoggerMessage.cpp"], log=True, conc=True, sched_files="TransactionalDictionary.h|TransactionalList.h|TransactionalSet.h",
  bounds="lists, sets and dictionaries of 0-2 committed elements; histories of 2 (sets 3; thorough 1 more) operations of a transaction out of 4-7 kinds, commit, revert and restart, with snapshots of both contents and of the diff taken after the first; arbitrary values in a dictionary of 2 keys; two threads with a transaction each and a reader, or a cancelled one, with at most 2 (thorough 4) preemptions, also at every access to the collections' data",
  assumptions=["a transaction is used by one thread; observers do not change the collection they observe"])
P("X01", "waiting.cpp", [C("broadcast_wakes"), C("cancel_wakes", 3), C("timed_waits"), C("sleeping"), C("wait_lifetime"), C("token_reset", 4), C("mutex_excludes", 3), C("semaphore_counts"), C("barrier_rounds", 3), C("thread_life", 3)],
  tus=CORE + THREADS + WAIT + ["time/ElapsedTime.cpp", "time/posix/TimeEngine.cpp"], conc=True, log=True,
  bounds="2-3 threads besides the main one with at most 2-4 preemptions (thorough 4-6) and 2 (3) timeouts that come while others could still run; limits of 0-80 us and a 1 s sleep on a virtual clock; all values of the condition waited for; barriers of 1-3 threads for 2 rounds",
  assumptions=["preemption at lock, wait, semaphore and once operations (and where threads share memory without them); condition variables do not wake up spuriously and system calls are not interrupted by signals"])
P("X02", "sharing.cpp", [C("shared_count", 2, race=True), C("self_count", 3, race=True), C("once"), C("guarded_values", race=True), C("object_pool", 2, race=True)],
  tus=CORE + THREADS + WAIT + ["time/ElapsedTime.cpp", "time/posix/TimeEngine.cpp", "shared_ptr.cpp", "function/function_name_getter.cpp", "string/ToString.cpp", "TypeInfo.cpp", "log/LoggerMessage.cpp", "time/Time.cpp"], conc=True, log=True, sched_files="shared_ptr.h|self_counter.h|AtomicInt.h|AtomicFlag.h|thread/atomic.h", 
  bounds="2 threads (thorough 3) with every pair of 4-6 operations on counted pointers, preempted at every access to the counts; 2-3 threads for initialization and guarded values; at most 2-3 preemptions (thorough 4-5); all object values",
  assumptions=["atomic operations are sequentially consistent; destruction of singletons at program exit is not decided"])
P("X03", "signals.cpp", [C("life_token", 4), C("signal_threads", 3), C("signal_state", 3), "signal_reentrant", "signal_history", "signal_kinds"],
  tus=CORE + THREADS + WAIT + ["time/ElapsedTime.cpp", "time/posix/TimeEngine.cpp", "time/Time.cpp", "signal/signal_policies.cpp", "thread/ThreadlessTaskExecutor.cpp", "shared_ptr.cpp", "function/function_name_getter.cpp", "string/ToString.cpp", "TypeInfo.cpp", "log/LoggerMessage.cpp"], conc=True, log=True, 
  bounds="2-3 threads with at most 3-4 preemptions (thorough 5-6); signals with up to 4 slots, 2 calls, all arguments; histories of 4 (5) operations; three slots with every combination of connecting, disconnecting and throwing inside a call")
P("X04", "executors.cpp", [C("thread_executor", 2, 0), C("executor_release", 3), C("threadless_executor", 3), C("pool_queue", 1, 0), C("pool_clients", 0, 0), C("pool_wait", 1, 0), C("pool_idle", 1, 1)],
  tus=CORE + THREADS + WAIT + ["time/ElapsedTime.cpp", "time/posix/TimeEngine.cpp", "time/Time.cpp", "thread/ThreadlessTaskExecutor.cpp", "thread/ThreadTaskExecutor.cpp", "thread/ThreadPool.cpp", "shared_ptr.cpp", "function/function_name_getter.cpp", "string/ToString.cpp", "TypeInfo.cpp", "log/LoggerMessage.cpp"], conc=True, log=True, 
  bounds="2-3 client threads and up to 2 executor threads with at most 0-3 preemptions (thorough 2-5) and, for idle threads, 1 (2) early timeout; up to 4 tasks, all their data; tasks that throw, add tasks, take locks or sleep",
  assumptions=["tasks still queued when a thread pool is destroyed are not decided"])
P("X05", "timers.cpp", [C("timer_order", 1, 0), C("timer_remove", 2, 1), C("timer_periodic", 1, 0), C("timer_destroy", 1, 0), C("deferrer", 1, 0)],
  tus=CORE + THREADS + WAIT + ["time/ElapsedTime.cpp", "time/posix/TimeEngine.cpp", "time/Time.cpp", "timer/Timer.cpp", "shared_ptr.cpp", "function/function_name_getter.cpp", "string/ToString.cpp", "TypeInfo.cpp", "log/LoggerMessage.cpp"], conc=True, log=True, 
  bounds="a timer's thread, the main one and one more with at most 1-2 preemptions (thorough 3-4) and up to 1 early timeout; up to 4 timeouts of 0-100 us that may coincide, periodic ones over 40 us; tasks that throw, take locks or set timeouts; all their data",
  assumptions=["the virtual clock stands still while threads run; a task that resets its own token and concurrent calls of one deferrer are not decided"])
P("X06", "futures.cpp", ["promise_history", "promise_broken", C("future_threads", 2), C("future_wait", 2, 1), C("async_function", 2, 0), C("signal_future", 2)],
  tus=CORE + THREADS + WAIT + ["time/ElapsedTime.cpp", "time/posix/TimeEngine.cpp", "time/Time.cpp", "signal/signal_policies.cpp", "thread/ThreadlessTaskExecutor.cpp", "thread/ThreadTaskExecutor.cpp", "shared_ptr.cpp", "function/function_name_getter.cpp", "string/ToString.cpp", "TypeInfo.cpp", "log/LoggerMessage.cpp"], conc=True, log=True, 
  bounds="histories of 4 (thorough 5) operations on two promises and their futures, all values; up to two threads setting, two waiting, one cancelling, with at most 2 preemptions (thorough 4), 0-1 early timeouts (1-2), delays of 0-20 us")
P("X07", "transfer.cpp", [C("pipe_threads", 3), C("pipe_cancel", 3), C("pipe_shared", 2), C("buffer_threads", 2), C("buffer_writers", 1), C("buffer_wait", 2), C("buffer_worker", 1, 0), C("paged_threads", 2, 0), C("packet_threads", 2), C("async_stream", 1, 0), C("async_merge", 0, 0), C("async_sync", 1, 0)],
  tus=CORE + THREADS + WAIT + ["time/ElapsedTime.cpp", "time/posix/TimeEngine.cpp", "time/Time.cpp", "io/AsyncByteStream.cpp", "io/BithreadCircularBuffer.cpp", "io/PagedBuffer.cpp", "io/BufferedDataConsumer.cpp", "io/BufferedDataSource.cpp", "signal/signal_policies.cpp", "thread/ThreadlessTaskExecutor.cpp", "shared_ptr.cpp", "function/function_name_getter.cpp", "string/ToString.cpp", "TypeInfo.cpp", "log/LoggerMessage.cpp"], conc=True, log=True, 
  bounds="2-4 threads with at most 0-3 preemptions (thorough 2-5) and up to 2 early timeouts; 2 writes of 1-3 bytes through a pipe, buffers of 2-4 bytes carrying 3-6, 3 packets of 1-3 bytes; a thread filling a buffer with up to 4 bytes; asynchronous streams with buffers of 2-12 bytes, 2-4 operations and whole or one-byte writes below; all data",
  assumptions=["the number of bytes a cancelled write handed over is not decided, nor are two readers or two writers of one BithreadPipe"])
P("C05", "pipelines.cpp", ["range_walk", "range_compose", "range_advanced", "range_compose_walk", "range_split", "range_cycle", "range_types", "queries", "enumerables", "enumerables_compose", "enumerators", "diff_equal", "diff_sorted", "stl_adapter", "from_enumerable", "data_joiner"],
  tus=CORE + THREADS + ["shared_ptr.cpp", "function/function_name_getter.cpp", "string/ToString.cpp", "TypeInfo.cpp", "EnumToString.cpp", "log/LoggerMessage.cpp"], log=True,
  bounds="ranges over 0-3 arbitrary bytes: 9 kinds with histories of 3 (thorough 4) of 5 movements, every pair of 5 adapters over 9 kinds walked fully in both directions, adapters over adapters with histories of 2; split, cycled and typed ranges of up to 5, 3 and 3 elements; 28 queries with any element sought; 13 kinds of enumerables and every pair of them, enumerated repeatedly and interleaved; differences of any sorted sequences of up to 2; three joined byte containers of 0-2 bytes",
  assumptions=["a step back from the end of concatenated or flattened ranges is refused by design; ranges are not advanced before they are adapted; a flattened range of temporaries is not decided"])
P("I03", "compression.cpp", ["coder", "bits_out", "bits_in", "ppm", "ppm_refused", "ppm_compact", "ppm_scaled", {"name": "ppm_long", "steps": 400000000}], tus=CORE + THREADS + ["shared_ptr.cpp", "function/function_name_getter.cpp", "string/ToString.cpp", "TypeInfo.cpp"], log=True,
  bounds='coder: 1-3 (thorough 4) symbols with every interval on scales 2, 256 and 32768 and the edge intervals on scales 3, 7, 259, 1000 and 65521, arbitrary bits following; bit buffers of 2 bytes with histories of 3 (4) and 4 (5) operations, consumers taking any amount; PPM models of orders 2-1-0, 1-0 and 0 trained with 1-3 letters (compacted: 2-4; scaled counts 253-600), every byte allowed in the data of 0-2 (3) letters, consumers of one byte and refusing at call 0-2; one run of 950 (1100) bytes',
  assumptions=['memory thresholds leave room for the shortest model and the dictionary was trained with at least a byte (otherwise creating it is refused)'])
P("C03", "caches.cpp", ["cache_fifo", "cache_lru", "cache_two_queues", "counted_map", "counted_set", "counted_value"], tus=CORE + THREADS + WAIT + ["time/ElapsedTime.cpp", "time/posix/TimeEngine.cpp", "time/Time.cpp", "signal/signal_policies.cpp", "shared_ptr.cpp", "function/function_name_getter.cpp", "string/ToString.cpp", "TypeInfo.cpp", "EnumToString.cpp", "log/LoggerMessage.cpp"], log=True,
  bounds='caches with any capacity of 0-600, elements of any size of 0-255, 0-3 initial elements and histories of 2 (thorough 3) operations; two-queue cache with capacities of 0-2 per queue and 3 (5) operations; counted maps and sets with 4 (5) operations, counted values with 6 (7)',
  assumptions=['the functions that create and remove counted values do not throw when removing; counted maps are iterated forward'])
P("D01", "serial.cpp", ["numbers", "checked_numbers", "containers", "optionals", "variants", "composites", "missing", "binary_text", "collections", "transactional", "injection", "factory", "helpers", "anys", "cut_anys", "times", "observed_sets", "kept_objects"],
  tus=CORE + THREADS + WAIT + ["any.cpp", "Size.cpp", "time/ElapsedTime.cpp", "time/posix/TimeEngine.cpp", "time/Time.cpp", "signal/signal_policies.cpp", "shared_ptr.cpp", "function/function_name_getter.cpp", "string/ToString.cpp", "TypeInfo.cpp", "EnumToString.cpp", "log/LoggerMessage.cpp", "serialization/Serialization.cpp", "serialization/FloatString.cpp", "factory/Factory.cpp", "SystemException.cpp", "string/StringUtils.cpp", "string/string_view.cpp"], log=True,
  bounds='all values of every integer type, also into every other checked one; text, vectors, lists, sets, maps, pairs, arrays, tuples of 0-3 elements (arbitrary contents) read over 0-2 old ones; variants, optionals, enumerations and composites with every subset of members missing; hex text of 0-4 digits; every tree of values two (three) deep with up to 2 children; two levels of class registrations; a value of any of 14 kinds read over 4 others, with any member missing or of another kind; all moments, lengths, zones and sizes; observed sets of 0-3 elements; objects kept by key, one or two inside another',
  assumptions=['the textual form of the stream of values is not in this repository: the harness keeps the values written as a tree; floating-point numbers (six digits by design, also inside a value of any kind), a pair given fewer than two elements and plain integers given a number too great for them are not decided'])
P("V01", "state.cpp", ["value_history", C("value_threads"), "transaction", "progress", "aggregate", "average", C("sequence", race=True), "mapper", "geometry", "rect_order", "command_text", "command_args", "command_complete"],
  tus=CORE + THREADS + WAIT + ["time/ElapsedTime.cpp", "time/posix/TimeEngine.cpp", "time/Time.cpp", "signal/signal_policies.cpp", "shared_ptr.cpp", "function/function_name_getter.cpp", "string/ToString.cpp", "TypeInfo.cpp", "EnumToString.cpp", "log/LoggerMessage.cpp", "ActionTransaction.cpp", "ProgressValue.cpp", "Size.cpp", "CmdLine.cpp", "string/StringUtils.cpp", "string/string_view.cpp"], log=True, conc=True, sched_files="IntegerSequenceGenerator.h|thread/atomic|ObservableValue.h",
  bounds="observable values of 5 kinds (mandatory, conditional and disabled policies, own comparison, shared mutex) with histories of 3 (thorough 4) operations and 2 observers; setters and a watcher in 2-3 threads with 2 (4) preemptions, also at accesses to the value; transactions of 0-3 (0-4) actions, any one failing and any one undo failing; progress of totals 0, 1, 3, 7, 100 and 65536 (1000, 1048576), aggregates of 1-7 parts; every value mapped; rectangles with 16-bit coordinates, their order with 32-bit ones; command words and arguments of 1-2 (3) arbitrary characters, lists of 0-3, completion at every cut of 6 lines",
  assumptions=["progress stays below 2^63/100 and parts of an aggregate have a size of at least 1; completing an argument that is already whole offers the next one's values (by design)"])
P("F01", "functional.cpp", ["compare_values", "compare_pointers", "compare_members", "compare_member_values", "compare_collections", "compare_tuples", "compare_objects", "bind_order", "bind_objects", "functions", "functors", "casts", "visitors", "dispatch", "operations", "creators"],
  tus=CORE + THREADS + ["shared_ptr.cpp", "function/function_name_getter.cpp", "function/bind.cpp", "string/ToString.cpp", "TypeInfo.cpp", "EnumToString.cpp", "log/LoggerMessage.cpp"], log=True,
  bounds="comparers over all 32-bit values, null or either of two owned bytes, records of four members (one null or not), collections of 0-3 arbitrary bytes, tuples of three, every triple out of six objects of three classes; every permutation of three bound arguments, nested and method bindings; histories of 2 operations on two functions; casts of four objects, visits of three classes, dispatch over every pair of three kinds and five tags; all values",
  assumptions=["raw pointers of different allocations are ordered in some fixed way"])
P("L01", "logging.cpp", ["levels", "sinks", "named", "duplicates", "reports", C("log_threads", pre=1, race=True)],
  tus=CORE + THREADS + WAIT + ["log/Logger.cpp", "log/LoggerStream.cpp", "log/LoggerMessage.cpp", "time/ElapsedTime.cpp", "time/posix/TimeEngine.cpp", "time/Time.cpp", "signal/signal_policies.cpp", "shared_ptr.cpp", "function/function_name_getter.cpp", "string/ToString.cpp", "TypeInfo.cpp", "EnumToString.cpp", "string/StringUtils.cpp", "string/string_view.cpp"], conc=True, sched_files="log/Logger|log/NamedLogger|LoggerStream",
  bounds="messages of one arbitrary digit at all 6 levels under 6 global levels and 4 of a logger's own; histories of 4 adds and removals (thorough 5) over 3 sinks and 4 connections, one of them failing; 3 steps (thorough 4) out of 5 kinds over two names and two loggers; 6 messages (thorough 7) of two texts with limits of 1-3 or an interval met or not met; actions and macros with none or two kinds of exceptions at 3 levels; two or three threads that log, add sinks, change levels and create loggers, with at most 1 (thorough 3) preemptions at the library's accesses to shared data",
  assumptions=["what a sink does with a message is its own; the format of the system log is not looked at"])
P("S04", "translations.cpp", ["histories", "order_of", "formats", "translit_any", "translit_words"],
  tus=CORE + THREADS + ["shared_ptr.cpp", "function/function_name_getter.cpp", "string/ToString.cpp", "TypeInfo.cpp", "EnumToString.cpp", "log/LoggerMessage.cpp", "serialization/Serialization.cpp", "serialization/FloatString.cpp", "factory/Factory.cpp", "string/StringUtils.cpp", "string/string_view.cpp", "string/TranslatedString.cpp", "locale/LangCode.cpp", "locale/Translit.cpp"], log=True,
  bounds="histories of 3 operations (thorough 4) out of 6 kinds on two texts in 3 languages with arbitrary letters; all pairs of texts of 0-3 languages with 0-1 letters; 3 formats with every subset of languages in format and argument; arbitrary patterns of up to 2 (thorough 3) bytes in arbitrary texts of up to 4 (5); all words of one or two of the 34 spellings with an arbitrary byte before and after",
  assumptions=["a builder is not used after its text was taken; the table of spellings is the one of the source, with k and q as corrected; collation and lower case of Unicode are done by ICU, whose library cannot be encoded"])
P("X08", "watching.cpp", ["profilers", "checkpoints", "auto_checkpoints", "sessions", "guards", "guards_threads", "api_stack", C("watchdog", pre=1, to=0, race=True)],
  tus=CORE + THREADS + WAIT + ["diagnostics/AsyncProfiler.cpp", "diagnostics/CheckpointProfiler.cpp", "thread/ThreadOperation.cpp", "log/Logger.cpp", "log/LoggerStream.cpp", "log/LoggerMessage.cpp", "time/ElapsedTime.cpp", "time/posix/TimeEngine.cpp", "time/Time.cpp", "shared_ptr.cpp", "function/function_name_getter.cpp", "string/ToString.cpp", "TypeInfo.cpp", "EnumToString.cpp", "string/StringUtils.cpp", "string/string_view.cpp"], conc=True, sched_files="AsyncProfiler",
  bounds="thresholds of 0, 1 and 100 ms with times at, just below and above them for 9 ways of profiling at 2 levels; histories of 4 (thorough 5) of 4 operations of a checkpoint profiler with 3 times; nested sessions two deep with 3 times each; all nestings of 3 restrictions of any one or two operations; stacks of 3 guards with exceptions; one or two threads with work of 1-61 seconds watched, with at most 1 (thorough 3) preemptions at every access of the watchdog",
  assumptions=["times passed are exact (a virtual clock); restrictions are ended by the thread that made them; leaving the area of an exclusive operation ends the process, which is not explored"])
