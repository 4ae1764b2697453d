"""Texts of the properties (source of properties.jsonl and MANIFEST.json; see tools/gen.py)."""
META = {}
def M(id, title, statement, over, text, why, files, mech, reason=None):
    META[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason)
M("B01", "Bit fields and bit streams move exactly the addressed bits",
  "Reading a bit field from a byte buffer returns exactly the addressed bits (most significant bit first, or byte-reversed for whole-byte little-endian fields), and writing one changes exactly those bits and nothing else. A bit stream reads back the fields, bytes and strings that were written to it, in order, from any start position. Any access that does not lie inside the buffer is refused with an exception and changes nothing.",
  ["inputs", "histories"], "all buffer contents and field values; field offsets 0-7 and 11, 22 width/type combinations; all stream histories of 3 operations",
  "Unit tests use a handful of fixed buffers; the guarantee is over all contents, offsets and widths.",
  ["stingraykit/BitsGetter.h", "stingraykit/io/BitStream.h"],
  [("field extraction and insertion loops", "stingraykit/BitsGetter.h:BitsGetterProxy, BitsSetterImpl"), ("stream position and bounds checks", "stingraykit/BitsGetter.h:BasicBitStream")])
M("B02", "Byte arrays and views access exactly the addressed bytes of live memory",
  "A byte array or byte view, sliced to any depth from an array by offset and size, shows exactly the bytes of the array at those positions, and writing through it changes exactly those bytes. A slice or resize that would reach outside the sliced array is refused with an exception. Appending to or growing an array keeps the existing bytes, views that share ownership keep the memory alive, and comparisons agree with byte-wise lexicographic order and equality.",
  ["inputs", "histories"], "every array content of up to 6 bytes, every 64-bit offset and size, two levels of slicing, histories of 3 appends or resizes",
  "Offsets and sizes near the wrap-around of size_t, and slices of slices, are not sampled by tests.",
  ["stingraykit/collection/ByteData.h", "stingraykit/collection/BytesOwner.h"],
  [("slicing constructors and bounds checks", "stingraykit/collection/ByteData.h:BasicByteArray, BasicByteData"), ("ownership of the bytes", "stingraykit/collection/BytesOwner.h")])
M("I01", "Buffers deliver exactly the stored data, once and in order",
  "Every buffer is a bounded first-in first-out queue: after any history of writes, reads and clears, wherever the data lie in the storage, what is read is exactly the bytes (or packets) that were written and not yet read, in the order they were written, nothing lost, duplicated or altered, and the sizes reported agree with that. A write that fits the free space is accepted (wholly, or a non-empty prefix where the interface says so); one that does not fit is refused, or in a discarding buffer drops exactly the oldest bytes. Data held by a reader stay unchanged while they are held, and end of data and stored exceptions are delivered after all the data.",
  ["inputs", "histories"], "all contents and sizes; histories of 2-4 operations from every rotation and fill of storages of 1-4 bytes",
  "Tests follow a few fixed histories; wrap-around positions and sizes that only just fit matter.",
  ["stingraykit/io/CircularBufferBase.h", "stingraykit/io/MemoryCircularBuffer.h", "stingraykit/io/BithreadCircularBuffer.cpp", "stingraykit/io/DataBuffer.h", "stingraykit/io/PacketBuffer.h", "stingraykit/io/PagedBuffer.cpp"],
  [("offset arithmetic and wrap-around", "stingraykit/io/CircularBufferBase.h"), ("packet boundaries and padding", "stingraykit/io/PacketBuffer.h"), ("pages", "stingraykit/io/PagedBuffer.cpp")])
M("I02", "Byte streams and data sources move exactly the addressed bytes",
  "Memory, chunked, buffered, offset and windowed byte streams behave as an array of bytes with a position: a read returns the bytes at the position, a write puts the given bytes there (growing the stream only where the stream can grow), both move the position by the size they report, and a seek moves it to exactly the requested place from the beginning, the current position or the end; a seek outside the stream is refused. Buffering, whatever the buffer size, alignment and sizes of the underlying reads, is invisible, and a windowed stream never touches bytes outside its window. The read and write helpers move everything they report, lines are split at CR, LF and CRLF, and data sources, packeters, aligners, takers, skippers, interceptors and pipe readers deliver every byte once, in order, unchanged, and end of data after all of them. In a pipe of processing stages each stage gets what the one before it gives, in order, and at the end whatever a stage kept goes through the stages after it before they end.",
  ["inputs", "histories"], "all contents; streams of 0-7 bytes, histories of 2-3 operations from every position with every seek offset, reads split in every way; sources of up to 6-8 bytes in every division into pieces",
  "Tests use a few fixed reads; short reads, seeks into and out of the buffer and window edges matter.",
  ["stingraykit/io/MemoryByteStream.h", "stingraykit/io/ChunkedMemoryByteStream.h", "stingraykit/io/BufferedStream.h", "stingraykit/io/ByteStreamWithOffset.h", "stingraykit/io/ByteStreamWithOffsetAndSize.h", "stingraykit/io/IInputByteStream.h", "stingraykit/io/IByteStream.h", "stingraykit/io/DataAligner.h", "stingraykit/io/DataUtils.h", "stingraykit/io/DataPacketer.h", "stingraykit/io/ByteStreamDataSource.h", "stingraykit/io/IDataSource.h", "stingraykit/io/PipeDataSource.cpp", "stingraykit/io/PipeReader.cpp", "stingraykit/io/BufferedPipe.cpp", "stingraykit/DataPipe.h"],
  [("buffer position and refill", "stingraykit/io/BufferedStream.h:Read, SeekInBuffer, SeekStream"), ("window limits", "stingraykit/io/ByteStreamWithOffsetAndSize.h"), ("line splitting", "stingraykit/io/IByteStream.h:ReadLine"), ("alignment remainder", "stingraykit/io/DataAligner.h:Align")])
M("N01", "Big unsigned integers compute exactly",
  "Arithmetic, shifts, bitwise operations and comparisons on big unsigned integers of any length give the mathematically exact result, in place or not, also when an operand is aliased; a subtraction below zero, a division by zero, a negative initial value and a conversion to a type the value does not fit are refused with an exception. Printing and parsing in any base and conversion to and from big-endian bytes preserve the value, and malformed digits are refused.",
  ["inputs"], "all operands of up to 128 bits for sums, differences, comparisons and bitwise operations; shifts by 10 amounts; structured operands for products and quotients; texts of up to 3 characters",
  "Carries and borrows across unit boundaries and units of equal or zero value decide correctness; tests use a few constants.",
  ["stingraykit/BigNum.h", "stingraykit/BigNum.cpp"],
  [("carry and borrow across units", "stingraykit/BigNum.cpp:operator +=, operator -="), ("long division", "stingraykit/BigNum.cpp:operator /="), ("order of units", "stingraykit/BigNum.cpp:operator <")])
M("N02", "Decimals, fixed-point numbers and integer helpers compute exactly",
  "Decimal sums, differences and products are exact whenever the result fits; order and equality compare the numerical values whatever the exponents; printing a decimal and parsing the text gives an equal decimal, and malformed text is refused. Fixed-point arithmetic gives the exact result rounded as documented; its text form denotes its value. Alignment, greatest common divisor, rounding of fractions, bit helpers, numeric ranges and averages give their mathematical results.",
  ["inputs"], "mantissas of up to 64 bits, exponents up to 40 apart, decimal texts of up to 5 characters, all 16-bit fixed-point operands, 32-bit ranges",
  "Large mantissas lose precision or overflow where small test values do not; signs and leading zeros of fractions are edge cases.",
  ["stingraykit/Decimal.h", "stingraykit/Decimal.cpp", "stingraykit/fixed_point.h", "stingraykit/math.h", "stingraykit/math.cpp", "stingraykit/NumericRange.h", "stingraykit/BitwiseOperations.h", "stingraykit/Average.h", "stingraykit/Accumulators.h"],
  [("scaling to a common exponent", "stingraykit/Decimal.cpp:PowToExponent"), ("digit-wise rounding", "stingraykit/math.cpp"), ("fixed-point scaling", "stingraykit/fixed_point.h")])
M("S01", "Numbers and identifiers survive conversion to text and back",
  "Printing an integer of any type gives its canonical decimal text and parsing that text gives the number back; text that is not a number, or whose value does not fit the type, is refused with an exception. Hexadecimal printing and parsing, hex dumps and byte strings, UUIDs and versions denote exactly the value they were made from and malformed text is refused. Formatting puts each argument where its placeholder stands, parsing a text by a format recovers the pieces, and building an integer from bit fields puts each field at its place.",
  ["inputs"], "every value of every integer type up to 5 digits (longer ones: first and last two digits arbitrary), texts of up to 21 digits, all hexadecimal values of 8-64 bits, bytes of up to 3-5",
  "Values at the limits of each type, overflows by one and odd characters at one position are not all sampled by tests.",
  ["stingraykit/string/ToString.h", "stingraykit/string/StringUtils.h", "stingraykit/string/Hex.h", "stingraykit/UUID.cpp", "stingraykit/Version.cpp", "stingraykit/string/StringFormat.h", "stingraykit/string/StringParse.h", "stingraykit/IntegerBuilder.h"],
  [("integer parsing and overflow", "stingraykit/string/ToString.h"), ("hexadecimal digits and width", "stingraykit/string/Hex.h"), ("version fields", "stingraykit/Version.cpp")])
M("S02", "String operations find, cut, split and join exactly the right characters",
  "Searching a string view for a character, text or character set, forwards or backwards from any position, gives the position std::string would give; slices and comparisons agree with std::string for every position and count and never read outside the string. Replacing, removing, filtering, trimming, padding, changing letter case, splitting with a limit, joining, line splitting, reference strings and edit distance give exactly the result their definition gives. The output string stream keeps every character written, however it grows.",
  ["inputs"], "texts of up to 5-7 characters, patterns of up to 2, every 64-bit position and count",
  "Overlaps, empty pieces, matches at the very end and positions near npos are easy to get wrong and rarely sampled.",
  ["stingraykit/string/string_view.h", "stingraykit/string/string_view.cpp", "stingraykit/string/StringUtils.h", "stingraykit/string/StringUtils.cpp", "stingraykit/string/string_stream.cpp"],
  [("searches", "stingraykit/string/string_view.h"), ("splitting and joining", "stingraykit/string/StringUtils.h"), ("growth of the buffer", "stingraykit/string/string_stream.cpp")])
M("T01", "Durations, instants and clocks compute exactly",
  "Durations and instants add, subtract, scale, divide, round, compare and convert between units exactly, and an interval contains exactly the instants between its ends. Printing a duration in any format shows its sign and the fields of its absolute value, and parsing a number with a unit gives that duration; malformed text or format is refused. Elapsed and remaining times follow the monotonic clock from the last start or restart, and the application's clock runs from the time that was set.",
  ["inputs", "schedules"], "instants and durations around zero, a day, 2^53 and the extremes; every field of the printed texts; clock readings around 0, 1 s, 2^32 and 2^49 microseconds",
  "Negative durations, carries between fields and values near the limits of the representation are not sampled by tests.",
  ["stingraykit/time/Time.h", "stingraykit/time/Time.cpp", "stingraykit/time/ElapsedTime.h", "stingraykit/time/RemainingTime.h", "stingraykit/time/TimeInterval.h", "stingraykit/time/posix/TimeEngine.cpp"],
  [("arithmetic and rounding", "stingraykit/time/Time.h:TimeDuration"), ("printing by a format", "stingraykit/time/Time.cpp:TimeDuration::ToString"), ("offset of the set time", "stingraykit/time/posix/TimeEngine.cpp")])
M("T02", "Calendar fields and exchange formats denote the instant",
  "Breaking an instant down gives the fields of the proleptic Gregorian calendar in UTC or local time, composing the fields gives the instant back, fields out of their ranges carry over, and days between instants are counted by calendar days. Printing an instant in any format and in ISO 8601 shows these fields, and every accepted text (ISO 8601 instants and durations, dates in the other accepted forms, time zones) denotes the instant, duration or offset it says; malformed text is refused. NTP timestamps, Windows file times, modified Julian days and BCD times denote the same instant when converted and back.",
  ["inputs"], "first and last days of months of 17 years between 1601 and 2400 and other days, every time of day varied field by field, 5 zone offsets, every form of the texts",
  "Leap years, ends of months, instants before 1970, zone offsets across midnight and their combinations are sampled by tests only here and there.",
  ["stingraykit/time/Time.cpp", "stingraykit/time/Time.h", "stingraykit/time/BrokenDownTime.cpp", "stingraykit/time/NtpTimestamp.cpp", "stingraykit/time/posix/TimeEngine.cpp"],
  [("calendar conversion", "stingraykit/time/posix/TimeEngine.cpp"), ("ISO 8601 parsers", "stingraykit/time/Time.cpp:TimeUtility, TimeDurationUtility"), ("Julian day and BCD", "stingraykit/time/Time.cpp:Time::GetMjd, MjdToEpoch")])
M("S03", "Encoded texts, pattern searches and names denote exactly what they say",
  "Decoding text in UTF-8, UTF-16, UTF-32 or any supported single-byte encoding gives the characters the encoding defines, walking UTF-8 backwards undoes walking it forwards, and malformed text is refused or replaced; texts compare by their code points whatever their encodings. A multi-pattern search reports every occurrence of every pattern exactly once, and a generated range expression matches exactly the decimal texts of the numbers of the range. Enum names and flags, language codes and human-readable sizes convert there and back without loss, and unknown names or sizes that do not fit are refused.",
  ["inputs"], "texts of up to 2-3 arbitrary code points or 4 arbitrary bytes, every byte of every single-byte encoding, all pattern sets of up to 3 of 13 patterns, ranges between 24 numbers",
  "Surrogates, truncated characters, nested and overlapping patterns and ranges with uneven ends are hardly sampled; the encodings have no tests at all.",
  ["stingraykit/string/Utf8IteratorRange.h", "stingraykit/string/Utf8StringUtils.h", "stingraykit/locale/StringCodec.cpp", "stingraykit/locale/LocaleString.cpp", "stingraykit/locale/LangCode.cpp", "stingraykit/string/AhoCorasick.h", "stingraykit/string/RegexUtils.cpp", "stingraykit/string/HumanReadableSize.cpp", "stingraykit/EnumToString.cpp"],
  [("decoding and walking", "stingraykit/string/Utf8IteratorRange.h:Get, Next, Prev"), ("tables of encodings", "stingraykit/locale/StringCodec.cpp"), ("failure links", "stingraykit/string/AhoCorasick.h:Build, Search"), ("digit ranges", "stingraykit/string/RegexUtils.cpp")])
M("M01", "Owning pointers and tokens release their object exactly once",
  "A shared, intrusive or unique pointer keeps its object alive for as long as any owner refers to it, however pointers are copied, moved, swapped, converted, aliased, locked from a weak pointer or reassigned, and the object is destroyed, and its memory freed, exactly once, when the last owner goes. Use counts, uniqueness, expiry and owner order agree with the owners there are; a weak pointer locks exactly while owners exist; a null pointer is refused when dereferenced. The cleanup of tokens, token pools, multi-tokens, holders and scope exits runs exactly once, at the release of the last owner and in the documented order, and functions keep their functor for exactly as long as a copy exists.",
  ["histories", "inputs"], "all histories of 2-5 operations on 2-5 pointers from every start state; every held value",
  "Double release and leaks need particular sequences of aliases, moves and self-assignments; tests follow a few.",
  ["stingraykit/shared_ptr.h", "stingraykit/TypeErasure.h", "stingraykit/unique_ptr.h", "stingraykit/self_counter.h", "stingraykit/Token.h", "stingraykit/FunctionToken.h", "stingraykit/MultiToken.h", "stingraykit/Holder.h", "stingraykit/function/function.h"],
  [("strong and weak counts", "stingraykit/shared_ptr.h:Detail::SharedPtrImpl"), ("intrusive count", "stingraykit/self_counter.h"), ("cleanup on release", "stingraykit/FunctionToken.h, stingraykit/Holder.h:ScopedHolder")])
M("M02", "Value holders contain exactly the value last put into them",
  "An optional, variant, any or tuple holds exactly the value (and type) last assigned, emplaced, copied, moved or swapped into it, including assignment to itself or from its own contents; values held are constructed and destroyed exactly once each, and nothing leaks. Asking for a value that is absent or of another type is refused (an exception or a null pointer). When copying a value throws, the exception reaches the caller and the holder is left empty or unchanged, still usable. Comparisons order an empty optional before any value and otherwise follow the values; variants order by type and then by value, and visitors are called with the contained type.",
  ["histories", "inputs"], "all histories of 2-4 operations on two holders from every kind of initial value, a throwing copy at every place; all 32- and 64-bit values",
  "Self-assignment, assignment from a part of the own value and exceptions in the middle are not sampled by tests.",
  ["stingraykit/optional.h", "stingraykit/variant.h", "stingraykit/any.h", "stingraykit/any.cpp", "stingraykit/Tuple.h", "stingraykit/VariantMultidispatch.h", "stingraykit/aligned_storage.h"],
  [("construction and destruction of the value", "stingraykit/variant.h:assign, stingraykit/any.cpp:Copy, Move, Destroy"), ("presence flag", "stingraykit/optional.h")])
M("X01", "Waits end when they are woken, cancelled or out of time, and not before",
  "A thread that checks its condition under the mutex and waits on the condition variable is always woken by the broadcast that follows the change, for any number of waiters. A wait or sleep with a cancellation token (plain, timed, joined or combined) returns once the token is cancelled, whenever the cancellation comes, says why it returned, holds the mutex again, and is never touched by the canceller after it has returned; a timed wait lasts its whole time unless it is woken. A token can be reset only when nothing uses it. A mutex admits one thread at a time and is recursive, a semaphore lets through as many as were signalled, a barrier releases nobody before all have come and names exactly one last, and destroying a thread cancels its token and waits for its end.",
  ["schedules", "inputs"], "2-3 threads, all interleavings of lock, wait and wake operations with up to 2-4 preemptions and 2 early timeouts, all values of the condition",
  "Lost wakeups and races between cancellation and the end of a wait need particular interleavings that tests meet only by chance.",
  ["stingraykit/thread/posix/PosixConditionVariable.cpp", "stingraykit/thread/CancellationToken.cpp", "stingraykit/thread/JoiningCancellationToken.cpp", "stingraykit/thread/TimedCancellationToken.cpp", "stingraykit/thread/DummyCancellationToken.cpp", "stingraykit/thread/posix/PosixSemaphore.cpp", "stingraykit/thread/posix/PosixThreadEngine.cpp", "stingraykit/thread/Barrier.h", "stingraykit/thread/GenericMutexLock.h"],
  [("registration of a waiter with its token", "stingraykit/thread/posix/PosixConditionVariable.cpp"), ("cancellation of waiters", "stingraykit/thread/CancellationToken.cpp:Cancel"), ("release by rounds", "stingraykit/thread/Barrier.h:Wait"), ("end of a thread", "stingraykit/thread/posix/PosixThreadEngine.cpp:PosixThread")])
M("X02", "Shared objects die once, after their last user, whatever threads do",
  "When several threads copy, lock, move, alias and drop shared, weak or self-counted pointers to one object, nobody ever sees the object destroyed while holding it, a weak pointer locks as long as somebody surely owns it and yields the whole object or nothing, and the object is destroyed and its memory freed exactly once, by the last owner. One-time initialization and singletons run their initializer exactly once and let nobody go on before it is complete; a constructor that fails is never taken for a success. Updates of guarded values and atomics are neither lost nor seen halfway, and an object pool releases exactly the objects that nobody else owns.",
  ["schedules", "histories", "inputs"], "2 threads with every pair of pointer operations, interleaved at every access to the counters with up to 2-3 preemptions; all object values",
  "The windows between reading and changing a count are a few instructions wide; tests never hit them.",
  ["stingraykit/shared_ptr.h", "stingraykit/self_counter.h", "stingraykit/thread/atomic/AtomicInt.h", "stingraykit/thread/atomic.h", "stingraykit/Singleton.h", "stingraykit/SafeSingleton.h", "stingraykit/thread/call_once.h", "stingraykit/thread/SyncValue.h", "stingraykit/ObjectPool.h"],
  [("strong and weak counts", "stingraykit/shared_ptr.h:Detail::SharedPtrImpl"), ("locking a weak pointer", "stingraykit/shared_ptr.h:TryAddStrongReference"), ("references to a safe singleton", "stingraykit/SafeSingleton.h:TryAddReference, RemoveReference")])
M("X03", "A disconnected slot or released task is not running and never runs again",
  "A task guarded by a life token runs only while the token lives, one run at a time, and once the token is released or reset no run is in progress and none will start. A call of a signal reaches every slot connected when it began (and not disconnected since) exactly once, in the order of connection and with its arguments, whatever other threads connect or disconnect; once a connection is reset its slot is not running and never runs again, and its data is released. A slot that connects to a signal which guards its state learns every element exactly once and in order. Exceptions of slots go to the handler and leave the other slots alone, connections against the signal's policy are refused, connections may outlive the signal, and slots run by an executor are called in order until disconnected.",
  ["schedules", "histories", "inputs"], "2-3 threads calling, connecting and disconnecting, all interleavings of lock operations with up to 3-4 preemptions; all histories of 4 operations; all arguments",
  "Use after disconnection and missed or doubled updates appear only in particular interleavings.",
  ["stingraykit/thread/TaskLifeToken.h", "stingraykit/thread/TaskLifeToken.cpp", "stingraykit/signal/signals.h", "stingraykit/signal/signal_connector.h", "stingraykit/signal/signal_policies.h", "stingraykit/signal/ValueFromSignalObtainer.h", "stingraykit/thread/ThreadlessTaskExecutor.cpp"],
  [("guarded execution", "stingraykit/thread/TaskLifeToken.cpp:TaskLifeTokenImpl"), ("connection and disconnection", "stingraykit/signal/signals.h:SignalImplBase"), ("calling the slots", "stingraykit/signal/signals.h:SignalImpl::InvokeAll")])
M("X04", "Executors and thread pools run every accepted task exactly once",
  "A task executor runs every task added to it exactly once, in the order of addition, one at a time and with its own data, whichever threads add them; one with a thread has run them all before its destruction returns, one without a thread runs them in whichever thread asks, never nested, until cancelled or cleared. Tasks whose life token is released are skipped and are not running once the release returns; exceptions reach the exception handler and spoil nothing else; task objects are destroyed. A thread pool runs every accepted task exactly once and refused ones never, never more at a time than it may have threads, accepts whenever a thread is free, and gives a waiting client its turn when one becomes free or an exception when cancelled; letting idle threads go loses nothing.",
  ["schedules", "histories", "inputs"], "2-3 clients and up to 4 tasks, all interleavings of lock and wait operations with up to 2-3 preemptions; all task data",
  "Lost or doubled tasks at the edges (an idle thread timing out, an executor being destroyed, a pool just full) need particular interleavings.",
  ["stingraykit/thread/ThreadTaskExecutor.cpp", "stingraykit/thread/ThreadlessTaskExecutor.cpp", "stingraykit/thread/ThreadPool.cpp", "stingraykit/thread/ThreadPool.h", "stingraykit/thread/ITaskExecutor.h", "stingraykit/thread/TaskLifeToken.cpp"],
  [("queue and drain", "stingraykit/thread/ThreadTaskExecutor.cpp:ThreadFunc"), ("single active executor", "stingraykit/thread/ThreadlessTaskExecutor.cpp:ExecuteTasks"), ("choice and release of workers", "stingraykit/thread/ThreadPool.cpp:TryQueue, WorkerWrapper::ThreadFunc")])
M("X05", "Timed tasks run once, in order, never early and never after cancellation",
  "A timeout's task runs exactly once, not before its time, in the timer's thread, one task at a time; tasks run in the order of their times and, at equal times, in the order of setting. A periodic task runs again and again, at least its interval apart, and is not put off by others. Once the token of a task is reset, the task is not running and never runs again, and its data is released. A task that throws reaches the exception handler and spoils nothing else. Destroying a timer runs tasks added for immediate execution, drops the others, and waits for the one that is running; tokens may outlive the timer. A deferrer runs only the last task it was given, a timeout after it was given, and none after Cancel.",
  ["schedules", "histories", "inputs"], "a timer's thread and two others, up to 4 tasks at coinciding or distinct times, all interleavings of lock and wait operations with up to 1-2 preemptions on a virtual clock",
  "Removal racing with execution, ties, and reordering of the queue show only at particular instants.",
  ["stingraykit/timer/Timer.cpp", "stingraykit/timer/Timer.h", "stingraykit/thread/TaskLifeToken.cpp"],
  [("queue of timeouts", "stingraykit/timer/Timer.cpp:CallbackQueue"), ("execution and rescheduling", "stingraykit/timer/Timer.cpp:ThreadFunc, ExecuteCallback"), ("deferred tasks", "stingraykit/timer/Timer.cpp:ExecutionDeferrer")])
M("X06", "A future delivers what was promised, once and to everyone who waits",
  "Exactly one result of a promise counts: the first value, or an exception that came before it; a second value is refused, and a promise that dies without a result breaks its future. Everyone who waits on the future, in whatever thread and however often through shared ones, gets that very result, never earlier than it was set and never hangs once it is; an unshared future yields it once. Waiting with a limit or a cancellation token ends with the right status and leaves the future usable. A promise yields one future, also after swapping with another. The future of an asynchronous function carries the function's result or its error, or breaks if the function was cancelled and will never run; one made of a signal carries the argument of its first call.",
  ["schedules", "histories", "inputs"], "histories of 4 operations on two promises; two setting, two waiting and a cancelling thread with up to 2 preemptions; all values",
  "The order of setting, waiting, sharing, swapping and destroying is what decides, and tests fix one order.",
  ["stingraykit/future.h", "stingraykit/ExceptionPtr.h", "stingraykit/function/AsyncFunction.h", "stingraykit/function/CancellableFunction.h", "stingraykit/signal/SignalToFuture.h"],
  [("result of a promise", "stingraykit/future.h:Detail::future_impl"), ("swapping promises", "stingraykit/future.h:promise::swap"), ("asynchronous call", "stingraykit/function/AsyncFunction.h:DoAddTask")])
M("X07", "Bytes pass between threads complete, once and in order",
  "A pipe between two threads hands over every byte once and in order, and a write returns only when all its bytes are read; after a cancelled write the pipe never touches its memory again, and a cancelled read takes nothing. Writes of several threads to a synchronized pipe come out whole, one after another, even after one fails. Whatever a data or packet buffer accepts from its writers comes out at its reader exactly once, in order and unchanged while it is being read, followed by the end or the error, never before the data; waiting readers and writers go on when there is data, room, an end or a cancellation. A buffer filled by its own thread gives what its source gives, then its end or its error, and can be dropped at any time. An asynchronous stream applies all writes in order, at their positions and however they are merged or split: after Sync or its destruction the stream below holds what was written last at every position; failures below are reported.",
  ["schedules", "histories", "inputs"], "2-4 threads with up to 0-3 preemptions, buffers of 2-8 bytes, transfers of 3-6 bytes or 2-4 positioned writes; all data",
  "Overwriting data that is still being read, lost wake-ups and wrong merging depend on how the sides interleave.",
  ["stingraykit/io/BithreadPipe.h", "stingraykit/io/SynchronizedPipe.h", "stingraykit/io/DataBuffer.h", "stingraykit/io/SharedCircularBuffer.h", "stingraykit/io/BufferedDataConsumer.cpp", "stingraykit/io/BufferedDataSource.cpp", "stingraykit/io/PacketBuffer.h", "stingraykit/io/AsyncByteStream.cpp", "stingraykit/io/BithreadCircularBuffer.cpp", "stingraykit/io/IntermediateDataBuffer.h"],
  [("rendezvous of writer and reader", "stingraykit/io/BithreadPipe.h:Write"), ("shared buffer states", "stingraykit/io/SharedCircularBuffer.h"), ("merging of queued writes", "stingraykit/io/AsyncByteStream.cpp:Write"), ("writing behind", "stingraykit/io/AsyncByteStream.cpp:ThreadFunc")])
M("C01", "Containers hold exactly the elements put into them, in their order",
  "After any history of insertions, emplacements, erasures, assignments, copies, moves and swaps, a flat or ordered map or set contains each key once, with its last value, in the order of its comparison (flat) or of insertion (ordered); what its operations return and what find, bounds, count, at and iteration show agrees with that, and copies and moves keep contents and comparison and are independent. A bimap's two sides always hold the same pairs. An in-place vector holds its elements in order across the change to heap storage, constructs and destroys each exactly once, and survives copies that throw. An intrusive list holds the linked nodes in order. Comparing containers compares their elements, and erasing the matching elements of any container leaves exactly the others, in order.",
  ["histories", "inputs"], "containers of 0-3 elements, histories of 2-4 operations out of 14-15 kinds at every place, a throwing copy; all values",
  "Hints at the wrong place, self-assignment, copies with another comparison and the change of storage are hardly sampled by tests.",
  ["stingraykit/collection/flat_map.h", "stingraykit/collection/flat_set.h", "stingraykit/collection/ordered_map.h", "stingraykit/collection/ordered_set.h", "stingraykit/collection/bimap.h", "stingraykit/collection/inplace_vector.h", "stingraykit/collection/IntrusiveList.h", "stingraykit/collection/array.h", "stingraykit/algorithm.h"],
  [("hinted insertion into sorted storage", "stingraykit/collection/flat_map.h:insert, emplace_hint"), ("order of insertion", "stingraykit/collection/ordered_map.h"), ("agreement of both sides", "stingraykit/collection/bimap.h"), ("change of storage", "stingraykit/collection/inplace_vector.h")])
M("C02", "Collections show their contents, keep snapshots and tell observers everything",
  "A list, set, multiset, dictionary or multi-dictionary holds exactly the elements its operations put there, in its order; counts, lookups, forward and reverse finds and the results of operations agree with that. An enumerator or reversed view, once obtained, goes on showing the contents of that moment whatever happens to the collection, and a copy is independent. An observer that applies every notification it is told always has exactly the contents of the observable collection, from the moment it connects, and is told nothing when nothing changed. Keys, entry, key-value and cast views always show and report what the collection below them contains.",
  ["histories", "inputs"], "collections of 0-3 elements, histories of 2-4 operations with forward and reversed snapshots and observers; all values",
  "Sharing of storage with snapshots at any point of a history and the exact notifications of every operation are sampled by tests only here and there.",
  ["stingraykit/collection/GenericList.h", "stingraykit/collection/GenericSet.h", "stingraykit/collection/SortedMultiSet.h", "stingraykit/collection/GenericDictionary.h", "stingraykit/collection/MultiMapDictionary.h", "stingraykit/collection/ObservableListWrapper.h", "stingraykit/collection/ObservableSetWrapper.h", "stingraykit/collection/ObservableDictionaryWrapper.h", "stingraykit/collection/DictionaryKeysSet.h", "stingraykit/collection/ObservableSetEntry.h"],
  [("copying before a change while snapshots live", "stingraykit/collection/GenericList.h:CopyOnWrite"), ("reverse searches", "stingraykit/collection/SortedMultiSet.h:ReverseFind"), ("notifications", "stingraykit/collection/ObservableDictionaryWrapper.h")])
M("C04", "Transactions apply whole, and their diffs say exactly what changed",
  "A transactional list, set or dictionary shows only committed contents; a transaction shows those contents with its own changes, every operation acting and answering as on a plain collection. Commit makes all changes visible at once and tells observers a diff that turns the old contents into the new; a transaction without changes tells nothing, and revert or dropping a transaction undoes everything. The diff of a transaction, applied to equal contents step by step or through Apply, gives its contents. Enumerators, reversed views and diffs keep showing the moment they were taken. At most one transaction is open: another waits for it, sees everything it committed, and can be cancelled or time out without harm. Views of keys and of one key's value follow and report exactly the changes that concern them.",
  ["histories", "schedules", "inputs"], "histories of 2-3 transaction operations on collections of 0-2 elements; two concurrent transactions and a reader with up to 2 preemptions at every access; all values",
  "Removing and adding again what is committed, snapshots between changes and the handover between transactions are hardly sampled by tests.",
  ["stingraykit/collection/TransactionalList.h", "stingraykit/collection/TransactionalSet.h", "stingraykit/collection/TransactionalDictionary.h", "stingraykit/collection/TransactionHelpers.h", "stingraykit/collection/DictionaryKeysSet.h", "stingraykit/collection/TransactionalDictionaryKeyValue.h"],
  [("merging committed, added and removed", "stingraykit/collection/TransactionHelpers.h"), ("diff of lists", "stingraykit/collection/TransactionalList.h:MakeDiff"), ("commit", "stingraykit/collection/TransactionalDictionary.h:Commit"), ("keys of a diff", "stingraykit/collection/DictionaryKeysSet.h:TransactionalDictionaryKeysSet")])

M("C05", "Lazy ranges and enumerables yield what the eager computation yields",
  "A range or enumerable built by filtering, transforming, reversing, dropping, taking, casting, concatenating, flattening, zipping, splitting, cycling or joining, in any combination, yields exactly the elements in exactly the order that doing the same eagerly to the source would give. Moving a range forward, backward, to its first or last element or by a distance puts it at that element; its position and size are right, two ranges compare equal exactly when they stand at the same place, and begin to end visits every element once. An enumerable can be enumerated any number of times, also interleaved, each giving every element; enumerating past the end is refused; a range-based loop over one visits every element. Queries (count, contains, index, first, last, element at, fold, minimum, sum, sequence equality, sorted difference) answer what a plain loop would.",
  ["inputs", "histories"], "all contents of up to 3 elements, every pair of adapters, every sequence of 2-3 movements", "Unit tests try a few pipelines over a few fixed sources; here every pair of adapters over all contents, empty parts included, is walked in both directions; a wrong one silently drops, repeats or reorders elements.",
  ["stingraykit/collection/Range.h", "stingraykit/collection/RangeBase.h", "stingraykit/collection/EnumerableHelpers.h", "stingraykit/collection/EnumerableWrapper.h", "stingraykit/collection/Transformers.h", "stingraykit/collection/DataJoiner.h", "stingraykit/collection/EnumerableFromStlContainer.h", "stingraykit/collection/StlEnumeratorAdapter.h"],
  [("range adapters", "stingraykit/collection/Range.h"), ("lazy enumerators", "stingraykit/collection/EnumerableHelpers.h"), ("joined containers", "stingraykit/collection/DataJoiner.h:DataJoinerIterator")])

M("I03", "Compressed data decompresses to exactly what was compressed",
  "Whatever bytes are compressed with a PPM model, decompressing them with the same model gives exactly these bytes and then the end, also when the consumer takes the output in pieces or refuses it for a while, whatever texts trained the model, whether or not it was compacted or its counts were scaled, and for symbols the model has never seen. The arithmetic coder's code of a sequence of intervals decodes to exactly that sequence, whatever bits follow it. Bits collected into bytes come out in order, each once, padded only at the end, and bytes split into bits likewise. The encoder and the decoder are asked about the same intervals: they are disjoint, not empty and lie within the scale.",
  ["inputs", "histories"], "1-3 coded symbols with every interval on several scales, models of order 0-2 trained with up to 4 letters, data of up to 2-3 arbitrary bytes", "The pending bits of the coder, the wrap of the bit buffer exactly at its end and a consumer refusing the very last bytes depend on the data in a way samples hardly hit: a quarter of random round trips failed.",
  ["stingraykit/compression/ArithmeticCoder.h", "stingraykit/compression/ppm/PpmCompressor.h", "stingraykit/compression/ppm/PpmModel.h", "stingraykit/compression/ppm/PpmDictionary.h"],
  [("coding of intervals", "stingraykit/compression/ArithmeticCoder.h:Encode, EndOfData"), ("bits and bytes", "stingraykit/compression/ppm/PpmCompressor.h:BitsToBytesBuffer, BytesToBitsBuffer"), ("prediction", "stingraykit/compression/ppm/PpmModel.h:DoPredict")])

M("C03", "Caches keep the newest within their limit; counted entries live while used",
  "A cache holds, after any history of setting, getting, removing and clearing, exactly the entries that a queue of limited total size would: setting puts an entry last with its new value and size and evicts from the front, and only as much as needed; getting moves an entry to the end of a cache that evicts the least recently used one and leaves others alone. Every eviction, and nothing else, is told, once, with the key and value evicted. A two-queue cache finds exactly what is in one of its queues, keeps each entry in one of them, promotes an entry as its policy says and never exceeds the capacities. A counted map, set or value keeps an entry from its first addition until as many removals, tells creation and removal once each, and yields the value it keeps.",
  ["histories", "inputs"], "any capacities of 0-600 and sizes of 0-255, histories of 2-5 operations over 3 keys", "Replacing an entry by a greater one, entries greater than the cache and exact fits are boundary cases of sums that tests with one-size entries never form.",
  ["stingraykit/collection/QueueCache.h", "stingraykit/collection/TwoQueueCache.h", "stingraykit/collection/RefCountingMap.h", "stingraykit/collection/RefCountingSet.h", "stingraykit/collection/RefCountingValue.h"],
  [("eviction", "stingraykit/collection/QueueCache.h"), ("promotion between queues", "stingraykit/collection/TwoQueueCache.h"), ("counts", "stingraykit/collection/RefCountingMap.h, RefCountingValue.h")])

M("D01", "What is serialized is read back the same, and bad input is refused",
  "Any value written to a stream of values (numbers, text, bytes, containers, pairs, tuples, variants, optionals, enumerations, composites, collections, polymorphic objects of registered classes) and read back equals the one written, whatever the object read into held before: members that were not written leave optionals empty and the defaulted ones at their defaults. A required member that is missing, a value of another kind, a number out of the range of a checked integer, and text that is not hexadecimal are refused with an exception and never taken for something else. Injected values and clones equal the values they were made of. A factory context creates exactly the class registered under a name, its own registrations before those of its base, and refuses unknown names, names registered twice and wrong interfaces.",
  ["inputs", "histories"], "all values of all integer types, containers of 0-3 elements, every subset of missing members, every tree of values two deep", "State left in an object by an earlier load and the borders of number ranges show only for particular pairs of old and new contents; tests load into fresh objects.",
  ["stingraykit/serialization/Serialization.cpp", "stingraykit/serialization/Serialization.h", "stingraykit/serialization/Serializer.h", "stingraykit/serialization/SerializationHelper.h", "stingraykit/serialization/IntegerDeserializer.h", "stingraykit/serialization/InjectionSerializer.h", "stingraykit/factory/Factory.cpp"],
  [("optional and defaulted members", "stingraykit/serialization/Serializer.h:Deserializer"), ("kinds of values", "stingraykit/serialization/Serialization.h"), ("registration", "stingraykit/factory/Factory.cpp")])
M("V01", "Observed state, undo, progress, geometry and commands match what was done",
  "An observable value tells every observer each change, in order and once, and nothing when a policy says the value did not change; a new observer is first told the current value; the value and the last notification agree also when several threads set it. An action transaction that is not committed undoes the completed actions exactly once each, in reverse order, also when an action or an undo fails, and one that is committed undoes nothing. Reported progress equals the part of the total done, for aggregates the sum over their parts in proportion to their sizes, never leaving the range. Averages equal the quotient of sums. A generator shared by threads never gives one number twice. A mapper is the inverse of itself the other way. Rectangles intersect, contain, move and scale as sets of points do, and their order is total. A command line runs exactly the command matched with the values written in it, refuses what does not parse, and completes an incomplete line to exactly the commands and values that begin with it.",
  ["inputs", "histories", "schedules"], "histories of 3-4 operations with 2 observers, 2-3 threads, up to 3 actions with every failure, 16-bit coordinates, words of arbitrary characters", "A failing undo, a change that compares equal, a scaled progress or rectangle with odd numbers, or a notification overtaken by another thread is one of many combinations; tests follow one.",
  ["stingraykit/ObservableValue.h", "stingraykit/ActionTransaction.cpp", "stingraykit/ProgressValue.cpp", "stingraykit/AggregateProgressReporter.h", "stingraykit/Average.h", "stingraykit/IntegerSequenceGenerator.h", "stingraykit/Mapper.h", "stingraykit/Rect.h", "stingraykit/Size.cpp", "stingraykit/CmdLine.cpp", "stingraykit/CmdLine.h"],
  [("observed values", "stingraykit/ObservableValue.h:Set"), ("undo", "stingraykit/ActionTransaction.cpp:Rollback"), ("rectangles", "stingraykit/Rect.h"), ("matching of commands", "stingraykit/CmdLine.cpp")])
M("F01", "Comparers are orders; functors, casts and visitors reach exactly their target",
  "Every comparer is an order, and all comparers made of one another (three-way, less, equal, greater; of values, pointers, members, members and values, collections, tuples, objects of different classes) agree with each other and with the order of the values compared, null being less than anything. A bound function passes every argument to the place of its placeholder, keeps the other arguments as they were when it was bound, and passes references on as references. A function keeps what it was made of until its last copy is destroyed, returns its result and lets its exceptions out. A cast succeeds exactly if the object is of the class and never changes which object it is. A visitor, a dispatch by the types held in variants or by a tag calls exactly the handler of that type or tag with the unchanged arguments, otherwise the default one, or refuses. An operation on a collection is told apart from the others and gives back the value it was made of. Creators create an object of their class with the arguments kept.",
  ["inputs", "histories"], "all values of up to three members or elements, all pairs and triples of objects of three classes, every order of three arguments", "Comparers that disagree for one combination of equal and unequal members corrupt every sorted container above them, and show only for such a combination.",
  ["stingraykit/compare/comparers.h", "stingraykit/compare/MemberListComparer.h", "stingraykit/compare/CollectionComparer.h", "stingraykit/compare/Comparable.h", "stingraykit/function/bind.h", "stingraykit/function/function.h", "stingraykit/function/functional.h", "stingraykit/dynamic_caster.h", "stingraykit/IVisitor.h", "stingraykit/VariantMultidispatch.h", "stingraykit/GenericEntityFactory.h", "stingraykit/Creators.h", "stingraykit/collection/CollectionOpVariant.h"],
  [("agreement of comparers", "stingraykit/compare/comparers.h"), ("lists of members", "stingraykit/compare/MemberListComparer.h"), ("places of arguments", "stingraykit/function/bind.h"), ("dispatch", "stingraykit/IVisitor.h, stingraykit/VariantMultidispatch.h")])
M("L01", "What is logged reaches every sink exactly when its level lets it through",
  "A message goes to every connected sink exactly once, in the order of logging, with its level, name and text, if its level is at least that of its logger, and nowhere otherwise; it is not even put together below that level. A logger's level is its own if it has one, otherwise that of all loggers at the time. A level or highlighting set by name holds for loggers of that name created before and after, and leaves what is not set to the logger. A sink that fails takes nothing from the others, one that was disconnected gets nothing and is released, and without sinks messages go to the system. Repeated messages that are hidden are counted: each new one is shown at once, and the number shown is the number of repetitions since. An exception that is logged goes on, or is swallowed, as the macro says, and is reported once; an action is reported at its beginning and its end with how it ended and how long it took. All of this holds also for threads that log, connect sinks, set levels and create loggers at once.",
  ["inputs", "histories", "schedules"], "all combinations of levels, histories of 3-6 operations, up to three threads", "Messages that are lost or miscounted only for one order of settings, repetitions or threads are found by nobody until the log is needed.",
  ["stingraykit/log/Logger.cpp", "stingraykit/log/Logger.h", "stingraykit/log/LoggerStream.cpp", "stingraykit/log/LoggerStream.h", "stingraykit/log/LoggerMessage.cpp"],
  [("levels and names", "stingraykit/log/Logger.cpp:NamedLoggerRegistry"), ("sinks", "stingraykit/log/Logger.cpp:LoggerImpl"), ("repetitions", "stingraykit/log/LoggerStream.cpp:DoLog"), ("reports", "stingraykit/log/Logger.h")])
M("S04", "Texts in several languages give back every translation; transliteration is found",
  "A text in several languages has exactly the translations it was given: asked for one it returns that translation or refuses, asked for any it returns one if there is one, and a selection returns the first language of the list that is there, at last any other. Texts are values: building on a copy, assigning, or reading one from storage never changes another text; what is stored and read back is equal, and the order of texts is total and agrees with equality. A format or a builder makes for every language the text of that language with the arguments in that language. A text contains a word in Latin letters exactly if some part of it, wherever it is, spells that word letter by letter, each as itself or as one of its Cyrillic spellings.",
  ["inputs", "histories"], "3 languages, histories of 3-4 operations, arbitrary letters, patterns of up to 3 bytes in texts of up to 5", "Sharing between copies shows only for the history that builds or reads into one of two; a search that stops early, only for a match at the end or for letters of different lengths.",
  ["stingraykit/string/TranslatedString.cpp", "stingraykit/string/TranslatedString.h", "stingraykit/string/TranslatedStringUtils.h", "stingraykit/locale/Translit.cpp", "stingraykit/locale/LangCode.cpp"],
  [("copies and builders", "stingraykit/string/TranslatedString.cpp:Builder"), ("selection", "stingraykit/string/TranslatedString.h:SelectTranslation"), ("formats", "stingraykit/string/TranslatedStringUtils.h"), ("search", "stingraykit/locale/Translit.cpp:TranslitMatchSubstr")])
M("X08", "Profilers, watchdogs and guards report exactly what is too long or not allowed",
  "What is profiled is reported at its end, also when it ends with an exception, with its time, name, place, level and logger, exactly if it took more whole milliseconds than its threshold. The times before checkpoints add up to the time since the start, and a restart forgets the earlier ones. A profiling session's report lists each part once with the sum of its times and its share, nested as the parts were. What a watchdog observes is reported when it has gone on for 30 seconds and every 30 seconds more while it goes on, and never after it ended; at its end it is reported if it exceeded its own threshold; this holds for every thread observed at once. An operation is reported as prohibited exactly while one of the restrictions around it in the same thread prohibits it, and the stack of guards shows what was entered and not left yet, whatever way the scopes were left.",
  ["inputs", "histories", "schedules"], "times at the thresholds, histories of 3-5 operations, two threads watched over two minutes of virtual time", "What is reported depends on times at a boundary and on work that begins and ends while the watchdog looks at other work; no test waits for that.",
  ["stingraykit/diagnostics/AsyncProfiler.cpp", "stingraykit/diagnostics/AsyncProfiler.h", "stingraykit/diagnostics/CheckpointProfiler.cpp", "stingraykit/diagnostics/ProfileSession.h", "stingraykit/diagnostics/Profiler.h", "stingraykit/diagnostics/ExternalAPIGuard.h", "stingraykit/thread/ThreadOperation.cpp"],
  [("watchdog", "stingraykit/diagnostics/AsyncProfiler.cpp:ThreadFunc"), ("checkpoints", "stingraykit/diagnostics/CheckpointProfiler.cpp:Stop"), ("sessions", "stingraykit/diagnostics/ProfileSession.h"), ("restrictions", "stingraykit/thread/ThreadOperation.cpp")])
