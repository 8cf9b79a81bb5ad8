#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

p("C01", "Shared pointers delete the object exactly once, after the last owner",
  "However shared pointers to one object are created, copied, moved, converted to base or derived types, reassigned (including from a pointer stored inside the object being released), reset, detached and destroyed, from any number of threads that each use their own pointer variables, the object and its bookkeeping stay valid while any owner exists and are freed exactly once when the last owner goes, by the thread that drops it and after everything the other owners did with it; while an assignment or reset releases an object, the object's destructor finds none of its thread's pointers still yielding a destroyed object. A successful conversion keeps sharing ownership and addresses the right sub-object, a failed one yields an empty pointer and changes nothing; detaching a sole owner hands the object over undeleted, and detaching a shared owner just gives up that owner's share. When memory for the bookkeeping runs out, the object handed over is deleted, the out-of-memory exception is reported and every other pointer is unaffected.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of any set of per-thread pointer operations on shared objects, every operation history, every allocation that may fail",
  "The pointer tests are single threaded, use each operation a few times, and never fail an allocation; a lost update or a stale read of the reference count needs a specific interleaving.",
  ["Source/Primitives/Pointer.h", "Source/Basic.h"],
  [("atomic reference count, decrement-and-test decides the deleter", "Source/Primitives/Pointer.h Ptr::Inc/Dec, INCRC/DECRC in Source/Basic.h"),
   ("original pointer and deleter carried through casts", "Source/Primitives/Pointer.h Ptr converting constructors, Ptr::Cast")],
  ["object constructor/destructor calls", "heap blocks alive at the end", "values read through each pointer"],
  [("counter", "number of owners", "Ptr::counter")])

p("C02", "COM-style pointers call release exactly once, after the last owner",
  "However COM-style smart pointers to one interface are copied, moved, reassigned, reset and destroyed by any number of threads that each use their own pointer variables, the interface's release method is called exactly once, when and only when the last owner goes, and never while another owner can still use it; the pointer's own bookkeeping is freed with it; while an assignment or reset releases an interface, its release method finds none of its thread's pointers still yielding a released one. Taking over a raw interface counts as one owner, and self-assignment or assigning from a pointer reachable through the released interface is harmless.",
  ["schedules", "histories"],
  "every interleaving of per-thread pointer operations and every operation history",
  "The tests exercise the COM pointer on one thread with a handful of operations; premature or missing release needs two threads dropping owners in a particular order.",
  ["Source/Primitives/Pointer.h", "Source/Basic.h"],
  [("atomic reference count separate from the interface", "Source/Primitives/Pointer.h ComPtr::Inc/Dec")],
  ["calls to the release method", "heap blocks alive at the end"])

p("C03", "Copies of a callable share one target that lives as long as any copy",
  "Copies of a function object (made from lambdas, function pointers, methods and other function objects) can be made, called, compared, reassigned and destroyed by different threads, each using its own copy, in any order: every call reaches the one shared target with the arguments given and returns its result, state the target keeps carries over from call to call whichever copy is called, an empty function object stays recognisably empty through copies and conversions, and an exception thrown by the target reaches the caller unchanged. The target's captured state is destroyed exactly once, when the last copy is gone and not before, even if the copy a call was made through is replaced during the call while another remains, and running out of memory while creating one leaks nothing and disturbs no other copy.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of copies, calls and drops, including a target that drops or replaces the copy it was called through",
  "The function tests are single threaded and never destroy or replace a function object while it is running.",
  ["Source/Primitives/Function.h", "Source/Primitives/Pointer.h"],
  [("shared invoker object", "Source/Primitives/Function.h Func<R(TArgs...)>::invoker")],
  ["captured objects' constructor/destructor calls", "values returned by calls"])

p("C04", "Strings are immutable values even when threads share their storage",
  "A string keeps its contents for as long as it lives, whatever happens to other strings that share its storage: copying, moving, assigning, taking sub-strings, concatenating, inserting, removing, comparing, searching, re-viewing it as another character type of the same size and asking for the zero-terminated buffer, done by any number of threads each on its own string objects, always give the contents an independent value type would give. The zero-terminated buffer holds exactly those contents and stays valid until that string object is modified or destroyed. Shared storage is freed exactly once, when the last string using it goes, with no leak and no data race.",
  ["schedules", "histories"],
  "every interleaving of string operations on per-thread string objects that share storage, and every operation history",
  "The string tests are single threaded and compare a few literals; sharing bugs need one thread to drop or re-buffer while another still reads the same storage.",
  ["Source/Strings/String.h", "Source/Strings/String.cpp", "Source/Basic.h"],
  [("reference-counted shared buffer with (start,length) views", "Source/Strings/String.h ObjectString::SubUnsafe, Inc, Dec"),
   ("copy to a private zero-terminated buffer on demand", "Source/Strings/String.h ObjectString::Buffer"),
   ("single-allocation splice", "Source/Strings/String.h ObjectString::ReplaceUnsafe")],
  ["contents, length, ordering and buffer of every live string after every step", "heap blocks alive at the end"])

p("C05", "A string operation that runs out of memory changes nothing and leaks nothing",
  "When any memory allocation made by a string operation (construction, copying from memory, taking over a buffer, concatenation, insertion, removal, asking for the zero-terminated buffer, conversion between encodings, number formatting or case conversion) fails, the operation reports the out-of-memory exception, every existing string keeps its contents and remains fully usable, nothing is leaked and nothing is freed twice. The same operation succeeds when it is retried once memory is available.",
  ["fault_sequences", "histories"],
  "every allocation inside every string operation, at every point of every history",
  "No test ever fails an allocation.",
  ["Source/Strings/String.h", "Source/Strings/String.cpp", "Source/Strings/Conversion.h", "Source/Strings/Conversion.cpp"],
  [("order of allocation and ownership transfer", "Source/Strings/String.h constructors, CopyFrom, TakeOver, ReplaceUnsafe, Buffer"),
   ("conversion buffers", "Source/Strings/Conversion.cpp ConvertStringDirect and friends")],
  ["contents of every live string after the failed operation", "heap blocks alive at the end"])

p("C06", "Arrays, lists and sorted lists follow a sequence model through failures",
  "Through any sequence of operations, an array, a list and a sorted list hold exactly the elements that the same operations on a plain sequence (kept in order for the sorted list, which may place or find equal elements anywhere among their equals) would hold, and return the documented results; an index out of range is reported as an error and changes nothing; an element passed in may be one stored in the container itself, elements can be looked up by keys of another type where one is declared, and contents may be moved in from a container that one of its own elements owns. When the storage allocation or the copy, default construction or comparison of an element fails inside an operation, that operation has no effect on the container's contents and the container stays usable. Every element that was ever created is destroyed exactly once, is never used after it was destroyed, and all storage is returned.",
  ["histories", "fault_sequences", "inputs"],
  "every operation history, every failing allocation and element copy, every self-referencing argument, every growth and shrink boundary",
  "Tests use a few fixed sequences of integers with no failing allocation and no element that records its lifetime.",
  ["Source/Collections/List.h", "Source/Collections/Interfaces.h", "Source/Collections/OperationCopyFrom.h"],
  [("manual storage with placement construction, growth and shrink rules", "Source/Collections/List.h memory_management"),
   ("binary search insertion", "Source/Collections/List.h SortedList::IndexOfInternal/AddInternal")],
  ["container contents after every operation", "element constructor/destructor calls", "heap blocks"])

p("C07", "Dictionaries and groups keep keys and values paired through failures",
  "Through any sequence of operations a dictionary and a one-to-many group hold exactly the associations that the same operations on a map and on a map of sequences would hold, enumerate them in key order with each key next to its own value, never keep a key without a value, and return the documented results; adding a duplicate key or naming a missing one is reported as an error and changes nothing; associations may be moved in from a container that one of its own values owns. When a storage allocation or the copy or comparison of an element fails inside an operation, that operation has no effect on the associations (an argument passed by move may be consumed) and the container stays usable. Every key and value is destroyed exactly once and all storage is returned.",
  ["histories", "fault_sequences", "inputs"],
  "every operation history, every failing allocation and element copy",
  "Tests use short fixed histories and never fail an allocation between the insertion of the key and the insertion of its value.",
  ["Source/Collections/Dictionary.h", "Source/Collections/List.h"],
  [("parallel sorted key list and value list", "Source/Collections/Dictionary.h Dictionary::keys/values, Group::keys/values")],
  ["key list, value list and enumeration after every operation", "element lifetimes", "heap blocks"])

p("C08", "An event calls every attached handler exactly once per trigger",
  "When an event is triggered, every handler attached at that moment and not detached before its turn is called exactly once with the values the event was triggered with, whatever handlers do meanwhile: attach more handlers, detach themselves or others, trigger the event again, or drop the last reference to a handler (all on one thread, while the event lives). When a handler throws, the exception reaches the trigger's caller, the handlers whose turn had not come are not called by that trigger, and the event keeps working. Handlers attached while a trigger is running are first called by the next trigger. A detached handler is never called again and reports that it is detached, detaching twice or from another event is refused, a running handler stays alive until it returns, and every handler's captured state is destroyed exactly once, wherever the handlers are placed in memory.",
  ["histories", "schedules", "fault_sequences"],
  "every history of nested attach, detach and trigger steps, every placement of handlers in memory, every throwing handler",
  "The event tests attach and detach between triggers only, on whatever heap layout the process has.",
  ["Source/Primitives/Event.h", "Source/Collections/List.h", "Source/Primitives/Function.h"],
  [("handler list ordered by handler address, iterated by index", "Source/Primitives/Event.h Event::operator()")],
  ["calls received by each handler per trigger", "attached flags", "handler lifetimes"])

p("C09", "Lazy queries are repeatable and independent, and failures do not corrupt them",
  "A lazy query yields, on every enumeration, exactly the sequence its operators define over its source, however many enumerations, clones and restarts of it are advanced in whatever interleaving, including by several threads that each advance their own enumeration of an unchanging source; positions reported count from zero, aggregates and comparisons over the query agree with that sequence, selecting, filtering, concatenating, taking, skipping and grouping compute an element only when it is asked for, an evaluated query needs neither its source nor its callbacks, the end stays the end until restarted, and a clone continues from where it was made. When a callback throws or an allocation fails in the middle of an enumeration or of building a query, the exception reaches the caller, other enumerations of the query are unaffected, a restart yields the full sequence, and nothing is leaked.",
  ["histories", "schedules", "fault_sequences"],
  "every operator pipeline, every interleaving of advances, clones and restarts, every throwing callback position and failing allocation",
  "Tests enumerate each operator once, front to back, with callbacks that do not throw.",
  ["Source/Collections/Operation.h", "Source/Collections/OperationEnumerable.h", "Source/Collections/OperationSelect.h", "Source/Collections/OperationWhere.h", "Source/Collections/OperationConcat.h", "Source/Collections/OperationSequence.h", "Source/Collections/OperationSet.h", "Source/Collections/OperationPair.h", "Source/Collections/OperationForEach.h", "Source/Collections/Dictionary.h"],
  [("cloneable, resettable enumerators", "Source/Collections/Operation*.h Enumerator classes"),
   ("shared enumerator prototype inside a lazy list", "Source/Collections/Operation.h LazyList::enumeratorPrototype")],
  ["sequence of elements, indices and end flags of every enumeration"])

p("C10", "Concurrent read-only use of shared collections and strings is safe",
  "When several threads only read one shared collection or query (indexing, searching, counting, enumerating, range-for, building and running queries over it) or one shared string (reading characters, comparing, searching, slicing, copying it; asking for its zero-terminated buffer only when it is not a slice of a longer one), every thread sees the collection's contents exactly as if it were alone, with no data race, and the shared object and everything it refers to is unchanged and correctly reference counted afterwards.",
  ["schedules"],
  "every interleaving of read-only operations by any number of threads on one shared object",
  "All tests are single threaded.",
  ["Source/Collections/List.h", "Source/Collections/Dictionary.h", "Source/Collections/Operation.h", "Source/Strings/String.h", "Source/Primitives/Pointer.h"],
  [("const operations do not write shared state", "Source/Collections/List.h, Dictionary.h const members"),
   ("atomic counts for shared storage", "Source/Strings/String.h, Source/Primitives/Pointer.h")],
  ["values read by each thread", "conflicting unordered memory accesses"])

p("C11", "Date-time values follow the simulated clock and time zone",
  "For any reading of the system clock from January 1970 on, including backward and forward jumps between two readings and readings near second, day, month and year ends, in any time zone, with or without daylight saving and also when the zone setting changes while the program runs, on any number of threads at once, the current local time and UTC time are the calendar fields and milliseconds of that reading in that zone and in UTC; reading either consults the clock once. Converting local to UTC time and back gives the same value, and converting either way shifts by the zone's offset at that instant; moving forward or backward moves by exactly that many milliseconds and is reversible, ordering agrees with time, and every value is rebuilt exactly from its calendar fields and from its internal value. Values are kept as local time, so this holds for UTC fields and calendar fields that name exactly one instant when read in the local zone. An injected implementation answers everything instead of the system until it is withdrawn.",
  ["fault_sequences", "histories", "configurations"],
  "every clock reading and sequence of clock jumps, every time zone including those with daylight saving",
  "The tests run in one zone (UTC) with the real clock and compare the clock with itself.",
  ["Source/Primitives/DateTime.cpp", "Source/Primitives/DateTime.Linux.cpp", "Source/Primitives/DateTime.h"],
  [("conversion through the C library's calendar functions", "Source/Primitives/DateTime.Linux.cpp LinuxDateTimeImpl")],
  ["calendar fields, milliseconds and internal value of every produced date-time"])

p("C12", "Global storages initialise once per cycle and finalise once, in any history",
  "Through any history, on one thread, of accessing, re-accessing (also from inside its own or another storage's initialisation and finalisation), explicitly finalising and globally finalising any number of global storages, a storage's initialisation runs exactly once before its first use in a cycle and not again while it is running or until the storage was finalised, its finalisation runs exactly once per completed initialisation and never without one (a storage is not finalised from inside its own initialisation), a global finalisation finalises the storages registered by then in registration order, each that is initialised when its turn comes, a later access initialises it again, and destroying a storage finalises it if needed. An initialisation or finalisation that throws reaches the caller: the first leaves the storage uninitialised, so that the next access tries again, the second leaves it finalised, and a further global finalisation finalises the rest.",
  ["histories"],
  "every history of access, nested access, finalise, global finalise and destruction over any number of storages",
  "The test uses two storages and one fixed sequence.",
  ["Source/GlobalStorage.h", "Source/GlobalStorage.cpp"],
  [("initialized flag and registration list", "Source/GlobalStorage.cpp EnsureInitialized/EnsureFinalized/FinalizeGlobalStorage")],
  ["sequence of initialise/finalise calls"])

p("C13", "The test runner's verdict counts every failure, wherever it happens",
  "With failures suppressed (as requested on the command line, or because no debugger is attached), whatever subset of test files, nested categories and cases fail an assertion, expect an error or exception that does not come, throw any kind of exception, or use assertions, cases or categories where they are not allowed, at whatever point, all remaining cases and files still run, each exactly once and in order; the run returns non-zero exactly when at least one selected file contains a failure, and the printed file and case totals equal what really happened. Files can be selected by name (the full name, or its last parts after a slash or backslash), unknown or conflicting options are refused with a non-zero result before anything runs, a second run starts from clean counters, and a console that fails while results are printed changes neither what runs nor the verdict.",
  ["fault_sequences", "histories", "inputs"],
  "every tree of files, categories and cases, every placement and kind of failure, every file selection",
  "The repository's own tests only ever pass, so the failure paths of the runner are never taken.",
  ["Source/UnitTest/UnitTest.cpp", "Source/UnitTest/UnitTest.h", "Source/Console.Linux.cpp"],
  [("context chain with failure propagation", "Source/UnitTest/UnitTest.cpp RecordFailure, RunCategoryOrCase")],
  ["return value, printed totals, order of executed bodies"])

p("C14", "Text conversion is exact and stops cleanly where a stream is damaged",
  "Reading well-formed UTF-8, UTF-16, UTF-32 or wide text as any other encoding, unit by unit or a whole string at once, yields exactly the same code points in the other encoding, so converting there and back gives the same text. Reading a source that ends early or is damaged anywhere (a stray, missing or truncated unit, an overlong form, a lone surrogate) yields exactly the characters before the damage, then reports the end and keeps reporting it, never reads past the end of the source, and never yields an invalid code point or part of a character; this concerns text that is decoded, since conversion between two 32-bit encodings passes every unit through. Until the damage, the reported positions and source clusters of every character partition exactly the source consumed so far. A source that fails in the middle passes its exception to the caller and can be read on with nothing lost, a reader copied midway continues from there, and several readers over their own sources may be interleaved freely, also by several threads. Narrow text is converted in the encoding of the C locale: what it can express is converted exactly, text with anything it cannot express yields an empty text.",
  ["fault_sequences", "inputs", "histories"],
  "every truncation and corruption point of every text in every encoding pair, every point at which the source fails, and every interleaving of readers",
  "The conversion tests use well-formed texts and a few fixed malformed ones.",
  ["Source/Strings/Conversion.h", "Source/Strings/Conversion.cpp", "Source/Strings/Conversion.Linux.cpp"],
  [("incremental state machines with a sticky error flag", "Source/Strings/Conversion.h UtfConversion, UtfReaderBase, UtfToUtfReaderBase")],
  ["characters, indices and clusters produced", "reads of the source"])

p("C15", "Console text arrives complete and in order through slow or failing streams",
  "Text written to the console reaches the output stream completely and in order however the stream splits or delays it, a line is followed by exactly one line break, and when the stream fails at some point what is delivered of that text is an exact prefix of it (for a line: a prefix of its text, and of its line break after it), later output resumes once the stream works again, and the program continues. Reading returns successive input lines without their terminator, whatever characters they contain, however the input arrives in pieces, the last unterminated line is still returned, and after the end of input or an input error reading returns the empty string and never hangs.",
  ["fault_sequences", "histories"],
  "every chunking, stall, failure and end position of the two streams and every history of writes and reads",
  "No test touches the console except by printing to a working terminal.",
  ["Source/Console.cpp", "Source/Console.Linux.cpp"],
  [("standard wide streams", "Source/Console.Linux.cpp Console::Write/Read")],
  ["characters received by the output stream", "strings returned by reads"])

p("C16", "Optional and variant values survive throwing copies",
  "Through any history of assignments, copies, moves and resets of optional and variant values, in which any copy construction or copy assignment of a contained value may throw (moving never does, and a contained value whose own assignment throws keeps its value), each holder afterwards reports either exactly its old value or exactly its new value, never a half-constructed one, can still be assigned, read and destroyed, and a holder that was only a copied source keeps its value. A value may also be replaced by a part of itself, such as the rest of a chain that it owns, copied or moved; moving a value in never copies it. Every contained object ever created is destroyed exactly once.",
  ["fault_sequences", "histories"],
  "every history of operations and every throwing position",
  "Tests never use contained types whose copies fail.",
  ["Source/Primitives/Nullable.h", "Source/Primitives/Variant.h"],
  [("manual in-place construction and destruction", "Source/Primitives/Variant.h, Source/Primitives/Nullable.h")],
  ["state and value of every holder", "contained objects' lifetimes"])

p("C17", "Sorting never loses or duplicates elements, even if a comparison throws",
  "Sorting a sequence in place with any comparison, including one that throws at any point or answers inconsistently, and with elements whose copying may throw (moving them does not), always terminates within a number of comparisons quadratic in the length or by that exception, with calls nested only logarithmically deep, leaves a permutation of the original elements, touches nothing outside the sequence, and destroys no element twice; when the comparison is a consistent ordering and does not throw the result is ordered by it, and numbers that cannot be compared are refused with an error.",
  ["fault_sequences", "inputs"],
  "every input, every comparison position at which the comparison throws, every inconsistent comparison",
  "Tests sort a few fixed arrays with well-behaved comparisons.",
  ["Source/Collections/Operation.h"],
  [("in-place quick sort by swaps", "Source/Collections/Operation.h SortLambda")],
  ["multiset of elements after the sort", "element lifetimes", "memory around the sequence"])

p("C18", "Collection references are told exactly once when their collection goes",
  "A reference object attached to a collection or lazy query is kept alive by it, is returned unchanged while the collection lives, cannot be replaced, and is told exactly once for each collection it is attached to that this collection is disposed, when the collection object is destroyed and not before, however collections are emptied, refilled, have their contents moved to others (the reference stays), are queried (a query does not carry it), shared by lazy queries across threads, or destroyed in the middle of an exception.",
  ["histories", "schedules", "fault_sequences"],
  "every history of attach, move, share and destroy, in every interleaving",
  "One small single-threaded test attaches a reference to one list.",
  ["Source/Collections/Interfaces.h", "Source/Collections/Operation.h", "Source/Collections/Dictionary.h"],
  [("disposal notification from the collection base destructor", "Source/Collections/Interfaces.h EnumerableBase")],
  ["notifications received by each reference object"])

p("C19", "Placeholder text is well formed and sized for any clock and dice",
  "Whatever the clock and the random source return, and on any number of threads at once, generating placeholder text terminates; a text, title or sentence differs from the requested length by at most one (12-letter) word and a paragraph by at most 20 characters; each consists of dictionary words in the requested casing separated by single blanks, a sentence starts with a capital and ends with a full stop, a paragraph consists of such sentences separated by a blank in which clauses are separated by a comma and a blank, with no empty word, clause or sentence. When memory runs out that is reported and nothing is leaked.",
  ["fault_sequences", "schedules", "configurations"],
  "every sequence of random-source answers and clock readings, every requested length, every interleaving of callers, every failing allocation",
  "The generator is seeded from the real clock and no test inspects its output.",
  ["Source/Strings/LoremIpsum.cpp", "Source/Strings/LoremIpsum.h"],
  [("random word picking", "Source/Strings/LoremIpsum.cpp")],
  ["generated strings", "random-source and clock calls", "heap blocks"])

p("C20", "Dependency ordering returns components in dependency order, through failures",
  "For any distinct items and any dependencies between them, given as a table, as a function or between groups of items, the computed components partition the items, two items share a component exactly when they depend on each other (directly or not, or belong to the same group of items), and every component comes after the components it depends on; each item lists exactly its direct dependencies and dependants. A dependency on something that is not an item, and initialising or sorting a non-empty ordering twice, are refused with an error. When the relationship function or copying an item throws or memory runs out, the exception reaches the caller, the given items and dependencies are unchanged and nothing is leaked; after a throwing relationship function the same ordering can be initialised again.",
  ["fault_sequences", "inputs", "histories"],
  "every directed graph and grouping, every position at which the function, a copy or an allocation fails",
  "Tests use a few small graphs and nothing fails.",
  ["Source/Collections/PartialOrdering.h", "Source/Collections/PartialOrdering.cpp"],
  [("strongly connected component search", "Source/Collections/PartialOrdering.cpp")],
  ["nodes, components, dependency lists", "item lifetimes", "heap blocks"])

p("C21", "Push-only allocators and byte maps keep every item at its address",
  "An item created by a push-only allocator keeps its address and value until the allocator is destroyed, is found again by its number in order of creation, is never handed out twice, and numbers not created yet yield nothing. A byte map yields for each of its 256 keys exactly the object last put there, and nothing otherwise, however many maps share one allocator and whatever the allocator's block size. When memory runs out or an item's construction throws, that is reported, items and maps keep what they had and stay usable, and nothing is leaked; every item is destroyed exactly once with its allocator. Several threads may look things up at once.",
  ["histories", "fault_sequences", "schedules"],
  "every history of creations and assignments, every block size, every failing allocation and construction, every interleaving of lookups",
  "The tests fill one map and never fail an allocation.",
  ["Source/Collections/List.h"],
  [("blocks that never move", "Source/Collections/List.h PushOnlyAllocator::Create/Get"), ("four-level tree in a shared allocator", "Source/Collections/List.h ByteObjectMap, bom_helper::Accessor")],
  ["addresses and values of items", "objects found in maps", "item lifetimes", "heap blocks"])

p("C22", "Numbers and letter case convert exactly, on any thread",
  "Formatting any number as narrow or wide text gives its decimal form (a real number rounded to six decimals, without trailing zeros) and parsing accepts exactly that canonical decimal form of every number in range (32 bits for int and uint, 64 bits for the others) and rejects every other text with the success flag, including empty text, signs, blanks or zeros that formatting would not write, trailing characters, embedded zero characters and numbers out of range; a real number is accepted exactly when the C library reads the whole, non-empty text. The forms without a flag yield zero for rejected text. Converting letter case maps each character as the C library does into a new text of the same length and leaves the original, and every text sharing its storage, unchanged. All this holds for slices of longer texts, on any number of threads at once, and when memory runs out that is reported and nothing is leaked.",
  ["schedules", "inputs", "fault_sequences"],
  "every number and every text, every interleaving of callers, every failing allocation",
  "Tests sample a few numbers on one thread and never fail an allocation.",
  ["Source/Strings/String.cpp", "Source/Strings/String.h"],
  [("C library conversions into per-call buffers", "Source/Strings/String.cpp itoa..wtof"), ("round-trip comparison decides acceptance", "Source/Strings/String.cpp *_test")],
  ["returned numbers, flags and texts", "heap blocks"])

p("C23", "Tuples and pairs are element-wise values with consistent comparison",
  "Tuples and pairs, however nested in each other and with optional values, copy, move, assign, convert between element types and bind to names element by element; a tuple of references refers to what it was given and assigning it rebinds it. When copying an element throws, the exception reaches the caller, a value under construction is undone, in an assignment each element is either the old or the new one, the source is unchanged, and every element is destroyed exactly once. Equality and ordering are lexicographic, agree with each other and with exchanged operands, an empty optional comes before every value, and elements that cannot be compared make the result unordered unless an earlier element decides.",
  ["histories", "fault_sequences", "inputs"],
  "every history of operations, every throwing position, all pairs of values",
  "Tests use a few values and elements whose copies never fail.",
  ["Source/Primitives/Tuple.h", "Source/Collections/Pair.h", "Source/Primitives/Nullable.h"],
  [("per-index element bases", "Source/Primitives/Tuple.h TupleElement, TupleBase"), ("three-way comparison operators", "Source/Primitives/Tuple.h, Source/Collections/Pair.h, Source/Primitives/Nullable.h")],
  ["element values and lifetimes", "comparison results"])

p("C24", "Copying between containers transfers exactly the source, or stops cleanly",
  "Copying any container, lazy query, string or memory range into another container or string replaces its contents by exactly the source's elements in order (or adds them after the existing ones when appending; a sorted list keeps order, a dictionary lets later associations win, a group collects them), leaving the source unchanged; a list or array may be appended to itself. When reading the source or copying an element throws or memory runs out, the exception reaches the caller and the target stays usable: a string is unchanged, a list, sorted list, dictionary or group is unchanged or holds what it kept plus a prefix of the source, an array is unchanged or has the final size with each place old, new or blank; nothing is leaked and every element is destroyed exactly once.",
  ["histories", "fault_sequences"],
  "every pair of source and target kinds, every position at which the source, a copy or an allocation fails",
  "Tests copy a few integers and nothing fails.",
  ["Source/Collections/OperationCopyFrom.h", "Source/Collections/OperationString.h", "Source/Collections/Interfaces.h"],
  [("algorithm chosen by what source and target can do", "Source/Collections/OperationCopyFrom.h CopyFromAlgorithm")],
  ["contents of source and target", "element lifetimes", "heap blocks"])

for d in P: print(json.dumps(d, ensure_ascii=False))
