#!/usr/bin/env python3
# Source of properties.jsonl and MANIFEST.json: run it after editing (./props.py).
import json, sys
from checks import CHECKS

P = []
def prop (id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append (dict (id=id, title=title, statement=statement,
        quantifier=dict (over=over, text=text), why_tests_cant=why,
        anchors=dict (files=files, mechanism=[dict (name=n, where=w) for n,w in mech],
            state=[dict (name=n, meaning=m, where=w) for n,m,w in state], observe_at=list(observe), hook_needed=None)))

prop ("C01", "Memory blocks hold exactly the bytes every history put there, owned or linked",
    "After any sequence of assign, link, resize, reserve, insert, erase, copy, move, swap, fill and deallocate operations, a memory block or link has the size and bytes a plain byte array would have, capacity is at least the size of an owned block, and comparison and search agree with the bytes. A block that merely links to foreign memory never writes through a read-only link, never frees it, and makes its own copy before it is resized. Nothing outside the block's bounds is read or written, and every allocation is freed exactly once.",
    ["histories","inputs"], "all sequences of public operations on cmemlink, memlink and memblock objects, owned and linked, with arguments in their documented domain (not aliasing the block's own storage)",
    "The tests perform about thirty fixed edits of one or two blocks; which of the link, grow, shift and free paths meet depends on the history of the object and the sizes involved.",
    ["memblock.cc","memblock.h","memlink.cc","memlink.h","cmemlink.cc","cmemlink.h"],
    [("grow, copy on link, reserve rounding","memblock.cc memblock::reserve, resize, copy_link"),("insert and erase shifts","memblock.cc insert, erase; memlink.cc insert, erase"),("ownership by capacity","memblock.h is_linked, manage, deallocate, ~memblock")],
    [("_data,_size","linked or owned range","cmemlink.h"),("_capacity","0 when linked, else allocated bytes","memblock.h")],
    ["size","capacity","is_linked","data()","heap calls","guarded linked memory"])
prop ("C02", "vector behaves as a sequence under any history of operations",
    "After any sequence of push, pop, insert, emplace, erase, resize, assign, copy, move, swap, reserve and shrink operations, a vector holds exactly the elements an abstract sequence would hold, in order, and returned iterators denote the expected positions. Every element that is observed has been constructed exactly once and is destroyed exactly once; no element is used before construction or after destruction. Equality of vectors is decided by the elements' own comparison.",
    ["histories","inputs"], "all sequences of vector operations over trivially copyable and non-trivial element types with in-range positions and arguments that do not alias the vector",
    "The tests show a few dozen fixed edits, mostly of int vectors; growth, tail shifts and element lifetimes interact through capacity and position, which the tests sample once each.",
    ["uvector.h","umemory.h","ualgobase.h","memblock.cc"],
    [("element construction around raw block moves","uvector.h insert_space, insert, erase, resize"),("storage","memblock reserve/insert/erase")],
    [("_data memblock","element bytes","uvector.h")], ["size","operator[]","returned iterators","element lifecycle log"])
prop ("C03", "string editing matches an abstract character sequence and is always terminated",
    "After any sequence of assign, append, insert, erase, replace, resize, push, copy, move and swap operations on strings, owned or linked to literal text, a string holds exactly the characters a plain character sequence would hold, including embedded NULs, and c_str() of a string that owns its text is followed by a NUL. Linked text is never modified through the string, and no bytes outside the string's storage are touched. Formatted assignment and append give exactly the text vsnprintf produces for every result length.",
    ["histories","inputs"], "all sequences of string editing operations with in-range positions and arguments that do not alias the string's own storage",
    "The tests edit a handful of strings; terminator placement, linked starts, embedded NULs and buffer growth depend on length and history.",
    ["ustring.cc","ustring.h","memblock.cc"],
    [("terminator kept past the size","ustring.h minimumFreeCapacity; ustring.cc resize, reserve"),("replace and insert","ustring.cc insert, erase, replace"),("formatting loop","ustring.cc vformat")],
    [("data,size","characters, terminator excluded from size","ustring.h")], ["c_str","size","operator[]","heap log"])
prop ("C04", "string search and comparison agree with a naive scan of the characters",
    "For every haystack, needle or character set and start position, find, rfind, find_first_of, find_first_not_of, find_last_of and find_last_not_of return the position a naive scan would return, or npos; backward searches for text return the last occurrence that ends at or before the start position. compare, ==, <, and the related operators order strings by unsigned bytes and then length. No byte outside the operands is read.",
    ["inputs"], "all strings, needles (not empty), sets and start positions",
    "Search results depend on the relation between two strings and a position; tests check about twenty triples.",
    ["ustring.cc","ustring.h","ualgo.h"],
    [("forward and backward search","ustring.cc find, rfind, find_first_of, ..."),("ordering","ustring.cc compare")],
    [], ["returned positions","comparison results"])
prop ("C05", "Maps and sets keep sorted contents, key uniqueness and consistent queries",
    "After any history of inserts (plain, hinted, range, emplaced), erases, assignments, copies, moves and swaps, a set, multiset, map or multimap holds exactly the elements a reference ordered container would hold, sorted by its comparator, with equivalent keys unique in set and map and kept in insertion order in multiset and multimap. find, count, lower_bound, upper_bound, equal_range, at and operator[] agree with those contents for every key, and insert reports truthfully whether and where it inserted. This holds for any strict weak ordering supplied as the comparator.",
    ["histories","inputs"], "all operation histories, key distributions and strict weak orderings",
    "Tests insert a few fixed keys with the default order; position of an insertion and the answer of a query depend on the relative order of all keys present.",
    ["uset.h","umultiset.h","umap.h","umultimap.h","upredalgo.h","ualgo.h"],
    [("insert at lower/upper bound","uset.h umap.h umultiset.h umultimap.h insert"),("binary searches","ualgo.h upredalgo.h lower_bound, upper_bound, equal_range")],
    [], ["iteration","query results","insert results"])
prop ("C06", "queue, stack, list, deque and priority_queue keep their access discipline",
    "Under any history of operations a queue returns elements first-in first-out, a stack last-in first-out, a priority_queue always the greatest remaining element by its comparator, and list and deque behave as the sequence their push/pop front and back, splice, merge, remove, unique, sort and reverse operations describe. size, empty, front, back, top, copies, swaps, assignments and comparisons reflect only the elements currently in the container. Elements that were popped never reappear, and every element is destroyed exactly once.",
    ["histories","inputs"], "all operation histories on each adapter and sequence",
    "queue keeps a moving front index with lazy compaction and priority_queue a heap, so correctness depends on the length and mix of the history; tests run one short scenario each.",
    ["uqueue.h","ustack.h","ulist.h","uheap.h"],
    [("moving front with lazy compaction","uqueue.h push, pop"),("heap maintenance","uheap.h push_heap, pop_heap; uqueue.h priority_queue")],
    [("_front","index of the first live element","uqueue.h")], ["front/back/top","size","copies"])
prop ("C07", "Algorithms meet their standard specification for every input",
    "Every algorithm of the library (searches, counting, copying, partitioning, removing, uniquing, reversing, rotating, filling, generating, set operations, merges, sorts, heaps, binary searches, permutations, lexicographic comparison, min/max, and the numeric folds) gives the result and return value its C++98/11 standard counterpart specifies, with and without a user predicate. Elements are neither lost nor duplicated, ranges given as constant are not modified, and stability holds where the standard requires it. No element outside the given ranges is read or written, including for empty ranges.",
    ["inputs"], "all input ranges, predicates and split points accepted by the standard preconditions",
    "Most tests print the result of one call on one array; the boundary conditions (empty, single, all equal, match at either end, unstable ties) are not sampled.",
    ["ualgo.h","upredalgo.h","ualgobase.h","uheap.h","unumeric.h","ufunction.h"],
    [("algorithms","ualgo.h"),("predicate versions","upredalgo.h"),("heaps","uheap.h"),("numeric","unumeric.h")],
    [], ["output ranges","return values","guarded inputs"])
prop ("C08", "Raw copy, fill and rotate primitives are exact at every length and alignment",
    "The typed and raw copy, copy backward, fill, move and rotate primitives produce byte-for-byte the specified result for every length, every source and destination alignment, and every overlap they document as allowed. They return the end of the written range. They never read or write a byte outside the source and destination ranges, and leave the caller's floating-point registers usable.",
    ["inputs"], "all lengths, alignments, overlaps, element widths and fill values",
    "The optimised paths split into heads, word loops and tails by length and alignment; tests use a few large aligned blocks.",
    ["memblock.cc","cmemlink.cc","uutility.h","ualgobase.h","ualgo.h","fstream.cc"],
    [("word loops with head and tail","ualgobase/memlink: copy_n_fast, copy_backward_fast, fill_n8_fast, fill_n16_fast, fill_n32_fast, rotate_fast")],
    [], ["memory contents","guard bytes"])
prop ("C09", "UTF-8 encoding, decoding and iteration are inverse and length-exact",
    "Every code point is written in the number of bytes reported for it, those bytes are its UTF-8 encoding, and decoding them gives back the code point. Iterating a string by characters, converting to and from wide strings, inserting wide characters and asking for the character length all agree with that encoding for every sequence of code points. Reading and writing through the UTF-8 iterators never advances or writes past the encoded bytes.",
    ["inputs"], "all code points and all sequences of them",
    "The tests use one short multilingual string; byte-length boundaries are not covered.",
    ["utf8.h","ustring.cc","ustring.h"],
    [("length tables","utf8.h Utf8Bytes, Utf8SequenceBytes"),("iterators","utf8.h utf8in_iterator, utf8out_iterator"),("wide conversions","ustring.cc assign, insert, length")],
    [], ["bytes written","decoded values","positions"])
prop ("C10", "Values written to a binary stream read back equal, in stream_size bytes",
    "For every supported type and every value, writing the value to a binary stream advances the stream by exactly the reported stream size, and reading it back from any suitable starting position gives an equal value and advances by the same amount. This holds for values written one after another with alignment requests between them, for containers, strings, pairs, tuples, bitsets and nested combinations, and for skip, seek, align and unread.",
    ["inputs","histories"], "all sequences of typed writes and the matching reads, for all values and stream positions",
    "Tests write one fixed list of values; element counts, alignment remainders and nesting change the layout.",
    ["mistream.h","mistream.cc","ofstream.h","sostream.h","uios.h","strmsize.h","stdarg","uvector.h","ustring.cc"],
    [("typed read/write","mistream.h iread, iwrite, read, write"),("sizes","strmsize.h stream_size_of, stream_align_of"),("alignment","mistream.h align, skip, seek")],
    [("_pos","stream position","mistream.h")], ["pos","remaining","values read"])
prop ("C11", "Reading a truncated or corrupt stream is reported and never leaves the buffer",
    "For every prefix and every corruption of the count and length fields of a serialized value, reading it either yields a value or throws a stream bounds exception or sets the fail state, and never reads outside the stream's buffer, allocates without bound or loops. The same holds for writes into a memory buffer that is too small: they are refused, nothing past the end is written, and what was written before is intact.",
    ["inputs","fault_sequences"], "all truncation points and all values of length fields, of all serialized forms; all buffer sizes for writes",
    "The tests read only complete streams; truncation and corruption are only reached by enumerating every cut.",
    ["mistream.h","mistream.cc","sostream.h","ustring.cc","uvector.h","uctrstrm.h"],
    [("remaining checks","mistream.cc underflow, verify_remaining; mistream.h read")],
    [], ["exceptions","stream state","guard pages"])
prop ("C12", "Text output writes exactly the formatted text and keeps or refuses it as a whole",
    "For every value, base, width, fill, precision, sign and justification setting, a number is written to an output string stream as printf writes it with the corresponding flags, width and precision; characters, strings, booleans and containers are written in their documented form, and a sequence of insertions produces their concatenation. Format flag functions set what they name and return the previous flags. Text accumulated by a stream is complete regardless of how and when its buffer grew or was asked for, and whether the buffer was the stream's own, the user's, or started from a given string; the user's buffer is never written past its end, nor a given string changed.",
    ["inputs","histories","configurations"], "all values, format settings and output histories; all buffer sizes",
    "Tests print a few dozen values with a few settings; combinations of flags and values near the limits are not covered.",
    ["sostream.cc","sostream.h","uios.h","ustring.cc"],
    [("number formatting","sostream.cc iwrite, fmtstring"),("buffer growth","sostream.cc overflow")],
    [], ["str()","stream state"])
prop ("C13", "Text input parses what the text says and nothing beyond it",
    "Reading numbers, words, characters, booleans and lines from an input string stream skips the stream's delimiters (by default \" \\t\\n\\r;:,.?\" and nul) and then gives exactly the value the text spells there: numbers in the selected base or, without one, the base their prefix tells (where there is no number, zero, with nothing consumed); words up to a delimiter, or between quotes, with escapes translated; lines up to the line end. This holds at every position including the very end of the text: the last value is delivered like any other, and failure is reported when, and only when, there is nothing left to read. get, getline, ignore, peek, unget, read and gcount account for exactly the characters they consume. No byte past the end of the text is read. Loops written as while (is >> v), while (getline (is, s)) or over istream_iterators visit every value once and end.",
    ["inputs","histories"], "all texts over the delimiter, digit, sign and letter alphabet and all sequences of extractions",
    "Tests read two fixed strings; end-of-text, empty fields, delimiters and sign handling depend on exact positions.",
    ["sistream.cc","sistream.h"],
    [("skip delimiters and parse","sistream.cc skip_delimiters, read_number, iread"),("line and character extraction","sistream.cc get, getline, ignore")],
    [], ["values","stream state","positions"])
prop ("C14", "What a file input stream delivers does not depend on how the reads are cut",
    "For every file content and every way the operating system splits it into reads (short reads, interrupted reads), a file input stream delivers the same values, lines and characters, in order, without loss, duplication or corruption, and reaches end of file exactly at the end. Buffer refills in the middle of a number, word or line do not change what is parsed. A read error is reported through the stream state.",
    ["inputs","schedules","fault_sequences"], "all contents, all partitions into read results, all placements of interruptions and errors",
    "A local file read is always complete, so the tests never see a short read or a refill inside a token.",
    ["ofstream.cc","ofstream.h","sistream.cc","fstream.cc"],
    [("refill keeping the unread tail","ofstream.cc ifstream::underflow"),("retries on EINTR","fstream.cc read, readsome")],
    [], ["values delivered","stream state","read() calls"])
prop ("C15", "File output writes every accepted byte once and in order, or reports failure",
    "For every sequence of writes to a file stream and every sequence of short writes, interruptions and errors the operating system returns, the bytes that reach the file are exactly the bytes written so far, in order and without duplication, up to the first reported error. After a successful flush or close everything written is in the file. An error is reported through the stream state or an exception and never causes an endless loop or loss of text already accepted before it.",
    ["histories","fault_sequences"], "all write histories and all short-write, interrupt and error sequences",
    "Writes to a test file never fail or fall short, so retry and error paths are not executed at all.",
    ["ofstream.cc","ofstream.h","fstream.cc","fstream.h"],
    [("partial write handling","fstream.cc fstream::write; ofstream.cc overflow, flush")],
    [], ["bytes received by write()","stream state"])
prop ("C16", "File streams keep state, exceptions and descriptors straight over any history",
    "Over any history of open, attach, detach, close and failed operations a file stream owns at most one descriptor, closes each descriptor it owns exactly once, and never closes a detached one. Failed system calls set the documented state bits, and throw a file exception naming the operation and file exactly when the exception mask asks for it (stat and size, which leave the state alone, always throw). Open modes translate to the corresponding system flags, and seek, tell, size and mapping calls pass their arguments through unchanged.",
    ["histories","fault_sequences","configurations"], "all histories, all failure points, all exception masks and open modes",
    "Tests open one file successfully; failure points and exception masks multiply and cannot be reached without fault injection.",
    ["fstream.cc","fstream.h","uios.h","mistream.cc"],
    [("state and exception mask","uios.h set_and_throw; fstream.cc set_and_throw"),("descriptor ownership","fstream.cc open, attach, detach, close")],
    [], ["system calls made","state bits","exceptions"])
prop ("C17", "Owning pointers and scope guards release exactly once",
    "Over any history of construction, copy, move, assignment, reset, release, swap and destruction, auto_ptr, unique_ptr, shared_ptr and the scope guards delete each managed object exactly once, when its last owner goes away, and never while an owner remains. Comparisons, conversion to bool, use_count and unique report the actual ownership.",
    ["histories"], "all histories over several pointers and objects, including self-assignment and exceptions",
    "Tests run one fixed sequence per pointer class; double frees and leaks arise from particular combinations of assignments.",
    ["umemory.h"],
    [("ownership transfer","umemory.h auto_ptr, unique_ptr"),("reference count","umemory.h shared_ptr")],
    [], ["destructor log","use_count"])
prop ("C18", "shared_ptr reference counting is safe under concurrent copies and releases",
    "When several threads copy, assign, reset and destroy their own shared_ptrs to one object in any interleaving, the object is destroyed exactly once, after the last owner released it and not while any thread still owns it. No count update is lost, and the control data is freed exactly once.",
    ["schedules"], "all interleavings of two to three threads, each with its own shared_ptr objects sharing one target",
    "A single-threaded test cannot exhibit a lost update or a double release; the failing interleavings are a handful of instructions wide.",
    ["umemory.h","uatomic.h"],
    [("atomic reference count","umemory.h shared_ptr; uatomic.h")],
    [], ["destructor log","heap log"])
prop ("C19", "Atomic types and flags are atomic and order the data they guard",
    "Every read-modify-write of an atomic, atomic flag or test-and-set cell takes effect indivisibly and returns the value it replaced or produced, for every interleaving of threads. At most one thread at a time holds a lock built from test_and_set and clear, and data written under it is visible to the next holder. Compare-exchange succeeds if and only if the value was the expected one and reports the observed value otherwise.",
    ["schedules"], "all interleavings of two to three threads over the atomic operations",
    "Interleavings are not controllable from tests; a non-atomic replacement passes every sequential test.",
    ["uatomic.h","uutility.h"],
    [("compiler atomics","uatomic.h atomic<T>, atomic_flag; uutility.h TestAndSet")],
    [], ["returned values","final values","happens-before races"])
prop ("C20", "A failed allocation or throwing element leaves objects valid and leaks nothing",
    "If any allocation, or any construction, copy, assignment or comparison of an element, inside an operation on a block, string, container or stream fails, the operation reports it by an exception, every object involved remains usable and destructible, and nothing is leaked or freed twice. Elements that existed before and were not the target of the operation are still there.",
    ["fault_sequences","histories"], "all failure points (each allocation and each element construction, copy, assignment and comparison) in all operations of the alphabet",
    "Allocation never fails in a test run; each failure point is a separate path.",
    ["memblock.cc","umemory.h","uvector.h","ustring.cc","uexception.cc","unew.cc"],
    [("exception on failed realloc","memblock.cc reserve; unew.cc tmalloc, throwing operator new")],
    [], ["exceptions","heap log","element log"])
prop ("C21", "bitset operations act on exactly its N bits",
    "For every size, every bitset operation (set, reset, flip, test, shifts where provided, and, or, xor, not, ranges, string and integer conversion, any, none, all, count, comparison) gives the result the corresponding operation on N individual bits gives. Bits beyond N never influence a result. String conversion round-trips.",
    ["inputs","histories"], "all sizes including multiples of the word and their neighbours, all values, all ranges",
    "Tests use three sizes and a few patterns; padding bits matter only for particular sizes and sequences.",
    ["ubitset.h","ubitset.cc"],
    [("bit storage in words","ubitset.h; ubitset.cc convert_to_bitstring, convert_from_bitstring")],
    [], ["bit values","count/any/none/all","strings"])
prop ("C22", "tuple, array, matrix and vectorised arithmetic equal the element-wise result",
    "Every arithmetic, comparison, assignment, swap and conversion operation on tuples, arrays and matrices equals the same operation applied element by element, for every element type, size and value, whether or not a vectorised path is used. Saturating, averaging and rounding operations give the exact result clamped or rounded. Matrix products, transposes and identity follow their mathematical definitions. Nothing outside the destination changes, and the caller's floating-point registers and rounding modes are left as they were.",
    ["inputs"], "all element values in the alphabet, sizes, and element types",
    "The vectorised paths are chosen by size and type at compile time; tests cover one value per operation.",
    ["utuple.h","uarray.h","umatrix.h","simd.h","ulaalgo.h"],
    [("packed operations","simd.h"),("element loops","utuple.h uarray.h umatrix.h"),("matrix products","ulaalgo.h")],
    [], ["element values"])
prop ("C23", "Exceptions describe themselves, copy and serialize faithfully",
    "Every library exception formats a terminated, bounded description containing its arguments, and a copy or a deserialized exception formats identically to the original. Copying, assigning, serializing and destroying exceptions and backtraces in any order neither leaks nor frees twice. Reading a corrupt exception record is rejected.",
    ["histories","inputs"], "all exception types, argument values, copy and serialization histories",
    "Tests print each exception once and do not copy, assign or corrupt them.",
    ["uexception.cc","uexception.h","bktrace.cc","bktrace.h"],
    [("record format","uexception.cc read, write"),("ownership of backtrace text","bktrace.cc")],
    [], ["what/info text","heap log"])
prop ("C24", "Durations, ratios and clocks do exact arithmetic",
    "Conversions between durations are exact or truncate toward zero as specified, arithmetic and comparison of durations and time points equal the arithmetic on their exact rational values, and compile-time ratios are the exact reduced results. Splitting a time into seconds and nanoseconds, incrementing and combining them always yields a normalised value equal to the exact one.",
    ["inputs"], "all tick counts in the alphabet and all pairs of standard periods",
    "Tests check a few constants; carries and conversions depend on boundary values.",
    ["uchrono.h","uratio.h"],
    [("duration_cast","uchrono.h"),("ratio arithmetic","uratio.h")],
    [], ["counts"])
prop ("C25", "Numeric and bit utilities are exact over their whole domain",
    "Alignment, division with rounding up, next power of two, bit scan, bit rotation, byte swapping, packing and unpacking, absolute value, sign, min, max, gcd and lcm and the other arithmetic helpers equal their mathematical definition for every argument in their documented domain. Range and size helpers count exactly.",
    ["inputs"], "all arguments of the 8- and 16-bit instances and all boundary patterns of the wider ones",
    "Tests evaluate a few constants; assembly and bit tricks fail at boundaries.",
    ["uutility.h","unumeric.h","ulimits.h","ualgobase.h"],
    [("bit tricks and intrinsics","uutility.h")],
    [], ["returned values"])
prop ("C26", "Numbers converted to text and back are unchanged",
    "For every number, its text form produced by the library's conversions denotes that number, and converting the text back through the library's conversions or streams gives the same number; this includes the extremes of every integer type, every base, and floating-point values to the documented precision. Malformed text is rejected or converted up to the documented position.",
    ["inputs"], "all integers of the narrow types and boundary patterns of the wide ones, all bases, texts over a small alphabet",
    "Tests convert a few small numbers.",
    ["ustring.cc","ustring.h","sostream.cc","sistream.cc"],
    [("conversions","ustring.h stoi, to_string etc.; sostream.cc; sistream.cc")],
    [], ["text","values"])

prop ("C27", "Iterator and functional adaptors behave as what they wrap",
    "A reverse iterator visits the elements of its range in exactly the opposite order and supports every arithmetic and comparison its base supports, with the mirrored meaning. Move iterators move, insert iterators insert every assigned value once and in order, and index iterators visit the elements named by their indexes. Function objects, binders, negators, compositions and member function adaptors return exactly what the wrapped function or operator returns for those arguments.",
    ["inputs"], "all positions and offsets of all adaptors on ranges of the bounded sizes; all argument values in the alphabet",
    "The tests use one or two adaptors on one range; direction and offset errors show only for particular operators and positions.",
    ["uiterator.h","ufunction.h"],
    [("iterator adaptors","uiterator.h reverse_iterator, move_iterator, insert_iterator, index_iterate"),("functors","ufunction.h")],
    [], ["visited elements","returned values"])

prop ("C28", "Comparisons and hashes depend only on the values compared and are consistent",
    "Two objects compare equal exactly when they represent the same value, whatever history of growth, shrinking, copying, swapping or linking made them; != is the opposite of ==, and where a type is ordered, <, >, <= and >= agree with the lexicographic order of the elements, members or bytes and with each other, so exactly one of a < b, a == b, a > b holds. Comparison of a string with C text or with a character is comparison with the string of that text. Equal texts have equal hashes, and every character of a text takes part in its hash.",
    ["inputs","histories"], "all pairs of values of each container, adaptor, pair, tuple, array, string, block and link type, each value made in several ways",
    "The tests compare a few pairs of objects with the same history; a comparison that looks at capacity, stale elements, only a prefix, signed bytes or only one member is wrong for particular pairs.",
    ["uvector.h","ustring.h","ustring.cc","cmemlink.h","cmemlink.cc","uutility.h","uarray.h","utuple.h","ulist.h","uset.h","umap.h","uqueue.h","ustack.h","ualgobase.h"],
    [("element and byte comparison","uvector.h operator==; cmemlink.cc operator==; ustring.cc compare; utuple.h and uarray.h operator<"),("hash","ustring.cc string::hash"),("derived operators","uutility.h operator!=, >, <=, >=")],
    [], ["results of the comparison operators","hash values"])
prop ("C29", "Algorithms over whole containers do what the range algorithms do",
    "Each algorithm that takes a container instead of a range gives the result and leaves the contents that the algorithm over begin() and end() gives, and those that remove elements also resize the container to the elements kept. Nothing outside the container is touched.",
    ["inputs"], "all contents of the bounded sizes of every container type, with every value and position as argument",
    "The tests call few of these shorthands, each with one container; a shorthand wired to the wrong algorithm, bound or direction shows only on particular contents.",
    ["uctralgo.h","ualgo.h","ualgobase.h","upredalgo.h"],
    [("shorthands","uctralgo.h")],
    [], ["contents","returned values and positions"])
prop ("C30", "Copies, moves, swaps and exchanges carry whole values",
    "For every value type of the library (containers, adaptors, strings, blocks, links, pairs, tuples, arrays, matrices, bitsets, durations and times, owning pointers, binary and input streams, error codes), over any history of copying, assigning, moving, swapping and exchanging of objects, a copy has the value of its source and is independent of it, a moved value arrives complete and leaves an object that can be used again, swap and iter_swap interchange the two values, also of one object with itself, and exchange returns the old value. Pairs made of or converted from other objects hold values of their own. No element is lost, duplicated or leaked.",
    ["histories","inputs"], "all histories of such operations on two objects of each of 61 types, and all ways to make a pair",
    "The tests copy or swap a few objects once; an operation that misses one member, shares storage, or fails on an object moved from or assigned to itself shows only after particular histories.",
    ["ualgobase.h","uspecial.h","upair.h","uvector.h","ulist.h","uset.h","umultiset.h","umap.h","umultimap.h","ustack.h","uqueue.h","uheap.h","utuple.h","uarray.h","umatrix.h","ubitset.h","umemory.h","memblock.h","ustring.h"],
    [("swap, move and exchange","ualgobase.h swap, exchange; uspecial.h swap specializations"),("pairs","upair.h pair, make_pair"),("members","copy and move constructors, assignments and swap of each class")],
    [], ["values of the objects","live elements and blocks"])

prop ("C31", "Threads with objects of their own, or sharing constant ones, do not interfere",
    "What an operation on an object used by one thread does and returns never depends on what other threads do with other objects at the same time, and operations that leave their object constant may run on one object in several threads at once. Neither needs locks or leads to a data race, in any part of the library: containers, strings, streams, algorithms with function objects, conversions, exceptions and their stack traces. Exempt are the standard streams, random numbers and objects that the program itself changes while others use them.",
    ["schedules","programs"], "all interleavings of two scripts out of 34 that use every part of the library, and of two sets of readers of the same objects, up to one preemption",
    "The tests have one thread; a buffer, cached value or comparison object that is static or mutable gives right answers until two threads are in the same function at once.",
    ["ualgo.h","ustring.cc","sostream.cc","sistream.cc","bktrace.cc","uexception.cc","ustdxept.cc","fstream.cc","ualgobase.cc","memblock.cc","ubitset.cc","uvector.h"],
    [("sort's comparison object","ualgo.h __qsort_compare::s_comp"),("buffers on the stack","ostringstream::iwrite, CBacktrace::GetSymbols, rotate_fast"),("constant tables","utf8.h c_Bounds, fstream.cc s_OMFlags, sostream.cc tf")],
    [], ["results of each thread","accesses that are not ordered"])

prop ("C32", "Every configuration that configure offers behaves like the default one",
    "A library made with configure's --with-debug, --with-demangler, --without-bounds, --without-fastcopy, --force-inline or --with-libstdc++ keeps all the other guarantees, and so does a program compiled without NDEBUG: no assertion ever stops a program whose calls are within the documented contract (indexes and ranges inside the object, positions of binary numbers suitable for their type, bit ranges inside one word, linked text read as a C string is terminated), also after a read or write that was reported as failed; demangling shows the full name of a function or type as far as it fits the buffer it is given and never touches memory beyond it, also when it runs out of memory; without bounds checks, everything written and read within the bounds is the same; without the specializations, copies and fills give the same results.",
    ["configurations","inputs","histories"], "the explorations of the other properties in each configuration",
    "The tests are built and run in one configuration, the release one, where assertions and the other variants of the code are compiled out.",
    ["config.h.in","configure","cmemlink.h","memblock.cc","mistream.h","mostream.h","uvector.h","ustring.h","ustring.cc","ubitset.h","umemory.h","uexception.cc","bktrace.cc","ualgobase.h","uspecial.h","strmsize.h"],
    [("assertions","assert in 25 files"),("bounds checks that can be left out","WANT_STREAM_BOUNDS_CHECKING in mistream.h, mostream.h, uspecial.h, mistream.cc"),("names","demangle_type_name, CBacktrace::GetSymbols"),("specializations","WANT_UNROLLED_COPY in ualgobase.h, ulaalgo.h")],
    [], ["assertion failures and everything the other checks compare"])

prop ("C33", "Growth is amortised, searches are logarithmic, and files are buffered",
    "Adding n elements one after another to a vector, list, stack, queue, priority queue, sorted container or output string stream, or inserting into a block or string, asks for memory a number of times logarithmic in n. Additions within what was reserved or shrunk away before, moves, swaps and clearing ask for none, and a capacity stays proportional to the greatest size held. A queue takes room in proportion to what it holds, however much has passed through. Binary searches and lookups in sorted containers take a logarithmic number of comparisons (plus the number of equal elements where all are found), pushing to and popping from a heap likewise; making a heap, merging, set operations, scans, partitions and permutations take a linear, and sort and sort_heap an n log n, number. Buffered file streams call the operating system once per part of a buffer, not once per value. Documented exceptions: string::append without reserve, stable_sort, partial_sort.",
    ["histories","inputs"], "all sizes of the bounded ranges, ways of adding, starting states, contents of small and patterns of large ranges, and all values searched",
    "The tests look at contents, never at costs; an operation that got linear or reallocates every time still gives the right answer, and shows only as a service that slows down or runs out of memory as its data grows.",
    ["memblock.cc","memblock.h","uvector.h","ulist.h","uqueue.h","ustack.h","uheap.h","uset.h","umultiset.h","umap.h","umultimap.h","ualgo.h","upredalgo.h","sostream.cc","ofstream.cc"],
    [("growth","memblock.cc memblock::reserve; uvector.h reserve_hole, insert_hole; sostream.cc overflow"),("queue storage","uqueue.h queue::pop"),("searches","ualgo.h and upredalgo.h lower_bound, upper_bound, equal_range"),("heaps","uheap.h"),("file buffers","ofstream.cc overflow, refill")],
    [], ["requests for memory and capacities","numbers of comparisons","system calls made"])

TECH = {}
NA = {}
def main():
    pend = "its harness is not finished yet"
    with open ("properties.jsonl", "w") as f:
            for p in P: f.write (json.dumps (p) + "\n")
    checks = []
    for p in P:
            c = CHECKS.get (p["id"])
            if not c: continue
            checks.append (dict (property=p["id"], quick_cmd="./run.py %s" % p["id"], thorough_cmd="VERIF_TIER=thorough ./run.py %s" % p["id"],
                technique=c.get ("technique", "bounded exhaustive model checking of the implementation: all operation histories and inputs against a reference model"), level=c["level"],
                level_note="Exhaustive within bounds: " + c["bounds"] + ". Trusts: " + c.get ("assumptions", "the reference model in the harness, the compiler, and the release build flags; says nothing outside the stated alphabet and depth") + "."))
    na = [dict (property=p["id"], reason=NA.get (p["id"], pend)) for p in P if p["id"] not in CHECKS]
    m = dict (version=1, setup_cmd="true", checks=checks, not_applicable=na,
        notes="Checks build the library from /repo's working tree into .build (by content hash) and run the harness in h/. See DESIGN.md.")
    json.dump (m, open ("MANIFEST.json", "w"), indent=1)
main()
