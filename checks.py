# Registry of checks: property id -> how to build and describe it.
HIST = "exhaustive enumeration of operation histories of the real code against a reference model"
CHECKS = {
"C01": dict(src=["h/c01.cc"], level="model_checking",
    bounds="all histories of 4 (quick) / 5 (thorough) operations from a 33-operation alphabet with all argument choices on two blocks; all in-place edits of blocks of 0..12 bytes; one edit of any kind at the ends and inside of blocks of some 40 sizes around every power of two up to 131072 (thorough: and all below 640); every form of construction, copy, linking and conversion"),
"C02": dict(src=["h/c02.cc"], level="model_checking",
    bounds="all histories of 3 (quick) / 4 (thorough) operations from a 27-operation alphabet with all argument choices on two vectors, for int, a 3-byte POD and a lifecycle-tracked element, and of 4 / 5 operations with a reduced set of arguments; every insertion and erasure of up to 7 elements at every index of vectors of 0..20 elements; one operation of any kind on vectors of those large sizes with counts around every power of two up to 65537, for three element types; links to other memory in the histories"),
"C03": dict(src=["h/c03.cc"], level="model_checking",
    bounds="all histories of 2 (quick) / 3 (thorough) operations from a 40-operation alphabet with all argument choices, and of 3 / 4 operations with a reduced set of arguments, on two strings, from an empty, a linked and an owned start; every single insert, erase and replace of up to 9 bytes at every position of strings of 0..24 bytes; one operation of any kind on strings of some 40 sizes around every power of two up to 131072"),
"C04": dict(src=["h/c04.cc"], level="model_checking",
    bounds="every haystack of 0..6 (8) and needle of 0..4 (5) over three letters at every start position; every pair of strings of 0..4 (5) over bytes 0,1,'a',0xe9 for comparison; needles of 1..9 planted at every offset of haystacks up to 127; searches and comparisons in strings of some 40 sizes up to 131072"),
"C05": dict(src=["h/c05.cc"], level="model_checking",
    bounds="all histories of 3 (quick) / 4 (thorough) operations from a 16-operation alphabet over 4 keys (5 for a coarse order) on ten instantiations of set, multiset, map and multimap; every query for every key after every step; every insertion order of 6 (8) keys out of 6; erasures of key ranges; sets and maps of some 40 sizes around every power of two, queried, copied and edited"),
"C06": dict(src=["h/c06.cc"], level="model_checking",
    bounds="all histories of 4..6 (quick) / 6..7 (thorough) operations on queue and stack over vectors and lists, all push/pop mixes of length 18 / 22 on a queue, all histories of 4 / 5 operations on priority_queue with three orders and on list and deque with all arguments, all push orders of 7 / 8 values out of 4, all merges of sorted lists of up to 4 / 5 elements; queues, stacks, priority queues and lists of some 40 sizes around every power of two up to 131072, with counts of removal, merge and splice around powers of two"),
"C07": dict(src=["h/c07.cc", "h/c07ref.cc"], level="model_checking", wrap=["rand"],
    bounds="every algorithm on every range of up to 6 (quick) / 8 (thorough) elements over three values with every split point and value, and on every pair of ranges of up to 5 and 4 / 6 and 5, with pointers and with a bounds-checking iterator, with and without predicates; all permutations of multisets of up to 5 / 6; every result of rand() for shuffles of up to 4; every algorithm on ranges of sizes around powers of two up to 1025",
    assumptions="the algorithms of the installed C++ standard library are the reference"),
"C08": dict(src=["h/c08.cc"], level="model_checking",
    bounds="copies of every length 0..200 (quick) / 700 (thorough) at every pair of 16 alignments and next to unmapped pages, moves by 0..70 / 140 of 0..150 / 500 bytes, fills of 0..300 / 1000 elements, rotations of 0..150 / 300 bytes about every point, all element types of the templates at 0..71 / 199 elements, and blocks of 70 KiB and 40 MiB"),
"C09": dict(src=["h/c09.cc"], level="model_checking",
    bounds="quick: every code point below 0x220000 and all 32-bit patterns with up to three single bits, their complements and runs; thorough: every 32-bit value; all sequences of up to 3 (4) characters from 19 boundary values, built and iterated in every way; all byte strings of up to 4 (5) over 12 kinds of bytes; texts of 0..5000 (70000) characters of each width and of all in turn"),
"C10": dict(src=["h/c10.cc"], level="model_checking",
    bounds="86 types (scalars, strings, blocks, bitsets, tuples, arrays, pairs, containers and nestings of them), containers of 0..2 (3) elements, over 2..5 values per scalar, at 3..6 suitable start positions and 2..3 buffer addresses; vectors of up to 8 (20) elements of 24 uneven types; all sequences of 3 (4) writes from a 13-operation alphabet with alignment between them; streams attached to strings, blocks and each other"),
"C11": dict(src=["h/c11.cc"], level="model_checking",
    bounds="every truncation of every serialized value of 86 types with containers of 0..2 elements, read over fresh and used objects with exceptions on and off; every byte pair and aligned word of them replaced by 16 / 17 boundary values; every output buffer size; all histories of 2 (3) stream operations on buffers of 0..7 bytes with arguments 0..7 and 8 that overflow"),
"C12": dict(src=["h/c12.cc"], level="model_checking",
    bounds="78 values of 8 integer types and 30 of 3 real types with every combination of base, showbase, showpos, uppercase, left, scientific, 3 fills, 13 widths and 13 precisions; all sequences of 3 flag operations; all histories of 4 (5) of 20 output operations on growing, initialised and user-supplied buffers of 4 sizes; user buffers of 0..39 bytes with every text length and chunking"),
"C13": dict(src=["h/c13.cc"], level="model_checking",
    bounds="two numbers of each of 10 types and 3 bases from all texts of up to 5 (7) characters over a 10-character alphabet; the 24 limit values in 3 bases and 5 contexts; words from all texts of up to 6 (7) characters over quotes, escapes, letters and delimiters; all sequences of up to 4 (5) boolean, wide and plain character pieces; all histories of 4 (5) of 24 extractions on 6 texts; loops over all sequences of up to 4 words and separators; delimiter sets of 0..20 characters",
    assumptions="numbers out of the type's range, and a number read where there is none other than giving 0 and consuming nothing, are outside the property"),
"C14": dict(src=["h/c14.cc"], level="model_checking", wrap=["read","write","open","close","lseek","fstat","fsync","fcntl","ioctl"],
    bounds="10 file contents of up to 19 bytes read as 12 kinds of values through buffers of 1..32 bytes, for every sequence of read results of 1, 2 or all available bytes and interruptions; all histories of 3 of 31 operations with up to 2 (3) cut or interrupted reads; every read failing with EIO, EAGAIN or ENOMEM under 6 loops; all 8 exception masks; histories of 4 (5) opens, closes and reads of 2 files; values and lines at and around the default buffer size",
    assumptions="the operating system is a model of read, open, close and lseek in memory, linked in their place"),
"C15": dict(src=["h/c15.cc"], level="model_checking", wrap=["read","write","open","close","lseek","fstat","fsync","fcntl","ioctl"],
    bounds="all histories of 4 (5) of 14 output operations with up to 2, and of 2 (3) with up to 3 (4), writes made to return 1 byte, half, EINTR, EIO, ENOSPC or EAGAIN, ended by the destructor, close, or close and opening another file; the same for pieces around and over the default buffer size, for append mode and with exceptions; histories of 5 (6) opens, closes and writes of two files; histories of 3 (4) unbuffered reads and writes with up to 3 (4) faults",
    assumptions="the operating system is a model of read, write, open, close and lseek in memory, linked in their place; close fails only as in C16"),
"C16": dict(src=["h/c16.cc"], level="model_checking", wrap=["read","write","open","close","lseek","fstat","fsync","fcntl","ioctl","mmap","munmap","msync"],
    bounds="all histories of 3 (4) of 24 operations under all 8 exception masks with up to 2 system calls failing or interrupted; all 512 open modes by 6 ways of opening; all histories of 3 (4) of 11 operations of ifstream and ofstream under all masks with up to 2 failures",
    assumptions="the operating system is a model in memory, linked in place of the system calls"),
"C17": dict(src=["h/c17.cc"], level="model_checking",
    bounds="all histories of 5 (6) operations over 2 and 4 (5) over 3 pointers of auto_ptr, unique_ptr and shared_ptr with objects that themselves own the next, of array pointers, scope guards (6) and unique resources (5, 6), and every failing allocation and constructor of the making and resetting functions"),
"C18": dict(src=["h/c18.cc", "mc/thr.c"], level="model_checking", hflags=["-fsanitize=thread"],
    bounds="two threads of 2 (3) of 12 operations each, and three threads of 1 operation (one of them only releasing in the quick tier), with and without the main thread as an owner, each thread leaving or releasing its pointers: every interleaving of the atomic operations up to equivalence",
    assumptions="interleavings up to reordering of independent operations (sleep sets); stores that are not sequentially consistent may be delayed (TSO); orderings weaker than that are judged by the happens-before race check"),
"C19": dict(src=["h/c19.cc", "mc/thr.c"], level="model_checking", hflags=["-fsanitize=thread"],
    bounds="31 operations: all 8-bit operands and 19 boundary operands of the wider types; every pair of programs of up to 2 operations and every triple of single operations on one atomic, and (thorough) pairs of programs of 3 out of 8; 8 kinds of locks with 2 and 3 threads and up to 2 (3) rounds; 18 ways of publishing by 14 of observing; store buffering with 10 stores and 4 loads; TestAndSet by up to 3 threads with up to 2 (3) preemptions between machine instructions",
    assumptions="interleavings up to reordering of independent operations (sleep sets); stores that are not sequentially consistent may be delayed (TSO); orderings weaker than that are judged by the happens-before race check"),
"C21": dict(src=["h/c21.cc"], level="model_checking",
    bounds="all histories of up to 2 (3) of 20 operations on two bitsets of 16 sizes from 1 to 256, of up to 3 for 3 of the sizes (4 for size 1), all pairs of values of sets of up to 8 (10) bits, every range of every word of 5 sizes with 5 values on 3 backgrounds, every single bit of every size up to 100"),
"C22": dict(hflags=["-O2"], src=["h/c22.cc", "h/c22f1.cc", "h/c22f2.cc"] + ["h/c22%s%d.cc" % (p,k) for p in "phm" for k in (1,2,3,4)], level="model_checking",
    bounds="14 packed operations of two and three operands on 28 containers: all pairs of the 256 8-bit values, and of 15..19 boundary values of wider types, in every lane; 7 by 8 conversions and roundings of 35 values in tuples of 5 sizes; 20 operations with 14 live values of the caller in registers, compiled with -O2; histories of 2 (3) of 10 operations with all operand choices on 29 tuple and array types; all matrices of 1..5 by 1..5 in 3n+1 fillings (each single element, dense, ones and one) multiplied with each other, and histories of 2 (3) of 9 operations",
    assumptions="operations the language leaves undefined (signed overflow of 32 and 64 bits, division by zero, shifts of negative values or by the width) are left out"),
"C23": dict(src=["h/c23.cc"], level="model_checking", wrap=["backtrace","backtrace_symbols"],
    bounds="every form of symbol by 6 paths and 8 name lengths in the first, and a reduced set in the second and third frame; 0..64 frames; all histories of 3 (4) copies, assignments, constructions and record round trips of 2 backtraces with up to 2 failing allocations; all histories of 2 (3) operations on 2 objects of each of 17 exception types with all argument choices; every one of the first 6 (8) allocations of making, describing and copying failing; every truncation and every byte and word of every record replaced by 10 / 17 values; 78 error codes and all pairs of them",
    assumptions="the stack trace functions of the C library are replaced by scripted ones"),
"C24": dict(src=["h/c24.cc"] + ["h/c24%s%d.cc" % (p,k) for p in "cr" for k in (1,2,3,4)] + ["h/c24r5.cc"], level="model_checking", wrap=["clock_gettime","time"],
    bounds="135 boundary values (and eighths of them for floating point) cast between all pairs of 16 periods for 10 pairs of representations; histories of 2 (3) of 14 operations with 10 operands on durations and time points of 3 representations; all pairs of 135 values of 8 pairs of periods; all histories of 2 (3) of 9 operations from 144 times in seconds and nanoseconds, and their casts to and from 16 durations; clocks at 72 instants with 6 steps; all pairs of 60 ratios",
    assumptions="results that do not fit the representation, and products of the count and the ratio over 64 bits, are outside the property"),
"C25": dict(src=["h/c25.cc"], level="model_checking", hflags=["-O2"],
    bounds="every value of the 8 and 16-bit types, and all patterns made of one run of bits with their neighbours, of the 32 and 64-bit types; bit scan and next power of two for every 32-bit value below 2^25 (quick), every 32-bit value (thorough), and 161 compile-time constants; limits of pointers and tuples; population counts; rotations by every count; alignment of 0..600 (5000) and boundary values to 1..272; rounded division of all 8-bit pairs and of boundary pairs; divisors of all pairs of -300..300 (1000), of all 8-bit pairs and of boundary pairs; powers 0..299 (2999)",
    assumptions="results outside the type, negative sizes, negative divisors and masks of signed types are outside the property; NextPow2 (1) is 2, as the existing tests have it"),
"C27": dict(src=["h/c27.cc"], level="model_checking",
    bounds="every history of 4 (5) moves within ranges of 0..5 (6) elements for reverse, move and index iterators (over every sequence of up to 4 (5) of 3 indices) over pointers and a bounds-checking iterator, with all comparisons, differences and subscripts at every step; reverse traversal of 9 containers of 0..9 elements; 4 ways of moving every subrange of 0..6; every sequence of 0..4 (5) assignments in 4 styles through insert iterators of 5 containers at every position; all functors on all pairs of 8-bit values and boundary values of 8 other types; all binders, compositions and member adaptors on all triples of 7 values; histories of 5 (6) moves of stream iterators",
    assumptions="stream iterators are used with exceptions off, as reading past the end reports an error"),
"C26": dict(src=["h/c26.cc"], level="model_checking", hflags=["-O2"],
    bounds="to_string and conversion back, in every base, of every one-run bit pattern and its neighbours and of every d*10^k, and of 70000 (5 million) values from each end of 6 integer types; all texts of at most 4 (5) characters over 15 in 8 bases, and of at most 5 (6) over 14 as reals; reals of every exponent (of double every 7th, of long double every 97th (13th), outside the extremes) and 13 mantissas, with their 40 neighbours, by to_string and by text streams of 16 formats; every 4001st (11th) float; integers of 8 types by text streams in 3 bases, 16 flag sets, 5 widths, 3 fills; all sequences of 3 (4) of 19 values of 12 types with 4 delimiters",
    assumptions="values outside the type converted to are outside the property, and so are negative 64-bit values in hex or octal, which are written as unsigned; digits are sufficient for the type (9, 17, 21); zero-filled decimals are read with the dec flag; strings linked to unterminated memory are not converted, as the documentation rules them out"),
"C20": dict(src=["h/c20.cc", "h/c20b.cc"], wrap=["read","write","open","close","lseek","fstat","fsync","fcntl","ioctl"], level="model_checking",
    bounds="every history of 2 (3 for sequences and blocks) operations on vectors, lists, sets, multisets, maps and multimaps of elements whose every operation may fail and of strings, on strings (2 (3) of 32 operations), blocks (3 of 16) and text streams (3 of 12 for output, 4 of 6 for input), with up to 1 or 2 (2 or 3) failures at every allocation and at every element construction, copy, assignment and comparison in them; 8 file scripts, 17 scripts of smart pointers, exceptions, raw storage algorithms, container deserialisation, bit sets and adaptors with up to 2 (3) failures; realloc and malloc fail one by one, and recovery code runs with failures off",
    assumptions="operations that are declared noexcept, element destructors and swaps that throw are outside the property; after a failed assignment to a whole object its contents are unspecified but valid; a heap or sort interrupted by a failing element assignment keeps valid elements in an unspecified order"),
"C28": dict(src=["h/c28.cc"], level="model_checking",
    bounds="all pairs of all sequences of at most 4 (5) out of 3 element values for 20 sequence and adaptor types, each made in 2..4 ways (grown, shrunk, copied, swapped, linked, popped); of all values with 1..4 members of 4 values each for 24 pairs, arrays, tuples, pointers and bit sets; of all sets and maps of at most 4 elements out of 4 or 6 in 10 types, inserted in different orders; of all strings and blocks of at most 3 (5) out of 4 bytes, also against C text, all 256 characters and links; texts of 0..70 characters that differ in one; hashes of all these and of texts of 1..40 characters with each replaced by all 256",
    assumptions="vector, list and the associative containers have no operator <; not-a-number is excluded"),
"C29": dict(src=["h/c29.cc"], level="model_checking",
    bounds="42 functions on all contents of up to 6 (8) elements out of 4 values, of vectors, lists, deques and strings of 8 element types, and on all contents of 8 arrays and tuples of 1..5 elements, with every value, every rotation, and every set of positions of up to 5 elements",
    assumptions="rotate by an amount not less than the size is ruled out by its assertion; random_shuffle is judged by its elements only (C07 has all its outcomes)"),
"C30": dict(src=["h/c30.cc"], level="model_checking",
    bounds="all histories of 3 (quick) / 4 (thorough) of 9 operations with all choices of objects and of three values on two objects of each of 61 types; 15 ways of making a pair of 5 combinations of types; 5 ways of converting pairs"),
"C31": dict(src=["h/c31.cc", "mc/thr.c"], level="model_checking", hflags=["-fsanitize=thread", "-fno-builtin"], libflags=["-fsanitize=thread", "-fno-builtin"],
    rename=["memcpy","memmove","memset","memcmp","memchr","memrchr","strlen","strcpy","strcmp","strchr","strstr","vsnprintf","snprintf","sprintf","qsort"],
    bounds="34 scripts that use every part of the library, any two of them at once in two threads; 10 sets of const members, any two at once on the same objects: every access of the library checked for races, and each script with itself (thorough: any two) with a preemption at every function entry",
    assumptions="accesses of inline assembly are not seen by the race check; what the C library does inside is taken to be safe; interleavings are sequentially consistent and switch at function entries, finer ones being covered by the race check"),
"C33": dict(src=["h/c33.cc"], level="model_checking", wrap=["read","write","open","close","lseek","fstat","fsync","fcntl","ioctl"],
    bounds="additions in 8 ways to 4 vectors and lists from 6 starting states up to 12000 (50000) elements and to 21 other containers and streams; all sizes to 800 (2000) with every value searched, and sorted containers of all sizes to 160 (800); heaps and linear algorithms on all contents of up to 7 elements of 4 (5) values and on 8 patterns of all sizes to 308 (508) and 508 (1308); files of up to 10000 (29000) bytes written in 6 and read in 4 ways",
    assumptions="strings that are appended to without reserve are outside the property (memblock documents that), as are stable_sort of what is not sorted, partial_sort and nth_element (documented as simple insertion); the operating system is a model in memory"),
}

# Configurations of the library other than the default: how configure makes them, their
# flags, and the checks whose scenarios (the quick ones) are explored in each.
_F = "-std=c++14 -fno-threadsafe-statics -fno-enforce-eh-specs -w -g0 "
def configs (tier):
    th = tier == "thorough"
    a = lambda l: [(c, None) for c in l.split()]
    debug = a("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C19 C20 C21 C23 C24 C25 C26 C27 C28 C29 C30 C17" + (" C14 C15" if th else ""))
    l = [("debug", [], _F + "-O1 -DDEBUG=1", debug),
         ("without-fastcopy", ["--without-fastcopy"], _F + "-Os -DNDEBUG=1", a("C02 C07 C08" + (" C01 C03 C05 C21 C26 C28 C29" if th else ""))),
         ("without-bounds", ["--without-bounds"], _F + "-Os -DNDEBUG=1", a("C10 C12 C13" + (" C15" if th else "")) + [("C14", "cuts"), ("C14", "errors"), ("C14", "masks"), ("C14", "reopen")]),
         ("with-libstdc++", ["--with-libstdc++"], _F + "-Os -DNDEBUG=1", a("C23" + (" C05 C16 C17" if th else "")))]
    if th:
        l += [("with-demangler", ["--with-demangler"], _F + "-Os -DNDEBUG=1", a("C23")),
              ("force-inline", ["--force-inline"], _F + "-Os -DNDEBUG=1", a("C02 C03 C05 C10 C12 C13 C28")),
              ("programs", [], _F + "-O1 -DDEBUG=1|-UDEBUG -DNDEBUG=1", debug),
              ("O3", [], _F + "-O3 -DNDEBUG=1", a("C01 C02 C03 C05 C07 C08 C10 C12 C13 C21 C26 C28")),
              ("O0", [], _F + "-O0 -DNDEBUG=1", a("C03 C05 C07 C08 C10 C12 C13 C21 C26"))]
    return l
CHECKS["C32"] = dict(src=[], level="model_checking", configs=configs,
    bounds="every scenario of 25 of the other checks at their quick bounds in the debug configuration (assertions, bounds checks, demangling), of 3 without the copy and fill specializations, of 3 and most of a fourth without bounds checking and of 1 with libstdc++; thorough: of 2 more in the debug configuration, of 10, 5 and 4 in these, and of 1 to 12 with the demangler, with forced inlining, at -O0 and -O3, and of all of the first with assertions in the program only",
    assumptions="positions that are not suitable for a number's own type, and arguments outside of the documented contract, may stop a debug build")
