"""What each check explores, for the evidence files and the manifest: (quick bounds, thorough bounds, assumptions, technique)."""
ENUM = "bounded exhaustive enumeration of inputs executed on the real code (AddressSanitizer build), every execution compared with a reference model"
STATE = "explicit-state exploration: breadth-first search over operation sequences on the real code, states identified by their content, every state and result compared with a reference model"
HIST = "exhaustive enumeration of operation histories with injected faults (interposed system calls, virtual clock) on the real code, every step compared with a reference model"
SCHED = "stateless model checking of the real code: all thread schedules up to the stated preemption bound under a controlled scheduler, every execution compared with the sequential model"
SC = "interleavings are sequentially consistent; effects of weak memory ordering are outside the model"

M = {}
def d(p, quick, thorough, tech=ENUM, assume=()):
    M[p] = dict(quick=quick, thorough=thorough, tech=tech, assume=list(assume))

MSG = ("every octet of the header at every value; all packet bodies of up to 5 octets over {0,1,2,12,41,'A',192,255} under 4 headers; all owner names of up to 4 octets over 10 boundary octets; "
       "one record of every known type x up to %s small rdata: every truncation, every record length from -70 to +18, every octet substituted by each boundary octet, 8 classes, every section; every type code 0..65535; "
       "every length octet with -2..+2 octets behind it, every window length, every A6 prefix, 18 service parameter keys x every value length to 66; every name field of every type x 60 compression forms x 3 contexts; pointer chains up to 200; rdata of 65535 octets and decompression past 65535; up to 65535 counted records")
d("C01", MSG % "20" + "; OPT and grouping packets of C04/C05", MSG % "200" + ", pairs of substituted octets, bodies up to 7 octets")
d("C03", MSG % "50" + "; all rdata of the C06 field products", MSG % "400" + ", pairs of substituted octets, bodies up to 7 octets")
d("C04", "all sequences of up to 5 records over 13 records (owners differing in case and labels, types, classes, rdata) and of up to 4 over 12 (6 TTLs x 2 owners); all 65536 pairs of octets as one-letter labels; type/class pairs differing in one bit; owner lengths 1..63 and every position of a 255-octet name; all question lists up to 5 over 6; up to 5000 records and RRsets, with records that belong to the first, the middle and the last of up to 5000 RRsets in every section",
  "the same with up to 6 records, 5 with TTLs, 6 questions")
d("C05", "all placements of up to 2 records per section over 6 kinds of record (3 kinds of OPT, named OPT, ordinary); all additional sections of up to 5 over them; all 65536 values of size, of extended rcode+version, of flags and of option code; all 4096 extended rcodes; option areas of 0..65535 octets",
  "the same with up to 3 records per section and additional sections of up to 7")
d("C17", "all 65536 flag words and ids, types, classes; 22 TTL boundaries; all names of the name grammar; all rcode x extended rcode; the option grammar x 3 flag words; every record type x up to 24 rdata in 6 contexts; all record sequences of up to 4 over 8 records in every section; question lists of up to 4 over 4",
  "the same with up to 400 rdata per type, the larger option grammar and sequences of up to 5")
d("C02", "all messages of up to 5 octets over 10 boundary octets, 6 over 8, 9 over 4, from every start offset; all octet pairs as a pointer; all suffix+prefix length sums around 255 for 3 label sizes; self-loops for every label size; pointer chains up to 60 with labels and up to 8188 hops without; names at both ends of buffers of up to 1000000 octets; 18 target magnitudes of the 14-bit offset x displacements; skipping: all strings up to 5 over 10 octets, all first octets x lengths up to 260",
  "the same with 6 over 10, 8 over 8, 12 over 4 octets, chains up to 120 and all length sums")
d("C06", "for every type with a layout: all octet strings of up to 2 octets (boundary second octet), up to 4 over 12 boundary octets and 5..7 over 4; up to 60 well-formed rdata x every truncation, 22 two-octet extensions, every octet at all 256 values (first 26, boundary values beyond), pairs of octets; all classes of interest; service parameters and options of every key x length 0..40 x 5 fillings x wrong lengths; every type code; rdata of 65535 octets",
  "the same with strings up to 5 and 9 octets and 1000 rdata per type, all 256 values for 90 octets")
d("C07", "per type the full product (or every field's boundary values against defaults) of field values; all 65536 values of 16-bit fields, of every unknown type code, of every class; generic text for lengths up to 65535", "the same plus all 65536 x 2 address halves",
  assume=["the presentation of an OPT record's options and of incomplete rdata is decided by C06 (total, marked or generic) and C17"])
d("C08", "per type the field products of C07 rendered and parsed back; all bitmap windows and window pairs; generic rdata of every class; all maximum-size rdata", "the same with larger products",
  assume=["excluded because their text has no reading that gives the octets back: empty mandatory/alpn/hint/ech values, empty alpn ids, A6 with prefix 0 and a name, OPT, incomplete rdata"])
d("C09", "per type every token of every field's token list against defaults, pairs of them; generic forms with every length mismatch; all texts of up to 4 characters over 10; all texts the renderer produces with any character removed; service parameter, bitmap and string tokens; texts reaching 65535 octets and one more; character strings up to 131327 characters", "the same with larger products and one more character",
  assume=["unspecified, so any verdict is accepted: trailing junk after a complete reading, characters the base64 decoder skips, missing trailing fields, empty list items, control characters outside quotes"])
d("C10", "every octet at every position of short labels; all lengths up to 255 for all label sizes, plain and escaped; all texts up to 5 characters over the special characters; label lengths 0..70 and name lengths 240..270 with escapes across the limit; overlong texts around multiples of 256, 32768 and 65536 characters", "the same with texts one character longer")
d("C11", "all names of the boundary grammar, all truncations, all strings up to 5 over boundary octets; rendering of anything; starts outside the buffer and empty buffers; names at both ends of 13 buffer sizes up to 1000000 octets", "one octet longer")
d("C12", "all names of up to 4 labels of 9 kinds (6 in the deeper places) over small label sets (including labels that look like length octets), every pair with one of the first 600 of them, and every fifth of the others, for is_subdomain; results written over the argument, names that share octets; names up to 255 octets and 127 labels; malformed octets, all strings of up to 6 over 9", "the same with all pairs and malformed strings of up to 7")
d("C13", "all names of the grammar; all 65536 types; all rdata lists up to 4 over 7 sizes; counts up to 65535 and sizes up to 65535; deserialising: all strings up to 4 over 8 octets, all name lengths, every type x 12 rdata x all truncations and boundary substitutions", "lists up to 5, strings up to 6, 100 rdata per type")
d("C14", "every type x field products, every octet of up to 24 base rdata at 256 (or 15) values, truncations with capital fillers, capitals in every field at 6 lengths, A6 with every prefix length, every type code, rdata of 65535 octets, RRsets of up to 65535 rdatas", "the same with 200 base rdata per type and all values")
d("C15", "all sequences of up to 5 over 11 rdata and of 6..9 over 3; all permutations of 8; all octet pairs; every position in 18 lengths; all length pairs up to 300; lists of up to 5000", "sequences of 6, 12 over 3, permutations of 9")
d("C16", "all 65536 codes of both tables and every rcode and opcode; every mnemonic in every combination of case of its first 14 letters, with every octet inserted, replaced, removed or swapped at every place; all concatenations of two names; generic forms around every limit of 16, 32 and 64 bits; all texts of up to 6 characters over 12", "case of 18 letters, texts of 7", assume=["leading zeros of generic forms are unspecified"])
d("C18", "every operation of the public API and of the support modules over a set of representative inputs (about 110 operations): all triples run in sequence give the result each gives alone; all pairs run concurrently, every schedule with at most 3 preemptions at conflicting accesses (library memory and stateful libc calls); each thread passes different texts at the addresses the other operations used", "preemption bound 4",
  SCHED, [SC, "state kept inside libc is modelled by marking the calls that are documented as not thread-safe"])
d("C19", "all files of up to 5 lines over 12 lines, with and without final newline; all contents of up to 6 octets over 8; every octet in 4 places; line lengths around every power of two up to 70000; 3000 names; a read error at every offset of 5 files; missing files", "contents of up to 7 octets")
d("C20", "all inputs of up to 2 octets, all of 3..5 over 8 boundary octets, all lengths to 130 and 19 lengths up to 262147 x patterns, every value at every position of 3..11 octets; all groups of three octets (base64), all pairs (base32) in each position; streaming split at every point; arbitrary texts of up to 6 characters over 9 (base64) and 8 (base32), every octet at every place of a group", "6 octets over 8, lengths to 400, 8 characters, 13 characters", assume=["what follows '=' is unspecified"])
d("C21", "IPv4: every octet value in every place, all pairs of boundary octets x 65536; IPv6: all 4^8 patterns of groups, every value of every group on zero and non-zero surroundings, all zero-run masks x 7 values, embedded IPv4 around all special prefixes; every buffer size; every other family; null arguments", "all 2^32 IPv4 addresses, 6^8 group patterns")
d("C22", "all values below 2^27, digits x powers of ten +-2, powers of two +-1, every digit at every place, blocks around every carry; every buffer size from 2", "all values below 2^31", assume=["a buffer of size 0 or 1 cannot hold any number and is outside the statement"])
d("C25", "all values below 2^22 and blocks around every length step; all pairs and many triples of bits; all octet strings of up to 7 over 6 octets and all continuation patterns up to 14, with every length limit; scans of up to 1000000 octets; every octet at every place of 1..11 octets", "all 32-bit values, strings up to 9")
d("C31", "IPv4: 6^4 boundary octets, every octet value in every place, 65536-address blocks at every 16th upper half; IPv6: every octet value in every place, all single and double bits and runs of ones and their complements, 6^8 patterns", "blocks at every 4th upper half")
d("C24", "all operation sequences of length up to 6 over 9 operations, all permutations of up to 8 elements, all sequences of up to 11 elements over 3 values, fills of up to 200, heaps of up to 140000 elements in 5 orders", "sequences of 8, permutations of 9, 12 over 3", STATE)
d("C29", "vectors: all operation sequences of length 4 (3 for the large hints and the pointer type) for 4 element types x 9 hints; ubufs: all sequences of 4 from 7 starting fills; runs of 24 lengths up to 1000000 in one call", "vectors 5 and 4, ubufs 5", STATE)
d("C30", "red-black tree: all reachable trees with up to 12 keys; splay tree: 9; lists: 7 nodes over two lists; from each state every operation; trees and lists of 1..130 and 11 sizes up to 100000 in 25 orders of insertion and removal; comparison results of every magnitude", "the same", STATE)
d("C26", "all octet pairs (every 15th second octet), lengths to 300 x 4 patterns x alignments 0..15 x splits, single-octet positions to 48; buffers to 1 MB and one of more than 4 GB; hardware and software versions against a bitwise reference", "all pairs, lengths to 2100, positions to 130")
d("C32", "hex: all 2^16 pairs and words up to 5 over 15; replace: all subject strings up to 9 over 3 x old x new; print_string: all 256 octets and words up to 7; read_bytes: all sequences of up to 6 read results over 8 kinds for sizes 0..8, up to 4 for 14 sizes up to 262144; hex and replace texts of up to 300000 characters; environment integers: words of up to 6 over 10 characters, every octet behind 7 prefixes; byte order: every octet at every position", "7 read results, environment words of 7")
d("C33", "all lengths to 600 x 4 patterns x alignments, single-octet positions to 60, all seeds of interest; one key of more than 4 GB", "positions to 130")
d("C27", "all histories of reload steps: 1 step over the full alphabet (file operation x entry x fault) in 10 configurations, 2 steps in 3, 3 steps over the reduced and 4 over the small alphabet; file names of a pool of 16 in all ordered triples; lists of up to 4097 names, lines of up to 70000 characters", "3 steps over the full alphabet, 5 over the small one, lists of 700",
  HIST, ["a changed list is recognised by inode or whole-second modification time, as documented; entries are files, not directories"])
d("C28", "all histories of arrivals, polls and faults: 1 step in all 64 configurations, 2 in 6, 3 in 2, 4 over the reduced alphabet; names of every length; 9 sizes up to 4 GB x 7 modes x 6 times x links x owner of a waiting file; up to 400 files; two pollers with a writer: all schedules with at most 3 preemptions (2 with a third thread), up to 3 files and 3 polls", "4 steps over the full alphabet, 5 over the reduced; preemption bounds 5 and 4",
  HIST + "; concurrent polls: all thread schedules up to a preemption bound", [SC, "one process polls the spool; two processes sharing an active directory are outside the statement"])
d("C23", "all insert/remove histories of length 12 for 3 implementations x 2,4,8 slots x 3 element sizes; regular longer histories for sizes to 256 slots; filling and emptying queues of up to 262144 slots, of elements up to 1 MB, and of 4 slots of 2 GB; concurrent: all schedules without preemption bound for up to 2x2 operations, every start offset and fill of 2 and 4 slots; up to 4x4 on 8 slots; initial sizes around all powers of two", "histories of 16, 5x5 operations, all 2^32 sizes in steps",
  SCHED, [SC, "one producer and one consumer, or any number with the mutex variant"])
d("C34", "all schedules of 1, 2 and 3 threads without preemption bound; up to 66000 threads one after another, 100 of them alive at once", "the same", SCHED, [SC])
d("C35", "for boundary rates and adjustment frequencies in 3 clock configurations: all call histories of up to 3 (longer over a coarser grid) over 13 gaps x kinds of sleep (exact, late, interrupted)", "histories of 4, all gaps", HIST, ["the monotonic clock never runs backwards", "rate 0 is unspecified"])
d("C36", "all pairs of boundary times; 200000 seconds x fractions for the floating-point conversions; interruptions: all numbers and positions up to 6", "the same", HIST)
d("C37", "both widths: all pairs of operations with 8 boundary operands from 13 boundary values in one thread; all interleavings of two threads with (1,1) and (2,1) and (2,2) operations from 4 start values over 15 operations; three threads with one each over 6; pointers: all programs of up to 3 operations per thread", "pointer programs of 4", SCHED, [SC])
d("C38", "25 option tables (every type, arrays, positional, exclusive, abbreviations, digits as options, malformed tables): every type x 65 values x every way of giving it x 3 settings; all argument vectors of up to 3..5 words over an alphabet of 5..28 per table, up to 3 words under 4 settings, split between environment and command line, and from an argument file; up to 200 array entries or waiting options; every entry, built-in option and pair of environment settings as the first call of a fresh process; values as text for every type x boundary value x every buffer size to 60", "vectors one word longer, buffers to 90, all pairs of environment settings in every combination",
  HIST, ["unspecified: numbers out of range or not numeric, a file of arguments naming itself, lines of more than 1000 characters, exhausted memory"])
d("C39", "128 operations (every rdata type both ways, names, messages parsed, printed, converted, sorted, serialized and restored, name files, vectors, text buffers, heap, queues, rate limiter, file sets, spool directories, option parsing): every single failing allocation (or fopen, opendir, realpath, getline), every one with all after it, and every pair", "every set of up to six failing allocations, with and without everything after the last", HIST,
  ["memory that libc functions allocate for themselves (stdio buffers, qsort) does not fail, except in fopen, opendir, getline, realpath, strdup and strndup"])
d("C40", "all files of up to 6 lines over 12 kinds of line (SOA, records with absolute, relative, inherited and @ owners, $ORIGIN, $TTL, blank, comment, unreadable), up to 3 lines with 32 patterns of calls, compressed ones of 2 lines; a read error after every octet of all files of up to 4 lines; 31 file names x 8 kinds of file; zones of 5000 records", "files of up to 7 lines, read errors in 5", HIST,
  ["ldns is not installed: a stand-in with its documented line-reading semantics takes its place (mc/fakeldns/ldns/ldns.h, mc/h_zone.cpp)", "after a read error the part of a line already read may be taken for a line"])
d("C41", "255,203 inputs (30,700 captures that hit the two known findings are set aside): captures (7 payloads x IP header lengths x every cut, every total length, every header octet at 12 values, every first octet of the IP header), sequences of up to 3 packets over 11; files of up to 65535 octets cut everywhere; hexadecimal arguments in three styles cut everywhere, every octet replaced, all strings of up to 4 characters over 10; wrong numbers of arguments and captures that cannot be opened", "every IP header length x total length x cut; sequences of 4 packets; arguments of up to 6 characters", ENUM,
  ["libpcap is replaced by a stand-in that hands out each packet in a buffer of its captured size", "packets that are not UDP in IPv4 are only required to be handled safely (the capture filter removes them)"])
