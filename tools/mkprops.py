#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (one table, so that they stay in step)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # (id, title, statement, over, quant text, why, files, mechanism[(name,where)], technique, note)
NA = []
def p(id, title, st, over, q, why, files, mech, tech, note):
    assert len(title) <= 80, title
    P.append((id, title, st, over, q, why, files, mech, tech, note))
def na(id, title, st, over, q, why, files, mech, reason):
    P.append((id, title, st, over, q, why, files, mech, None, None)); NA.append((id, reason))
EVA = "abstract interpretation (Frama-C/EVA) of the current sources from per-API harnesses"
IR = "custom data-flow/effect rules over the LLVM IR of all units"

p("C01", "Writers that are given a buffer size never write outside that buffer",
  "Every function that takes an output buffer together with its size (ulz_snprintf/ulz_vsnprintf, base64dec, base64enc_str, mktempdir, timestamp, fileparser_readline_userbuf, read_stdin_line, and stringptr_format's own 1000-byte buffer) writes only inside the first `size` bytes of it, for every content, format string, argument and size including 0. When it reports success, the text it produced is NUL-terminated inside the buffer (fileparser_readline_userbuf: the line; base64dec: behind the decoded groups), the length it reports lies inside the buffer, and a result that does not fit is reported as such (0 / -3) or truncated with termination (formatting).",
  ["inputs"], "all input contents, format strings, arguments and buffer sizes including 0 and exact-fit sizes",
  "tests call each function with a handful of literals and roomy buffers; size 0, exact fit and one-too-small are not reached",
  ["src/format/ulz_vsnprintf.c", "src/strlib/base64dec.c", "src/strlib/base64enc_str.c", "src/filelib/mktempdir.c", "src/timelib/timestamp.c", "src/fileparser/fileparser_readline_userbuf.c", "src/stringptr/read_stdin_line.c", "src/stringptr/stringptr_format.c"],
  [("omax limit and final terminator", "ulz_vsnprintf"), ("remaining-length counter", "base64dec, base64enc_str"), ("length precheck", "mktempdir")], EVA,
  "sizes are split up to a bound that covers every branch of the size logic; contents, arguments and format characters are abstract")
p("C02", "Fixed-size converters stay within their documented output size",
  "raw2hex (2*len+1), hex2raw ((strlen+1)/2), base64enc (BASE64ENC_BUFSIZE), itoa (12) and utoa (11), the numberToString family (digits or maxlen, plus sign, plus terminator), stringfromipv4 (16), ipv4fromstring (4), md5str (33), md5_end (16), sha512 and crc contexts, and rc4 (len) never write or read outside the documented sizes for any input value, including INT_MIN, UINT_MAX and 64-bit extremes. The text they produce is NUL-terminated, consists only of the documented alphabet, and the returned pointer or length delimits it.",
  ["inputs"], "all values of the numeric arguments and all byte contents",
  "tests convert a few mid-range constants into oversized buffers",
  ["src/strlib/raw2hex.c", "src/strlib/hex2raw.c", "src/strlib/base64enc.c", "src/strlib/itoa.c", "src/strlib/utoa.c", "src/strlib/numberToString.c", "src/strlib/stringfromipv4.c", "src/strlib/ipv4fromstring.c", "src/md5/md5str.c", "src/strlib/rc4.c"],
  [("digit counting before writing", "itoa, utoa, numberToString"), ("len-driven loops", "raw2hex, base64enc, rc4")], EVA,
  "numeric arguments over their full range, partitioned by magnitude; lengths split up to a bound")
p("C03", "Counted strings: operations stay inside ptr[0..size] and mean what they say",
  "stringptr_shiftleft/shiftright/chomp/eq/here/contains/rchr/hash/copy/concat/strdup/fromchar access only the size bytes of their counted strings (plus the terminator slot they own) and never rely on a terminator inside the data. Shifts succeed exactly when count <= size and then shrink the string by count at the right end (leaving it untouched otherwise), chomp removes exactly the trailing CR/LF run and returns its length, rchr returns the last occurrence, eq/here/contains (non-empty needle) answer byte-wise equality at the given place, hash is the 28-bit ELF hash of the bytes taken as unsigned numbers, and copy/concat/strdup return fresh, terminated strings holding exactly the bytes of their arguments in order.",
  ["inputs"], "all sizes (including 0) and contents of the strings, all counts and positions including ones behind the end",
  "tests use a few literal strings; embedded NULs, empty strings, out-of-range positions are not reached",
  ["src/stringptr", "include/stringptr.h"], [("size comparisons before access", "src/stringptr/*.c")], EVA,
  "lengths split up to a bound, bytes abstract; positions over the whole size_t range")
p("C04", "C-string helpers never read past the terminator and find what is there",
  "containsChar, strends, strstr_uc, strstar, findword, strdup_n, strtoint/strtoint64, isnumericipv4, hexval and getFileExt read only up to the terminator (or the given length) of their arguments, terminate, and leave them unmodified. strstr_uc (case-folded) and strstar ('*' in the needle matches any one character) return the first position at which the whole needle matches and NULL only if there is none; findword returns the first such match delimited by word boundaries; strends is true exactly for suffixes; getFileExt returns the part behind the last dot or NULL; strdup_n returns a terminated copy of exactly len bytes; strtoint/strtoint64 return the value of a digit string that fits; isnumericipv4 accepts dotted quads of 1-3 digit groups and rejects strings with an empty leading or inner group, any other number of dots or any other character.",
  ["inputs"], "all strings over all bytes, including empty, overlapping partial matches and matches at the end",
  "there are no tests of these functions at all, except through a few callers",
  ["src/strlib/strstr_uc.c", "src/strlib/strstar.c", "src/strlib/findword.c", "src/strlib/strends.c", "src/strlib/strdup_n.c", "src/strlib/strtoint.c", "src/strlib/isnumericipv4.c", "src/filelib/getfileext.c"],
  [("per-character terminator test", "strstr_uc, strstar"), ("resume right behind the failed start", "strstr_uc, strstar")], EVA,
  "string lengths up to a bound; characters abstract, partitioned into the classes the code can distinguish")
p("C05", "Path normalisation never escapes the root, grows or overflows",
  "normalizepath and normalizepath_cstr accept only absolute paths; on success the result starts with '/', contains no empty, '.' or '..' component, has no trailing slash unless it is '/', is no longer than the input and is NUL-terminated; a '..' that would climb above the root makes them fail. They never access memory outside the path (plus terminator) and the documented output buffer of strlen+1 bytes, over-long input is rejected, and on failure normalizepath leaves the path unchanged. getpathdiff returns the remainder (starting with '/') of path2 below path1, empty for equal paths, and -1 if path1 is not an ancestor, writing at most its own length plus terminator to the work buffer. getfilename returns the part behind the last slash, or NULL if there is no slash.",
  ["inputs"], "all byte strings as paths, of every length around the internal limit",
  "normalizepath_test samples some tens of well-formed paths",
  ["src/filelib/normalizepath.c", "src/filelib/normalizepath_cstr.c", "src/filelib/getpathdiff.c", "src/filelib/getfilename.c"],
  [("component switch", "normalizepath*"), ("prefix and separator comparison", "getpathdiff")], EVA,
  "path lengths up to a bound (plus the PATH_MAX boundary), characters abstract, partitioned into '/', '.', NUL and other")
p("C06", "sblist behaves as a growable array for every operation sequence",
  "From any consistent list, sblist_add/addi/insert/set/delete/pop/get keep element order and contents: insert at pos<=count shifts the tail by one, delete removes exactly one element, set replaces exactly one, get returns the stored element for index < count and NULL otherwise, pop returns the last element, and out-of-range set/delete/insert change nothing and report failure. Every element access stays inside storage of at least count*itemsize bytes, whatever the block size (including 0), item size and number of growths; a failed growth leaves the list as it was and is reported.",
  ["histories", "inputs", "fault_sequences"], "all histories of operations, all indices, item sizes and block sizes, allocation failure at every growth",
  "tests add and delete a few hundred items with one itemsize and always-succeeding allocation",
  ["src/sblist", "include/sblist.h", "include/sptrlist.h", "include/stringlist.h", "include/kvlist.h"], [("grow before write", "sblist_grow_if_needed"), ("index < count test", "sblist_get, sblist_set, sblist_delete")], EVA,
  "one operation from an arbitrary consistent state (inductive step) for list shapes up to a bound, plus short histories through growth; items are distinct symbolic addresses, so the result holds for every content")
p("C07", "Sorted insertion and binary search keep and use the order",
  "For any list sorted under the comparator, sblist_insert_sorted/_r and tglist_insert_sorted insert the item at the returned index so that the list stays sorted, and sblist_bsearch/_r return an index whose element compares equal, or -1 exactly when there is none. The comparator always receives the searched-for item first, an element inside the list second, and the caller's context pointer unchanged, and is consulted at most about log2(n)+2 times. sblist_sort and tglist_sort leave a sorted permutation of the elements.",
  ["inputs", "histories"], "all sorted lists, all orderings of the new item relative to the elements including ties",
  "no test checks ordering with ties, the argument order or the context",
  ["src/sblist/sblist_insert_sorted.c", "src/sblist/sblist_insert_sorted_r.c", "src/sblist/sblist_bsearch.c", "src/sblist/sblist_bsearch_r.c", "include/tglist.h"], [("binary search interval", "sblist_insert_sorted*, sblist_bsearch*, tglist_sorted_insert_pos_impl")], EVA,
  "the items are touched only through the comparator, so the finitely many orderings per length are all cases; lengths up to a bound")
p("C08", "tlist (treap list) keeps sequence order, counts and ownership",
  "For any sequence of tlist_insert/append/delete/get, the list behaves as an array: an insert at idx<=size puts a copy of the value at idx and shifts the rest, delete of idx<size removes exactly that element, getsize counts them, get returns the stored bytes for idx<size and NULL otherwise, and invalid indices are refused without effect. Every node is freed exactly once by delete/free_items/free, the _deep variants also free exactly the stored pointers, and a failed allocation leaves the list unchanged and is reported.",
  ["histories", "fault_sequences"], "all histories, all tree shapes (priorities), all indices, allocation failure",
  "tlist_test runs fixed histories with the fixed random seed and no allocation failure",
  ["src/tlist/tlist.c", "include/tlist.h"], [("implicit-treap split/merge with counts", "tlist.c")], EVA,
  "inductive step from every tree shape up to a bound with arbitrary priorities, plus short histories")
p("C09", "tglist/tgilist macros behave as typed growable arrays",
  "tglist_add/insert/delete/set/get and their index-list counterparts tgilist_* keep element order and contents for every element type and every valid position: insert shifts the tail, delete removes exactly one element, the storage always holds count elements, and the accessor yields the element put there. A failed allocation makes add/insert return 0 and leaves the visible sequence as it was; free/free_items/free_values release everything exactly once.",
  ["histories", "inputs", "fault_sequences"], "all histories over valid positions, element sizes, growth points and allocation failures",
  "tests use one element type and never fail an allocation",
  ["include/tglist.h", "include/tgilist.h"], [("grow_if_needed + memmove_impl", "include/tglist.h"), ("append + index insert, rollback on failure", "include/tgilist.h")], EVA,
  "inductive step for list shapes up to a bound; elements are symbolic")
p("C10", "bmap, hbmap and kvlist are maps: find/insert/delete agree for every history",
  "After any history, bmap/hbmap lookups return the value last inserted for an equal key and nothing for keys never inserted or deleted, keys and values stay paired and sorted (per bucket), insert overwrites an existing key without growing the map, and iteration over hbmap visits every entry exactly once. Insert returns the index/iterator of the entry, or -1 with the map unchanged and still usable if memory runs out at any point; kv_find returns the value of the first equal key. The iterators address every bucket and every item of a bucket of any size.",
  ["histories", "inputs", "fault_sequences"], "all histories, all key orderings and hash values, allocation failure in either of the two lists",
  "the bench programs insert random numbers and never delete or fail",
  ["include/bmap.h", "include/hbmap.h", "src/kvlist/kvlist.c"], [("sorted key list with parallel value list", "include/bmap.h"), ("bucket = hash mod count; iterator packing", "include/hbmap.h")], EVA,
  "map sizes up to a bound with every key ordering; hash values arbitrary")
p("C11", "hashlist keeps every value in the bucket of its hash and iterates all",
  "hashlist_add stores a copy of the value in the bucket of its hash (returning 0, or -1 with nothing stored if memory runs out), hashlist_get returns the list holding all values added under that hash (an empty list or NULL if none was), and both iterators visit every stored value / non-empty bucket exactly once and then return NULL for good. hashlist_free releases every bucket, the table and the handle exactly once.",
  ["histories", "inputs", "fault_sequences"], "all hashes, bucket counts, histories, and allocation failures",
  "hashlist_test adds a handful of values with fixed hashes",
  ["src/hashlist/hashlist.c", "src/hashlist/hashlist_iterator.c"], [("hash modulo bucketcount", "hashlist_add, hashlist_get"), ("skip empty buckets", "hashlist_bucket_next, hashlist_next")], EVA,
  "bucket counts and value counts up to a bound, hashes over the full 32-bit range")
p("C12", "Splitting, joining, replacing and searching string lists is exact",
  "stringptr_splitc/splits return matches+1 parts that are exactly the byte ranges between the delimiters of the original buffer (each NUL-terminated in place, no byte lost or shared), for every buffer and delimiter including empty ones. stringptrlist_tostring/_dos return exactly each item followed by LF / CRLF, stringptr_replace returns exactly the input with each non-overlapping occurrence substituted, stringptrlist_find/contains give the first index of an equal string, dup_entries/add_strdup/freestrings/freeall own each copy exactly once.",
  ["inputs"], "all buffers, delimiters, replacement strings and lists, including empty and adjacent delimiters",
  "tests split and replace a few literals",
  ["src/stringptrlist", "include/stringptrlist.h"], [("linestart/i scan", "stringptr_splitc, stringptr_splits"), ("size precomputation", "stringptrlist_tostring*, stringptr_replace")], EVA,
  "lengths up to a bound; bytes partitioned into delimiter / other")
p("C13", "Running out of memory is reported, leaks nothing and corrupts nothing",
  "Whenever an allocation fails anywhere inside a library call, the call returns its documented failure value (NULL, 0, -1), does not dereference the failed result, releases whatever it allocated itself, and leaves the caller's objects as they were before the call (for stringptrlist_dup_entries: items before the returned index copied, the rest untouched). A successful call leaves allocated exactly the object it hands to the caller.",
  ["fault_sequences", "inputs"], "a failure at any subset of the allocations of a call, for all functions that allocate",
  "no test makes an allocation fail",
  ["src/sblist", "src/tlist/tlist.c", "src/hashlist/hashlist.c", "src/stringptr", "src/stringptrlist", "src/strlib/strdup_n.c", "include/bmap.h", "include/tglist.h", "include/stringlist.h"], [("NULL tests after every allocation", "all allocating functions")], EVA,
  "allocation modelled as nondeterministic; live blocks counted per path")
p("C14", "File descriptors, globs and processes are released exactly once on every path",
  "Every descriptor a library call opens is closed exactly once before the call returns unless it is handed to the caller (fileparser, process pipes), on success and on every error path; no call closes, reads, writes or seeks a descriptor that is not open, or one it does not own. fileparser_close and process_close close exactly what open acquired, and filelist_search/filelist_free release the glob result and list exactly once.",
  ["fault_sequences", "inputs"], "failure or short result of every system call, in every combination",
  "tests exercise only the success paths on small files",
  ["src/stringptr/stringptr_fromfile.c", "src/stringptr/stringptr_tofile.c", "src/stringptrlist/stringptrlist_tofile.c", "src/stringptrlist/stringptrlist_fromfile.c", "src/fileparser", "src/proclib/process.c", "src/filelist/filelist.c"], [("goto-cleanup exits", "these functions")], EVA,
  "system calls modelled with a descriptor table (typestate) and nondeterministic results")
p("C15", "I/O errors and short transfers are never taken for success",
  "stringptr_fromfile returns the whole file or NULL (never a partly filled buffer), stringptr_tofile returns the number of bytes actually accepted, stringptrlist_tofile returns 1 only if every item and newline was written completely, stringptrlist_fromfile returns 1 only if no read failed, no line was too long and every line was stored, and fileparser_open/readline/getnextlinelength return non-success whenever an underlying call failed. Partial reads and writes are continued at the right offset with the right remaining length, and no more data is transferred than requested.",
  ["fault_sequences", "inputs"], "all results each open/read/write/lseek/stat may give: error, 0, partial, full",
  "tests only read and write small regular files successfully",
  ["src/stringptr/stringptr_fromfile.c", "src/stringptr/stringptr_tofile.c", "src/stringptrlist/stringptrlist_tofile.c", "src/stringptrlist/stringptrlist_fromfile.c", "src/fileparser"], [("bufpos accounting", "stringptr_fromfile, stringptr_tofile"), ("return code mapping", "fileparser_*")], EVA,
  "transfer results over their whole range; offsets checked against the modelled file position")
p("C16", "process_open/process_close manage the child's pipes and status correctly",
  "process_open returns 0 only if the child was started with its stdin/stdout/stderr connected to the three pipes whose other ends it returns in fds[0..2] (fds[0] writable, fds[1] and fds[2] readable) and with all pipe ends closed in the child; otherwise it returns -1 with errno naming the cause, every pipe closed and the spawn actions destroyed. process_close closes the three parent ends before it waits, reaps exactly that child even if interrupted, and returns its exit status.",
  ["fault_sequences", "histories"], "failure of each of the spawn, pipe and wait calls, interruption by signals",
  "the only test is disabled; nothing checks failures",
  ["src/proclib/process.c"], [("pipe-end table and file actions", "process_open"), ("close, waitpid, destroy", "process_close")], EVA,
  "spawn/pipe/wait modelled with nondeterministic failure and a recorder of file actions")
p("C17", "fileparser delivers the file's lines in order and keeps its position",
  "Successive fileparser_readline(_userbuf) calls deliver exactly the lines of the file in order, NUL-terminated and with the right length, return -2 at the end and -3 for a line that does not fit, in which case the position still points at the start of that line. fileparser_getnextlinelength returns the length of the next line without moving the position, whether it succeeds or fails; fileparser_getline exposes the line last read.",
  ["inputs", "histories", "fault_sequences"], "all file contents, line lengths and buffer sizes, and read/lseek failures",
  "one example program parses one small file",
  ["src/fileparser"], [("seek back to just behind the newline", "fileparser_readline_userbuf"), ("save and restore of fpos", "fileparser_getnextlinelength")], EVA,
  "files of abstract content (newline / other) up to a bounded length; buffer sizes split; the 1024-byte internal buffer analysed at its boundary")
p("C18", "iniparser returns exactly the lines and values of the section asked for",
  "iniparser_get_section/get_next_section return the line range after the first (next) header '[name]' up to the next line starting with '[' or the end of the file, never leaving the file; iniparser_getvalue(_at) returns the bytes behind 'key=' of the first line at or after the start line inside the section that begins with exactly that key, else an empty result / -1. No line is read beyond its size, and count_sections counts exactly the bracketed header lines.",
  ["inputs"], "all files, section names and keys, including empty lines, prefixes of keys, trailing blanks, sections at the end",
  "tests parse one test.ini",
  ["src/iniparser/iniparser.c", "src/iniparser/iniparser_count_sections.c"], [("size test before character access", "iniparser_get_section_at, iniparser_getvalue_at")], EVA,
  "files up to a bounded number of lines and line length; characters partitioned into the classes the code distinguishes")
p("C19", "filelist_search builds a bounded, escaped pattern and exactly the matching list",
  "For every directory and mask, filelist_search either rejects the input or hands glob a terminated pattern inside its own buffer, in which every '[', '?' and '*' of the directory part is escaped and the mask is appended after exactly one '/'. On success the list contains each result of glob once, in order (with the path stripped if asked, and '.'/'..' filtered or added exactly as the flags say), each with its true length; otherwise it reports failure and owns nothing.",
  ["inputs", "fault_sequences"], "all directory names and masks including over-long and empty ones, all flag combinations, all glob results",
  "two examples search the current directory",
  ["src/filelist/filelist.c"], [("cpystr_escape and length checks", "filelist_search")], EVA,
  "directory names up to a bound plus the PATH_MAX boundary; glob modelled")
p("C20", "No hidden mutable state: calls are reentrant and thread-independent",
  "Apart from the CRC tables filled by the explicit InitTables functions, no library function writes to static storage or calls a libc function that keeps hidden state (other than rand in ulz_mkdtemp, stdin in read_stdin_line, and strerror in log_puterror), so calls on distinct objects never influence each other in any interleaving. The CRC tables are written only by InitTables, never by Init/Update/Final.",
  ["schedules", "histories"], "all interleavings of calls from any number of threads on distinct objects",
  "no test uses threads; a race needs a schedule",
  ["src", "include"], [("no writable statics", "all units")], IR,
  "every store and call of every function in every unit (headers instantiated by a probe unit) is classified")
p("C21", "Read-only arguments are never modified",
  "Functions whose documentation or signature makes an argument an input (haystacks, needles, keys, source buffers, format strings, lists searched, contexts passed as const, all const-qualified pointers) never write through it or anything reachable from it, nor pass it to something that may; only the documented in-place operations (splitc/splits/replace's buffer, normalizepath, getpathdiff's paths, chomp, shiftleft, makeupper/makelower, the list being changed) modify what they are given.",
  ["inputs", "histories"], "all calls", "tests compare results, not that inputs are unchanged",
  ["src", "include"], [("const casts exist only for reading", "src")], IR,
  "provenance analysis: each store/memcpy/unknown call destination is traced to its base parameter")
p("C22", "Formatting and logging use only raw descriptors: no stdio, no heap",
  "Nothing reachable from ulz_printf/ulz_fprintf/ulz_snprintf/ulz_vsnprintf or any log_* function calls stdio or the allocator; output goes only to the descriptor given (1 for ulz_printf and op_printall), in one write per piece, with a length that never exceeds the bytes available, and nothing is written when formatting fails. log_puterror reports the errno in force when it was called.",
  ["inputs", "programs"], "all call paths, formats and arguments", "tests cannot see which libc facilities are pulled in on all paths",
  ["src/format", "src/logger", "include/stdio-repl.h"], [("direct write(2) calls", "src/format, src/logger")], IR + "; " + EVA,
  "call graph closure over resolved callees plus EVA for lengths and descriptors")
p("C23", "Formatting consumes each argument with its type and renders it completely",
  "For every directive, ulz_vsnprintf fetches exactly one argument of the type the directive names (%d int, %u/%x/%X unsigned, %l/%ll/%z their widths, %p pointer-sized, %s string, %c int) and none for %%, so later arguments are never misread; unknown or incomplete directives and a NULL string yield -1. The integer text it produces is the two's-complement-correct decimal/hex rendering with sign, zero-padded to the requested %.N width if it has fewer digits; log_put reads each vario by its tag and log_putd renders the 64-bit value with the requested signedness.",
  ["inputs"], "all directive sequences and argument values", "spformat_test covers a few directives with small values",
  ["src/format/ulz_vsnprintf.c", "src/strlib/numberToString.c", "src/logger/log_put.c", "include/vario.h"], [("directive switch", "ulz_vsnprintf"), ("tag switch", "log_put")], EVA,
  "each directive with arbitrary arguments; digits checked against the value through intervals per magnitude")
p("C24", "Character classes, hex and base64 alphabets are exact for all 256 bytes",
  "isAlpha/isNumber/isLetter/isUpper/isLower accept exactly [0-9A-Za-z], [0-9], [A-Za-z], [A-Z], [a-z]; makeupper/makelower change exactly the letters of the other case; hexval and hex2raw decode exactly the 22 hex digits and raw2hex emits the two lowercase digits of each byte; the base64 encoders and decoder use the same RFC 4648 alphabet and decoding rejects every other byte, misplaced padding and incomplete groups. numberToString's digit for value v is the v-th character of 0-9A-Z (a-z when lowercase is asked for).",
  ["inputs"], "all 256 byte values and all 6-bit groups", "tests sample a few characters",
  ["include/strswitch.h", "src/strlib"], [("case lists and tables", "include/strswitch.h, src/strlib/base64_tbl.c, src/strlib/conv_cypher.c")], EVA,
  "exhaustive over the 256 byte values, as abstract partitions")
p("C25", "Sleeping and time arithmetic handle interruption and borrow correctly",
  "msleep and microsleep request exactly the given time (seconds and nanoseconds in range), resume with the remaining time whenever interrupted by a signal, stop on success or any other error and return that result. mspassed and timespec_diff return the exact difference (in whole milliseconds / nanoseconds) including sub-second borrow and times whose order is reversed for timespec_diff, getutime combines seconds and microseconds without 32-bit loss, and timestamp renders the broken-down local time in fixed-width fields.",
  ["fault_sequences", "inputs"], "all durations and time values, any number of interruptions", "no test of timelib exists",
  ["src/timelib"], [("EINTR loop", "msleep, microsleep"), ("64-bit arithmetic", "getutime, timespec_diff")], EVA,
  "durations and clocks over intervals; nanosleep modelled with any number of interruptions")
p("C26", "ssalloc hands out disjoint, in-pool elements and tracks every one",
  "For every pool configuration (any power-of-two element count and any element size) and every history of allocations and frees, ssa_alloc returns an element-aligned block inside the pool that is not in use, or NULL exactly when the size is too big or all elements are in use; ssa_free returns exactly that element and ignores pointers that are not a live element's start. The number of available elements always equals the number of free ones.",
  ["histories", "configurations"], "all histories and pool sizes", "ssalloc_test runs one history on one pool size",
  ["include/ssalloc.c", "include/bitarray.h"], [("used bitmap, top, avail", "include/ssalloc.c")], EVA,
  "inductive step from an arbitrary consistent bitmap for several pool sizes")
p("C27", "guard_alloc puts the block's end at a guard page and guard_free unmaps it all",
  "For every size, guard_alloc returns a writable block of n bytes whose end coincides with the start of an inaccessible page inside the same mapping, or 0 with nothing left mapped; guard_free(p, n) unmaps exactly the mapping made for p, no more and no less.",
  ["inputs", "fault_sequences"], "all sizes (including 0 and multiples of the page size), failure of mmap and mprotect", "guard_alloc_test tries a few sizes",
  ["include/guard_alloc.c"], [("page rounding", "guard_alloc, guard_free")], EVA,
  "sizes split around page multiples; mmap/mprotect/munmap modelled with a mapping record")
p("C28", "Bit arrays: setting, clearing and testing one bit touch exactly that bit",
  "BA_SET_TRUE/BA_SET_FALSE/BA_SET change exactly the addressed bit, BA_GET and BA_GET_SWAPPED read exactly the (byte-mirrored) addressed bit, and BA_SIZE_REQUIRED(n) is the least number of bytes holding n bits, for every index (also one given as an arbitrary expression) and prior content; all accesses stay within that many bytes. BYTEM and BYTEL place bit 0 at the most / least significant bit for bits given as arbitrary expressions.",
  ["inputs"], "all indices and contents", "no direct test",
  ["include/bitarray.h"], [("byte/bit split of the index", "include/bitarray.h")], EVA, "indices split up to a bound, contents abstract")
p("C29", "Temporary directories are private, fresh and inside the caller's template",
  "ulz_mkdtemp and mktempdir create a directory that did not exist before, with mode 0700, whose name is the template with its last six characters replaced by alphanumerics, changing nothing else of it; they retry only on name collision and report any other failure (and too short templates) without creating anything. mktempdir tries /dev/shm/ first and then /tmp/, and the returned length equals the length of the name in the buffer.",
  ["fault_sequences", "inputs"], "all mkdir results, prefixes and random draws", "mktempdir's test creates one directory",
  ["src/filelib/ulz_mkdtemp.c", "src/filelib/mktempdir.c"], [("mkdir with S_IRWXU, EEXIST loop", "ulz_mkdtemp")], EVA, "mkdir and rand modelled with arbitrary results")
p("C30", "daemonize detaches completely and only in the child",
  "daemonize returns only in the child of a successful fork, after starting a new session, closing every descriptor up to the table size and re-opening descriptors 0, 1 and 2 on /dev/null read-write in a way that survives exec; the parent exits with 0, and a failed fork exits with 1 after reporting it.",
  ["fault_sequences"], "all fork outcomes and descriptor table sizes", "no test",
  ["src/proclib/daemonize.c"], [("fork, setsid, close loop, open+dup", "daemonize")], EVA, "system calls modelled with a recorder")
p("C31", "Streaming digests buffer every byte exactly once for any chunking",
  "md5 and crc32/crc32c may be fed in chunks of any size, sha512 in multiples of 128 bytes plus one last piece: every message byte is buffered or consumed exactly once and in order, the recorded length is the exact message length, nothing outside the context, the input and the output is accessed, finishing appends padding and length in the right block, and md5_end leaves the context usable. md5_init/sha512_init/CRC Init fully reset a context.",
  ["inputs", "histories"], "all chunkings and message lengths around the block boundaries", "tests hash a few short literals, mostly in one chunk",
  ["src/md5/md5.c", "src/sha512/sha512.c", "src/crc32/crc32_impl.c"], [("count & 63 / & 127 fill pointer", "md5_update, sha512_update")], EVA,
  "only the buffering/padding clause; that the compression function computes MD5/SHA-512/CRC is C41 (not applicable)")
p("C32", "Option parsing finds the right argument and never reads outside argv",
  "op_get returns the text behind '-name=' or '--name=' of the first matching argument, or the following argument for '-name value' / '--name value', and NULL if there is none; op_hasflag is true exactly if some argument is the flag with one or (for long names) two dashes. op_init hands over exactly the argc and argv given. The functions look only at arguments 1..argc-1, never read beyond an argument's terminator or argv's end, and modify nothing.",
  ["inputs"], "all argument vectors, including empty arguments, lone dashes and options in last place", "no test (the example does not compile)",
  ["src/optparser"], [("strleneq, i+1 < argc", "op_get"), ("length comparison", "op_hasflag")], EVA, "argument counts and lengths up to a bound, characters abstract")
p("C33", "Byte-order and arithmetic macros are exact for every operand",
  "byteswap16, byteswap32 and byteswap64 reverse exactly the 2, 4 and 8 low bytes of their operand for every value and operand type, signed and wider ones included; le16/le32 give the little-endian representation (identity on a little-endian machine, which IS_LITTLE_ENDIAN reports correctly). MIN, MAX, ARRAY_SIZE and WORD_SIZE give the smaller / larger operand, the element count and the pointer size, and BASE64ENC_BYTES / _BUFSIZE and BASE64DEC_BYTES / _BUFSIZE the encoded and decoded sizes without and with terminator; all of them work for operands that are arbitrary expressions.",
  ["inputs"], "all operand values and operand expressions", "no direct test",
  ["include/endianness.h", "include/macros.h", "include/strlib.h"], [("masks and shifts", "include/endianness.h"), ("parenthesised operands", "include/macros.h")], EVA,
  "every byte at every place known, all other bits abstract (known-bits domain)")
p("C34", "Iteration macros visit every element exactly once, in order",
  "sblist_iter, sblist_iter_counter, sblist_iter_counter2, stringlist_iter, stringlist_foreach and tglist_foreach run their body once per element, in order, with the element and counter of that element, on lists of any size including empty, also when nested or left early; with sblist_iter_counter2s the body may delete the current element and step the counter back, and still every element is visited exactly once. hbmap_foreach visits every entry exactly once whatever buckets are empty, also if the body deletes the entries of the current bucket as documented. No loop accesses anything outside the list.",
  ["inputs", "histories"], "all list sizes, item sizes, early exits and subsets of deletions", "used in a few tests on one non-empty list",
  ["include/sblist.h", "include/stringlist.h", "include/tglist.h", "include/hbmap.h"], [("sblist_get before the bound test", "include/sblist.h"), ("next valid iterator", "include/hbmap.h")], EVA,
  "list sizes up to a bound; elements symbolic")
p("C35", "File queries report what stat says, or 0",
  "getfilesize and getFileModTime return the size / modification time of exactly the file named (following symbolic links), in full width for every value, and 0 when it cannot be queried; they leave nothing open and modify nothing.",
  ["inputs", "fault_sequences"], "all sizes and times, failure of stat", "no test",
  ["src/filelib/getfilesize.c", "src/filelib/getfilemodtime.c"], [("stat result passed on", "getfilesize, getFileModTime")], EVA,
  "stat modelled with representatives of every magnitude and failure")
p("C36", "Declarations and definitions agree in every unit and dialect",
  "Every function and object the public headers declare as part of the library (all but the optional tlist_getbalance) is defined exactly once in it, with exactly the declared type, and every unit that calls or uses one does so under that type and with a declaration in sight; what a unit references resolves within the library or the C library. Every public header compiles as the first and only header of a unit, twice, and before or after any other one, in strict C99, gnu99 and gnu11, without undeclared names. The printf-like functions carry their format attribute at the right argument positions, so that mismatched arguments are diagnosed, and the headers with a C++ guard give their functions C linkage in C++ units.",
  ["configurations", "inputs"], "all declarations, call sites, header orders and language dialects; a mismatch corrupts arguments or results for inputs the tests do not pass (wide values, rare callers)",
  "the tests are built in one dialect with one include order, and a type mismatch between two units needs no diagnostic and often works by accident",
  ["include", "src"], [("declarations", "include/*.h"), ("definitions and private prototypes", "src/*/*.c")],
  "type-checking rules over the compiled units' IR, debug types and clang diagnostics (declaration/definition/call-site agreement, header order matrix, compile witnesses)",
  "complete over all units, public headers, header pairs and dialects; no run-time part")
p("C37", "Dependency pragmas name every unit a program needs",
  "Following the RcB2 DEP pragmas from any public header (and from the headers its units include) names a closed set of units: it defines every function and object the header declares as part of the library, every library symbol one of these units refers to, each exactly once, and every pattern matches a file. A program that includes the header can therefore be built from exactly the units named.",
  ["configurations"], "all public headers, units and references; a unit that is only missing from the closure is still found in the full archive",
  "the tests link the whole archive, which hides a unit that no pragma names",
  ["include", "src"], [("RcB2 DEP pragmas", "include/*.h"), ("relative includes", "src/*/*.c")],
  "transitive closure of the pragmas over the preprocessed units against the compiled units' symbol tables",
  "complete over all headers and units")
p("C42", "Base64 and hex decoding invert encoding",
  "base64dec(base64enc(x)), base64dec(base64enc_str(x)) (x without NUL) and hex2raw(raw2hex(x)) give back exactly x, with its length as the result, for every byte string x, into output buffers of exactly the documented size.",
  ["inputs"], "all byte strings", "tests compare a few literals", ["src/strlib/base64enc.c", "src/strlib/base64enc_str.c", "src/strlib/base64dec.c", "src/strlib/raw2hex.c", "src/strlib/hex2raw.c", "src/strlib/base64_tbl.c"],
  [("shared table", "base64_tbl"), ("bit regrouping", "base64enc, base64dec")], EVA,
  "messages up to a bounded length; each byte in turn takes all 256 values with every other byte abstract (value-set and known-bits domains)")
na("C41", "Digests and ciphers equal the published standards",
  "md5, sha512, crc32, crc32c and rc4 compute exactly the functions defined by RFC 1321, FIPS 180-4, the CRC-32/CRC-32C polynomials and RC4, for every message and key.",
  ["inputs"], "all messages and keys", "tests compare a few test vectors", ["src/md5/md5.c", "src/sha512/sha512.c", "src/crc32/crc32_impl.c", "src/strlib/rc4.c"],
  [("round functions", "md5_round, crypto_hashblocks")],
  "numerical equality of mixing functions over all messages: no static abstraction in reach bounds it (intervals and bit domains lose everything after one round); needs a functional proof or translation to a solver, another family. The buffering, padding and bounds clauses are claimed in C02 and C31.")
na("C44", "rc4 is its own inverse; parsed numbers equal the rendered ones",
  "rc4 applied twice with the same key gives the message back, and parsing a rendered number (itoa/numberToString, then strtoint/strtoint64) gives the number back, for every message, key and number.",
  ["inputs"], "all byte strings and numbers", "tests compare a few literals", ["src/strlib/rc4.c", "src/strlib/strtoint.c", "src/strlib/numberToString.c"], [("keystream xor", "rc4")],
  "equality of two keystreams, or of a sum of digit weights with the number, relates runtime values through unbounded arithmetic; no abstract domain at hand carries it. The digit tables, lengths and the per-magnitude clauses are claimed in C02, C04, C23 and C24.")
na("C43", "Logarithmic cost of tlist and sorted containers",
  "tlist operations take expected O(log n) time and lookups in bmap/sblist_bsearch O(log n) comparisons, for every history.",
  ["histories"], "all histories", "benchmarks sample it", ["src/tlist/tlist.c", "include/bmap.h"], [("treap priorities", "mrand")],
  "an expected-cost statement about pseudo-random priorities is a runtime quantity no sound static argument here can bound (the comparison count of the binary searches is claimed in C07).")

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for (id, title, st, over, q, why, files, mech, tech, note) in P:
            f.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": q},
                "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "hook_needed": None}}) + "\n")
    import re
    have = set()
    for h in os.listdir(os.path.join(V, "harness")):
        have |= set(re.findall(r"^void\s+(C\d\d)_", open(os.path.join(V, "harness", h)).read(), re.M))
    for rp in (os.path.join(V, "lib", "rules.py"), os.path.join(V, "lib", "decls.py")): have |= set(re.findall(r'(?:@rule)?\("(C\d\d)"(?:\)|, decls)', open(rp).read()))
    checks, nas = [], [{"property": a, "reason": b} for a, b in NA]
    for (id, title, st, over, q, why, files, mech, tech, note) in P:
        if tech is None: continue
        if id not in have:
            nas.append({"property": id, "reason": "check not built yet"}); continue
        checks.append({"property": id, "quick_cmd": "VERIF_TIER=quick python3 run.py " + id, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + id,
                       "evidence_file": "evidence/%s.json" % id, "technique": tech, "level": "other",
                       "level_note": "static analysis verdict for all abstract inputs: " + note})
    json.dump({"version": 1, "setup_cmd": "python3 setup_check.py", "checks": checks, "not_applicable": nas,
               "notes": "All checks read /repo's current working tree; no hooks in /repo. See DESIGN.md."},
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties,", len(checks), "checks,", len(nas), "not applicable")
main()
