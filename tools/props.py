#!/usr/bin/env python3
"""The properties and how each is checked. `python3 tools/props.py` regenerates properties.jsonl and
MANIFEST.json from this table."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MALLOC_WRAPS = ['malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup']

# libc functions the controlled scheduler (src/tsanrt.cpp) sees
SCHED_WRAPS = (
    'asctime call_once calloc ctime fflush flockfile fprintf fputc fputs free ftrylockfile funlockfile '
    'fwrite getenv gmtime localtime localtime_r malloc memchr memcmp memcpy memmove memrchr memset '
    'mtx_lock mtx_trylock mtx_unlock printf pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock '
    'pthread_once pthread_rwlock_rdlock pthread_rwlock_unlock pthread_rwlock_wrlock pthread_spin_lock '
    'pthread_spin_unlock putc putchar putenv puts qsort realloc sched_yield setenv snprintf sprintf '
    'strcasecmp strcat strchr strcmp strcpy strerror_r strftime strlen strncasecmp strncat strncmp strncpy '
    'strnlen strrchr strstr strtok unsetenv vfprintf vprintf vsnprintf vsprintf write writev ').split()

# harness name -> sources, build configuration, wrapped symbols
HARNESSES = {
    'containers': dict(src=['h_containers.cpp', 'wraps.cpp'], wraps=MALLOC_WRAPS),
    'strings': dict(src=['h_strings.cpp', 'wraps.cpp'], wraps=MALLOC_WRAPS + ['vsnprintf']),
    'files': dict(src=['h_files.cpp', 'wraps.cpp'], wraps=MALLOC_WRAPS +
                  ['opendir', 'readdir', 'closedir', 'stat', 'lstat', 'mkdir']),
    'misc': dict(src=['h_misc.cpp', 'wraps.cpp', 'check_rig.c'], wraps=MALLOC_WRAPS + [
        'clock_gettime', 'setenv', 'unsetenv', 'fwrite', 'printf', 'dlopen', 'dlinfo', 'dlclose']),
    'logging': dict(src=['h_logging.cpp', 'wraps.cpp'] + ['logging_rig%d.c' % i for i in range(7)] + ['logging_rig_cpp.cpp'],
                    wraps=MALLOC_WRAPS + ['clock_gettime', 'isatty', 'fileno', 'setvbuf'], snapshot=True),
    'interleave': dict(src=['h_interleave.cpp', 'tsanrt.cpp', 'interleave_rig.c'], config='sched', snapshot=True,
                       wraps=SCHED_WRAPS),
}

SEQ_NOTE = ('Exhaustive up to the stated bounds on the real code built from /repo with AddressSanitizer '
            'and UndefinedBehaviorSanitizer; trusts the reference model, the compiler and libc; says '
            'nothing about larger bounds.')

ILV_NOTE = ('Exhaustive up to the stated number of threads, operations and preemptions on the real code, which is '
            'compiled with the ThreadSanitizer instrumentation and linked to a scheduler of our own; sequentially '
            'consistent atomics; inside libc only the listed functions are seen; trusts the compiler.')

# C52: the same harnesses with everything the library leaves uninitialized, on the heap (src/wraps.cpp) and on the
# stack, holding zeros or not
for _n in ['containers', 'strings', 'files', 'misc', 'logging']:
    HARNESSES[_n + '_zero'] = dict(HARNESSES[_n], repo_extra=['-ftrivial-auto-var-init=zero'])
    HARNESSES[_n + '_ones'] = dict(HARNESSES[_n], repo_extra=['-ftrivial-auto-var-init=pattern'])

PROPS = []


def P(id, title, statement, over, quant, why, files, mech, harness, level='model_checking',
      technique='', note=SEQ_NOTE, observe=None, rule='', deadline=(400, 1500), also=()):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                      files=files, mech=mech, harness=harness, level=level, technique=technique,
                      note=note, observe=observe or [], rule=rule, deadline=deadline,
                      also=list(also)))


BFS = ('explicit-state breadth-first search over operation histories of the real object (canonical heap '
       'de-duplication) against a reference model')
DFS = 'exhaustive enumeration of a bounded choice tree on the real code against a reference model'
FLT = 'exhaustive fault enumeration: every history up to a depth x every failing allocation, on the real code'
ILV = ('stateless exploration of all thread interleavings of the real code up to a preemption bound '
       '(every library memory access is a scheduling point) with happens-before race detection')

P('C01', 'Array list behaves as a sequence of fixed-size values',
  'After any sequence of add, set, remove and get calls, an array list holds exactly the values a plain '
  'sequence would hold, byte for byte and in order, for every entry size, initial capacity and number of '
  'entries. An index at or beyond the size is rejected with an invalid-argument error and changes nothing, and a '
  'capacity that cannot be represented or allocated is rejected.',
  ['histories', 'inputs'],
  'all histories of add/set/remove up to a depth, from several capacities and entry sizes, and growth to many '
  'entries for every size from 0 up',
  'The tests run a handful of fixed sequences with 4-byte entries; shifting after removal and growth across '
  'capacity boundaries with other sizes is not reached.',
  ['src/array_list.c', 'include/rcutils/types/array_list.h'],
  [('growth by doubling', 'src/array_list.c'), ('index validation and memmove on removal', 'src/array_list.c')],
  'containers', technique=BFS, observe=['rcutils_array_list_get', 'rcutils_array_list_get_size'])

P('C02', 'Hash map behaves as a finite map for every hash and key comparison',
  'After any sequence of set, unset, get and key_exists calls a hash map holds exactly one value per key that is '
  'equal under the key comparison function: the most recently set one, whatever hashes collide, whatever the '
  'initial capacity, and across every growth of the table. get and key_exists report a key exactly when it is '
  'present and get_size counts the present keys. The capacity is a power of two, at least the requested one, and never shrinks.',
  ['histories', 'inputs'],
  'all set/unset histories up to a depth over colliding keys, for five key/hash kinds and four capacities; '
  'growth runs for every number of keys up to a bound',
  'The tests use one or two keys per scenario with one hash function; collisions combined with removal, update and '
  'growth are not reached.',
  ['src/hash_map.c', 'include/rcutils/types/hash_map.h'],
  [('bucket selection by masking the hash', 'src/hash_map.c'), ('rehash at the load factor', 'src/hash_map.c')],
  'containers', technique=BFS, observe=['rcutils_hash_map_get', 'rcutils_hash_map_key_exists'])

P('C03', 'Hash map iteration visits every entry exactly once',
  'From any reachable state, starting the iteration without a previous key and feeding back the returned key (whether or '
  'not the previous-key and out-key arguments share a buffer) yields every entry of the hash map exactly once with its current value, '
  'and then reports no-more-entries. Iterating from a key that is not in the map reports not-found.',
  ['histories', 'inputs'],
  'every state reachable by set/unset histories up to a depth, over colliding keys and several capacities',
  'The tests iterate over a few fixed maps; bucket layouts with several entries per bucket, gaps and removed entries '
  'are not covered.',
  ['src/hash_map.c'],
  [('scan for the next entry within and after a bucket', 'src/hash_map.c')],
  'containers', technique=BFS, observe=['rcutils_hash_map_get_next_key_and_data'])

P('C04', 'String map behaves as a finite map from strings to strings',
  'After any sequence of set, set_no_resize, unset, clear and reserve calls, a string map maps exactly the present keys to the '
  'most recently set values, comparing whole keys, and keeps its own copies. Lookups with an explicit key length use exactly that many '
  'bytes of the given key and match only a stored key of exactly that length. Unsetting an absent key reports '
  'key-not-found and changes nothing.',
  ['histories', 'inputs'],
  'all histories up to a depth over keys that are prefixes of one another and the empty key, with every key length',
  'The tests never combine prefix keys, gaps left by unset, and lookups by length.',
  ['src/string_map.c', 'include/rcutils/types/string_map.h'],
  [('linear search over slots with gaps', 'src/string_map.c'), ('replace value, then free the old one', 'src/string_map.c')],
  'containers', technique=BFS, observe=['rcutils_string_map_get', 'rcutils_string_map_getn',
                                        'rcutils_string_map_key_existsn'])

P('C05', 'String map capacity changes, iteration and copy never lose a pair',
  'Reserving any capacity, from any reachable state, keeps every key-value pair and yields a capacity of the larger of the '
  'requested one and the number of pairs; set grows a full map, while set_no_resize of a new key in a full map reports not-enough-space and changes nothing. '
  'Iterating by key yields every pair exactly once, and a copy sets every source pair in the destination while keeping the '
  "destination's other pairs.",
  ['histories', 'inputs'],
  'every state reachable by set/unset/clear/reserve histories up to a depth, and all pairs of small source and destination maps',
  'Tests reserve on maps without gaps only and copy one or two fixed maps.',
  ['src/string_map.c'],
  [('compaction before shrinking', 'src/string_map.c'), ('doubling when full', 'src/string_map.c')],
  'containers', technique=BFS, observe=['rcutils_string_map_reserve', 'rcutils_string_map_get_next_key',
                                        'rcutils_string_map_copy'])

P('C06', 'String array resize, comparison and sorting are exact',
  'Resizing a string array keeps the strings below the new size, releases the others and gives NULL for new entries. Comparing two '
  'arrays orders them lexicographically element by element, and a proper prefix before the longer array. '
  'Sorting leaves a permutation of the same strings in ascending order with NULL entries last.',
  ['histories', 'inputs'],
  'all resize/assign/sort histories until no new state appears, and all pairs of arrays over a small alphabet including NULL entries',
  'The tests compare and resize a few fixed arrays.',
  ['src/string_array.c', 'include/rcutils/types/string_array.h'],
  [('zeroing of new entries and reclaiming of removed ones', 'src/string_array.c')],
  'containers', technique=BFS, observe=['rcutils_string_array_resize', 'rcutils_string_array_cmp', 'rcutils_string_array_sort'])

P('C07', 'Char array holds exactly the bytes its operations describe',
  'After any sequence of resize, expand_as_needed, memcpy, strcpy, strcat, strncat and vsprintf calls, on an owned or an unowned buffer, a char '
  'array holds exactly the bytes of the equivalent string operations with a buffer length that counts the terminating null and never exceeds the '
  'capacity. Growing never writes outside a buffer, never frees a buffer the array does not own, and copying or printing never shrinks the capacity.',
  ['histories', 'inputs'],
  'all operation histories up to a depth on owned and unowned buffers of several capacities, and single operations at every '
  'length up to a bound',
  'Tests use one capacity and short strings, and append only sources at least as long as the given count.',
  ['src/char_array.c', 'include/rcutils/types/char_array.h'],
  [('growth by at least half', 'src/char_array.c'), ('two-pass printing', 'src/char_array.c')],
  'containers', technique=BFS, observe=['rcutils_char_array_t'])

P('C08', 'Byte array resize keeps content and length consistent',
  'After any sequence of resizes a byte array keeps the bytes below the smaller of the old and new capacities, its length never '
  'exceeds its capacity, and a resize to zero is rejected without a change.',
  ['histories', 'inputs'],
  'all resize and fill histories until no new state appears, and all pairs of sizes up to a bound',
  'Tests resize one array a few times.',
  ['src/uint8_array.c', 'include/rcutils/types/uint8_array.h'],
  [('length clamped when shrinking', 'src/uint8_array.c')],
  'containers', technique=BFS, observe=['rcutils_uint8_array_t'])

P('C09', 'Containers survive every allocation failure',
  'When any allocation, or any allocation and all later ones, inside any container operation fails, the operation either still succeeds '
  'completely or reports bad-alloc; afterwards the container holds its previous content (a char array or byte array whose growth failed may instead be empty), later operations work '
  'normally, and finalizing it frees every block exactly once. A failed init leaves nothing allocated.',
  ['fault_sequences', 'histories'],
  'every history up to a depth of operations on every container, with each allocation of each operation failing alone or from then on, up to two faulty operations per history',
  'Tests fail the first allocation of a few calls; failures in the middle of growth, copying or entry creation are not reached.',
  ['src/hash_map.c', 'src/string_map.c', 'src/array_list.c', 'src/string_array.c', 'src/char_array.c', 'src/uint8_array.c'],
  [('cleanup paths after a failed allocation', 'src/')],
  'containers', level='fault_enumeration', technique=FLT,
  rule='a case is one operation history with one failure pattern per operation; non-trivial: it ends in a canonical '
       'object state not seen before')

P('C11', 'Containers use only the allocator they were given, and free all of it',
  'Every container obtains and releases its memory only through the allocator it was initialized with, releases each block exactly once, never '
  'passes the allocator a block it did not hand out, and leaves no block allocated once it is finalized. This holds across growth, removal, overwriting and copies.',
  ['histories', 'inputs'],
  'all container histories up to a depth, under a tracking allocator with libc allocation calls intercepted',
  'Tests use the default allocator nearly everywhere, so that bypassing or mixing allocators goes unnoticed.',
  ['include/rcutils/allocator.h', 'src/'],
  [('allocator stored in each object', 'src/')],
  'containers', technique=BFS)

P('C10', 'String and path functions survive every allocation failure',
  'When any allocation inside split, split_last, replace, format_string, strdup, strndup, join_path, to_native_path, expand_user, executable-name lookup or '
  'severity parsing fails, the call reports failure (NULL or an error code) or still returns the complete correct result, '
  'leaves no block allocated after its outputs are released, and frees no block twice. The same call without a failure then succeeds.',
  ['fault_sequences', 'inputs'],
  'all small inputs of each function with every single allocation failing, alone or together with all later ones',
  'Tests fail only the first allocation of some of these calls.',
  ['src/split.c', 'src/repl_str.c', 'src/format_string.c', 'src/strdup.c', 'src/filesystem.c', 'src/process.c'],
  [('cleanup paths', 'src/split.c')],
  'strings', level='fault_enumeration',
  technique='exhaustive fault enumeration: every small input x every failing allocation, on the real code',
  rule='a case is one input with one failure pattern; non-trivial: the failing allocation was reached or the outcome is new')

P('C12', 'Splitting a string yields exactly its non-empty tokens',
  'split returns, in order, exactly the non-empty maximal substrings between delimiters, and an empty array for a null or empty string. split_last returns, after dropping '
  'leading and trailing delimiters, the text before the last remaining delimiter (without trailing delimiters) and the text after it, or the single '
  'token when no delimiter remains, or no token when no text remains. Both hold for every string and every delimiter byte, and read and write only within their buffers.',
  ['inputs'],
  'all strings up to a length over delimiter and non-delimiter characters, for several delimiters, and all token lengths up to a bound',
  'The tests split about ten fixed strings.',
  ['src/split.c', 'include/rcutils/split.h'],
  [('token counting pass, then extraction pass', 'src/split.c')],
  'strings', technique=DFS, observe=['rcutils_split', 'rcutils_split_last'])

P('C13', 'find, find_last and replace are exact for every string',
  'find and find_last return the first and last index of the delimiter within the given number of characters (or the whole string) and SIZE_MAX when there is none or the string is null or empty. '
  'Replacing returns the string with every non-overlapping occurrence, taken from left to right, replaced, whatever the lengths of pattern and replacement, '
  'including an empty replacement and any number of occurrences of a non-empty pattern.',
  ['inputs'],
  'all strings, patterns and replacements up to a length over two characters, and every number of occurrences up to a bound that passes all growth steps of the position cache',
  'The tests use a few fixed strings.',
  ['src/find.c', 'src/repl_str.c'],
  [('cached occurrence positions with growing cache', 'src/repl_str.c')],
  'strings', technique=DFS, observe=['rcutils_repl_str', 'rcutils_find', 'rcutils_find_last'])

P('C14', 'String duplication and formatting are exact at every length',
  'strdup copies the whole string and strndup at most the given number of bytes of it, followed by a terminator. format_string returns the complete formatted text, '
  'or its first limit-1 characters when a limit is given and exceeded; snprintf returns the length the text needs, writes at most the buffer size including the terminator, and never reports truncation as an error; without a buffer and with size zero it '
  'returns that length, and only a missing buffer with a size, or a buffer without a size, is invalid.',
  ['inputs'],
  'every text length up to a bound and every limit or buffer size around it',
  'Tests check one or two lengths far away from the limits.',
  ['src/strdup.c', 'src/format_string.c', 'src/snprintf.c', 'include/rcutils/format_string.h'],
  [('two-pass formatting with a limit', 'src/format_string.c')],
  'strings', technique=DFS, observe=['rcutils_format_string_limit', 'rcutils_snprintf', 'rcutils_strndup'])

P('C15', 'Path construction composes and expands exactly',
  'Joining two paths yields left, one separator, right, complete at every length; the native form of a path is the same path with every slash as the native separator. '
  'Expanding a path replaces one leading tilde by the home directory, keeps the rest, and returns every other path unchanged; without a home directory the result is NULL.',
  ['inputs', 'configurations'],
  'all paths up to a length over tilde, slash, dot and a letter, with several home directories, and every length up to and across internal buffer limits',
  'Tests join a few short literals.',
  ['src/filesystem.c', 'include/rcutils/filesystem.h'],
  [('formatted concatenation', 'src/filesystem.c')],
  'strings', technique=DFS, observe=['rcutils_join_path', 'rcutils_expand_user'])

P('C16', 'Filesystem predicates and directory creation agree with the filesystem',
  'For every kind of file system entry and permission, exists, is_directory, is_file, is_readable, is_writable and is_readable_and_writable report what the entry and its owner permission bits say, and false for null or missing paths. '
  'mkdir succeeds exactly when the absolute path is, or can be made, a directory, and fails without creating anything otherwise; the reported file size is the size of the regular file and zero for anything else.',
  ['inputs', 'configurations'],
  'every entry type (absent, file, directory, links to each, fifo) with every combination of owner permission bits, absolute and relative paths',
  'Tests look at a few fixture files, mostly readable ones.',
  ['src/filesystem.c'],
  [('stat-based predicates', 'src/filesystem.c')],
  'files', technique=DFS, observe=['rcutils_is_readable', 'rcutils_mkdir', 'rcutils_get_file_size'])

P('C17', 'Directory iteration and size calculation cover the whole tree exactly',
  'Iterating a directory yields every entry exactly once, including dot and dot-dot, in any reading order, then ends and releases everything. The size of a directory is the sum of the sizes of the regular files in the tree '
  'below it down to the given depth (1: only the directory itself, 0: any depth), symbolic links not followed, or an error if a directory could not be opened or memory ran out, never a partial sum reported as success.',
  ['inputs', 'fault_sequences'],
  'all small directory trees, every depth limit, and every single failing or aborted file system call and allocation during the walk',
  'Tests walk one fixture tree without failures.',
  ['src/filesystem.c'],
  [('breadth-first list of pending directories', 'src/filesystem.c'), ('directory iterator', 'src/filesystem.c')],
  'files', technique=DFS, observe=['rcutils_dir_iter_start', 'rcutils_calculate_directory_size_with_recursion'])

P('C18', 'SHA-256 is independent of how the message is split into updates',
  'For every message and every way of feeding it in pieces, including empty pieces and pieces longer than a block, the digest equals the SHA-256 of the whole message. Distinct contexts do not influence '
  'each other, and a context can be initialized again and reused.',
  ['inputs', 'histories'],
  'every message length up to several blocks, every division into two and three pieces at block-relevant sizes, and interleaved contexts, against an independent implementation',
  'Tests hash a handful of messages in one or two updates.',
  ['src/sha256.c', 'include/rcutils/sha256.h'],
  [('block buffering', 'src/sha256.c'), ('length padding', 'src/sha256.c')],
  'misc', technique=DFS, observe=['rcutils_sha256_final'])

P('C19', 'Time strings are exact for every time point',
  'For every signed 64-bit time point and every buffer size, the nanosecond string is the sign and 19 zero-padded digits, the seconds string is the floating-point seconds with ten integer and nine fractional digits, and the date string is the local calendar date and time '
  'with the milliseconds zero-padded to three digits, each truncated to the buffer with a terminator; a zero-size buffer is left untouched and null arguments are rejected.',
  ['inputs'],
  'boundary time points (around zero, second, minute, day, year and overflow boundaries, every power of two and ten) with every buffer size',
  'Tests check a few time points with large buffers.',
  ['src/time.c', 'include/rcutils/time.h'],
  [('division into seconds and remainder', 'src/time.c')],
  'misc', technique=DFS, observe=['rcutils_time_point_value_as_nanoseconds_string',
                                  'rcutils_time_point_value_as_date_string'])

P('C20', 'Clocks report the operating system time in nanoseconds',
  'The system clock reports the realtime clock and the steady clock a monotonic clock, as seconds times a billion plus nanoseconds without loss for every representable value. A negative reading is an error, a null argument is rejected, and the output is not '
  'touched on an error.',
  ['inputs'],
  'all combinations of boundary seconds and nanoseconds returned by an interposed operating system clock',
  'Tests can only read whatever time it is.',
  ['src/time_unix.c'],
  [('unit conversion', 'src/time_unix.c')],
  'misc', technique=DFS, observe=['rcutils_system_time_now', 'rcutils_steady_time_now'])

P('C21', 'The error state is exactly the last error set since the last reset',
  'After any sequence of setting an error (with message, file and line), formatting one, resetting and reading, is_set, the error state and the error string describe exactly the last error set since the last reset: the message cut to its maximum length, '
  '", at ", the file cut to its maximum length, a colon and the line number. Without one the string is "error not set", and the same string is returned however often it is read. Replacing an error that was not reset '
  'by a different one reports both, the old one first, on the error stream.',
  ['histories', 'inputs'],
  'all histories of set/set-format/reset/read up to a depth, and every message and file length up to and beyond the maximum',
  'Tests set short messages only and never combine re-setting, reading and resetting.',
  ['src/error_handling.c', 'src/error_handling_helpers.h', 'include/rcutils/error_handling.h'],
  [('thread-local state with cached string', 'src/error_handling.c'), ('bounded copies', 'src/error_handling_helpers.h')],
  'misc', technique=DFS, observe=['rcutils_get_error_string', 'rcutils_get_error_state', 'rcutils_error_is_set'])

P('C22', "One thread's error state is never visible to or changed by another",
  'However the steps of several threads setting, reading and resetting errors interleave, each thread observes exactly its own last error since its own last reset, complete and unmixed.',
  ['schedules'],
  'all interleavings up to a preemption bound of two and three threads running short programs of error operations',
  'Tests call the error functions from one thread, or from several without controlling the schedule.',
  ['src/error_handling.c'],
  [('thread-local storage', 'src/error_handling.c')],
  'interleave', technique=ILV, note=ILV_NOTE, observe=['rcutils_get_error_string'])

P('C23', 'A fault-injection countdown makes exactly one call fail',
  'After setting the fault-injection count to n, exactly the (n+1)-th fault point evaluated fails and every other one passes, whatever number of threads evaluate fault points and however they interleave; the count '
  'ends at never. A negative count never fails anything, and after each sequential evaluation the readable count is one lower until it is exhausted.',
  ['schedules', 'histories'],
  'all interleavings up to a preemption bound of two and three threads evaluating fault points for every small count',
  'Tests evaluate fault points from one thread.',
  ['src/testing/fault_injection.c', 'include/rcutils/testing/fault_injection.h'],
  [('compare-and-exchange countdown', 'src/testing/fault_injection.c')],
  'interleave', technique=ILV, note=ILV_NOTE, observe=['_rcutils_maybe_fail', 'rcutils_fault_injection_get_count'])

P('C24', 'Injected faults surface as errors and leave objects finalizable',
  'For every library operation run with the built-in fault injection failing its n-th fault point, for every n, the operation returns an error or still completes correctly, the object it works on keeps its previous content or can be '
  'finalized, nothing is leaked or freed twice, and after switching injection off the operation works again.',
  ['fault_sequences'],
  'every fault point of every operation in a scripted use of each library part, one at a time and in pairs',
  'Tests using fault injection ignore the results they get under injection.',
  ['include/rcutils/testing/fault_injection.h', 'src/'],
  [('fault points at function entry', 'src/')],
  'misc', level='fault_enumeration',
  technique='exhaustive fault enumeration: every countdown value of the built-in fault injection x scripted operations',
  rule='a case is one script with one pair of countdown values; non-trivial: a fault was actually delivered')

P('C25', 'Effective logger level follows the dotted name hierarchy',
  'After any sequence of setting, unsetting and default-level changes, the effective level of a logger is the level set for that exact name, otherwise that of the nearest dot-separated ancestor with a level, otherwise the default level. '
  'Cached or repeated lookups never change the answer, invalid severities and null names are rejected without a change, a change that fails for lack of memory leaves every level as it was, and is_enabled_for agrees with the effective level.',
  ['histories', 'inputs'],
  'all histories up to a depth of level changes and lookups over a small tree of names including look-alike prefixes and empty segments',
  'Tests are not part of the reliable suite here and set a few levels in a fixed order.',
  ['src/logging.c'],
  [('ancestor search and cached derived levels', 'src/logging.c')],
  'logging', technique=BFS, observe=['rcutils_logging_get_logger_effective_level', 'rcutils_logging_logger_is_enabled_for'])

P('C26', 'Enabled messages reach the output handler exactly once, others never',
  'A logged message is passed to the installed output handler exactly once, with its location, severity, logger name, formatted text and current time, if its severity is at least the effective level of its logger; otherwise '
  'the handler is not called. The handler can be replaced and read back at any time, and after a shutdown and new initialization the defaults are in force again.',
  ['histories'],
  'all histories up to a depth of handler changes, level changes, log calls, shutdown and initialization',
  'Tests use one fixed sequence.',
  ['src/logging.c', 'include/rcutils/logging.h'],
  [('level check before dispatch', 'src/logging.c'), ('global handler and level map reset on shutdown', 'src/logging.c')],
  'logging', technique=BFS, observe=['rcutils_log', 'rcutils_logging_get_output_handler'])

P('C27', 'Every output format is expanded token by token, exactly',
  'For every output format string within the documented limits (fewer than 2048 characters, at most 1024 parts) the formatted message is the concatenation, in order, of the values of its known tokens, the characters its known escapes stand for, and all other text (including unknown tokens, unmatched braces and backslashes) literally. '
  'Of a longer plain text the first 2047 characters are used. The result does not depend on formats used by earlier initializations, is not expanded a second time, and is complete at every message length.',
  ['inputs', 'configurations', 'histories'],
  'all format strings up to a number of pieces over tokens, near-tokens, braces, backslashes and text, two-initialization sequences, and every message length around buffer sizes',
  'Tests run a few fixed formats as subprocess launches, not part of the reliable suite.',
  ['src/logging.c'],
  [('format parsed once into handlers', 'src/logging.c'), ('token table', 'src/logging.c')],
  'logging', technique=DFS, observe=['rcutils_logging_format_message'])

P('C28', 'The console handler writes each message exactly once, complete and unchanged',
  'The console output handler writes, for every message of any length, severity, colour and stream configuration, exactly one line: the optional colour code of the severity, the formatted message, the optional reset code and a newline, to the configured stream and nowhere else, '
  'and nothing for arguments it must reject.',
  ['inputs', 'configurations'],
  'every message and name length across the internal buffer sizes, for all severities, colour modes and streams',
  'Tests compare a few short messages.',
  ['src/logging.c'],
  [('stack buffer growing on demand', 'src/logging.c'), ('colour selection', 'src/logging.c')],
  'logging', technique=DFS, observe=['rcutils_logging_console_output_handler'])

P('C29', 'Logging macro modifiers let exactly the documented calls through',
  'The plain, once, skip-first, expression, function and throttle macros and their combinations log exactly: always, only the first time, every time but the first, when the expression or function is true, and when at least the duration has passed since the last output, for every history of '
  'conditions, clock readings and level changes, and evaluate nothing else with visible effects. A failing clock never suppresses other messages permanently.',
  ['histories'],
  'all histories up to a depth of the inputs each macro depends on (enabled or not, condition, clock step, clock failure), for every severity and both named and unnamed variants',
  'Tests run each macro in one or two fixed loops.',
  ['resource/logging_macros.h.em', 'rcutils/logging.py'],
  [('function-static flags in generated macros', 'resource/logging_macros.h.em')],
  'logging', technique='exhaustive enumeration of call histories, each in a fresh process image, against a reference model', observe=['RCUTILS_LOG_*'])

P('C30', 'Logging initialization honours its environment and is idempotent',
  'For every combination of the documented environment variables, initialization either accepts it and the configured stream, buffering, colour and format are used with the console output handler, the default level and no logger levels, or rejects an invalid value with an invalid-argument error and stays uninitialized. Initializing '
  'again while initialized changes nothing, shutting down when not initialized is harmless, and after a failed or finished lifetime a new initialization works and leaks nothing.',
  ['configurations', 'histories', 'fault_sequences'],
  'all combinations of valid, invalid, empty and unset values of the environment variables, with all initialize/shutdown histories up to a depth and every allocation failure during initialization',
  'Tests cover single variables in separate launches, not part of the reliable suite.',
  ['src/logging.c'],
  [('environment parsing at initialization', 'src/logging.c')],
  'logging', technique=DFS, observe=['rcutils_logging_initialize', 'rcutils_logging_shutdown'])

P('C31', 'A severity string maps to its level in any letter case, and nothing else does',
  'Converting a string to a severity succeeds exactly for the names of the levels in any mixture of cases and gives the matching value. Every other string, including prefixes and extensions of '
  'the names, is rejected with the documented error without touching the output.',
  ['inputs'],
  'every case combination of every name, every prefix and one-character change of every name, and null arguments and failing allocations',
  'Tests try a few names.',
  ['src/logging.c'],
  [('case-folded comparison against the name table', 'src/logging.c')],
  'logging', technique=DFS, observe=['rcutils_logging_severity_level_from_string'])

P('C32', 'Command line option lookup is exact for every argument vector',
  'option_exist is true exactly when some element in the given range equals the option, and get_option returns the element following the first such element in the range, or null when there is no element or no following one. '
  'Neither reads outside the range, for every range including empty ones.',
  ['inputs'],
  'all argument vectors up to a length over equal, prefix, extension and other strings, with every begin and end index',
  'Tests use one or two fixed vectors.',
  ['src/cmdline_parser.c', 'include/rcutils/cmdline_parser.h'],
  [('linear scan', 'src/cmdline_parser.c')],
  'misc', technique=DFS, observe=['rcutils_cli_option_exist', 'rcutils_cli_get_option'])

P('C33', 'Environment variables can be set, read back and unset',
  'After any sequence of set, overwrite and unset operations, reading a variable gives the last value set, or the empty string when it is unset, and no error; other variables are unaffected. Overwriting is '
  'optional as requested and invalid names are rejected.',
  ['histories', 'inputs'],
  'all histories up to a depth over several names and values, including empty values and prefixes, and failing operating system calls',
  'Tests set one variable once.',
  ['src/env.c', 'include/rcutils/env.h', 'include/rcutils/get_env.h'],
  [('setenv/unsetenv wrappers', 'src/env.c')],
  'misc', technique=BFS, observe=['rcutils_get_env', 'rcutils_set_env'])

P('C34', 'A shared library handle is loaded, queried and unloaded consistently',
  'After any sequence of load, load attempts of missing libraries, symbol queries and unload, a handle is usable exactly between a successful load and its unload; has_symbol is true exactly when get_symbol returns a symbol; a failed load leaves the '
  'handle unloaded and nothing allocated. Library names are built as the platform prefix, the name, the debug suffix if requested, and the extension, exactly when the buffer suffices.',
  ['histories', 'inputs', 'fault_sequences'],
  'all histories up to a depth with two libraries, present and missing symbols, failing allocations, and every buffer size for name construction',
  'Tests load one library once.',
  ['src/shared_library.c', 'include/rcutils/shared_library.h'],
  [('handle state', 'src/shared_library.c')],
  'misc', technique=BFS, observe=['rcutils_has_symbol', 'rcutils_get_platform_library_name'])

P('C35', 'Functions documented as thread-safe are free of races and interference',
  'When two or three threads concurrently run functions documented as thread-safe on separate objects (or read-only on the same object), every interleaving gives each thread the same result as running alone, and no two threads access the same memory location '
  'without synchronization when one of them writes.',
  ['schedules'],
  'all interleavings up to a preemption bound of pairs and triples of calls',
  'Tests are single-threaded.',
  ['src/'],
  [('absence of shared mutable state', 'src/')],
  'interleave', technique=ILV, note=ILV_NOTE)

P('C36', 'Case-insensitive comparison orders strings as their lower-case forms',
  'strcasecmp and strncasecmp report, for every pair of strings and every length, zero, negative or positive as the lower-cased strings (limited to the length) compare, and reject null arguments. The alphanumeric test is true exactly for ASCII letters and digits, for '
  'every byte value and independent of the locale.',
  ['inputs'],
  'all pairs of strings up to a length over a small alphabet with every length limit, and all 256 byte values',
  'Tests compare a few words.',
  ['src/strcasecmp.c', 'include/rcutils/isalnum_no_locale.h'],
  [('libc wrapper', 'src/strcasecmp.c')],
  'misc', technique=DFS, observe=['rcutils_strcasecmp', 'rcutils_isalnum_no_locale'])

P('C37', 'Invalid arguments are reported as documented and change nothing',
  'For every public function and every combination of null pointers, uninitialized objects, invalid allocators, zero sizes and wrong indices in place of its arguments, the call returns the documented error code or null value without crashing, leaves all '
  'objects and outputs unchanged, and sets the error message where documented.',
  ['inputs'],
  'every combination of one, two or more invalid arguments over every public function with checked arguments',
  'Tests try single invalid arguments on some functions.',
  ['include/rcutils/', 'src/'],
  [('argument checks at function entry', 'src/')],
  'misc', technique=DFS)

P('C38', 'Process identity, executable name and error text agree with the system',
  'The process id equals the operating system one, also after a fork, and the executable name is the last component of the invocation name as the platform reports it. strerror gives the system text for every error number, cut to the buffer with a terminator, without changing '
  'anything else.',
  ['inputs', 'configurations'],
  'every error number in and around the valid range with every buffer size around the text length, and several invocation names',
  'Tests check one error number and one name.',
  ['src/process.c', 'src/strerror.c'],
  [('thread-safe strerror variant', 'src/strerror.c')],
  'misc', technique=DFS, observe=['rcutils_get_executable_name', 'rcutils_strerror'])

P('C39', 'Sorting orders every array by the given comparison',
  'For every array, element size and comparison function, sorting yields a permutation of the elements in which no element compares greater than a later one. Null arguments are rejected, and an array of no or one '
  'element is left as it is.',
  ['inputs'],
  'all arrays up to a length over a small alphabet, for several element sizes and comparison functions',
  'Tests sort a few arrays.',
  ['src/qsort.c', 'include/rcutils/qsort.h'],
  [('libc qsort wrapper', 'src/qsort.c')],
  'misc', technique=DFS, observe=['rcutils_qsort'])

P('C40', 'The default allocator and reallocation helper obey the allocator contract',
  'After any sequence of allocate, zero-allocate, reallocate and deallocate on the default allocator, every live block keeps its content, zero-allocated blocks are zero, and reallocation preserves the common prefix; an allocator is valid exactly when all its four functions are set. The '
  'reallocate-or-free helper frees the old block exactly once when reallocation fails, and never touches memory with an invalid allocator.',
  ['histories', 'fault_sequences'],
  'all histories up to a depth over two blocks and several sizes with every reallocation failing or not',
  'Tests allocate once with each function.',
  ['src/allocator.c', 'include/rcutils/allocator.h'],
  [('libc wrapper', 'src/allocator.c')],
  'misc', technique=BFS, observe=['rcutils_reallocf', 'rcutils_get_default_allocator'])

P('C41', 'The atomic helpers are indivisible and order what was written before them',
  'However threads interleave their calls, the load, store, exchange, compare-exchange and fetch-add helpers on a boolean, signed, unsigned or pointer-sized register behave as if each call happened at one moment between its start and end, with the full width of '
  'the values; a compare-exchange reports success exactly when the value was the expected one and otherwise hands back the value it saw. A thread that sees a published value also sees everything written before it was published.',
  ['schedules', 'inputs', 'histories'],
  'all interleavings of two and three threads with one or two helper calls over boundary values, and all sequential programs of a depth over more values',
  'Tests call each helper once in a single thread.',
  ['include/rcutils/stdatomic_helper.h'],
  [('wrappers of the compiler atomics', 'include/rcutils/stdatomic_helper.h')],
  'interleave', technique=ILV, note=ILV_NOTE, observe=['rcutils_atomic_compare_exchange_strong', 'rcutils_atomic_load'])

P('C42', 'Conversions between time units are exact',
  'Converting seconds, milliseconds or microseconds to nanoseconds gives exactly the product for every argument whose product fits 64 bits, whatever the integer type and form of the argument expression; converting nanoseconds to a coarser unit truncates toward '
  'zero; and converting there and back gives the same value.',
  ['inputs'],
  'boundary values of every width and of the representable range with every conversion and several argument types and expression forms',
  'Tests convert a few values.',
  ['include/rcutils/time.h'],
  [('conversion macros', 'include/rcutils/time.h')],
  'misc', technique=DFS, observe=['RCUTILS_S_TO_NS', 'RCUTILS_NS_TO_S'])

P('C43', 'Checking and reporting macros act exactly on failure, with the right message',
  'A null or allocator check runs its failure statement exactly when the checked expression is null or the allocator invalid, after setting the given message with file and line where it sets one, and otherwise changes nothing. The reporting macros write or set '
  'exactly the given or formatted text up to the documented length, and the appending ones add and reset the previous error, or behave like the plain ones when there is none.',
  ['inputs', 'histories'],
  'every macro with every kind of argument expression, validity combination, previous error and text length around the limits',
  'Tests use single macros with fixed arguments.',
  ['include/rcutils/error_handling.h', 'include/rcutils/allocator.h'],
  [('checking macros', 'include/rcutils/error_handling.h'), ('allocator checks', 'include/rcutils/allocator.h')],
  'misc', technique=DFS, observe=['RCUTILS_CHECK_FOR_NULL_WITH_MSG', 'RCUTILS_SAFE_FWRITE_TO_STDERR'])

P('C44', 'A fault-injection test makes each fault point fail once, in order',
  'Running code under the fault-injection test macro repeats it until it has passed once without an injected failure: for code with K fault points it runs K+1 times, run i fails exactly the i-th point with the value and message the point names, and afterwards nothing fails. '
  'Code under the no-fault-injection macro, nested or not, never fails, is not counted, and leaves the count as it was.',
  ['histories', 'fault_sequences'],
  'all programs of fault points of every kind and of switched-off sections up to a length, ending or continuing at a failure, from several counts',
  'Tests use the macros to reach error paths of other functions; the macros themselves are not tested.',
  ['include/rcutils/testing/fault_injection.h', 'include/rcutils/macros.h', 'src/testing/fault_injection.c'],
  [('test loop and switched-off sections', 'include/rcutils/testing/fault_injection.h')],
  'misc', technique=DFS, observe=['RCUTILS_FAULT_INJECTION_TEST', 'RCUTILS_NO_FAULT_INJECTION'])

P('C45', 'Container operations documented not to allocate memory never do',
  'Setting, removing, reading and counting entries of an array list; unsetting, finding, reading, iterating and counting entries of a hash map; ending either; and making empty objects or the default allocator request no memory, neither from the given allocator nor '
  'from the C library, whatever the content, the history of the container or the arguments.',
  ['histories', 'inputs'],
  'all operation histories up to a depth and filled containers of many sizes, with the allocator calls around each such operation counted',
  'Tests use the default allocator and do not count its calls.',
  ['src/array_list.c', 'src/hash_map.c', 'include/rcutils/types/'],
  [('in-place operations', 'src/array_list.c'), ('bucket lookups', 'src/hash_map.c')],
  'containers', technique=BFS, observe=['rcutils_hash_map_get', 'rcutils_array_list_remove'])

P('C46', 'Logging and time calls documented not to allocate memory never do',
  'On an initialized logging system, getting and setting the output handler and the default level, asking for levels, logging a line of up to 1023 characters through the console handler, and shutting down request no memory, neither from the given allocator '
  'nor from the C library; nor do reading the clocks and formatting time points.',
  ['histories', 'inputs'],
  'all call histories up to a depth over several loggers and configurations, and every message, format and name length up to the documented limit, with the allocator calls around each call counted',
  'Tests do not count allocator calls.',
  ['src/logging.c', 'src/time.c', 'src/time_unix.c'],
  [('buffers on the stack', 'src/logging.c')],
  'logging', technique=DFS, observe=['rcutils_log', 'rcutils_logging_console_output_handler'])

P('C47', 'File-system functions stay correct while others change the tree',
  'When other processes remove, replace, grow or add files and directories between any two system calls of a size computation, iteration or path query, the function ends without crash or leak and leaves nothing open. A computed size is a sum of sizes the '
  'files had during the call, a failure is reported only if something was removed or replaced, an iteration yields everything that stayed exactly once, and the answer about a single path held at some moment of the call.',
  ['schedules', 'histories'],
  'every placement of one or two (thorough: up to four) of 16 changes before each system call of each function, for every recursion limit and two reading orders',
  'Tests run on a tree nobody else touches.',
  ['src/filesystem.c', 'include/rcutils/filesystem.h'],
  [('stat calls on one path', 'src/filesystem.c'), ('list of directories still to read', 'src/filesystem.c')],
  'files', technique='exhaustive enumeration of all placements of environment changes between the system calls of the real code',
  observe=['rcutils_calculate_directory_size_with_recursion', 'rcutils_get_file_size'])

P('C48', 'A successful call leaves the error state as it was',
  'When a call succeeds, or merely answers a question in the negative, the error state of the calling thread is afterwards what it was before: no error appears, and one that was set earlier stays with its message, file and line. This holds for the '
  'containers, string, path, file-system, time, environment, process, shared library, sorting, allocation and logging functions, in every state of their objects, as long as nothing the call needs (memory, system calls) fails underneath.',
  ['histories', 'inputs'],
  'the explorations of the other properties at smaller bounds, each once with no error set and once with an earlier one, and every function of the argument table with valid arguments',
  'Tests reset the error between calls and rarely look at it after a success.',
  ['src/', 'include/rcutils/error_handling.h'],
  [('errors are set where a call fails, and left for the caller', 'include/rcutils/error_handling.h'),
   ('string map growth', 'src/string_map.c')],
  'containers', also=('strings', 'files', 'misc', 'logging'), technique=DFS + ', with the error state compared around every call',
  observe=['rcutils_error_is_set', 'rcutils_get_error_state'], deadline=(500, 800))

P('C49', 'Objects own what they need and may be moved in memory',
  'Containers, byte, character and string arrays, hash contexts and shared library handles depend on nothing but themselves and their allocator state: between calls the structure may be copied to another address and the original destroyed, and the allocator description, keys, values, texts, paths and formats given to a call may be destroyed when it has returned. '
  'Every later call, finalization included, behaves as if nothing had moved.',
  ['histories'],
  'every history of operations up to the depth bound on each of eight kinds of object x moving or not moving it between any two calls, with everything lent to a call destroyed after it',
  'Tests keep objects, allocators and arguments alive on one stack frame for the whole test.',
  ['src/array_list.c', 'src/hash_map.c', 'src/string_map.c', 'src/string_array.c', 'src/char_array.c', 'src/uint8_array.c', 'src/sha256.c', 'src/shared_library.c'],
  [('the allocator is copied at initialization', 'src/array_list.c'), ('keys, values and paths are copied', 'src/string_map.c')],
  'misc', technique=DFS, observe=['results and contents after each call'])

P('C50', 'Objects can be finalized, used again and kept apart',
  'An object that was finalized holds no memory, describes nothing (its fields are null and zero) and can be initialized again, as good as new; initializing one that is in use is refused where the documentation says so and changes nothing; using one that is not initialized is refused with the documented result; finalizing it is harmless. Two objects of one kind never influence each other, '
  'in whatever order they are initialized, used and finalized.',
  ['histories'],
  'every history up to the depth bound of initialize, finalize and use (valid or not in that state) over two objects of each of eight kinds',
  'Tests run one life cycle of one object, in the right order.',
  ['src/array_list.c', 'src/hash_map.c', 'src/string_map.c', 'src/string_array.c', 'src/char_array.c', 'src/uint8_array.c', 'src/sha256.c', 'src/shared_library.c'],
  [('finalization clears the structure', 'src/hash_map.c'), ('initialization checks', 'src/string_map.c')],
  'misc', technique=DFS, observe=['results and contents after each call', 'blocks held'])

P('C51', 'Callbacks may use the library themselves',
  'Allocator functions, hash and comparison functions, sort comparisons and log output handlers may call the library on other objects (and log under other names): the call in progress and the calls made inside the callback each give exactly the results they give alone.',
  ['histories', 'schedules'],
  'fourteen programs that cover the containers, strings, sorting, logging, files and environment x each callback they reach x each program run inside it; also at two callbacks, at all callbacks, and nested twice',
  'Tests never call the library from a callback.',
  ['src/'],
  [('buffers are local to the call', 'src/logging.c'), ('no state is kept between calls outside objects', 'src/')],
  'misc', technique=DFS + ': a program is interrupted at every callback by every other one', observe=['transcripts of the programs'])

P('C52', 'What fresh memory contains makes no difference',
  'Memory obtained from an allocator and the stack hold arbitrary values: no result, content, return code or effect of a call depends on what was there before. The guarantees of the containers (failing allocations included), strings, paths, files, algorithms, environment, libraries and logging hold whether such memory is filled with zeros or with other values.',
  ['histories', 'inputs'],
  'the explorations of C09, C10, C12-C21, C25-C28, C31-C34, C36-C40 at smaller bounds, with all uninitialized heap and stack memory holding zeros, and again holding 0xFF and 0xFE bytes',
  'Tests see whatever memory happens to hold, which is nearly always zero in a young process.',
  ['src/'],
  [('members are set after allocation', 'src/array_list.c'), ('zero-initialization functions', 'include/rcutils/types.h')],
  'containers_zero', also=['containers_ones'] + [x + y for x in ('strings', 'files', 'misc', 'logging') for y in ('_zero', '_ones')],
  technique=DFS + ', compiled with -ftrivial-auto-var-init=zero and =pattern', observe=['the observations of those properties'],
  deadline=(600, 800))

P('C53', 'Inputs are only read',
  'Whatever is passed to be read (texts, keys, values, names, messages, formats, paths, argument lists, bytes to hash) is never written to, not even temporarily, so that it may lie in read-only memory and be shared; and nothing outside its stated bounds is read.',
  ['inputs', 'histories'],
  'the explorations of C01-C08, C10, C12-C21, C25-C28, C31-C34, C36-C40 at smaller bounds with every input in pages the library can only read, surrounded by memory it may not touch',
  'Tests pass buffers that may be written, and compare results rather than inputs.',
  ['src/', 'include/rcutils/'],
  [('inputs are pointers to const', 'include/rcutils/'), ('names and texts are copied before they are changed', 'src/logging.c')],
  'containers', also=['strings', 'files', 'misc', 'logging'], technique=DFS + ', with the inputs in read-only memory', observe=['faults of the library'],
  deadline=(500, 800))

P('C54', 'Arguments may be texts the library handed out, or one text twice',
  'A key or value of a string map given back to the same map, the message or file of the current error used in the next one, the value of a variable used to set it or another, the path of a loaded library loaded again, and one text (or parts of it) for several arguments of a call: each call does what it would do with a copy of the text made before.',
  ['histories', 'inputs'],
  'every history up to the depth bound of string map, error and environment operations whose arguments are drawn from what the library handed out; every text up to the length bound with every pair of places in it as arguments',
  'Tests use separate literals for every argument.',
  ['src/string_map.c', 'src/error_handling.c', 'src/env.c', 'src/repl_str.c', 'src/filesystem.c', 'src/shared_library.c', 'src/string_array.c'],
  [('the new value is copied before the old one is released', 'src/string_map.c'), ('the error state is built apart and then stored', 'src/error_handling.c')],
  'misc', technique=DFS, observe=['contents and results after each call'])


def main():
    PROPS.sort(key=lambda p: p['id'])
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                     anchors=dict(files=[x for x in p['files']],
                                  mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                                  observe_at=p['observe'], hook_needed=None))
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for p in PROPS:
        if p['harness'] is None:
            na.append(dict(property=p['id'], reason=p['note']))
            continue
        if not all(os.path.exists(os.path.join(VERIF, 'src', s)) for s in HARNESSES[p['harness']]['src']):
            na.append(dict(property=p['id'], reason='no check built yet'))
            continue
        checks.append(dict(property=p['id'],
                           quick_cmd='python3 check.py %s' % p['id'],
                           thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'],
                           technique=p['technique'], level=p['level'], level_note=p['note']))
    m = dict(version=1, setup_cmd='python3 tools/setup.py',
             checks=checks, not_applicable=na,
             notes='Every check builds its harness from /repo\'s working tree (build/, cached by content) and '
                   'explores it exhaustively within the bounds described in DESIGN.md. No hooks in /repo.')
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
