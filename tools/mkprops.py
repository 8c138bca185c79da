#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are kept)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

p("C01", "Queue is a bounded FIFO",
  "Over any sequence of calls a queue behaves as a bounded FIFO list: enqueue succeeds exactly when it is initialised, has fewer than `capacity` elements and both pointers are non-NULL, and then the element is the newest; dequeue and front return byte-for-byte the oldest element, rear the newest, and full/empty agree with the number held. "
  "Every accepted element comes out exactly once, in order, unaltered, however often the storage wraps. "
  "A refused call (full, empty, NULL argument, or an init with zero capacity, zero element size or no storage) returns false and changes neither the contents nor the caller's output.",
  ["histories", "inputs", "configurations"],
  "every finite sequence of init/enqueue/dequeue/front/rear/full/empty on any number of queues, every capacity >= 1, every element size >= 1 and content (storage below 2 GiB)",
  "The tests run one short fill/drain with capacity 5 and elements of 4 bytes; wrap-around, every interleaving of peeks, capacity 1 and large or odd element sizes are histories they do not enumerate.",
  ["Src/queue.c", "Inc/queue.h"],
  [("ring index advance and full/empty guards", "Src/queue.c Queue_enqueue, Queue_dequeue, Queue_front, Queue_rear")],
  [("front, rear, size, capacity", "ring buffer positions", "Inc/queue.h Queue_t")],
  ["return of each Queue_* call", "bytes written to *element"])

p("C02", "Priority queue serves highest priority first, oldest first among equals",
  "Dequeue returns byte-for-byte the oldest of the elements that have the highest priority held, and removes only that one; it returns false exactly when the queue is empty. "
  "Enqueue below capacity always succeeds; at capacity it succeeds exactly when the new priority is strictly higher than the lowest held, and then displaces exactly the oldest of the lowest-priority elements, the new element counting as the newest. "
  "No element is otherwise lost, duplicated, altered or reordered, refused calls change nothing, and init refuses NULL arguments, zero capacity and zero element size.",
  ["histories", "inputs", "configurations"],
  "every finite sequence of init/enqueue/dequeue/empty on any number of priority queues, every 32-bit priority, every capacity >= 1 and element size >= 1",
  "The tests follow a handful of fixed histories; ties, displacement in the middle of the storage followed by further operations, and priorities with the top bit set are combinations they do not reach.",
  ["Src/priority_queue.c", "Inc/priority_queue.h"],
  [("highest/lowest search and shift-down removal", "Src/priority_queue.c PriorityQueue_enqueue, PriorityQueue_dequeue")],
  [("priority_array/buffer/size", "held items in arrival order", "Inc/priority_queue.h PriorityQueue_t")],
  ["return of each PriorityQueue_* call", "bytes written to *element"])

p("C03", "Map returns the last value stored under a key",
  "getValue succeeds exactly for the keys inserted since init and returns byte-for-byte the value most recently stored under that key, keys being compared over all key_size bytes (embedded zero bytes included). "
  "insert of a new key succeeds exactly while fewer than max_map_size distinct keys are held; insert of a key already held always succeeds, full or not, replaces only that key's value and uses no further room. "
  "A refused call (unknown key, full map, NULL map, or an init with a zero size or NULL storage) changes neither the map nor the caller's output.",
  ["histories", "inputs", "configurations"],
  "every finite sequence of init/insert/getValue on any number of maps, every key_size, value_size and max_map_size >= 1, all key and value bytes",
  "The tests insert a few string keys of one size; updates at capacity, keys differing only in their last or in bytes after a zero, one-byte and long keys, and value/key size mismatches are not sampled.",
  ["Src/map.c", "Inc/map.h"],
  [("linear lookup by memcmp over key_size, insert-or-update", "Src/map.c GetIndex, Map_insert, Map_getValue")],
  [("keys/values/current_size", "stored associations", "Inc/map.h Map_t")],
  ["return of Map_* calls", "bytes written to *value"])

p("C04", "Scheduler pass runs each live task exactly once, in slot order",
  "addTask stores the task, with its active flag, in the first slot that holds no function and returns true, or returns false and changes nothing when every slot is taken; init frees all slots it is given, and slots beyond the given count are never touched. "
  "run calls, in slot order and exactly once per pass, every slot that holds a function and is active when the pass reaches it, and nothing else. "
  "This also holds when tasks add, remove, activate or deactivate tasks of the same table or start a nested pass while the pass is in progress.",
  ["histories", "programs", "configurations"],
  "every table size, every sequence of init/addTask/run and of direct edits of the caller-owned table (function/active) between or inside task calls, including nested passes and several tables",
  "The tests call run on fixed tables whose tasks do nothing to the scheduler; re-entrant changes of the table, reuse of freed slots and partially active tables are not explored.",
  ["Src/scheduler.c", "Inc/scheduler.h"],
  [("first free slot search, in-order dispatch on the live table", "Src/scheduler.c Scheduler_addTask, Scheduler_run")],
  [("tasks[]", "slot table owned by the caller", "Inc/scheduler.h SchedulerTask_t")],
  ["order of task invocations", "contents of the task table after each call"])

p("C05", "JSON builder appends exactly or leaves the buffer unchanged",
  "startString, addData and endString succeed exactly when the text they produce, with its terminating NUL, fits in buffer_size; the buffer then holds exactly \"{\" (start), the previous text plus \"key\":\"value\" in double quotes, preceded by a comma if and only if the previous text ends in a double quote (add), or the previous text plus \"}\" (end), NUL-terminated. "
  "On failure the text in the buffer is exactly what it was, so a caller may go on after a refused pair. "
  "Hence start, any number of accepted or refused adds, and end yield a well-formed object with precisely the accepted pairs in order.",
  ["histories", "inputs", "configurations"],
  "every sequence of builder calls, every buffer size (in particular one byte around each exact fit), every key and value string including empty ones",
  "The tests make one call of each function on separate buffers; sequences, exact-fit sizes, and continuing after a refused pair are not tested.",
  ["Src/json.c", "Inc/json.h"],
  [("size check before append and separator decision", "Src/json.c Json_startString, Json_addData, Json_endString")],
  [("buffer text", "the document built so far", "caller's buffer")],
  ["return of Json_* calls", "buffer contents up to the NUL"])

p("C06", "JSON lookup returns the value of exactly the named key",
  "On a flat JSON object (members separated by commas, optional white space between tokens, string keys and string values without escapes, other members possibly numbers/true/false/null), findByKey succeeds exactly when some member has precisely that key and the first such member's value is a string that fits, with its NUL, in max_value_size; it then returns that value. "
  "Keys that are prefixes, suffixes or substrings of other keys, or that occur inside values, are never confused with it, and text after the terminating NUL or beyond buffer_size is not part of the document. "
  "In particular every pair written by the builder is found again with its value unchanged.",
  ["inputs", "histories"],
  "every flat document (built by the builder or written by hand with white space and non-string members), every key present or absent, empty keys and values, every max_value_size around the fit, documents cut short by buffer_size",
  "The tests look up three keys in two documents, ordered so that the first textual occurrence is the right one; related keys, keys inside values and stale bytes after the NUL are not tried.",
  ["Src/json.c", "Inc/json.h"],
  [("token scan for key, copy of the value up to max_value_size", "Src/json.c Json_findByKey")],
  [], ["return of Json_findByKey", "value written"])

p("C07", "Base64 encoding is the RFC 4648 text, or refused when it does not fit",
  "For every byte string, Base64_encode returns 0 exactly when the 4*ceil(n/3) characters and the terminating NUL fit in max_result_length, and the result is then the RFC 4648 standard-alphabet encoding with '=' padding, NUL-terminated. "
  "Otherwise it returns a non-zero value, and in no case is a byte at or past max_result_length written.",
  ["inputs", "configurations"],
  "every data length including 0, all byte values, every max_result_length from 0 to beyond the need",
  "The tests encode a few ASCII strings with a roomy buffer and one too-small one; bytes with the high bit, each residue modulo 3 and the exact-fit sizes are not sampled.",
  ["Src/base64.c", "Inc/base64.h"],
  [("3-byte to 4-character packing and capacity checks", "Src/base64.c Base64_encode")],
  [], ["return value", "result buffer"])

p("C08", "Base64 decoding inverts encoding within the given room",
  "For every non-empty byte string, decoding its Base64 text - with '=' padding or with the padding left off, and with '-' and '_' accepted for '+' and '/' - returns 0 exactly when the decoded bytes fit in max_out_len, and then yields exactly the original bytes. "
  "Empty input is refused, and for any input whatever no byte at or past max_out_len is written and no byte outside the in_len input bytes is read.",
  ["inputs", "configurations"],
  "every byte string, padded/unpadded and standard/URL-safe spelling, every max_out_len around the fit; for containment, arbitrary characters of any length",
  "The tests decode a few ASCII texts; single-quantum texts, unpadded texts, binary bytes and exact-fit output sizes are not sampled.",
  ["Src/base64.c", "Inc/base64.h"],
  [("index table and 4-to-3 unpacking with pad handling", "Src/base64.c Base64_decode")],
  [], ["return value", "out buffer"])

p("C09", "Every sort returns an ordered permutation of its input",
  "After BubbleSort, HeapSort, InsertionSort or SelectionSort returns, the array is in non-decreasing order under the given comparator and is a permutation of the input elements, each element's bytes intact. "
  "This holds for any number of elements (0 and 1 included), any element size (up to 64 bytes for insertion sort), any duplicates and any comparator that is a strict weak order in the 'first greater than second' sense, and the call terminates.",
  ["inputs", "programs"],
  "all element counts, element sizes, arrangements and strict-weak-order comparators",
  "Each sort is tested on one or two arrays; the arrangement space (duplicates, reversed, already sorted, odd element sizes) is not sampled and permutation of payload bytes is not checked.",
  ["Src/sort/bubble_sort.c", "Src/sort/heap_sort.c", "Src/sort/insertion_sort.c", "Src/sort/selection_sort.c", "Src/utils.c"],
  [("swap-based and shift-based sorting loops", "Src/sort/*.c"), ("Utils_swapElements", "Src/utils.c")],
  [], ["array contents on return"])

p("C10", "Sorts hand the comparator only elements of the array; stable ones stay stable",
  "Every call a sort makes to the comparator passes two elements of the array being sorted (or intact copies of them), never memory outside the array, for every element count including 0, 1 and 2. "
  "BubbleSort and InsertionSort keep elements that compare equal in their original order.",
  ["inputs", "programs"],
  "all element counts, element sizes and arrangements, with a comparator that records its arguments; equal keys with distinct payloads",
  "The tests' comparators cannot see that they are handed out-of-range elements, and sort plain integers whose equal values are indistinguishable.",
  ["Src/sort/bubble_sort.c", "Src/sort/heap_sort.c", "Src/sort/insertion_sort.c", "Src/sort/selection_sort.c"],
  [("index bounds tested before comparing", "Src/sort/heap_sort.c Heapify, Src/sort/insertion_sort.c"), ("strict comparison before moving", "Src/sort/bubble_sort.c, Src/sort/insertion_sort.c")],
  [], ["arguments of each comparator call", "order of equal elements on return"])

p("C11", "Each CRC variant equals its published parametric definition",
  "For every message, each of the 45 CRC-8/16/32 variant functions called once as a final operation returns the CRC that its published parameters (polynomial, initial value, input/output reflection, final XOR) define by polynomial division of the whole message. "
  "This includes the empty message and messages of any length.",
  ["inputs"],
  "all 45 variants, every message of any length and content",
  "Each variant is tested on one 9-byte message, which touches at most 9 of its 256 table entries; the other entries and longer or empty messages are never read.",
  ["Src/crc/crc8_variants", "Src/crc/crc16_variants", "Src/crc/crc32_variants", "Src/crc/crc8_base.c", "Src/crc/crc16_base.c", "Src/crc/crc32_base.c"],
  [("256-entry tables and the shared table-driven update", "Src/crc/*_base.c and the crc_table in each variant")],
  [], ["return value of each Crc*_ function"])

p("C12", "CRC of chunks equals CRC of the whole; base and table functions agree",
  "For every variant and every way of cutting a message into consecutive chunks (empty ones included), passing each intermediate result as last_crc_ptr and marking only the last call as final yields the CRC of the whole message. "
  "The table calculators yield the division table of every polynomial, and Crc8Base/Crc16Base/Crc32Base with such a table yield the CRC for every combination of initial value, reflection, final-XOR value and flag.",
  ["inputs", "histories", "configurations"],
  "all 45 variants, all messages, all cuts into chunks; all polynomials and parameter sets for the base functions",
  "The tests split one message once per variant at best and use the base functions with the variants' own parameters only.",
  ["Src/crc/crc8_base.c", "Src/crc/crc16_base.c", "Src/crc/crc32_base.c", "Src/crc/crc8_variants", "Src/crc/crc16_variants", "Src/crc/crc32_variants"],
  [("raw register handed on through last_crc_ptr, reflection/XOR only on the final call", "each variant"), ("tableCalculator", "Src/crc/*_base.c")],
  [("last_crc", "register carried between chunks", "caller")],
  ["return values of chunk calls", "tables", "Base results"])

p("C13", "ChaCha20 output is the RFC 8439 keystream XOR the message",
  "For every key, nonce, initial counter and message, byte i of Chacha20_crypt's result is byte i of the message XORed with byte i mod 64 of the RFC 8439 ChaCha20 block for block counter inc + i/64 modulo 2^32. "
  "Exactly plaintext_len bytes are produced, for every length including 0 and non-multiples of 64.",
  ["inputs"],
  "all keys, nonces, counters (wrap-around included), messages and lengths",
  "The tests compare a few RFC vectors of one or two blocks with fixed key, nonce and small counters; lengths around block boundaries, many blocks and counter wrap are not sampled.",
  ["Src/crypto/chacha20.c", "Src/bit_manipulation.c", "Src/utils.c"],
  [("quarter rounds, feed-forward, little-endian (de)serialisation, counter per block", "Src/crypto/chacha20.c QuarterRound, Block, Chacha20_crypt"), ("BitManipulation_rotl32", "Src/bit_manipulation.c")],
  [], ["result buffer"])

p("C14", "ChaCha20 is its own inverse and can be resumed at any block",
  "Encrypting twice with the same key, nonce and counter restores the message, for every length and also when the result buffer is the message buffer. "
  "Encrypting a message in pieces cut at multiples of 64 bytes, each with the counter advanced by the blocks before it (modulo 2^32), gives the same bytes as one call; key, nonce and a distinct input buffer are left unmodified, and nothing past plaintext_len is written.",
  ["inputs", "histories"],
  "all keys, nonces, counters, messages, block-aligned cuts, separate and in-place buffers",
  "The tests decrypt one vector; piecewise use, in-place use and counters near the wrap are not exercised.",
  ["Src/crypto/chacha20.c"],
  [("per-block keystream depends only on key, nonce and inc + block index", "Src/crypto/chacha20.c Chacha20_crypt")],
  [("stream position", "blocks produced so far", "caller's inc")],
  ["result buffers of related calls"])

p("C15", "Caesar and Vernam ciphers round-trip and keep text shape",
  "For every NUL-terminated message and every shift (0..255) resp. every key of the same length, decrypting the encrypted message gives the message back; encryption maps each letter to a letter of the same case, shifted by the amount modulo 26 (for Vernam, the alphabet position of the key letter), and leaves every other byte and the length alone. "
  "The Vernam functions return false and leave the message untouched exactly when the key length differs from the message length.",
  ["inputs"],
  "all messages over all non-zero byte values, all 256 shifts, all key bytes (letters of both cases, digits, symbols, bytes >= 128, zero)",
  "The tests use a few messages, shifts and keys; wrap-around below 'A', shifts of 26 and above, and key bytes that are not letters are only sampled in one direction.",
  ["Src/crypto/caesar_cipher.c", "Src/crypto/vernam_cipher.c", "Src/utils.c"],
  [("modular shift per letter", "Src/crypto/caesar_cipher.c, Src/crypto/vernam_cipher.c"), ("Utils_isUpperChar/isLowerChar/isAlpha", "Src/utils.c")],
  [], ["message contents", "return of VernamCipher_*"])

p("C16", "Decimal parsing accepts exactly the 32-bit numbers",
  "Utils_stringToUint32 on 1 to 255 characters succeeds exactly when there are at most ten, all are digits '0'-'9' and the number is at most 4294967295, and then yields that number; the characters need not be NUL-terminated and none past the given length is looked at. "
  "Utils_quickUint32Pow10 yields 10^e for e in 0..9 and refuses larger exponents; the upper/lower/alpha classifiers agree with ASCII for all 256 byte values.",
  ["inputs"],
  "all strings of 1..255 arbitrary bytes, all exponents 0..255, all 256 characters",
  "The tests parse about ten strings; the boundary at 4294967295, each bad character at each position and lengths above ten are a space they only touch.",
  ["Src/utils.c", "Inc/utils.h"],
  [("digit check, power table and overflow test", "Src/utils.c Utils_stringToUint32, Utils_quickUint32Pow10"), ("classifiers", "Src/utils.c Utils_isUpperChar, Utils_isLowerChar, Utils_isAlpha")],
  [], ["return values", "*integer, *result"])

p("C17", "Serialisation has the stated byte order and round-trips",
  "serialize8/16/24/32 BE and LE write exactly the 1/2/3/4 low-order bytes of the value, most resp. least significant first, and the matching deserialize functions return the value those bytes denote, so that each inverts the other for every value. "
  "The BE blob functions copy `size` bytes in order and the LE blob functions copy them reversed, for every size including 0; swapElements exchanges exactly the `size` bytes of two elements and leaves an element swapped with itself as it is.",
  ["inputs"],
  "all 8/16/24/32-bit values and byte patterns, all blob and element sizes and contents",
  "The tests use one value per function; byte values with the high bit in each position and other blob sizes are not sampled.",
  ["Src/utils.c", "Inc/utils.h"],
  [("shift-and-mask (de)serialisers, blob loops, swap loop", "Src/utils.c")],
  [], ["bytes written", "values returned"])

p("C18", "Bit operations match their definitions for every value and position",
  "For every 32-bit value and n in 0..31, bitSet, setBit, clearBit and toggleBit succeed and report or change exactly bit n; for n above 31 they return false and leave the output alone. "
  "reflect reverses the n_bits lowest bits (n_bits 0..32) and returns zero in the others, and rotl32 rotates left by n for every n in 0..32.",
  ["inputs"],
  "all 32-bit values, all n in 0..255 (reflect and rotl32: 0..32)",
  "The tests try a few values and positions; positions 31 and above with all outputs, reflect widths other than 8/16/32 and rotations by 0 and 32 are not covered.",
  ["Src/bit_manipulation.c", "Inc/bit_manipulation.h"],
  [("masks and range guard", "Src/bit_manipulation.c")],
  [], ["return values", "*bit_set, *out"])

p("C19", "Calls touch only the memory the caller handed over",
  "Every public function, given valid arguments, reads and writes only the memory its arguments designate: never a byte before or after a storage area, element, string (with its NUL), output area or table, never an output byte past the stated maximum size, and never a byte of an input that is passed as const. "
  "This holds for every size, including the smallest, on success and on failure.",
  ["inputs", "histories", "configurations"],
  "all public functions, all buffer sizes and placements (an area may end or begin at an unmapped page), success and failure paths",
  "The tests run on roomy stack buffers and look only at the bytes they expect, so one byte too many, read or written, is invisible to them.",
  ["Src", "Inc"],
  [("bounds and size checks in every module", "Src/*.c, Src/sort, Src/crypto, Src/crc")],
  [], ["faults on guard pages", "bytes around and inside every area before and after each call"])

p("C20", "Independent objects and calls never influence one another",
  "The outcome of a call depends only on its arguments and on the state of the object it is given: operations on different queues, priority queues, maps, task tables, buffers or streams may be interleaved in any order without changing any result. "
  "The same holds when a call is made from inside a comparator or task that the library is running, or interrupts another call at any machine instruction, as long as the two work on disjoint data.",
  ["schedules", "histories", "programs"],
  "all interleavings of operations on disjoint objects, all nestings from callbacks, and preemption of any operation at any instruction boundary by another complete operation",
  "The tests run one object at a time and never nest or preempt; hidden static buffers or caches give right answers in every such run.",
  ["Src", "Inc"],
  [("no state outside the caller's objects (automatic or const data only)", "Src/**/*.c, in particular Src/sort/insertion_sort.c")],
  [], ["results of interleaved, nested and preempting calls"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
