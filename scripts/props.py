#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 scripts/props.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech],
        observe_at=list(observe), hook_needed=hook)))

LIM = ["common/limiter/%s" % f for f in ("fixed_window/fixed_window.go","sliding_window/sliding_window.go","sliding_log/sliding_log.go","token_bucket/token_bucket.go","leaky_bucket/leaky_bucket_limiter.go")]
NOT = "No test exists for this code. "

prop("C01","Rate limiter calls are atomic and never wedge the limiter",
 "For every rate limiter (fixed window, sliding window, sliding log, token bucket, leaky bucket), concurrent TryAcquire calls on one limiter behave as if made one at a time: the decision and the accounting of one call happen in a single exclusive critical section of that limiter. No call returns while leaving later callers blocked.",
 ["schedules"],"every interleaving of any number of goroutines calling TryAcquire on one limiter",
 "The tests call TryAcquire from one goroutine; races need two calls inside the decision at once.",
 LIM,[("mutex held from before the first to after the last access of mutable state","TryAcquire in each limiter"),("deferred unlock","TryAcquire in each limiter")],
 [("counter/counters/currentTokens/currentLevel/lastTime","mutable accounting state","struct of each limiter")],["TryAcquire"])
prop("C02","Rate limiters admit exactly while there is capacity, one unit per call",
 "TryAcquire of every limiter admits a call if and only if the usage currently counted is below the configured limit (token bucket: if and only if at least one token is left; sliding log: if and only if every configured strategy has room, otherwise it returns the violation error carrying the limit and window of a strategy that is full). An admitted call is charged exactly one unit, to the window of the current instant; a rejected call is charged nothing.",
 ["inputs","histories"],"all limits (including zero and negative), windows, rates and all histories of calls and clock readings",
 "The two existing tests use one limit (100, 60), one window and a single burst; boundaries, rejected-call accounting, three of the five limiters and multi-strategy limits are never exercised.",
 LIM,[("compare-then-increment","TryAcquire in each limiter"),("per-strategy count over retained small windows","sliding_log TryAcquire")],
 [],["TryAcquire return value over time"])
prop("C03","Limiter capacity comes back only through elapsed time, in the right amount",
 "The fixed window is reset only once the window has elapsed since it was opened, and then always; the token bucket gains (and the leaky bucket drains) whole elapsed seconds times the rate, never above capacity (below zero), only when at least one second elapsed and then always, and elapsed time already credited is not credited again. Sliding limiters count exactly the calls admitted in the small windows covering the configured window that ends with the current small window, and never forget a small window that any configured strategy still has to count.",
 ["inputs","histories"],"all configurations and all sequences of clock readings",
 "Needs specific gaps between calls (idle periods, several windows); tests see at most one refill of two of the limiters.",
 LIM,[("elapsed-time guard, refill formula, clamp, time stamp update","TryAcquire in token_bucket, leaky_bucket, fixed_window"),("start of window computation and eviction","TryAcquire in sliding_window, sliding_log")],
 [("lastTime","instant up to which elapsed time has been credited","limiter structs")],["TryAcquire"])
prop("C04","Sliding limiter configuration is validated and owned by the limiter",
 "The sliding window and sliding log constructors return an error, and no limiter, for a window or small window that is not positive, for a window that is not a multiple of the small window, for an empty strategy list, and for strategies whose limit does not shrink strictly with their window. A limiter they do return never divides by zero, and building or using it never modifies the strategy objects the caller passed, so strategies can be shared between limiters.",
 ["configurations"],"all constructor arguments, including shared strategy objects, unsorted strategies, zero and negative durations",
 "Neither constructor is ever called by a test.",
 ["common/limiter/sliding_log/sliding_log.go","common/limiter/sliding_window/sliding_window.go"],
 [("argument checks and strategy copy","NewSlidingLogLimiter"),("argument checks","NewSlidingWindowLimiter")],[],["constructor results; TryAcquire of a second limiter sharing a strategy"])

DQ="common/timer/delayqueue/delayqueue.go"; TW=["common/timer/timingwheel/%s.go"%f for f in("timing_wheel","bucket","delayqueue")]
prop("C05","Delay queues deliver only due elements, earliest first, each exactly once",
 "An element leaves a delay queue (Take, Channel, Pop, and the bucket queue of the timing wheel) only after its delay has passed, as the earliest-expiring element, and what is returned is that element's value, removed exactly once. Push records the value with an expiration of now plus the delay; an element is never removed without being delivered, and a failed Take, Pop or Peek removes nothing.",
 ["inputs","histories","schedules"],"all delays (including zero and negative), all interleavings of Push, Take, Pop, Peek",
 NOT+"Early delivery needs particular clock readings, and mix-ups need several queued elements.",
 [DQ,TW[2]],[("due check before removal","Take, Pop, take"),("comparator by expiration","New, newDelayQueue")],
 [("heap of entries","pending elements ordered by expiration","DelayQueue.h, delayQueue.h")],["Take, Pop, Peek, Channel"])
prop("C06","A waiting delay-queue consumer is always woken and producers never block",
 "A consumer waiting on a delay queue waits no longer than until the head element's expiration (exactly the remaining time, without spinning), and an element pushed in front of the current head, or into an empty queue, wakes every waiting consumer, whatever the interleaving and however many consumers wait. Push never blocks waiting for a consumer, even after a waiting consumer was cancelled, and no blocking operation is performed while the queue is locked.",
 ["schedules","histories"],"all interleavings of Push with any number of waiting or cancelled consumers",
 NOT+"Lost wake-ups and stuck producers need a push between a consumer's check and its wait, or after a cancellation.",
 [DQ,TW[2]],[("wake-up channel read under the lock together with the emptiness check","Take, take"),("wake-up when the new element becomes the head","Push, push")],
 [("wakeup","wake-up channel","queue structs")],["Take returning; Push returning"])
prop("C07","Timer state is only touched under its lock or atomically, locks are released",
 "In the delay queues and the timing wheel, every access to shared mutable state (pending heap, wake-up channel, bucket lists, timer links, bucket expirations, wheel clock, overflow wheel pointer) happens under the owning object's lock or through atomic operations, consistently for all accesses. Every lock is released on every return, never taken twice by one goroutine, and locks of different kinds are always taken in one order.",
 ["schedules"],"every interleaving of goroutines using one queue or wheel",
 NOT+"Data races and lock-order inversions show only under particular schedules.",
 [DQ]+TW,[("mutex of queue and bucket; sync/atomic for expiration, currentTime, overflowWheel, Timer.b","all methods")],[],["race detector reports, hangs"])
prop("C08","The timing wheel never loses or duplicates a scheduled task",
 "Every timer given to the wheel (AfterFunc for any delay including zero and negative, each occurrence of ScheduleFunc) is either placed in exactly one slot that is queued for expiry, or run at once in its own goroutine, never both and never neither. When a slot expires, each timer in it is handed on exactly once (run, or moved to a finer wheel), and the slot is left empty and reusable; a ScheduleFunc task runs once per occurrence and keeps being rescheduled from its last occurrence until the scheduler returns the zero time.",
 ["inputs","histories","schedules"],"all delays, tick sizes and wheel sizes, all sequences of expiries",
 NOT+"Loss needs particular delays relative to tick and wheel size, or slot reuse after expiry.",
 TW[:2],[("add/addOrRun result handling","timing_wheel.go"),("flush","bucket.go"),("bucket (re)queueing on expiration change","add")],[],["task invocations"])
prop("C09","Stopping a timer is truthful and keeps slot bookkeeping consistent",
 "Stop reports true if and only if it removed the timer from the slot it was waiting in, so that the task is then not run; a second Stop, or a Stop of a timer that is in no slot, reports false and changes nothing. A timer's record of its slot and list position is set when it enters a slot, cleared when it leaves, and removal acts only on the slot that currently owns the timer.",
 ["histories","schedules"],"all sequences of scheduling, expiry and Stop calls",
 NOT+"Needs Stop racing with slot expiry or repeated Stop.",
 [TW[1]],[("owner check under the bucket lock","bucket.remove"),("retry until detached","Timer.Stop")],
 [("b, elem","slot that owns the timer and its list element","Timer")],["Stop result and whether the task runs"])
prop("C10","Timers are placed in the slot matching their expiration",
 "A timer due within one tick is run at once; one due within the wheel's span goes to the slot of its expiration tick (tick number modulo wheel size) and that slot is due at that tick's start; later ones go to an overflow wheel whose tick is this wheel's span, with the same wheel size and queue. The wheel clock only moves forward, in whole ticks, advances to a slot's due time before the slot is processed, and carries every overflow wheel along.",
 ["inputs","configurations","histories"],"all ticks, wheel sizes, start times and expirations",
 NOT+"Misplacement shows only for particular residues of expiration, tick and wheel size or after overflow.",
 [TW[0]],[("placement arithmetic","add"),("clock advance","advance, truncate"),("overflow wheel creation","setOverflowWheel, newTimingWheel")],[],["time at which tasks run"])
prop("C11","Cancelling the context stops queues and wheel cleanly",
 "When its context is cancelled, a waiting Take returns false with the zero value, a channel obtained from Channel is closed, the timing wheel's Run returns without panicking, and every goroutine started for them ends even if nobody reads the channel any more. Cancellation never removes a pending element that was not yet due.",
 ["schedules","fault_sequences"],"cancellation at any point relative to expiries, pushes and reads",
 NOT+"Shutdown races need cancellation between a delivery and its read, or a closed channel selected before the context.",
 [DQ,TW[0],TW[2]],[("ctx.Done cases of every wait","Take, take, Channel, channel, Run")],[],["goroutine count, panics, channel close"])

C="common/container/"
prop("C12","The linked list stays a consistent ring and honours element ownership",
 "After any sequence of operations the list (including the zero value, documented as ready to use) is a consistent doubly linked ring: forward and backward traversal visit the same elements in opposite orders, Len equals the number of elements, and each operation inserts, removes or moves exactly the element it names to exactly the position it names. An operation given an element or mark that is not in this list changes nothing, and bulk pushes copy all elements in order even when a list is pushed onto itself.",
 ["histories","inputs"],"all operation sequences over any number of lists, including foreign and removed elements and the zero value",
 NOT+"Link corruption shows only for particular positions (neighbours, sentinel) and for foreign or removed elements.",
 [C+"list/list.go"],[("insert/remove/move link updates","list.go"),("ownership guards","Remove, Insert*, Move*")],[("root, len","sentinel and element count","List")],["Front/Back/Next/Prev/Len"])
prop("C13","Heaps always yield a minimum element and keep every element",
 "For every heap (binary, n-ary for every n, keyed, removable-entry, and the priority queue built on them) and every sequence of operations, Pop and Peek return a least element under the given ordering, and no operation loses, duplicates or alters elements other than the one it names. This holds for any comparison function that is a strict weak order, including equal elements, and any branching factor of at least two.",
 ["inputs","histories","configurations"],"all element sequences, comparison functions, arities and mixed operation histories",
 NOT+"A broken sift step shows only for particular shapes and sizes.",
 [C+"heap/heap.go",C+"heap/heapn.go",C+"meap/maep.go",C+"reap/reap.go",C+"pqueue/pqueue.go"],
 [("sift up / sift down","up, down in each heap"),("restore after every mutation","Push, Pop, Remove, Fix, SetValue, init")],[("h","heap array","each heap")],["order of Pop results"])
prop("C14","Keyed and removable heaps always find their elements",
 "In the keyed heap, a key is contained exactly while an element with that key is in the heap, Get returns the value last pushed for it, Push of an existing key replaces its value without adding an element, and Remove of an absent key does nothing. In the removable heap, an entry handle always designates its own element wherever the heap moved it, Remove and SetValue act on that element, and after it left the heap by any route they return false and change nothing.",
 ["histories","inputs"],"all operation histories",
 NOT+"A stale position shows only after particular swaps.",
 [C+"meap/maep.go",C+"reap/reap.go"],[("position map / entry index maintained by push, swap, pop","meap, reap")],[("m / index","key to position, entry position","Meap, Entry")],["Get, Contains, Remove, SetValue"])
RB=[C+"ringbuffer/%s"%f for f in("fix/fix.go","round/roud.go","unbounded/unbounded.go")]
prop("C15","Ring buffers are exact FIFO queues within their capacity",
 "In all three ring buffers elements come out in the order they went in, whatever mix of single and bulk operations is used: a push never overwrites an unread element (fixed-size buffers panic, bulk push takes only what fits, the growing buffer grows), a pop never returns an element that was not pushed or was already popped, and bulk pops return at most the stored elements. Len, Avail, Empty and Full agree with the number of stored elements, growth preserves contents and order, and no operation on a valid buffer, however small its initial size, fails otherwise than by the documented panics on empty, full or oversized buffers.",
 ["inputs","histories","configurations"],"all capacities (including zero for the growing buffer and oversized ones), element counts and operation histories, at every wrap position",
 NOT+"Faults appear only at particular wrap positions, sizes and batch lengths.",
 RB,[("index reduction modulo size / mask","Push, Pop, MPush, MPop, MPopCopy, Grow"),("bounds by Len and Avail","same")],[("in, out","total elements written and read","Ring")],["popped values, Len"])
prop("C16","Fixed-size ring buffers are safe for one producer and one consumer",
 "With one goroutine pushing and one popping concurrently (without Reset), as documented, the fixed and power-of-two ring buffers never let the consumer see a slot before its element is fully written nor the producer reuse a slot before it was read. Each side publishes its progress only after its slot accesses are done, modifies only its own counter, and the counters are exchanged through atomic operations.",
 ["schedules"],"every interleaving of one producer and one consumer, and every memory order the Go memory model allows",
 NOT+"Publication-order faults need the other side to run between two adjacent statements.",
 RB[:2],[("publish after data access, atomic counters","Push, MPush, Pop, MPop, MPopCopy")],[],["popped values, race detector"])
prop("C17","Stack, deque, set and priority queue keep their discipline",
 "The stack is last-in first-out with Peek showing what Pop would return; the deque pushes and pops at the end each method names; the set contains exactly the elements added and not removed since; the priority queue and all of these report Len and Empty of what they hold. Observers never modify.",
 ["histories"],"all operation histories and element types",
 NOT+"Needs mixed histories of at least two elements.",
 [C+"stack/stack.go",C+"deque/deque.go",C+"set/set.go",C+"pqueue/pqueue.go"],[("delegation to list, map and heap","each method")],[],["results of every method"])
prop("C18","The Bloom filter never gives a false negative",
 "Once an element (hash, bytes or string) was added and the filter not cleared, asking for it in the same form, or the string and its bytes interchangeably, answers true, however many other elements are added and for every capacity and rate the constructor accepts. Clear forgets everything; queries change nothing; all bit positions stay inside the bit array.",
 ["inputs","histories"],"all elements, capacities, false-positive rates and operation histories",
 NOT+"A false negative depends on particular bit positions and seeds.",
 ["common/filter/bloom/bloom.go"],[("shared position function and seeds; bits only ever set by Add","Add, Contains, pos, hash, New")],[("bits, seeds, bitCnt","bit array and fixed hash seeds","Filter")],["Contains*"])
prop("C19","Hash sums depend only on the hasher and the bytes",
 "For one hasher, equal byte contents always give equal sums, whether passed as bytes or as a string and whatever was hashed before; all bytes of the input take part. The seed is fixed when the hasher is made.",
 ["inputs","histories"],"all inputs and all earlier uses of the hasher",
 "The existing tests hash one string twice and only log the results; they assert nothing.",
 ["common/hash/hash.go"],[("reset before write, fixed seed","Sum64, New")],[],["Sum64, Sum64String"])
prop("C20","Integer helpers are exact for every input",
 "Max, Min and Abs return the larger, smaller and absolute value for every ordering of their arguments; IsPowOf2 is true exactly for powers of two, RoundUpPowOf2 and RoundDownPowOf2 return the nearest power of two not below and not above a positive argument, and FindLastBitSet the one-based position of the highest set bit (zero for zero). Split returns the ceiling of n/m and the size of the last part, between one and the part size.",
 ["inputs"],"all arguments in the stated domains and all instantiating types",
 NOT+"Exactness at boundaries (zero, one, powers of two and neighbours) is a statement about every value.",
 ["common/math/math.go"],[("the functions themselves","math.go")],[],["return values"])

G=["gorm_tools/gorm.go","gorm_tools/update.go"]
prop("C21","Data values reach SQL only as bound parameters",
 "No id, record value, update value or condition value given to the database helpers is ever made part of SQL text: values travel only as bind arguments. Only table names and column names, which the caller controls, are spliced into statements.",
 ["inputs"],"all values, including strings with quotes and SQL syntax",
 NOT+"Needs hostile values and a database; no input sample shows absence of a path.",
 G,[("placeholders and argument lists","all helpers")],[],["SQL text sent to the driver"])
prop("C22","Database failures are always reported",
 "A database helper returns nil only if every statement it issued reported no error, and inserting a non-empty batch also returns an error if no row was affected or a record could not be converted. The first failing chunk of a split operation ends it with that error.",
 ["fault_sequences"],"failure of any statement of any helper, at any chunk",
 NOT+"Needs a database failing at a chosen statement.",
 G,[("error checks after every Create/Delete/Updates/Exec","all helpers")],[],["returned error"])
prop("C23","Batch statements cover every record and field, values in their own places",
 "A batch insert or update sends every given record, each exactly once, in chunks that always make progress; every value is bound at the placeholder of its own column and its own id. No field of any record is silently dropped: a field set that differs between updates is an error, and an insert lists every column occurring in any record.",
 ["inputs"],"all record counts, heterogeneous field sets, and every map iteration order",
 NOT+"Mis-pairing depends on map iteration order, heterogeneous records and counts beyond one chunk.",
 G,[("column collection, per-record value order, chunk loops","BatchInsertTableRecords, SplitInsertTableRecords, BatchUpdate..., SplitUpdate...")],[],["SQL text and bind arguments"])
prop("C24","Deletes and updates only ever touch the rows they name",
 "Every delete, update and soft delete issued by the helpers carries, on every path, a condition built from the caller's id, ids or where argument, on the table the caller named. Soft delete writes only the update and deletion time stamps and never removes a row.",
 ["inputs"],"all tables, ids (including empty lists) and where conditions",
 NOT+"Needs a database to observe; the guarantee is about every path that issues a statement.",
 G,[("Where before Delete/Updates; where clause of the batch update","all helpers")],[],["statements sent"])

U="help/utils/"
prop("C25","Every file or archive handle opened is closed on every path",
 "Every file, archive and archive member a helper opens is closed on every way out of it, including every error path, before or at return.",
 ["fault_sequences","inputs"],"failure of any later operation after each open, any number of files",
 NOT+"Leaks appear only on error paths that tests would have to provoke one by one.",
 [U+f for f in("breakpoint_continue.go","csv.go","files.go","zip.go")],[("deferred Close","makeFileContent, MakeFile, ReadCsv, WriteCsv, FileMd5, CopyFile, Unzip, ZipFiles")],[],["open descriptors"])
prop("C26","File and archive helpers never report success after a failed operation",
 "If any create, open, read, write, copy, flush, seek, rename, remove, directory creation or archive finalisation performed by a file, csv, chunk-upload, archive, command or cipher helper fails, the helper reports failure: a non-nil error, or for the helpers without an error result (csv reading, reader md5, image to base64) the documented empty result. Success is never reported for partial or missing data.",
 ["fault_sequences"],"failure of each individual operation of each helper",
 NOT+"Needs fault injection at every single operation.",
 [U+f for f in("breakpoint_continue.go","cmd.go","csv.go","files.go","md5.go","sys.go","zip.go")],[("error propagation after every fallible call","all helpers")],[],["returned error / result"])
prop("C27","Uploads and archives cannot reach outside their directory",
 "Extracting an archive never creates or writes anything outside the destination directory, whatever the entry names (.., absolute, nested). The chunk-upload helpers never create, read or remove anything outside the chunk and result directories, nor those directories as a whole, whatever file name and md5 strings they are given; offending names are refused with an error.",
 ["inputs"],"all entry names and all name/md5 strings",
 NOT+"A containment claim is about every hostile name.",
 [U+"zip.go",U+"breakpoint_continue.go"],[("containment check before every file-system call","Unzip; BreakPointContinue, MakeFile, RemoveChunk")],[],["paths passed to the file system"])
prop("C28","AES helpers agree with each other and reject malformed input",
 "Decryption inverts encryption for every plaintext and every valid key: both use the same cipher mode, key and IV, and padding and unpadding agree. Decryption of input that is empty, not a multiple of the block size, or whose padding length is impossible, and any invalid key, returns an error and never panics; neither function modifies the memory of its arguments, including spare capacity.",
 ["inputs"],"all plaintexts, ciphertexts and keys",
 NOT+"Panics and aliasing need particular lengths, trailing bytes and slice capacities.",
 [U+"md5.go"],[("CBC with IV from key, PKCS7","AesEncrypt, AesDecrypt, padding helpers")],[],["results, panics, argument memory"])
prop("C29","The concurrent map is linearizable under its own lock",
 "Every locking method of the shared map holds the map's lock for its whole access, exclusively whenever it may write (including lazily creating the storage), and releases it on every way out, even if a callback panics. TestAndSet returns the existing value or stores the new one in one atomic step; Get, Set, Del, Len and Range behave as on an ordinary map, also on a never-used map.",
 ["schedules","histories"],"every interleaving of calls, and the never-initialised map",
 NOT+"Races need concurrent calls.",
 [U+"maps.go"],[("RWMutex around the unsafe methods","Map methods")],[("m","storage, created lazily","Map")],["race detector, results"])
prop("C30","Masking helpers hide what they promise for every script",
 "The phone, id-card and bank-card masks replace exactly the requested number of characters after the visible prefix by asterisks and keep all others and the length (text too short for that is returned unchanged), counting characters, not bytes. The name masks (and the generic star mask for names and phone numbers) never reveal all characters of a text of two or more characters, and none of them panics or emits garbage for any input.",
 ["inputs"],"all strings, including empty, one-character, multi-byte and invalid UTF-8, and all mask lengths",
 NOT+"Faults appear for particular lengths and multi-byte text.",
 [U+"strings.go"],[("region test per character; rune-length case split","MaskMobile, MaskIDCard, MaskBackCard, MaskCustomerName, HideStar")],[],["returned strings"])
prop("C31","File outputs contain exactly the requested content",
 "Copying a file leaves the destination exactly as long as the source even if it existed and was longer; assembling chunks writes every chunk, in numeric order, into a file that starts empty; csv writing appends the row it was given; zipping adds each listed file once under its renamed path and finalises the archive before closing the file; extraction replaces existing files.",
 ["inputs","histories"],"all previous contents of the destinations, chunk counts and file lists",
 NOT+"Needs pre-existing longer outputs, repeated calls or more than nine chunks.",
 [U+f for f in("files.go","breakpoint_continue.go","csv.go","zip.go")],[("open flags, chunk loop, csv row, header names","CopyFile, MakeFile, WriteCsv, ZipFiles, Unzip")],[],["bytes of the output files"])
prop("C32","Text and conversion helpers are total",
 "The string, list and option helpers that parse or format caller-supplied text (masking, suffix, image-name, first-letter, link building, number conversion, switch lookup, byte formatting) never panic for any input: no index, slice bound, conversion or division in them can be out of range.",
 ["inputs"],"all strings and numbers, including empty and invalid UTF-8",
 NOT+"An out-of-range access depends on particular lengths.",
 [U+f for f in("strings.go","files.go","url.go","maps.go","ints.go","base64.go")],[("length guards","each helper")],[],["panics"])
prop("C33","Path and link safety predicates are exact",
 "A link counts as same-site exactly if it has at least two characters, starts with a slash, and its second character is neither slash nor backslash. A path counts as malicious exactly if it is absolute or contains two consecutive dots. File-kind tests by content or by extension answer true only for their kind, and existence tests answer true only if the file system did not report absence.",
 ["inputs"],"all strings and file-system answers",
 NOT+"A predicate is a statement about every string.",
 [U+"files.go"],[("the predicates","IsSameSiteURLPath, IsMaliciousPath, IsImage, Is*File, PathExists, FileExist, IsDir, FileIsExisted")],[],["return values"])
prop("C34","Helpers use the arguments they are given and the results they compute",
 "The result or effect of every exported utility depends on each of its arguments (the chunk total, kept for interface compatibility, excepted), and no utility computes a changed text, checksum or collection and then discards it: first-letter capitalisation returns the capitalised text, byte formatting formats the given size in the unit it reached, and setting a switch in a given option map is visible in that map.",
 ["inputs"],"all arguments",
 NOT+"Dead arguments are invisible to a test that never varies them.",
 [U+f for f in("files.go","strings.go","csv.go","maps.go","md5.go","base64.go","url.go","times.go")],[("data flow from each parameter to a result or effect","exported functions")],[],["results"])

prop("C35","Digest and base64 helpers are exact and agree",
 "Every MD5 helper returns the lower-case hexadecimal MD5 of exactly the bytes it is given (text, byte slice, whole stream or whole file), so all of them agree on the same content; the checksum test answers true exactly if the given checksum is that of the content. Every base64 helper encodes exactly its argument (or the whole file's content) and decodes exactly its argument, all with one alphabet, so what one of them encodes another decodes.",
 ["inputs"],"all contents",
 NOT+"Which bytes reach the library's digest or codec is a fact about every content and every way a stream is cut into pieces.",
 [U+"md5.go",U+"base64.go",U+"files.go",U+"breakpoint_continue.go"],[("digest and codec helpers","Md5, Md5Crypt, MD5V, ComputeFileMD5, CheckMd5, Base64*")],[],["results"])

prop("C36","Directory and file helpers act on exactly the paths they are given",
 "A directory scan that succeeds returns the path of every entry below the directory, at every depth, that is not itself a directory, each exactly once and nothing else, each as its directory, a slash and its name. Creating a list of directories succeeds only if every listed one exists as a directory afterwards; creating one directory or deleting a path does exactly that to exactly the path given, whole tree included; moving a file first makes sure the destination's directory exists. None of these helpers creates, renames or removes anything else.",
 ["inputs"],"all directory trees and paths",
 NOT+"The guarantee ranges over trees of every shape and depth and argument lists of every length.",
 [U+"files.go"],[("directory helpers","ScanDir, CreateDir, MkDir, DeLFile, FileMove")],[],["results","file system"])

prop("C37","Generated texts, links, switches and commands are what was asked for",
 "A random text has exactly the requested number of characters, all digits for kind 0, lower-case letters for kind 1, upper-case letters for kind 2, and letters or digits for any other kind. A built link is a slash, the prefix without its outer slashes, and for every parameter pair in order whose key's text is not empty and whose value's text is not 0 a slash, the key, a slash and the value; trailing slashes are cut and an odd last parameter is ignored. A suffix is the text behind the last separator, or empty without one; a substring is the characters from start up to end. A switch counts as off exactly if the option map holds its key with false; setting one stores exactly that key and value. JSON helpers return the encoding of their argument and decode their whole text, number helpers format and parse in base ten at full width, the csv reader returns all records of the file, the date directory is today's year/month/day. The shell helper runs exactly the given text and returns its standard output if it succeeded and an error if it did not.",
 ["inputs"],"all sizes, kinds, prefixes, parameter lists, maps and texts",
 NOT+"The guarantee ranges over parameter lists and texts of every length and over every outcome of the command.",
 [U+"rand.go",U+"files.go",U+"url.go",U+"cmd.go",U+"maps.go",U+"ints.go",U+"strings.go",U+"csv.go",U+"times.go"],[("text and option helpers","RandStr, BuildUrl, GetSuffixName, Substr2, ShellExec, GetSwitchFromOptions, SetSwitchFromOptions, MapToJsonString, JsonStringToMap, IntToString, StringToInt64, ReadCsv, GetTimeDir")],[],["results"])

# not claimed
prop("C40","Timers and waiting consumers fire promptly",
 "A due task or element is delivered within one tick (plus scheduling delay) of its expiration.",
 ["schedules","configurations"],"all loads and schedules",NOT+"Wall-clock latency.",TW+[DQ],[("timers","Take, take, Run")])
prop("C41","The Bloom filter meets its false-positive rate",
 "With at most the configured number of elements the probability of a false positive is at most the configured rate.",
 ["inputs"],"all element sets",NOT+"A probability over hash seeds.",["common/filter/bloom/bloom.go"],[("size formulas","New")])
prop("C42","Decimal rounding and byte-size text are numerically right",
 "Round returns the nearest decimal with n places for every float, and the size formatters show the right magnitude.",
 ["inputs"],"all floats and sizes",NOT+"Floating-point numerics.",[U+"math.go",U+"files.go"],[("formulas","Round, FileSize")])
prop("C43","Random strings are uniform and unpredictable over the chosen alphabet",
 "RandStr draws every character uniformly and unpredictably from the requested alphabet.",
 ["inputs"],"all sizes and kinds",NOT+"A distribution.",[U+"rand.go"],[("generator","RandStr")])
prop("C44","Compressed archives decompress to the same bytes",
 "The library's deflate writer and reader are inverse on every content, so zipping then unzipping restores every byte.",
 ["inputs"],"all contents",NOT+"Round-trip equality through library codecs.",[U+"zip.go"],[("library calls","Unzip, ZipFiles")])
prop("C45","Stop racing with slot expiry is linearizable",
 "For any schedule of Stop against the expiry of the timer's slot, a Stop that reports true is never followed by the task and one that reports false always is.",
 ["schedules"],"all interleavings of Stop with flush",NOT+"A history property over two critical sections.",TW[:2],[("flush, Stop","bucket.go")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
