p("C01", "Binary encoding of dynamic values round-trips exactly",
  "For every dynamic value built from null, booleans, integers of any width and sign, floats, byte strings, vectors and maps (keys up to 255 bytes), nested up to 200 levels, decoding its binary encoding into any value object, fresh or already in use, yields exactly the same tree with the same types, sizes and payload bytes. The encoding is deterministic, is the compact big-endian tagged format, and appending it to a buffer leaves the bytes already there unchanged.",
  ["inputs"], "every value tree",
  "conversions of two or three recorded files are compared; integer width boundaries, signs, string length-class boundaries, non-empty targets and deep mixes are not sampled",
  ["include/CAnyValue.h"], [("encode_integer/encode_sinteger/encode_string pick the smallest tag", "include/CAnyValue.h"), ("decode dispatches on the tag", "include/CAnyValue.h")],
  "Random value trees with boundary-biased integers and string lengths, compared with an independent reference encoder and tree model. Bounded tree size and depth; assumes x86-64.",
  ["CAnyValue::encode", "CAnyValue::decode"], technique="model-based property testing: reference encoder + tree comparison")
p("C02", "Binary decoding of hostile bytes is contained",
  "Decoding an arbitrary byte string as a binary dynamic value (bare, or behind a package head) either returns normally or throws a standard exception: it never reads outside the given bytes, crashes, overflows the stack, or allocates out of proportion to the input. Every strict prefix of a valid encoding is rejected with an exception. A value that was accepted can be re-encoded, and decoding that gives the same value again.",
  ["inputs"], "every byte string and every truncation point",
  "no test decodes a malformed buffer",
  ["include/CAnyValue.h", "include/CAnyPackage.h"], [("check(pos,size) before every read", "include/CAnyValue.h")],
  "Mutated, truncated and random inputs in exactly-sized heap buffers under AddressSanitizer; thorough adds more cases. Reads inside the buffer but past the logical item are judged through the re-encode relation.",
  ["CAnyValue::decode", "CAnyValuePackage::decode", "CAnyPackage"], technique="structure-aware fuzzing with AddressSanitizer, truncation and re-encode oracles")
p("C03", "JSON encoding is valid JSON and round-trips",
  "For every dynamic value (floats of magnitude below 1e308, keys up to 255 bytes), the JSON encoding is a syntactically valid JSON document that an independent parser reads as the same tree, and decoding it with the library gives the same tree back: same shape, keys, string bytes, booleans and full 64-bit integer values, floats to 15 significant digits.",
  ["inputs"], "every value tree",
  "a few recorded documents are converted; extreme integers, control bytes, quotes, NUL and nested empties are not sampled",
  ["include/CAnyValue.h"], [("textEncodeJSON escapes", "include/CAnyValue.h"), ("encodeJSON per type", "include/CAnyValue.h")],
  "Random trees; the oracle is an independent strict JSON parser in the harness. Float tolerance 1e-14 relative because the library prints 16 significant digits.",
  ["CAnyValue::encodeJSON", "CAnyValue::decodeJSON"], technique="round-trip and differential property testing against an independent JSON parser")
p("C04", "JSON decoding equals the reference value; bad input is contained",
  "Every valid JSON text (any whitespace, escapes, surrogate pairs, number forms within 64-bit and double range, unique keys up to 255 bytes, at least 200 nesting levels) decodes to the value a reference JSON parser gives, with fractions and exponents as floats and other numbers as integers. Any other byte string either decodes to something or throws a standard exception, without reading outside the given bytes or exhausting the stack, and a strict prefix of an object, array or string document is always rejected.",
  ["inputs"], "every valid text, every truncation, every mutation",
  "tests decode a handful of well-formed files with trailing NUL bytes behind them",
  ["include/CAnyValue.h"], [("readObj/readArray/readString/readNumber/skipSpaces", "include/CAnyValue.h")],
  "Grammar-based generator with known value, plus mutation and truncation, in exactly-sized heap buffers under AddressSanitizer.",
  ["CAnyValue::decodeJSON"], technique="grammar-based generation vs reference value; mutation fuzzing under AddressSanitizer")
p("C05", "Dynamic values behave as a document model with value semantics",
  "Under any sequence of operations (index, insert, erase, push and pop at both ends, clear, copy, assignment including from one's own descendants or ancestors, typed reads, key and size queries), a dynamic value behaves exactly as an independent tree: copies never affect each other, out-of-range indexes and wrong-type access throw or yield the documented default, integer reads return the full stored value converted to the requested width, and all memory is released.",
  ["histories"], "every operation sequence over several live values",
  "the test program performs one fixed sequence",
  ["include/CAnyValue.h"], [("assign deep-copies", "include/CAnyValue.h"), ("initAsMap/initAsVector", "include/CAnyValue.h")],
  "Stateful model-based testing over up to four live values, AddressSanitizer plus exact live-allocation accounting.",
  ["CAnyValue public accessors"], technique="stateful model-based testing with AddressSanitizer and allocation accounting")
p("C06", "XML encoding is well-formed and faithful",
  "For every dynamic value whose map keys are XML names and whose strings are XML text, the XML encoding is well-formed inside one root element, and an independent parser reads back the same tree: elements per key in key order, list items in order, string content byte for byte, and integers in full.",
  ["inputs"], "every value tree with XML-representable keys and text",
  "no test looks at XML output",
  ["include/CAnyValue.h"], [("encodeXML/encodeXMLWithHead", "include/CAnyValue.h")],
  "Random trees read back by a small independent XML parser in the harness.",
  ["CAnyValue::encodeXML"], technique="round-trip property testing with an independent XML parser")
p("C07", "Typed packages read back what was written and never past the end",
  "Any sequence of typed writes to a binary package reads back as the same sequence of values, in network byte order behind the fixed head, and overwriting an integer at a remembered position changes only that integer. Any sequence of reads and seeks on any package bytes returns exactly the bytes at the current position, or throws or fails leaving the position inside the package; no read ever touches bytes outside the package.",
  ["inputs", "histories"], "every write sequence, every read and seek sequence over arbitrary bytes",
  "no test exercises the package stream",
  ["include/CPackage.h"], [("operator<< / operator>> bounds checks", "include/CPackage.h"), ("seek", "include/CPackage.h")],
  "Model-based sequences against a byte-vector reference, AddressSanitizer.",
  ["CPackage"], technique="stateful model-based testing with AddressSanitizer")
p("C08", "Message packages preserve head fields and body",
  "For every command, sequence, user id, client address, port, result code and body value, a message package sent through encode, framing bytes and decode yields the same head fields and the same body tree, with the advertised length equal to the bytes produced and valid for the framing filter. Head fields are independent: setting one never changes another, and decoding bytes too short for the head is rejected. A package used again (cleared, assigned from another, encoded again, given other body bytes or decoded into) holds exactly the head and body put in last.",
  ["inputs", "histories"], "every head field combination and body, every sequence of uses of a package",
  "no test reads back head fields other than the command",
  ["include/CAnyPackage.h", "include/CAnyValue.h"], [("AnyHeader accessors convert byte order", "include/CAnyPackage.h"), ("encode sets length and etx", "include/CAnyPackage.h")],
  "Random heads and bodies; truncations in exactly-sized buffers.",
  ["CAnyPackage", "CAnyValuePackage"], technique="round-trip property testing")
p("C09", "Length-prefixed framing delivers exactly the messages sent",
  "However a byte stream of well-formed length-prefixed messages (start byte, 16- or 32-bit length, end byte) is split into reads, the framing decision yields exactly the messages sent, in order, intact, with no byte attributed to two messages. It is decided only from the bytes available, never reads past them, and a stream with a wrong start byte, end byte or impossible length is reported as invalid rather than as a message.",
  ["inputs", "schedules"], "every message sequence and fragmentation, every corruption",
  "tests send one message per connection over loopback",
  ["include/CH2ShortT3PackageFilter.h", "include/CH2T3PackageFilter.h", "include/CRawPackageFilter.h"], [("isWholePackage", "include/CH2T3PackageFilter.h")],
  "Filters driven directly over exactly-sized buffers for every fragmentation drawn; the socket path is covered by C26 and C27.",
  ["CPackageFilter::isWholePackage"], technique="model-based property testing over fragmentations")
p("C10", "HTTP framing depends only on the bytes received",
  "For every sequence of pipelined requests or responses with or without Content-Length bodies, fed in any fragmentation, the HTTP framing decision yields exactly those messages in order: the length of the first complete message, or incomplete. The answer depends only on the bytes available so far, never on bytes beyond them, and garbage, negative or overflowing lengths never produce a length outside the bytes available.",
  ["inputs", "schedules"], "every message sequence, fragmentation and garbage prefix",
  "tests send one small GET",
  ["include/CHttpPackageFilter.h"], [("isWholePackage searches the header end and Content-Length", "include/CHttpPackageFilter.h")],
  "Reference framer in the harness, exactly-sized buffers under AddressSanitizer, arbitrary bytes behind the buffer varied.",
  ["CHttpPackageFilter::isWholePackage"], technique="differential property testing against a reference framer")
p("C11", "HTTP request parsing recovers what the client sent",
  "For every well-formed GET, HEAD or POST request the parser reports the method, path, version, headers (case-insensitive names), raw query or body, cookies (values URL-decoded), the URL-decoded names and values of the query parameters of GET and HEAD and of the form parameters of POST, and the fields and files of a multipart/form-data body as browsers lay it out (unquoted boundary, name before filename, files with a Content-Type), content byte for byte, just as the client encoded them, and nothing from any previously parsed request. Arbitrary bytes are either rejected or parsed without undefined behaviour; at most a standard exception escapes.",
  ["inputs", "histories"], "every request, every sequence of requests on one reader, every garbage input",
  "tests send one fixed request",
  ["src/CHttpReader.cpp", "include/CHttpReader.h"], [("parse / parseHead / parseValues / parseFormData", "src/CHttpReader.cpp")],
  "Request generator with known content against the reader; mutation fuzzing under AddressSanitizer.",
  ["CHttpReader"], technique="generate-serialise-parse property testing; mutation fuzzing under AddressSanitizer")
p("C12", "HTTP responses carry exactly the status, headers, cookies and body set",
  "Every response built with the response writer is a well-formed HTTP message: the status line and each header, cookie, redirect and expiry that was set appear once, complete and on their own lines, and when the writer emits a content length it equals the body length. Starting a new response on the same writer discards everything from the previous one, and the framing filter accepts the produced bytes as exactly one message.",
  ["inputs", "histories"], "every response content and every sequence of responses on one writer",
  "tests emit one fixed response",
  ["src/CHttpWriter.cpp", "include/CHttpWriter.h"], [("begin / head / setCookie / end", "src/CHttpWriter.cpp")],
  "Random responses parsed back by an independent HTTP parser in the harness.",
  ["CHttpWriter"], technique="round-trip property testing with an independent HTTP parser")
p("C13", "URL encoding round-trips and decoding is total",
  "For every byte string, URL-decoding its URL-encoding gives the same bytes, and the encoding contains only letters, digits, '-', '_', '.', '+' and two-digit upper-case hex escapes. Decoding any string substitutes exactly its well-formed escapes and plus signs, keeps everything else, and neither fails nor reads outside the string, whatever malformed or truncated escapes it contains.",
  ["inputs"], "every byte string",
  "no test calls the codec", ["src/Utils.cpp"], [("FormUrlEncode / FormUrlDecode", "src/Utils.cpp")],
  "Random byte strings and escape-heavy strings against a reference codec.",
  ["FormUrlEncode", "FormUrlDecode"], technique="round-trip and reference-model property testing")
p("C14", "HTTP dates format and parse exactly",
  "For every second from 1970 up to the end of 2037, the formatted HTTP date is the correct UTC calendar date and parsing it gives back the same second; the alternative date spellings with dashes, two-digit years and the C asctime layout give the same second too. Any other text gives zero or some time without reading beyond the end of the string.",
  ["inputs"], "every second of the range, every spelling, every garbage string",
  "the test parses one date", ["src/Utils.cpp"], [("GetGMTDate / Gmt2Time", "src/Utils.cpp")],
  "Random and calendar-boundary seconds against an independent civil-date algorithm; strings in exactly-sized buffers under AddressSanitizer.",
  ["GetGMTDate", "Gmt2Time"], technique="differential property testing against an independent calendar")
p("C15", "String helpers obey their algebraic laws",
  "Splitting on a separator and joining the pieces with it gives back the original string; replacing and removing substrings equal the left-to-right reference; trimming removes exactly the listed characters at the ends; extracting between two markers gives the text between the first pair; host:port parsing inverts formatting; integer-to-string and back is the identity. All of them terminate on every input.",
  ["inputs"], "every string and separator",
  "a fixed line of examples is printed and not checked", ["include/StringHelper.h"], [("SplitStr / ReplaceStr / TrimStr / MiddleStr", "include/StringHelper.h")],
  "Small-alphabet random strings (to force overlaps) against naive references.",
  ["StringHelper functions"], technique="law-based and reference-model property testing")
p("C16", "Connection buffers are exact bounded byte queues",
  "Under any sequence of appends and partial consumptions a connection buffer holds exactly the bytes appended and not yet consumed, in order, contiguous. An append is refused exactly when the unconsumed bytes would exceed the configured maximum, a refused append changes nothing, and memory use stays bounded by the maximum.",
  ["histories"], "every sequence of operations, initial sizes and limits",
  "buffers are used only with tiny messages that never wrap or grow", ["include/CSocketBuf.h"], [("addData grows or compacts", "include/CSocketBuf.h")],
  "Stateful testing against a byte-string model, small limits, AddressSanitizer.",
  ["CSocketBuf"], technique="stateful model-based testing with AddressSanitizer")
p("C17", "The memory ring queue is an exact FIFO of messages",
  "Under any sequence of single- and two-part pushes and single- and two-buffer pops, with any memory size and message sizes, the queue returns exactly the messages pushed and not yet popped, in order and intact, also across wrap-around and after re-attaching to the same memory. A push is refused exactly when the queue reports it would be full, a refused push changes nothing, a pop into buffers that are too small drops that one message and reports it by an exception, counts are exact, and no byte outside the given memory or the caller's buffers is touched.",
  ["histories", "configurations"], "every operation sequence, memory size and message size",
  "the test fills a 1 MB queue once and pops two messages", ["include/CBufferQueue.h"], [("push / pop with wrap-around", "include/CBufferQueue.h")],
  "Stateful testing against a deque model with small regions so that every wrap alignment occurs; regions between AddressSanitizer red zones.",
  ["CBufferQueue"], technique="stateful model-based testing with AddressSanitizer")
p("C18", "In-process queues deliver each item once, in order, within capacity",
  "The bounded circular queue and the blocking queue behave as bounded FIFOs: pushes beyond capacity are refused or wait, pops return items in push order, and sizes and front are exact. With concurrent producers and consumers every accepted item is delivered exactly once, items of one producer reach one consumer in order, capacity is never exceeded, a timed operation does not give up before its timeout, and a waiting operation wakes when it can proceed, also after a clear. An operation whose item cannot be copied, or whose thread is cancelled while it waits, has no effect and leaves the queue usable. The locks behind them exclude each other (readers share), try-locks fail exactly while the lock is held, and a condition wait ends by a signal or after its full timeout.",
  ["histories", "schedules"], "every operation sequence, and sampled thread schedules",
  "tests push and pop a few items from one or two threads", ["include/CCircleQueue.h", "include/CBlockQueue.h", "include/CLock.h"], [("condition waits in CBlockQueue", "include/CBlockQueue.h"), ("head/tail indexes", "include/CCircleQueue.h")],
  "Sequential model-based testing plus randomised multi-threaded histories with injected delays; schedules are sampled, not enumerated.",
  ["CCircleQueue", "CBlockQueue"], technique="stateful model-based testing; randomised concurrent histories with exactly-once oracle")
p("C19", "The cache is an exact LRU map with expiry",
  "Under any sequence of sets, gets, deletes and clears with a clock that moves forward, the cache behaves as the reference LRU map: a lookup returns the most recently set value for that key, until it is deleted, dropped, or more than its expiry seconds old, or nothing; the number of entries never exceeds the configured maximum; entries are dropped only to make room for a new key, in batches of at most CACHE_REMOVE_NUM, and they are always the least recently used ones. Nothing else is ever lost, also with concurrent users. The sharded cache (maximum of at least one entry per shard) gives the same guarantees per shard.",
  ["histories"], "every operation sequence, capacity and clock movement",
  "the test inserts 102 keys into one cache and prints some", ["include/CLruCache.h"], [("list + map bookkeeping", "include/CLruCache.h")],
  "Stateful testing against a reference LRU with an interposed clock, both cache variants.",
  ["CLruCache", "CLruCacheV2"], technique="stateful model-based testing with a virtual clock")
p("C20", "Bitmaps and shared arrays keep every cell independent",
  "In every bitmap width, setting a cell to any value that fits changes that cell and no other, every cell in range reads back its last set value, and indexes outside the declared range are refused without touching memory. Shared arrays keep cells independent likewise, and re-opening the same shared memory sees the same contents. Memory that cannot be had, or is smaller than asked for, is refused without a trace, and an object set up again on other memory uses only that.",
  ["histories", "configurations"], "every width, size, index and operation sequence",
  "the test sets one bit of one bitmap", ["include/CBitMap.h", "include/CShmArray.h", "include/CShm.h"], [("mask and shift per width", "include/CBitMap.h")],
  "Stateful testing of widths 1-6 and 8 against an array model, with the shared-memory system calls replaced by heap regions of exactly the requested size under AddressSanitizer.",
  ["BITMAP..", "CShmArray"], technique="stateful model-based testing, shared memory stand-in, AddressSanitizer")
p("C21", "Configuration files mean what their lines say",
  "For every configuration file made of sections, key=value lines, comments, blank lines and arbitrary spacing around them, each lookup by section and key returns exactly the value written for it (the last one if repeated) or the given default if absent. Lines that are none of these define nothing, and arbitrary bytes load without undefined behaviour.",
  ["inputs"], "every file content", "no test loads a configuration", ["src/CConfig.cpp", "include/CConfig.h"], [("line parser", "src/CConfig.cpp")],
  "Line-structured generator with a reference parser; byte mutation under AddressSanitizer; files live in a scratch directory.",
  ["CConfig"], technique="generate-serialise-parse property testing; mutation fuzzing")
p("C22", "The rotating file log loses nothing but the oldest",
  "For every sequence of log calls and every file size and file count limit, reading the rotated files from oldest to newest yields a contiguous suffix of the formatted lines, each intact and once, ending with the newest line. No more than the configured number of files exists, and a file exceeds the size limit by at most its last line.",
  ["histories", "configurations"], "every sequence of messages, limits and reopenings",
  "the test writes a few lines that never rotate", ["src/CFileLog.cpp", "include/CFileLog.h"], [("shiftFiles on size", "src/CFileLog.cpp")],
  "Stateful testing in a scratch directory with the files read back after every step.",
  ["CFileLog"], technique="stateful model-based testing on a scratch directory")
p("C23", "The asynchronous log writes every accepted line once, whole, in order",
  "For any lines logged from any number of threads and any flush timing, once the log is flushed and stopped each line appears in the files exactly once and intact, and the lines of one thread appear in the order they were logged, up to the oldest files dropped by rotation. Lines refused or dropped for lack of buffer space are reported as such, never torn. Lines accepted while the file cannot be written are written by the first flush after it can. With no flush at all, pending lines are written once the configured interval is over, and at once when a buffer is full.",
  ["histories", "schedules"], "every sequence of lines, buffer fills and flush points, sampled thread schedules",
  "the test logs a fixed sequence and does not read it back", ["src/CAsyncLog.cpp", "include/CAsyncLog.h", "include/CLogBuffer.h"], [("double buffer swap", "src/CAsyncLog.cpp")],
  "Deterministic flush schedules (no background thread) against a model, plus randomised threads.",
  ["CAsyncLog"], technique="stateful model-based testing with controlled flush schedules")
p("C24", "Timers fire once, on time, in deadline order",
  "For any set of timers and any sequence of arming, re-arming and cancelling, including from inside handlers, each armed timer that is not cancelled fires exactly once per arming, never before its deadline, with its own id and data, and timers due together fire in deadline order. A cancelled timer never fires, and arming an id that is already armed follows the documented replace-or-refuse rule.",
  ["histories", "schedules"], "every operation sequence and clock movement",
  "the test arms a few timers with fixed delays", ["src/CEvent.cpp", "include/CEvent.h", "src/CCommMgr.cpp", "src/CNetWorker.cpp"], [("timer multimap processed each loop", "src/CEvent.cpp")],
  "Event loop stepped in one thread with a virtual clock, against a reference timer model; the same histories through the server manager and a network worker.",
  ["CEvent::addTimer", "CEvent::delTimer", "CCommMgr::addTimer", "CNetWorker::addTimer"], technique="stateful model-based testing with a virtual clock")
p("C25", "Event-loop messages are delivered exactly once, in order",
  "Every message posted to an event loop, from its own thread, from handlers or from any other threads and in any burst size, is delivered to its handler exactly once with its own data, and messages of one poster are delivered in posting order. Posting never blocks the loop forever, and handlers that keep posting do not keep timers, sockets or stop requests from being served.",
  ["histories", "schedules"], "every posting pattern and burst size, sampled schedules",
  "the test posts a handful of messages", ["src/CEvent.cpp", "include/CEvent.h", "src/CCommMgr.cpp", "src/CNetWorker.cpp"], [("message queue + wake-up pipe", "src/CEvent.cpp")],
  "Stepped single-threaded histories including bursts beyond the wake-up pipe's capacity, plus threaded producers; the same histories through the server manager and a network worker.",
  ["CEvent::addMessage", "CCommMgr::sendMessage", "CNetWorker::sendMessage"], technique="stateful model-based testing; randomised concurrent histories")
p("C26", "The TCP server hands over every message once and sends every reply whole",
  "For any number of clients, message sizes, fragmentation, pipelining, slow readers, half-closes and disconnects, each complete message received on a connection reaches the handler once, intact, in order and tagged with that connection, and every reply accepted for sending arrives on that connection whole, in order and exactly once, also under backpressure and when the connection is to close after sending. Connections are opened, refused at the configured limit, and closed independently: trouble on one never disturbs another. With nothing to read or send the event loop sleeps.",
  ["histories", "schedules", "fault_sequences"], "every client script and interleaving drawn",
  "tests send one small message on one connection", ["src/CCommMgr.cpp", "include/CCommMgr.h", "include/CSocketBuf.h"], [("onTcpRead / onTcpWrite", "src/CCommMgr.cpp"), ("write", "src/CCommMgr.cpp")],
  "Event loop stepped in one thread against scripted loopback clients with small socket buffers; kernel scheduling of loopback is trusted.",
  ["CCommMgr"], technique="stateful model-based testing over loopback with stepped event loop")
p("C27", "Network workers hand over every message and reply exactly once",
  "With connections spread over any number of network workers, each complete message reaches its handler once, intact, in order and on its own connection, replies arrive on the connection they were sent to, whole and in order, connections beyond the limit are refused, and a disconnect is reported once for each connection that was opened. With nothing to read or send every event loop sleeps.",
  ["histories", "schedules", "fault_sequences"], "every client script and interleaving drawn",
  "the test exchanges one message", ["src/CNetWorker.cpp", "include/CNetWorker.h", "include/CNetWorkerMgr.h"], [("onEvent / onRead / onWrite", "src/CNetWorker.cpp")],
  "Scripted loopback clients; worker threads run for real, so schedules are sampled.",
  ["CNetWorkerMgr", "CNetWorker"], technique="randomised concurrent histories with per-connection stream oracle")
p("C28", "Worker pools run each request once and answer the right client",
  "Every request dispatched to a task queue or worker pool is executed exactly once by one worker with its own data, each reply returns once to the connection (and sequence) that asked, and requests beyond the queue limit are refused visibly rather than lost. Requests of an unknown command or with a malformed body never stop the pool from serving the others.",
  ["histories", "schedules", "fault_sequences"], "every request mix and interleaving drawn",
  "tests send a few requests sequentially", ["include/CTask.h", "src/CTask.cpp", "include/CAnyWorkerPool.h", "include/CRawWorkerPool.h", "include/CHttpWorkerPool.h"], [("CTask queue + condition", "src/CTask.cpp"), ("onWork / onMessage", "include/CAnyWorkerPool.h")],
  "Randomised request mixes over several connections with real worker threads; schedules are sampled.",
  ["CTask", "CAnyWorkerPool", "CRawWorkerPool", "CHttpWorkerPool"], technique="randomised concurrent histories with exactly-once oracle")
p("C29", "Datagram servers and outgoing connections deliver intact",
  "Every non-empty datagram (one message) that reaches a datagram server and fits its receive limit is handed over once, whole, with its sender's address, one that is over the limit or not a valid message is reported as an error instead, and a reply goes to that sender. An outgoing asynchronous connection reports success or failure exactly once, and once connected carries messages both ways with the same guarantees as an accepted one.",
  ["inputs", "histories", "fault_sequences"], "every datagram size and content, every connect outcome and exchange",
  "one client exchange is tested", ["src/CCommMgr.cpp"], [("onUdpRead", "src/CCommMgr.cpp"), ("connect / onConnect", "src/CCommMgr.cpp")],
  "Stepped event loop over loopback.", ["CCommMgr"], technique="stateful model-based testing over loopback with stepped event loop")
p("C30", "Blocking connectors transfer exactly the bytes asked for",
  "For any peer behaviour (fragmented or delayed sends, partial reads, close at any byte), the blocking stream connector's exact read returns all requested bytes in order or reports failure, its write delivers all bytes in order or reports failure, and the datagram connector exchanges whole datagrams. A timeout or close is reported as failure within bounded time, never as data.",
  ["histories", "fault_sequences"], "every fragmentation, delay and close point drawn",
  "the connector test needs an external server", ["src/CTcpConnector.cpp", "src/CUdpConnector.cpp"], [("readn / write loops", "src/CTcpConnector.cpp")],
  "Scripted loopback peer in a second thread.", ["CTcpConnector", "CUdpConnector"], technique="property testing with a scripted faulty peer")
p("C31", "Database results expose every field exactly and errors are reported",
  "For every result set (any column names, types, NULLs, embedded NUL bytes and sizes) the wrapper exposes exactly the rows by index, in order, and each field's exact bytes by column name (NULL as the empty string), and copies and assignments of the result stay valid as long as one is alive; rows or names that do not exist, and results with duplicate column names, are refused with an exception. Statements run on the server, with the character set and in the database last asked for, and connections are made with the timeouts last asked for. A connection found lost when a statement is sent leads to a reconnect and one retry of the statement, any other failure is reported to the caller with the server's error and leaves the client usable, further results of a multi-statement query never disturb the next one, and every server resource is released exactly once.",
  ["inputs", "fault_sequences"], "every result set and every sequence of server errors",
  "the database test cannot run without a server", ["src/CMysql.cpp", "include/CMysql.h"], [("CMySql::query reconnect", "src/CMysql.cpp"), ("MySqlData reference counting", "include/CMysql.h")],
  "The MySQL C API is replaced by a recording stand-in generated per case; the real server protocol is out of scope.",
  ["CMySql"], technique="model-based property testing against a stand-in database API with fault injection")

p("C32", "The event loop calls exactly the handlers registered for ready descriptors",
  "For any sequence of registering, replacing and removing interest in descriptors, also from inside handlers, and any traffic on them, each wake-up calls the current read and write handlers of every descriptor that is registered and ready, once, with its own descriptor and data, and no other: a removed or replaced handler is not called again and a handler may replace itself while it runs. A registration that is refused (out of range, not open, not pollable) leaves no trace, so the number can be registered later.",
  ["histories", "inputs"], "every sequence of registrations, removals and traffic", "the test watches one pipe",
  ["src/CEvent.cpp", "include/CEvent.h"], [("addFdEvent / delFdEvent", "src/CEvent.cpp"), ("epoll dispatch", "src/CEvent.cpp")],
  "Stepped loop over socket pairs; readiness is taken from poll(2) just before each step, and the kernel is trusted.",
  ["CEvent::addFdEvent", "CEvent::delFdEvent"], technique="stateful model-based testing with poll(2) as the readiness oracle")
p("C33", "Threads and task queues start once, end when told and never disturb others",
  "Starting a thread object runs its body exactly once on a thread of its own, which a broken pipe does not kill, and a thread, task queue, network worker or log writer that the system cannot start is reported to its caller; join returns only after the body has ended, and thread objects may be stopped, joined, detached, restarted after a join or a detached end and destroyed in any order and state without affecting any other thread. A stopped or destroyed task queue or worker pool ends all of its workers, also busy and waiting ones, without leaving a lock held or a worker object used after its destruction, and has run no accepted task more than once; until then every accepted task is run. A singleton is constructed exactly once under concurrent first use, handed out only when constructed, and constructed by a later call when its constructor throws.",
  ["histories", "schedules", "fault_sequences"], "every order of operations and every point at which a worker can be stopped",
  "the tests start one thread or queue and never destroy it", ["src/CThread.cpp", "src/CTask.cpp", "include/CTask.h", "include/CSingleton.h", "include/CRawWorkerPool.h", "include/CAnyWorkerPool.h", "include/CHttpWorkerPool.h"], [("CThread start / stop / join / detach", "src/CThread.cpp"), ("worker loop", "include/CTask.h"), ("double-checked construction", "include/CSingleton.h")],
  "Real threads in a forked child per case under AddressSanitizer; schedules are sampled, not enumerated.",
  ["CThread", "CTask", "CSingleton"], technique="stateful property testing of concurrent lifecycles under AddressSanitizer")
p("C34", "What is over leaves nothing behind",
  "A program that does the same work again and again needs no more memory, descriptors, threads or attached shared memory than the first few times: connections accepted, opened, refused, closed by either side, cut off by errors or above the limits, services created and removed, requests answered, refused, not decodable or not answerable, timers, messages, descriptors watched and event loops, worker pools and threads that end, values, packages, cache entries, queue elements, HTTP messages, configuration files, logs, connectors and attached segments all release what they took when they are over.",
  ["histories", "inputs", "fault_sequences"], "every history of work, ends and faults",
  "the tests run once and never look at what they leave", ["src/CCommMgr.cpp", "src/CNetWorker.cpp", "src/CEvent.cpp", "include/CNetWorkerMgr.h", "include/CAnyWorkerPool.h", "include/CHttpWorkerPool.h", "include/CRawWorkerPool.h", "include/CLruCache.h", "include/CAnyValue.h", "src/CTcpConnector.cpp", "src/CUdpConnector.cpp", "include/CShm.h", "src/CThread.cpp"],
  [("connection ends", "src/CCommMgr.cpp"), ("connection ends", "src/CNetWorker.cpp"), ("responses and refused requests", "include/CRawWorkerPool.h"), ("eviction", "include/CLruCache.h")],
  "A plan is carried out nine times in a forked child; live heap bytes, /proc/self/fd, /proc/self/task and attached segments must not grow in each of the last six. Growth that stops within six rounds is allowed (pools, capacities).",
  ["CCommMgr", "CNetWorkerMgr", "CEvent", "CTask", "CLruCache", "CAnyValue", "CTcpConnector"], technique="property testing with an invariance relation over repeated histories (resource use of round n+1 against round n)")
p("C35", "Signals reach their handler and system helpers do what they report",
  "A signal delivered to the process reaches the handler registered last for its number, with that number, exactly once per delivery, and no other handler; signals disturb neither timers nor messages of a running event loop, and one may stop it. The socket helpers (create, bind, listen, connect, non-blocking, no-delay, reuse, buffer sizes, send, close) report success exactly when the descriptor has the asked state afterwards, a send passes exactly the bytes it reports and never kills the process. Raising the file or core limit reports success exactly when the limit is at least the asked one, always succeeds within what is allowed, and lowers nothing. Going to the background leaves one process in a session of its own that ignores terminal signals. Addresses, hexadecimal digits, byte order, hashes and times depend only on their value.",
  ["inputs", "histories"], "every order of registrations and deliveries, every socket history, limit, byte and time",
  "no test sends a signal, checks a socket option or raises a limit", ["src/CCommMgr.cpp", "src/Utils.cpp", "include/Utils.h"], [("addSigHandler / onSignal", "src/CCommMgr.cpp"), ("socket helpers", "src/Utils.cpp"), ("SetFileLimit / SetCoreLimit", "src/Utils.cpp")],
  "Real signals, sockets and limits in forked processes of their own; the oracle is the state the kernel reports (getsockname, getsockopt, getrlimit).",
  ["CCommMgr::addSigHandler", "Bind / Listen / Connect / Send", "SetFileLimit"], technique="stateful property testing against the state the system reports")
