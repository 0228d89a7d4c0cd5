FIXED += [
("C01 C02", "CAnyValue::decode replaces", "decoding into a value already in use merged with or leaked the previous value"),
("C05", "CAnyValue assignment copies", "assigning a value from its own descendant or ancestor read freed memory; a null kept a stale pointer"),
("C02", "CAnyValue::decode rejects vector counts", "a vector count beyond the data allocated without bound; a map key without value was accepted"),
("C02 C08", "CAnyValuePackage decodes only", "the body was decoded with the length of head and body, reading past the end"),
("C02", "CAnyValue re-encodes non-negative", "non-negative values decoded from signed tags were re-encoded truncated"),
("C03 C06", "CAnyValue text encodings no longer", "20 character integers lost their last digit in JSON and XML"),
("C03", "CAnyValue::encodeJSON escapes NUL", "NUL bytes were written raw, so the text was not JSON and decoded short"),
("C04", "CAnyValue::decodeJSON keeps a top-level", "a top-level string decoded to an unreadable value; a used target kept old members"),
("C04", "the JSON decoder stays inside", "several readers ran past the end of the input; truncated documents were accepted"),
("C04", "the JSON decoder reads numbers", "1e3 was read as the integer 1"),
("C04", "the JSON decoder joins", "\\\\uD83D\\\\uDE00 became two invalid 3 byte sequences"),
("C02 C04", "deeply nested input", "a deeply nested document exhausted the stack"),
("C05", "asInt64, asUInt", "asInt64/asUInt/asUInt64 cut the value to 32 bits"),
("C05", "CAnyValue refuses negative", "negative indexes and pops on empty vectors read outside the vector"),
("C05", "CAnyValue looks long keys", "keys above 255 bytes were stored cut but looked up in full"),
("C02", "a decoded bool is", "a decoded bool byte above 1 was re-encoded as another value"),
("C06", "encodeXML splits CDATA", "text containing ]]> made the XML ill-formed"),
("C03", "floats of 16 integer digits", "a float of 16 integer digits was encoded as an integer or cut"),
]
FIXED += [
("C07", "CPackage can be assigned", "CPackage::operator= did not compile"),
("C07", "single bytes can be streamed", "operator<< of a char or unsigned char did not compile or recursed"),
("C07", "CPackage::readString stays", "readString ran past the end of the package"),
("C07", "CPackage refuses data shorter", "data shorter than the head was read beyond its end"),
("C07", "CPackage::setPkgBody restarts", "reading went on at the position inside the previous body"),
("C07", "CPackage::read refuses", "a negative length moved the read position backwards and out of the package"),
("C07", "CPackage::seek never", "seek moved the read position outside the body"),
("C08", "AnyHeader keeps all 64", "the user id of a package was cut to 32 bits"),
("C08", "AnyHeader keeps the client", "the client address was not transported"),
("C10", "HTTP framing looks only", "the filter read beyond the received bytes"),
("C10", "HTTP framing reads Content-Length", "a Content-Length inside another head or in the URL was used; negative and huge lengths overflowed"),
("C11", "CHttpReader parses the query of HEAD", "the query of a HEAD request stayed in the path"),
("C11", "CHttpReader decodes parameter names", "parameter names were not URL-decoded"),
("C11", "CHttpReader splits head lines", "a head line without a space after the colon lost or mangled its name; one without a colon threw or was misread"),
("C11", "CHttpReader forgets the files", "files of the previous request were still reported"),
("C11", "CHttpReader keeps the Content-Type", "multipart requests reported no Content-Type; a lower-case content-type head was not recognised as multipart"),
("C11", "CHttpReader does not read multipart", "multipart bodies were also parsed as url-encoded parameters, and their values url-decoded"),
("C11", "CHttpReader separates the head", "empty fields and files, and content that looks like part heads, were reported wrongly"),
("C13", "FormUrlDecode keeps malformed", "a malformed or truncated escape was decoded to garbage or read past the end"),
("C14", "Gmt2Time stops", "Gmt2Time read past the end of a short text"),
("C15", "SplitStr skips", "a separator of several characters was skipped only by one"),
("C15", "ReplaceStr of an empty", "replacing the empty string never ended"),
]
FIXED += [
("C12", "CHttpWriter does not cut", "heads over 1 KB were cut and lost their line end, so the response was not well-formed"),
("C12", "CHttpWriter::begin forgets", "heads of the previous response were sent again"),
("C12", "CHttpWriter spells", "the reason phrase of status 101 was misspelt"),
("C12", "a new CHttpWriter starts", "a writer used without begin sent an uninitialised status and expiry"),
]
FIXED += [
("C16", "a default CSocketBuf has", "copying a default-constructed buffer allocated an uninitialised size"),
("C16", "CSocketBuf never grows", "with an initial size above the maximum, filling the buffer aborted the process"),
("C18", "CBlockQueue::front returns", "front returned the item popped before, or read outside the array"),
("C18", "CBlockQueue::pop keeps", "after one wait pop read the queue without the lock"),
("C18", "the timed CBlockQueue::pop", "a timed pop gave up at once, or woke early when another consumer took the item"),
("C18", "the timed Condition::wait", "a timed wait returned at once"),
]
FIXED += [
("C19", "CLruCache uses the maximum", "the maximum given to the constructor was ignored (always 10000)"),
("C19", "CLruCache forgets its list head", "dropping the last entry left a dangling list head that the next insertion wrote to"),
("C19", "CLruCache makes room", "the cache held one entry more than its maximum, and replacing the value of a key dropped up to 50 others"),
]
FIXED += [
("C20", "bitmaps refuse", "the index equal to the size was accepted and wrote outside the bitmap"),
("C20", "bitmaps of 3, 5 and 6 bits", "setting a cell cleared up to ten others, and cells near the end were accessed beyond the region"),
]
FIXED += [
("C21", "skip leading spaces", "an indented comment, section header or blank line was read as a key"),
("C21", "a configuration section header", "a header line with an equals sign also defined a key"),
("C21", "a configuration line without", "a line of plain text defined a key with itself as the value"),
("C21", "read unsigned long", "values above 2^63 were clamped"),
("C21", "accept ip:port", "1.1.1.1:8 was refused"),
]
FIXED += [
("C22", "a file log limited to one", "with one file allowed the file grew without limit"),
("C22", "the file log reports", "a failed write was reported as success and stopped the log for good"),
]
FIXED += [
("C23", "a log line keeps its newline", "a line that filled the buffer exactly lost its newline and merged with the next"),
("C23", "the async log never writes", "a short line written after a spill came out before older lines, and lines written during a flush were lost"),
("C23", "serialise concurrent", "a flush by the caller during a background flush lost or repeated lines"),
("C23", "flushing the async log", "after flush() the lines in the second buffer were still not in the file"),
("C23", "an async log that was never", "destroying or writing to a log that was not initialised crashed"),
("C23", "destroying the async log", "the background thread used the freed buffers and buffered lines were lost"),
("C23", "an async log limited", "with one file allowed the file grew without limit"),
("C23", "log time stamps", "localtime() of another thread put a time into a line that never was"),
("C23", "flushing an empty async", "an empty flush rotated the files, dropping the oldest one for nothing"),
]
FIXED += [
("C24", "the event loop never waits longer", "a timer over 2^31 ms away made the loop wait without a limit"),
("C25", "posting to an event loop", "the 65537th unread message blocked in write() holding the queue's lock: the loop deadlocked"),
("C25", "an event loop serves timers", "a handler that posts a message to itself starved timers, sockets and stop()"),
("C32", "an fd handler may register", "re-registering from inside the handler destroyed the running handler (use after free)"),
("C32", "an event of a closed descriptor", "an event found for a descriptor that a handler of the same wake-up closed was given to the descriptor that got its number next (a new connection was reported as made before it was)"),
("C32", "a refused fd registration", "after a refused registration the descriptor number could never be registered again"),
]
FIXED += [
("C26", "Send raises no SIGPIPE", "a reply to a peer that had gone killed the process"),
("C26", "a CCommMgr session only reaches", "after a reconnect a reply to the old session went to the client that had got the same descriptor"),
("C26", "CCommMgr closes a connection when only a part", "a reply refused after a part of it was sent left a torn message in the stream"),
("C26", "rmSrv closes the connections", "the connections of a removed service stayed in use with a dangling service"),
("C26", "CCommMgr sends what it accepted", "pending replies were dropped when the client shut down its sending side"),
("C26", "CCommMgr reads from a connection that is made", "an outgoing connection made at once was never read from"),
("C26", "an empty reply is not", "an empty reply closed the connection depending on a stale errno"),
("C26", "CCommMgr accepts as many", "one client more than configured was accepted"),
("C26", "CCommMgr refuses connections beyond", "a descriptor above the table wrote outside of it"),
("C26", "CCommMgr closes a connection it cannot watch", "a connection that could not be registered leaked"),
]
FIXED += [
("C27", "a CNetWorker session holds", "the session of an accepted connection carried the descriptor of the wake-up event: replies failed and a failure closed the event"),
("C27", "CNetWorker closes a connection when only a part", "a reply refused after a part of it was sent left a torn message in the stream"),
("C27", "an empty CNetWorker reply", "an empty reply was refused or accepted depending on a stale errno"),
("C27", "a CNetWorker session only reaches", "a handler that closed and connected read freed memory, and a reply to an old session went to another connection"),
("C27", "CNetWorker sends what it accepted", "pending replies were dropped when the client shut down its sending side"),
("C27", "CNetWorker reads from a connection that is made", "an outgoing connection made at once was never read from"),
("C27", "CNetWorker refuses connections beyond", "a descriptor above the table was written outside of it"),
("C27", "CNetWorker closes a connection it cannot watch", "a connection whose write interest could not be registered stayed open with bytes that never went out"),
]
FIXED += [("C26 C27", "no reply is accepted after", "a reply written while a closing one was still being sent cancelled the close"),]
FIXED += [
("C28", "CTask holds at most", "the queue accepted one task more than its limit"),
("C28", "worker pools start without", "a pool without an error handler called an undefined address when a request failed"),
("C28", "worker pools release a request", "every request refused by a full queue leaked"),
("C28", "CAnyWorkerPool sends its replies", "replies had neither start byte nor length, no client could frame them"),
]
FIXED += [
("C29", "datagrams up to the receive limit", "a datagram longer than the initial receive buffer was cut"),
("C29", "a datagram service without a package filter", "a datagram for a service without a filter dereferenced a null pointer"),
("C29", "a descriptor of a removed datagram service", "the buffer of a removed service, with its old limit, was used for a connection or service that got its descriptor"),
]
FIXED += [
("C30", "CTcpConnector is connected when", "a connection made at once was not usable for reading and was made again by the first write"),
("C30", "CTcpConnector connects with descriptors above", "select() on a descriptor above 1023 wrote outside of its fd_set"),
("C30", "CTcpConnector reports a write", "a write after a reset raised SIGPIPE and ended the process"),
("C30", "CUdpConnector::write reports", "a failed write returned 0"),
("C30", "CUdpConnector::connect closes", "connecting again leaked the descriptor"),
("C30", "CUdpConnector::connect works on a host", "without a private address the default local address was a null pointer"),
]
FIXED += [
("C31", "assigning a database result to itself", "assigning a result to itself freed it"),
("C31", "using a database client before Init", "use, query or escaping before Init called into a null handle"),
("C31", "a failed connect to the database", "a failed connect never closed the handle"),
("C31", "a statement after a failed one", "a failed statement closed the connection and the next one used the closed handle"),
("C31", "a lost database connection without", "without a selected database a lost connection was reported instead of retried"),
("C31", "results of several statements", "results left by a multi-statement query made the next query fail"),
("C31", "the number of affected rows", "more than 2^31 affected rows became a wrong number"),
("C31", "escape_string reconnected", "the next statement ran without the database in use"),
("C31", "a reconnect after a second Init", "statements on the new server ran in a database of the old one"),
("C31", "a failed selection of the database", "mysql_error and later calls used the closed handle"),
("C31", "setCharSet used the closed", "changing the character set with a database that cannot be selected left a closed handle in use"),
]
FIXED += [
("C33", "a joined or ended thread object", "destroying or stopping a thread object after join, or after a detached thread had ended, detached or cancelled whatever thread had its id by then"),
("C33", "stopping a task queue left", "a worker cancelled while it waits for a task left the queue locked, so the other workers and dispatch hung"),
("C33", "destroying a task queue with", "destroying a task queue with running workers hung, or freed what they went on using"),
("C33", "destroying a worker pool", "destroying a pool freed its workers while they served requests"),
("C33", "a worker cancelled while it posts", "stopping a pool left the loop's message lock held by a thread that had ended"),
("C33", "a constructor that throws", "after a constructor threw every later use of the singleton hung"),
("C18", "clearing a full block queue", "push went on waiting after the full queue had been cleared"),
("C18", "an exception or cancelled thread", "an item that cannot be copied, or a thread cancelled while it waits, left the queue locked"),
]
FIXED += [
("C20", "shared memory that failed to attach", "a segment that could not be attached was written through a wild pointer, and an object set up again on other memory went on using the old one with the new bounds"),
]
FIXED += [
("C34", "a replaced package filter was never deleted", "every call of setProcessor or setPkgFilter for the same service left the filter it replaced allocated"),
]
FIXED += [
("C23", "the asynchronous log lost the buffer it could not write", "when the file could not be opened or written (missing directory, full disk, no descriptors) flush dropped the accepted lines silently, and after one failed write nothing was ever written again"),
]
FIXED += [
("C17", "two parts of over 4 GB together passed as a short message", "the lengths of the two parts were added in 32 bits, so a message of 4 GB and more was taken for a short one and copied over everything behind the queue"),
]
FIXED += [
("C16", "connection buffers of no or more than a gigabyte of initial size could not grow", "with an initial size of 0 appending data never ended (0 doubled is 0) and the empty buffer failed an assertion; above a gigabyte the doubled size overflowed and the allocation threw"),
]
FIXED += [
("C35 C29", "Bind, Connect and SendTo took a host", "a host that is no dotted address was taken for 255.255.255.255: a UDP socket was bound to it and success reported"),
("C35", "SetFileLimit and SetCoreLimit lowered", "raising the soft limit lowered the hard limit to the same value, so that a process without privileges could not raise it again"),
("C11", "getCookie of an int was ambiguous", "two overloads of getCookie took an int, so asking for a cookie as an int did not compile, and none took an unsigned short"),
]
FIXED += [
("C33", "CTask::run reports a worker thread", "run returned 0 although worker threads could not be started, so accepted tasks were never run"),
("C33", "CAsyncLog::init reports a writer thread", "init returned true although the thread that writes the log could not be started"),
("C33", "CNetWorkerMgr::start fails when a worker", "the manager ran although a worker thread could not be started, and handed it connections that nobody serves"),
("C33", "a thread object started again forgets", "getPid of a thread object that was started again gave the kernel id of its last thread"),
]
