PR = 'include/HXLibs/'
P = [
 dict(id='C01', title='Base64 and Base64Url are the RFC 4648 encodings and decode inverts encode',
  statement='For every byte string, Base64 encoding yields exactly the RFC 4648 section 4 text with padding, and Base64Url encoding yields exactly the RFC 4648 section 5 text without padding and with only the 64 URL-safe characters. Decoding a Base64Url encoding returns the original bytes. Decoding any other byte string never reads or writes outside its buffers.',
  over=['inputs'], q='every byte string of every length below 2^47, for encode, for decode of an encoding, and for decode of arbitrary text',
  why='The token test encodes a few short ASCII strings; lengths of every residue modulo 3, every byte value at every position, and malformed text to decode are not reached.',
  files=[PR+'net/protocol/codec/Base64.hpp', PR+'net/protocol/codec/Base64Url.hpp'], mech=[('three bytes to four characters loop with tail handling', 'Base64.hpp'), ('reverse table lookup', 'Base64Url.hpp')]),
 dict(id='C02', title='SHA-1 is FIPS 180-4 SHA-1 and the WebSocket accept key is derived from it',
  statement='For every message, in however many pieces it is supplied, the SHA-1 digest is the one FIPS 180-4 defines, including padding and the 64-bit message length. The WebSocket accept value computed for any client key is the Base64 text of the SHA-1 digest of that key followed by the fixed protocol GUID. No buffer is read or written outside its bounds.',
  over=['inputs', 'histories'], q='every message content and length, every way of splitting it into successive updates, and every client key',
  why='The existing tests only exercise it through a handshake with one length of key; block boundaries, split updates and padding corner lengths (55, 56, 63, 64 modulo 64) are not reached.',
  files=[PR+'net/protocol/codec/SHA1.hpp', PR+'net/protocol/websocket/WebSocket.hpp'], mech=[('block buffer and transform', 'SHA1.hpp'), ('accept key computation', 'WebSocket.hpp')]),
 dict(id='C05', title='Byte-order conversion is an exact involution',
  statement='Converting any value of any unsigned integer width to network byte order and back yields the value again, and the converted value has exactly the bytes of the original in the opposite order on a little-endian host. The same holds for enumerations and for every width from one to eight bytes.',
  over=['inputs'], q='every value of every supported width',
  why='No test exercises byte-order helpers directly; they are reached only for the few frame lengths the WebSocket tests send.',
  files=[PR+'utils/ByteUtils.hpp'], mech=[('byteswap and host/network conversion templates', 'ByteUtils.hpp')]),

 dict(id='C03', title='Every WebSocket message is sent as one well-formed RFC 6455 frame that carries it exactly',
  statement='Whatever message is sent through a WebSocket, as server or as client, directly or as a prepared view for many receivers, the bytes handed to the transport are exactly one RFC 6455 frame: final bit set, no reserved bits, the given opcode, the shortest of the three length forms with big-endian length, masked exactly when the sender is a client, and with a payload that, once unmasked with the transmitted key, is the message byte for byte. No buffer is accessed outside its bounds.',
  over=['inputs'], q='every opcode, every message content and length below 2^47, every masking key, server and client',
  why='The tests send a handful of short texts over a live connection; the length-form boundaries 125/126, 65535/65536, and masking of every residue modulo 4 are not covered.',
  files=[PR+'net/protocol/websocket/WebSocket.hpp', PR+'utils/ByteUtils.hpp'], mech=[('frame header and masking', 'WebSocket.hpp sendPacket'), ('prepared frames', 'WebSocket.hpp makePacketView, sendPacketView')]),
 dict(id='C04', title='A WebSocket receiver reports exactly the messages the byte stream carries',
  statement='For every byte stream and every way it arrives (bytes read ahead during the upgrade, reads cut inside a header, timeouts between frames), receiving yields exactly the sequence of messages RFC 6455 assigns to it: a data message is the concatenation of the unmasked payloads of its fragments with the type of the first one, control frames are delivered on their own even between fragments and leave the partial message intact, and exactly the bytes of each frame are consumed. Frames that break the protocol (wrong masking, reserved opcode, fragmented or oversized control frame, misplaced continuation) are never delivered and are reported as an error; nothing else is. The higher-level receive answers each Ping with a Pong and each Close with a Close carrying the same payload before it reads on, and returns only a message of the wanted type.',
  over=['inputs', 'histories'], q='every byte stream, every split into reads, every amount read ahead, every position of a timeout, any number of fragments, server and client',
  why='The tests exchange a few unfragmented short messages; fragmentation, interleaved control frames, extended lengths, hostile headers and split reads are not reached.',
  files=[PR+'net/protocol/websocket/WebSocket.hpp'], mech=[('frame parser and fragment accumulation', 'WebSocket.hpp recvPacket'), ('read-ahead buffer', 'WebSocket.hpp recvLinkTimeout, fullyRecv'), ('control frame handling', 'WebSocket.hpp recv')],
  note='Not claimed: reserved bits of a received frame are not examined by the library; an I/O error of the transport ends the connection.'),
 dict(id='C06', title='Header field names are matched without regard to ASCII case',
  statement='Two header names select the same entry of a header map exactly when they have the same length and the same bytes up to ASCII letter case. Names that are equal in this sense have equal hashes, whatever bytes they contain; no other names compare equal.',
  over=['inputs'], q='every pair of byte strings of every length',
  why='The tests look up a few names in the capitalisation they were sent with; agreement of hash and equality on all names, and bytes just outside the letter ranges, are not covered.',
  files=[PR+'net/protocol/http/Http.hpp'], mech=[('TransparentCaseInsensitiveHash, TransparentCaseInsensitiveEqual', 'Http.hpp')]),
 dict(id='C07', title='A request is read from the byte stream exactly as it was sent, however it is split into reads',
  statement='For every stream of request bytes and every way it is split into reads: the first line gives its blank-separated words (a line of fewer than three is refused), each header line gives the lower-cased name before its first colon and the value after it without the blanks and tabs around it (the first of repeated names counts, a line without a name continues the last value, and is refused if there is none), the head ends at the first empty line, and the body is exactly the bytes that Content-Length (1 to 18 decimal digits, anything else is refused) or the chunked encoding (1 to 15 hexadecimal digits per size, extensions and trailers skipped, every chunk followed by a line end, anything else is refused) assign to it. More is read only when the message is not complete, nothing already read is lost, and every byte after the message is kept for the next one. Nothing is read outside the receive buffer.',
  over=['inputs', 'histories'], q='every content of the receive buffer, every state an earlier call can leave, any number of lines, fields and chunks',
  why='The tests send a few complete well-formed requests over a live connection; reads cut inside a line, a chunk or a line end, pipelined requests, trailers and malformed lengths are not reached.',
  files=[PR+'net/protocol/http/Request.hpp', PR+'container/ArrayBuf.hpp', PR+'utils/StringUtils.hpp'], mech=[('head and body parsers', 'Request.hpp _parserReqHead, _parserReqBody'), ('length texts', 'Request.hpp/Http.hpp parseContentLength, parseChunkSize'), ('receive buffer', 'ArrayBuf.hpp')],
  note='Each parser call is proved against a ghost reading of the stream, and the loops around the calls (read more, call again) against those contracts. Reading a request body straight into a file or a coroutine sink, and event streams, are not under contract. Messages with both Content-Length and Transfer-Encoding, and lines longer than the receive buffer, are outside the contract.'),
 dict(id='C08', title='A response is read from the byte stream exactly as it was sent, however it is split into reads',
  statement='For every stream of response bytes and every way it is split into reads: the status line gives the version, the status code and the whole reason phrase (possibly empty), each header line gives the lower-cased name before its first colon and the value after it without the blanks and tabs around it (the first of repeated names counts, a line without a name continues the last value, and is refused if there is none), the head ends at the first empty line, and the body is exactly the bytes that Content-Length (1 to 18 decimal digits, anything else is refused) or the chunked encoding (1 to 15 hexadecimal digits per size, extensions and trailers skipped, every chunk followed by a line end, anything else is refused) assign to it. More is read only when the message is not complete, nothing already read is lost, and every byte after the message is kept. Nothing is read outside the receive buffer.',
  over=['inputs', 'histories'], q='every content of the receive buffer, every state an earlier call can leave, any number of lines, fields and chunks',
  why='The tests receive a few complete well-formed responses over a live connection; reads cut inside a line, a chunk or a line end, empty reason phrases, trailers and malformed lengths are not reached.',
  files=[PR+'net/protocol/http/Response.hpp', PR+'container/ArrayBuf.hpp', PR+'utils/StringUtils.hpp'], mech=[('head and body parsers', 'Response.hpp _parserResHead, _parserReqBody'), ('length texts', 'Http.hpp parseContentLength, parseChunkSize'), ('receive buffer', 'ArrayBuf.hpp')],
  note='Each parser call is proved against a ghost reading of the stream, and the loops around the calls (read more, call again) against those contracts. Reading a request body straight into a file or a coroutine sink, and event streams, are not under contract. Messages with both Content-Length and Transfer-Encoding, and lines longer than the receive buffer, are outside the contract.'),
 dict(id='C09', title='URLs are taken apart at the right places',
  statement='For every URL text: the path is everything from the first "/" after the scheme separator (or from the start if there is no "://") and "/" if there is none; the scheme is the text before the first "://", and a URL without one is refused; removing the scheme leaves exactly the text after it; the origin of a ws or wss URL is http or https followed by "://" and the authority, and any other scheme is refused; account and password are the text around the nearest ":" before the first "@", reported only if no "/" lies between that ":" and the "@"; each of the known scheme names maps to its standard port and any other text is read as a decimal port; the service of a URL is the port of its authority, else its scheme, else http, whatever its path, query or fragment contain. Nothing is read outside the given text.',
  over=['inputs'], q='every URL text of every length (service: every text of at most 24 bytes)',
  why='The URL test prints results for a handful of well-formed URLs.',
  files=[PR+'net/protocol/url/UrlParse.hpp'], mech=[('UrlParse, UrlInfoExtractor::parseUrl', 'UrlParse.hpp')],
  note='The service contract is a bounded stand-in (URLs of at most 24 bytes). The host name is found by std::regex and is not decided.'),
 dict(id='C10', title='String and number utilities compute what their names say on every input',
  statement='Case conversion changes exactly the ASCII letters of the other case. Splitting a text yields, in order, exactly the pieces between delimiters (empty ones kept or dropped as asked), each with its true offset where offsets are reported; splitAtFirst cuts at the first occurrence and rfindAndTrim after the last; append adds exactly the given bytes. Hexadecimal conversion of any 64-bit number gives its shortest upper-case form, and reading a digit string in base 10, 16 or 36 gives its value modulo 2^64. No function reads outside its arguments, whatever the bytes.',
  over=['inputs'], q='every text of every length, every one-byte delimiter (splitAtFirst: one or two bytes), every 64-bit number',
  why='There is no test of these utilities beyond one printed split; empty texts, leading, trailing and doubled delimiters, bytes above 127 and 64-bit limits are not covered.',
  files=[PR+'utils/StringUtils.hpp', PR+'utils/NumericBaseConverter.hpp'], mech=[('split, splitWithPos, splitAtFirst, rfindAndTrim, append, toLower, toUpper', 'StringUtils.hpp'), ('hexadecimalConversion, strToNum', 'NumericBaseConverter.hpp')]),
]
NA = [
 dict(id='C11', title='JSON text written from a value reads back as an equal value',
  statement='For every value of a reflected type, the JSON text written for it is well-formed RFC 8259 text, and reading that text yields an equal value. Reading any other byte string either yields a value or reports an error, without reading outside the text.',
  over=['inputs'], q='every value of every supported member type and every byte string', why='The JSON tests round-trip a handful of values.',
  files=[PR+'reflection/json/JsonWrite.hpp', PR+'reflection/json/JsonRead.hpp', PR+'log/serialize/ToString.hpp'], mech=[('writer', 'ToString.hpp, JsonWrite.hpp'), ('reader', 'JsonRead.hpp')],
  reason='The reader recurses over nested values and depends on std::regex, std::from_chars for floating point and std::unordered_map; the writer on std::to_chars/std::format. Each would be a trusted contract, so no obligation about the real text would remain.'),
 dict(id='C12', title='A perfect hash map finds exactly the keys it was built from',
  statement='For every set of distinct keys, looking up one of them gives its value and looking up any other key finds nothing, for the map built at compile time and for every sequence of lookups and assignments.',
  over=['inputs'], q='every set of distinct keys and every looked-up key', why='The tests look up the keys of a few fixed maps.',
  files=[PR+'container/CHashMap.hpp', PR+'container/CPmhTable.hpp', PR+'container/CPmhBucket.hpp', PR+'meta/Hash.hpp'], mech=[('seed search and bucket table', 'CPmhTable.hpp'), ('lookup', 'CHashMap.hpp')],
  reason='The tables are built by constant evaluation in the compiler: no code for the search reaches the extracted IR, and a contract over one instantiated map would speak of that key set only.'),
 dict(id='C14', title='Sending hands the transport every byte in order, receiving exactly fills its buffer',
  statement='However the kernel splits transfers: sending returns only after every byte was accepted exactly once and in order, or reports an error or timeout; a full receive fills the whole buffer with the next bytes of the stream or reports the end, an error or a timeout; it never loops without progress.',
  over=['inputs', 'faults'], q='every length, every sequence of partial transfers, errors, timeouts and ends of stream', why='Loopback tests practically never see a partial transfer.',
  files=[PR+'net/socket/IO.hpp', PR+'coroutine/task/AioTask.hpp'], mech=[('fullySend, fullyRecv, sendLinkTimeout', 'IO.hpp'), ('request preparation', 'AioTask.hpp')],
  reason='not yet under contract'),
 dict(id='C16', title='Routing selects the most specific registered endpoint and binds its path parameters',
  statement='For every set of registered paths and every request path, the endpoint selected is the one whose pattern matches, a literal segment taking precedence over a parameter and that over a wildcard, with every parameter bound to exactly the text of its segment; a request no pattern matches gets 404.',
  over=['inputs', 'configs'], q='every set of patterns and every request path', why='The tests register a handful of routes and request matching paths.',
  files=[PR+'net/router/RouterTree.hpp', PR+'net/router/Router.hpp', PR+'net/router/RequestParsing.hpp', PR+'container/RadixTree.hpp'], mech=[('tree insertion and recursive matching', 'RouterTree.hpp, RadixTree.hpp')],
  reason='The tree is an inductively defined heap structure of unordered_maps and shared pointers walked by recursion; the verifier has no separation logic or recursive heap predicates, so the shape invariant cannot be stated.'),
 dict(id='C17', title='A token is accepted exactly when it was issued under the same key and has not expired',
  statement='A token made from any value and checked under the same key before it expires yields that value; a token that was altered in any bit, made under another key, or has expired is rejected.',
  over=['inputs'], q='every value, key, time and alteration', why='The test checks a few tokens.',
  files=[PR+'net/token/Token.hpp', PR+'net/token/tools/Aes256Gcm.hpp'], mech=[('token layout', 'Token.hpp'), ('AES-256-GCM through OpenSSL', 'Aes256Gcm.hpp')],
  reason='Authenticity rests on AES-256-GCM inside OpenSSL (external, not under contract) and on JSON serialisation (C11); what is left in the repository is glue. Its Base64Url layer is C01.'),
 dict(id='C20', title='Coroutine tasks run to completion once, deliver results and exceptions to their awaiter, and free their frames',
  statement='In every interleaving of suspension and resumption, an awaited task runs its body exactly once, its awaiter resumes exactly once with the result or the exception, whenAll resumes after all and whenAny after the first of its members, and every frame is destroyed exactly once.',
  over=['schedules', 'histories'], q='every nesting of tasks and every completion order', why='The tests run a few small task trees on one schedule.',
  files=[PR+'coroutine/task/Task.hpp', PR+'coroutine/promise/Promise.hpp', PR+'coroutine/awaiter/WhenAny.hpp', PR+'coroutine/awaiter/WhenAll.hpp', PR+'coroutine/loop/EventLoop.hpp'], mech=[('symmetric transfer', 'PreviousAwaiter.hpp'), ('event and timer loops', 'EventLoop.hpp, TimerLoop.hpp')],
  reason='The property is about resumption order across frames (temporal, whole-program). Function contracts over un-lowered coroutines treat co_await of a task as a call, which assumes this very property; it is a stated assumption of C03, C04, C07 and C08.'),
 dict(id='C23', title='A thread pool runs every accepted task exactly once and stops without losing or blocking',
  statement='In every interleaving of submitters, workers, the scaling thread and shutdown, every accepted task runs exactly once, its future becomes ready with its result or exception, and stopping returns after the running tasks.',
  over=['schedules'], q='every interleaving of submissions, worker starts and exits, and shutdown', why='Stress tests sample a few interleavings.',
  files=[PR+'container/ThreadPool.hpp', PR+'container/SafeQueue.hpp', PR+'container/FutureResult.hpp'], mech=[('queue, worker and manager threads', 'ThreadPool.hpp')],
  reason='Needs a concurrent program logic (locks, condition variables, atomics, liveness); the deductive verifier here is sequential, and none of the installed ones takes C++ threads.'),
 dict(id='C24', title='Parameters bound to SQL statements are read back unchanged and never become SQL text',
  statement='Every value bound to a statement is stored and read back unchanged, and no bound text changes the statement that is executed; the statement text generated from a query expression means that expression.',
  over=['inputs'], q='every bound value and every query expression', why='The tests run a few statements with plain values.',
  files=[PR+'db/sql/Dml.hpp', PR+'db/sqlite3/SqliteStmt.hpp', PR+'db/sqlite3/MakeCreateDbSql.hpp'], mech=[('query builder', 'Dml.hpp'), ('binding', 'SqliteStmt.hpp')],
  reason='The statement texts are produced by constant evaluation and the meaning of a statement is inside SQLite (external); a contract on the binding calls would only restate the call.'),
]
