# ------------------------------------------------------------------ HTTP
prop("A01", "No allocation is sized by a number the peer merely declares",
     "While reading a request, a response, a body, a WebSocket frame or a message, every allocation is bounded by a constant or by the number of bytes the peer has already sent. A length announced in a header or frame header never reserves memory by itself.",
     ["inputs"], "every byte sequence a peer can send, every announced length up to 2^64-1",
     "A test would have to announce huge lengths on every path; the existing tests use lengths of a few bytes.",
     [R, S, B, F, M], [("incremental reads into growing buffers", F + ", " + B)])
# ------------------------------------------------------------------ WebSocket
prop("W01", "WebSocket handshake: upgraded exactly when valid, 400 otherwise",
     "Upgrading a connection succeeds exactly for requests that carry Upgrade: websocket, a Connection header containing upgrade, and a Sec-WebSocket-Key - header names and tokens compared without regard to case - and only after the complete 101 response has reached the transport. Every other request is answered with a 400 response and yields no WebSocket, and no input or transport failure panics the process.",
     ["inputs", "fault_sequences"], "every header map; a write failure at every point of the response",
     "The tests exercise the key digest only; header spelling, missing headers and write failures are unbounded.",
     [U, C], [("should_upgrade / perform_upgrade", U), ("Stream::upgrade", C)])
prop("W02", "The handshake response proves the server read the client's key",
     "Every 101 response carries Upgrade: websocket, Connection: Upgrade and a Sec-WebSocket-Accept value which is the padded standard base64 of the SHA-1 digest of the request's own Sec-WebSocket-Key followed by the protocol's GUID.",
     ["inputs"], "every key value and every header map",
     "One key is tested; the digest must be of the very header value received, for every value.",
     [U], [("compute_accept_header", U)])
prop("W03", "Frame headers are decoded as RFC 6455 says",
     "For every frame header, the decoder reports the FIN and RSV bits, opcode and payload length that RFC 6455 assigns to those bytes, in the 7, 16 and 64 bit forms (network byte order). No valid masked client frame is refused.",
     ["inputs"], "all 65536 first-two-byte values and every extended length",
     "Unit tests decode a handful of frames; the header space is 2^16 times the length space.",
     [F], [("Frame::parse", F)])
prop("W04", "Client frames must be masked and are unmasked with their own key",
     "A frame with a payload that is not masked is never accepted. In an accepted frame byte i of the payload is byte i on the wire xor byte i mod 4 of the masking key, for every payload length and key.",
     ["inputs"], "every masking key, payload and payload length",
     "Tests cover one or two keys and lengths; the law is for every index and key.",
     [F], [("unmasking loop", F)])
prop("W05", "Frames the server sends are well-formed, minimal and unmasked",
     "Every frame written has FIN set, no RSV bits, the opcode of its kind, no mask, the shortest of the three length encodings that fits (7 bit up to 125, 16 bit up to 65535, else 64 bit, network byte order), and then exactly the payload.",
     ["inputs"], "every message kind and every payload length",
     "Tests send short messages; boundaries at 125/126 and 65535/65536 and beyond are not sampled.",
     [F, WS, W], [("frame formatting", F), ("send", WS)])
prop("W07", "Reading a frame consumes exactly that frame, however it is chunked",
     "Decoding a frame consumes exactly its header, key and payload bytes - never bytes of the next frame - and does not depend on how the transport splits the stream: a short read is never taken for the whole, and a stream that ends inside a frame never yields a frame.",
     ["inputs", "schedules"], "every frame, every way of splitting the byte stream, every truncation point",
     "Tests read from in-memory buffers, which deliver everything at once.",
     [F, M, W], [("read_exact / bounded reads", F)])
prop("W08", "Messages are assembled exactly from their frames",
     "A delivered message is one unfragmented frame, or a data frame followed by continuation frames up to the one with FIN, with the payloads joined in order and the kind of the first frame. Continuations without a start, data frames inside a fragmented message and fragmented control frames are never delivered as messages, and every well-formed frame sequence is delivered.",
     ["histories", "inputs"], "every sequence of frames (opcode, FIN, payload), of any length",
     "The sequences are unbounded; the tests do not fragment messages.",
     [M], [("Message::next", M)])
prop("W09", "Text messages are valid UTF-8, byte for byte what was sent",
     "A text message is delivered only if the joined payload is valid UTF-8 (a character may be split between fragments), and then carries exactly those bytes; invalid UTF-8 is an error, never replaced or dropped. Other kinds are delivered as raw bytes.",
     ["inputs"], "every payload, split into frames anywhere including inside a character",
     "Tests use ASCII in single frames.",
     [M], [("String::from_utf8 on the joined payload", M)])
prop("W10", "Every ping is answered by a pong with the same payload",
     "When a ping arrives, a pong carrying the ping's payload is written before anything else is read, and the ping is also delivered. Nothing else triggers a pong.",
     ["histories", "inputs"], "every ping payload and every history before it",
     "Needs a live peer; the tests have none.",
     [W], [("iterator over incoming messages", W)])
prop("W11", "A WebSocket that closed or failed stays closed",
     "After the peer's close frame, a protocol error or the end of the stream, the WebSocket yields no further message - at most reports that the connection is closed - and nothing more is read from the connection, by this value or by a copy made of it afterwards; the close is answered with one close frame, and the caller is told of the close or the error.",
     ["histories", "fault_sequences"], "every history of messages, errors and closes",
     "Depends on what happened before; the tests never close a connection.",
     [W], [("state of the WebSocket", W)])
prop("W12", "Each frame is handed to the transport in a single write",
     "Sending a message hands the complete frame - header and payload - to the transport in exactly one write, so frames sent by processes sharing the connection do not interleave, and a send reports success only if all of it was written.",
     ["schedules", "fault_sequences"], "every interleaving of senders, every write outcome",
     "No test has two senders.",
     [WS, F, W], [("one buffered write per frame", WS)])
prop("W13", "No WebSocket peer can panic the process",
     "Whatever bytes a peer sends, and whenever it stops reading or disappears, reading, answering, sending and closing return values or errors; they never panic.",
     ["inputs", "fault_sequences"], "every byte stream and every failure point",
     "Failure points are unbounded and the tests have no failing transport.",
     [F, M, W, WS, U], [("error propagation", W)])
prop("W14", "Every message is sent as the frame of its own kind and payload",
     "Text, binary, ping and pong messages become frames with opcodes 1, 2, 9 and 10 and exactly their payload (none when absent); close becomes a close frame.",
     ["inputs"], "every message value",
     "Tests send one or two kinds.",
     [F, M], [("message to frame conversion", F)])
prop("H01", "No HTTP peer can panic the process",
     "Whatever bytes a peer sends as a request or a response, and wherever the stream ends or fails, parsing the head and reading the body return a value or an error; they never panic.",
     ["inputs", "fault_sequences"], "every byte stream, every chunking, every point of failure",
     "The tests parse a few well-formed messages.",
     [R, S, B], [("Request::parse", R), ("Response::parse", S), ("Body::read / into_bytes / into_string", B)])
prop("H02", "A request is parsed faithfully",
     "A parsed request has the method, target URL and exactly the header names and values that were on the wire; an origin-form or absolute target and CONNECT give the URL the Host header and target denote. The head ends at the first blank line and is the bytes of the stream in order; what follows it is the body. A request is refused only for a reason found in the message (malformed head, bad header text, missing Host, bad URL) or a transport error, and 'no request' is reported only at the end of the stream.",
     ["inputs"], "every request head, every target form, every header list",
     "The tests parse two requests with a couple of headers.",
     [R], [("Request::parse", R), ("url_from_httparse_req", R)])
prop("H03", "A body reads exactly the bytes that belong to it",
     "Reading a body yields, in order and without loss or repetition, the bytes of its source up to its declared length and then the end - for every sequence of reads with buffers of every size. Nothing beyond the declared length is consumed, a body of unknown length reads to the end of its source, and into_bytes / into_string return all of it (text only if it is UTF-8).",
     ["inputs", "histories"], "every length, every source, every sequence of read sizes",
     "Sequences of partial reads are unbounded; the tests read short bodies at once.",
     [B], [("Read for Body", B), ("into_bytes / into_string", B)])
prop("H04", "Content-Length frames the body",
     "A received message's body has as its length the value of the Content-Length header, whatever the case of the header's name, with the bytes right after the head as its source; without the header the length is unknown.",
     ["inputs"], "every header list and every value",
     "The tests use one spelling and short bodies.",
     [R, S], [("content-length lookup", R)])
prop("H05", "Header names are compared without regard to case",
     "Wherever the library looks up a received header (Host, Content-Length, Connection, Upgrade, Sec-WebSocket-Key), the spelling of the name makes no difference.",
     ["inputs"], "every spelling of every header name the library reads",
     "2^n spellings per name; the tests use one.",
     [R, S, U], [("header lookups", R), ("header lookups", U)])
prop("H06", "Only complete, well-formed message heads are accepted",
     "A request or response is produced only after the parser accepted the whole head as complete; partial or malformed heads, and header values which are not UTF-8, are errors. Reading continues exactly until the blank line that ends the head.",
     ["inputs", "schedules"], "every byte sequence and every way of splitting it",
     "Malformed heads and split reads are not sampled.",
     [R, S], [("Request::parse", R), ("Response::parse", S)])
prop("H07", "Responses are written in HTTP/1.1 wire form",
     "Writing a response emits 'HTTP/1.1 <status> <reason>', every header of the response once as 'Name: value' in a reproducible (sorted) order, a blank line and then exactly its body; nothing else. Success is reported only when all of it was written; write_response, which cannot report, returns only then.",
     ["inputs", "fault_sequences"], "every status, reason, header map and body; a write failure at every point",
     "The header map and body are arbitrary; no test covers ordering or failing writes.",
     [ENC, C], [("Encoder::write_tcp_stream", ENC), ("Stream::respond", C)])
prop("H08", "Requests are written in HTTP/1.1 wire form",
     "Writing a request emits the method token, a space, the URL's path and (when there is one) '?' and its query, ' HTTP/1.1', every header once, a blank line and then exactly the body. Success is reported only when all of it was written.",
     ["inputs", "fault_sequences"], "every method, URL, header map and body; a write failure at every point",
     "No test writes a request with a query, extension method or failing transport.",
     [R], [("Request::write", R)])
prop("H09", "Method tokens survive parsing and writing",
     "Every method is written as its own token (GET, POST, HEAD or the extension token itself, unchanged), and parsing a token gives the method that is written as that token. Methods are never confused.",
     ["inputs"], "every method and every extension token",
     "The token space is infinite; the tests use GET and POST.",
     [R], [("Method::write", R), ("Method from token", R)])
prop("H10", "Builders set exactly what they are told to",
     "Building a request or response yields the given method, URL, status, reason, headers and body; each setter changes only its own part, later settings win, building succeeds when the required parts are present, and the message's accessors show those very parts.",
     ["inputs", "histories"], "every order and number of setter calls, every value",
     "Call orders are unbounded.",
     [RB, SB], [("RequestBuilder", RB), ("ResponseBuilder", SB)])
prop("H11", "Replacing or taking a body keeps the message consistent",
     "replace_body installs the new body, returns the old one and sets Content-Type from the new body, leaving every other header alone; take_body does the same with an empty body.",
     ["inputs", "histories"], "every message and every body",
     "Arbitrary bodies and header maps.",
     [R, S], [("replace_body / take_body", R), ("replace_body / take_body", S)])
prop("H12", "Body constructors declare exactly what they carry",
     "A body made from text carries exactly the bytes of that text and declares exactly their number; the empty body carries none; the library's 404 and 400 responses carry those status codes and a body.",
     ["inputs"], "every string, including non-ASCII text",
     "Length in bytes and in characters agree on the ASCII strings tests use.",
     [B, S], [("Body::from_*", B), ("err_404 / err_400", S)])
prop("H13", "A response is parsed faithfully",
     "A parsed response has the status code, reason and exactly the header names and values that were on the wire; the head ends at the first blank line and what follows it is the body.",
     ["inputs"], "every response head",
     "The tests parse no response.",
     [S], [("Response::parse", S)])
# ------------------------------------------------------------------ server
prop("S01", "The server keeps accepting whatever a single connection does",
     "serve_router, Router::run and for_each never return and never panic: an accept that fails is survived, and every accepted connection is handed to exactly one freshly spawned process that is not linked to the server. The accepting process itself never reads from, writes to or runs application code for a connection, so no slow, malformed or crashing peer or handler can stop or delay the others.",
     ["inputs", "schedules", "fault_sequences"], "every sequence of accepted connections, accept failures, peers and handlers",
     "A test would have to crash, stall and fail at each point while watching other connections; no test starts the server.",
     [C, RT], [("Core::serve_router / Core::for_each", C), ("Router::run", RT)])
prop("S02", "Anything that is not a request is answered 400 and reaches no handler",
     "In serve_router, Router::run and for_each the process of a connection parses one request from that very connection. When that fails, for whatever reason, it answers with a complete 400 response (unless the transport fails), runs no matcher and no handler, and does not panic.",
     ["inputs", "fault_sequences"], "every byte sequence a client sends, ended at any point; a write failure at every point of the answer",
     "The server loops are not exercised by any test.",
     [C, RT, L], [("Core::serve_router / Core::for_each", C), ("Router::run", RT), ("err_400", L)])
prop("S03", "Handlers survive the hop into the connection's process",
     "The matchers and handlers called in a connection's process are exactly the registered ones: each as what it was registered as, every handler together with its own route's matcher, in registration order; for_each calls the given function exactly once. A handler gets the request that was parsed, the stream of the connection it came from and the server's state.",
     ["inputs", "histories"], "every router (any number of routes) and every request",
     "Function pointers travel between processes as integers and are transmuted back; no test does this.",
     [C, RT], [("Router::as_ints / Router::from_ints", RT), ("spawned closures", C)])
prop("S04", "A connection given to a handler is answered at most once",
     "A Stream cannot be duplicated, and every operation that answers on it consumes it, so a handler can answer a request at most once; one such operation writes at most one response head.",
     ["inputs", "histories"], "every program that uses the public API",
     "It is a statement about all programs; a test can only show one that compiles.",
     [C], [("Stream::respond / Stream::upgrade", C)], technique="ownership check over the type-checked program, with abstract interpretation of the answering methods")
prop("S05", "The first matching route, and only it, handles a request",
     "For each request the registered routes' matchers are consulted in the order the routes were added; the handler of the first whose matcher accepts the request runs, exactly once, and no other. A handler whose matcher did not accept the request never runs, and no route is skipped.",
     ["inputs", "histories"], "every router (any number of routes, any matcher answers) and every request",
     "No test dispatches through a router; the number of routes and the answers are unbounded.",
     [RT, C], [("Router::respond / Router::route", RT)])
prop("M01", "URL matchers accept exactly the URLs with fitting segments",
     "Match::does_match accepts a URL exactly when its path has as many segments as were added with at(), in that order, and each fits: a static segment only the identical text (case included), a parameter anything, an integer segment only text that is a decimal integer (every 32-bit one). URLs without path segments match nothing.",
     ["inputs"], "every matcher and every URL",
     "One positive and one negative URL are tested.",
     [MU], [("Match::does_match", MU), ("Match::at, path, anything, any_integer", MU)],
     note="The path summary holds for any number of segments; it is compared with the specification on a finite quotient of matcher/URL pairs (every segment kind against 16 texts, all mismatched lengths up to 4).")
# ------------------------------------------------------------------ live view
LC = "puck_liveview/src/component/mod.rs"; LD = "puck_liveview/src/dom/element/diff/mod.rs"; LI = "puck_liveview/src/init.rs"; LL = "puck_liveview/src/dom/listener.rs"
LCS = "puck_liveview/src/dom/element/diff/changeset/mod.rs"; LSER = "puck_liveview/src/dom/element/diff/changeset/instruction_serializer.rs"; LH = "puck_liveview/src/html/mod.rs"; LJS = "puck_liveview/client/index.js"; LCM = "puck_liveview/src/client/mod.rs"
prop("L01", "Every rendering is pushed as the change from the one pushed before",
     "A live component's picture of the browser is what was pushed: the first push creates the first rendering from nothing, every later push is the difference from the rendering pushed last to the newest one, the newest rendering together with its listeners is then retained, and no update of the component goes unpushed while the connection lasts.",
     ["histories", "schedules"], "every component and every sequence of messages and browser events, of any length",
     "No test drives a component; the loop runs for an unbounded history.",
     [LC], [("manage / the component's loop", LC)])
prop("L02", "Each message and browser event reaches the component exactly once",
     "A message for the component is applied by exactly one call of its update, unchanged. A browser event is applied through the one registered listener whose name it carries, with the event its kind expects (click, submit, or input with the sent value). An event that names no listener, lacks its payload or is not understood changes nothing, and does not end or panic the component.",
     ["histories", "inputs"], "every component, every set of listeners, every message and every text a browser can send",
     "No test delivers events; listener tables and browser messages are unbounded.",
     [LC, LL], [("the component's loop", LC), ("Listener", LL)])
prop("L03", "A live connection's processes forward everything and all end with it",
     "Each live connection runs a component process and a process reading the browser. Every browser message is forwarded once, unchanged and in order; the component learns its own address before anything else can reach it. When the connection closes, both processes end; until then nothing the browser sends ends or panics either.",
     ["histories", "schedules", "fault_sequences"], "every order of messages, events, closes and failing sends",
     "It is about processes, failing sends and peers that vanish at any moment; no test starts them.",
     [LC], [("manage", LC)])
prop("L04", "First paint creates the whole tree exactly once, parents first",
     "The changeset from nothing to an element creates that element and every descendant exactly once: each under its own parent and after it, in document order, with its own id, tag name, attributes, text and listeners.",
     ["inputs"], "every element tree",
     "The tests create two or three fixed trees.",
     [LD], [("Element::diff against None", LD)],
     note="The summaries hold for any number of attributes, listeners and children; they are instantiated at a finite quotient of element shapes (every presence and count up to 3), and lifted to all trees by induction over the children.")
prop("L05", "After an update the element has the new tag, attributes and text",
     "Carrying out Element::diff's changeset on the old element leaves it with exactly the new element's tag name, attributes (changed, added and removed ones included) and text (also when it appears, disappears or becomes empty), whatever else changed at the same time.",
     ["inputs"], "every pair of old and new element",
     "The space of pairs of trees is unbounded; tests sample a few changes one at a time.",
     [LD], [("Element::diff", LD)],
     note="The path summaries of diff are instantiated at every class of every field and every two fields together.")
prop("L06", "Every instruction names the id its element carries at that moment",
     "In a changeset every instruction is addressed to the id its element carries in the browser when it is carried out - the old id until the id change, the new one afterwards - and every element ends with its new id.",
     ["inputs"], "every pair of old and new element, ids equal or different",
     "Ids shift whenever earlier siblings come and go; tests compare few fixed instruction lists.",
     [LD], [("Element::diff", LD)],
     note="One open finding (see known_findings.txt): ids reused while an earlier list of children grows.")
prop("L07", "After an update exactly the new element's listeners are attached",
     "Carrying out a changeset leaves each element with exactly the new rendering's listeners: new and changed ones are attached, vanished ones are removed, none twice.",
     ["inputs"], "every pair of old and new listener lists, together with any other change of the element",
     "Tests check one listener at a time.",
     [LD], [("Element::diff: listeners", LD)])
prop("L08", "After an update the element has the new children, in their order",
     "Carrying out a changeset leaves the element with the new element's children in their order, however many there were before: kept ones are updated in place, surplus ones are deleted, missing ones are created under this element. Children with keys that stay in place are updated to the child with the same key.",
     ["inputs"], "every pair of old and new lists of children, keyed or not",
     "The tests for keyed children are ignored upstream; lists are unbounded.",
     [LD], [("Element::diff: children", LD)],
     note="Instantiated at every pair of list lengths up to 3 (growing, shrinking, equal; keyed, unkeyed, mixed) and the classes of key sequences.")
prop("L09", "What has not changed yields no instruction",
     "A part of an element that did not change - name, text, attributes, listeners, id, list of children - yields no instruction, and an attribute whose value did not change is not set again. Equal trees yield an empty changeset.",
     ["inputs"], "every pair of old and new element",
     "Absence over all pairs of trees cannot be sampled.",
     [LD], [("Element::diff", LD)])
prop("L10", "Every node is rendered as the element it stands for",
     "Converting markup to a live element gives an element with the node's own tag name, attributes, text, listeners and children, each once and in order, as far as that kind of node can have them; no two elements of a rendering share an id. The builders append what they are given.",
     ["inputs"], "every kind of node, any number of attributes and children",
     "Four snapshots cover a handful of node kinds and shapes.",
     [LH, "puck_liveview/src/html/id.rs"], [("IntoWrappedBodyNode / WrappedBodyNode conversion", LH)],
     note="One open finding (see known_findings.txt): a Text node panics.")
prop("L11", "The browser shows what the changeset says",
     "Every instruction a changeset can contain reaches the browser once, in order, and the client carries it out exactly as it is meant: on the element it names, leaving that element's other attributes, text, children and listeners and every other element as they were - whatever text an attribute value, text or listener name consists of, and whatever instructions came before.",
     ["inputs", "histories"], "every changeset over every page",
     "No test runs the browser client, and the values it must not misread are arbitrary texts.",
     [LSER, LJS], [("InstructionSerializer", LSER), ("ws.onmessage", LJS)],
     note="The client's syntax tree is interpreted over an abstract document, for every kind of instruction on every kind of element, every pair of them, and every class of text its sources can tell apart.",
     technique="abstract interpretation of the serialiser's MIR and of the client's syntax tree over an abstract document")
prop("L12", "A browser event reaches the server as one message naming its listener",
     "A kind of listener waits for the browser's own event of that name (click, submit, input). When the event occurs on an element the client sends exactly one message the server understands: the listener's name, and for input what was typed, unaltered whatever they consist of. A submitted form does not leave the page.",
     ["inputs", "histories"], "every listener name and every typed text, whatever else the element listens for",
     "No test runs the browser client; names and typed texts are arbitrary.",
     [LJS, LCM, LL], [("ws.onmessage: attachListener", LJS), ("ClientMessage", LCM), ("Listener", LL)],
     technique="abstract interpretation of the client's syntax tree against summaries of the server's deserialiser")
prop("L13", "The page loads the client, which connects back to it",
     "The index page is sent as HTML and loads the client script mounted beside it exactly once; the script is sent as JavaScript; on any page it opens exactly one WebSocket, to the page's own host and path followed by ws, and listens on it.",
     ["inputs"], "every host and path the page can be mounted at",
     "No test serves these pages or runs the script.",
     [LI, LJS], [("index, js", LI), ("new WebSocket", LJS)],
     technique="abstract interpretation of MIR and of the client's syntax tree")
