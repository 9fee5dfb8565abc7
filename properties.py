PARSER = ["sip/parser/*.go", "core/CoreLexer.go", "core/CoreParser.go", "core/HostNameParser.go", "core/StringTokenizer.go"]

prop("P01", "Parsing arbitrary text never panics",
     "Given any string whatsoever, parsing it as a header line (any header the library has a parser for), request line, status line, URI or address returns a value or an error and never panics. Given any byte sequence, splitting it into a start line, headers and body does not panic either.",
     ["inputs"], "every string for each line parser and each text-parsing method of the message parser, every byte sequence for the whole-message parser",
     "The tests feed a few well-formed lines per header; a panic needs a truncated or odd line at one particular place in one of 55 parsers.",
     PARSER, [("bounds-checked look-ahead", "core/CoreLexer.go LookAheadK"), ("dynamic type dispatch of parsed values", "sip/parser/URLParser.go UriReference"), ("body bound check", "sip/parser/StringMsgParser.go ParseSIPMessageFromByte")],
     "proof", "abstract interpretation of go/ssa: intervals, difference bounds, nilness, dynamic types",
     "Every nil dereference, index, slice, type assertion, map write, allocation size and panic call reached from the entry points is excluded on an unconstrained input. Trusted: go/ssa, the models of standard library calls, no string longer than 2^48 bytes. Attaching parsed headers to the message object is not analysed; inside the whole-message run each header parser is replaced by the contract established for it separately.")

prop("P02", "Parsing arbitrary text terminates",
     "For every input string, each header-line, start-line, URI, address and whole-message parser returns after finitely many steps: every iteration over the input consumes input or otherwise moves towards a bound fixed by the input length.",
     ["inputs"], "every string for each parser entry point",
     "A parser that stops consuming on one unusual byte hangs only on that byte; tests sample a handful of lines and have no notion of progress.",
     PARSER, [("consume in every iteration", "core/CoreLexer.go, sip/parser/ParametersParser.go"), ("end-of-input test", "core/CoreLexer.go HasMoreChars")],
     "proof", "abstract interpretation with a progress measure at loop back edges",
     "Every loop reached has, at every back edge, a state that strictly decreases a lexicographic measure over scanner position, lengths and counters; recursion is rejected. Same trust base as P01.")

prop("P03", "A parse failure anywhere is reported to the caller",
     "When any part of the text being parsed is rejected (a required token or separator is missing, a nested host, URI, parameter or number is malformed, or a value is refused by the header being filled in), the parse reports an error instead of returning a header, URI or message built from the accepted remainder. The only exceptions are a failure the application's own parse-exception listener chooses to ignore and a deliberate second attempt at the same text.",
     ["inputs"], "every string for each parser entry point and every path on which a nested step fails",
     "A dropped error shows up only on malformed text that fails at exactly that step; the tests almost only parse valid lines.",
     PARSER, [("errors returned from every nested step", "sip/parser/*.go, core/HostNameParser.go")],
     "proof", "error-propagation typestate over an abstract interpretation of go/ssa",
     "In each scanner and parser function, on every path on which a called step has returned a non-nil error, the function's own error result is not nil. Looking ahead past the end, rewinding to a saved position, taking the rest of the line verbatim, and asking the listener are the accepted recoveries. Does not decide whether a step that ought to fail does fail. Same trust base as P01.")

DATA = ["core/Host*.go", "core/NameValue*.go", "sip/address/*.go", "sip/header/*.go", "sip/message/*.go"]

prop("P10", "Every attribute reads back as it was set and leaves the others alone",
     "For every type of the URI, header, message and RTP packages with a setter SetX and a getter GetX or IsX, from every constructor-built or filled-in object: after SetX accepted a value, GetX returns that value (host names, language ranges and the transport parameter may be trimmed or put in lower case, an IPv6 reference may get its brackets, and the URI of an authentication header, which is kept as text, comes back as an equivalent object), and every other getter that is not defined in terms of the same piece of data returns exactly what it returned before.",
     ["inputs"], "every argument value, every getter/setter pair of every data type",
     "There are over 400 attributes and thousands of pairs; the tests set a few values and look at the printed header only.",
     DATA + ["rtp/*.go"], [("parameter lists looked up by name", "core/NameValueList.go"), ("attributes stored as header parameters", "sip/header/*Impl.go, sip/address/SipURIImpl.go")],
     "proof", "abstract interpretation of go/ssa with symbolic-content string domain",
     "Each setter/getter pair is interpreted on an arbitrary argument and the abstract values are compared. Interface-typed arguments are represented by one implementation. The overlap table (getters that are views of the same data) is trusted. Trusted: go/ssa, models of the standard library.")

prop("P11", "Setters refuse exactly the values outside the documented range, and a refusal changes nothing",
     "Setters that can report an error accept exactly the values their interface allows: Content-Length, CSeq number, Expires, Min-Expires, Contact expires, Retry-After and its duration, MIME version numbers and Reason cause take 0 and above; Max-Forwards takes 0..255; the nonce count 0..4294967295; Via ttl -1..255; URI ttl, RAck numbers, RSeq, and the Subscription-State expires and retry-after take 1 and above; a Warning code 300..399; q values 0..1; the timestamp 0 and above (its delay also -1); methods, option tags, event types and ids, encodings, tags, call identifiers, content and disposition types, transport, maddr, branch, received, realm, nonce, opaque, algorithm, domain, subject, organization, priority, purpose, comments, reason codes, warning agents and texts must not be empty. When any one-argument setter reports an error, every getter of the object returns what it returned before the call.",
     ["inputs"], "every argument value of every setter with an error result, on fresh and filled-in objects",
     "Range edges and half-done updates show only at particular values; the tests never call a setter with a bad value.",
     DATA, [("range tests in setters", "sip/header/*Impl.go"), ("validate before assigning", "sip/header/CallIdentifier.go, sip/header/AllowList.go")],
     "proof", "abstract interpretation of go/ssa with interval domain",
     "The bounds inferred for the argument on success and error paths are compared with a table; the getters are compared across every error path. NaN is not considered. Same trust base as P10.")

prop("P20", "Methods of URI, header and message objects never panic",
     "Every public method that takes nothing but basic values (numbers, booleans, texts), called with any arguments on a URI, host, parameter, header, header list or message object that is fresh from its constructor, changed by one such call, or completely filled in, returns without panicking. (HashCode, which is documented as unsupported, and - on messages that lack them - identifiers computed from From, To, Call-ID, CSeq and the request line, are excepted.)",
     ["inputs", "histories"], "every such method of every data type, all arguments, fresh and filled-in objects",
     "A nil dereference in a getter of an optional part shows only on an object without that part; the tests use complete headers.",
     DATA, [("absent optional parts", "sip/header/*Impl.go, sip/address/*.go, sip/message/SIPMessage.go")],
     "proof", "abstract interpretation of go/ssa: nilness, intervals, dynamic types",
     "Every nil dereference, index, slice, type assertion, map write, division and explicit panic reached is excluded, except index expressions inside EncodeAsBytes. Same trust base as P10.")

prop("P09", "Clones are equal to the original and independent of it",
     "For every URI, address, header, header-list, message and RTP type that declares its own Clone method, from an object that is fresh, partly filled in or completely filled in: the clone has the same contents as the original, part by part, and shares no mutable part with it, so that a later change to either is not visible in the other.",
     ["inputs", "histories"], "every value of every attribute, every type that declares Clone",
     "A shared list or a forgotten field is invisible until one of the two objects is changed; no test changes a clone.",
     DATA + ["rtp/*.go"], [("field by field copies", "core/NameValueList.go, core/HostPort.go, sip/header/*Impl.go, sip/message/MessageObject.go")],
     "proof", "abstract interpretation of go/ssa with an allocation-site heap: graph equality and reachability",
     "Clone methods a type merely inherits from SIPHeader or SIPHeaderList are out: those copy the header name only. Same trust base as P10.")

prop("P17", "Reading an object does not change it",
     "No getter, Is/Has question, String, Encode, EncodeBody, Equals or Clone of a URI, address, parameter, header, header list or message object changes that object, anything it refers to, its arguments or package state: read methods can be called in any order and from several goroutines at once with the same results. (HashCode, GetTelephoneSubscriber of a SIP URI, the address lookup of a host name, the random numbers, and the encoding of a request, which fills in the defaults of its request line, are excepted.)",
     ["inputs", "histories", "schedules"], "every reading method of every data type, all arguments, fresh and filled-in objects",
     "A cache or a default written by a getter is a data race and a surprise on the next encoding; tests read objects once from one goroutine.",
     DATA, [("getters", "sip/header/*Impl.go, sip/address/*.go, sip/message/*.go")],
     "proof", "effect analysis by abstract interpretation of go/ssa",
     "No store, list, map or buffer operation reached from a reading method may change an object allocated before the call. Same trust base as P10.")

prop("P31", "Named parameters behave like a map",
     "For every object with named parameters (name-value lists, parametrised headers, SIP and tel URIs, telephone numbers): the lookup of a name after that name was set returns the value set last; setting it again replaces the value, and the list of names contains the name once; other names keep their values; asking for a name that was not set finds nothing; and after its removal a name is neither found nor listed while the others are still there. (A ttl that is no number is ignored by SIP URIs.)",
     ["inputs", "histories"], "every value, set/replace/remove histories over three names, fresh and filled-in objects of every parametrised type",
     "A parameter that is appended instead of replaced, or a removal that drops a neighbour, needs a history of several calls; tests set each name once.",
     DATA, [("replace on set", "core/NameValueList.go SetNameValue, sip/header/Parameters.go, sip/address/SipURIImpl.go SetParameter")],
     "proof", "abstract interpretation of go/ssa with symbolic-content string domain",
     "Each of 23 set/remove histories is interpreted with arbitrary values; names are three fixed distinct names, and an arbitrary one on fresh objects. Same trust base as P10.")

prop("P32", "Removing an attribute undoes setting it, and touches nothing else",
     "For every attribute with both SetX and RemoveX (methods of URIs, hosts, headers and messages): once SetX has accepted a value that does not itself mean 'not set', HasX is true; after RemoveX, HasX is false and GetX returns what it returns on an object on which X was never set; and RemoveX leaves every other getter that is not a view of the same data with the value it had.",
     ["inputs", "histories"], "every removable attribute, all values, fresh and filled-in objects",
     "A removal that clears a neighbour or leaves the value behind shows only in a set/remove/read history no test performs.",
     DATA, [("remove methods", "sip/header/*Impl.go, sip/address/SipURIImpl.go, core/HostPort.go")],
     "proof", "abstract interpretation of go/ssa with symbolic-content string domain",
     "Interpreted on arbitrary values from fresh and filled-in objects. Same trust base as P10.")

prop("P07", "What is written is what was set, in the form the grammar prescribes",
     "For every header, start line, URI, address and host: whatever values were set, and whichever of the optional parts were set, its text is the text the SIP grammar gives for those values: the header name, the values in their order with the right separators and quotes, each optional part when and only when it was set, parameters as ;name=value, numbers in decimal (the nonce count as eight hexadecimal digits), dates in GMT, and the end of the line. A list of headers is written as one line with its elements separated by commas - one line for each element for the authentication challenges and for extension headers. (A Via comment is written in front of the parameters.)",
     ["inputs"], "every value of every attribute, combinations of optional parts of 77 forms, several parameters, after removals, lists of one to three headers",
     "Encodings are compared by the tests for a few complete headers; a separator, a quote or a number base that is wrong for one optional part or one value goes unseen.",
     DATA, [("the separators and quotes", "sip/header/*.go EncodeBody, String"), ("parameters", "core/NameValue.go, core/NameValueList.go"), ("lists", "sip/header/SIPHeaderList.go")],
     "proof", "abstract interpretation of go/ssa with symbolic-content string domain, compared with a table of grammar forms",
     "Objects are built with their setters from arbitrary values; the abstract text returned by String, Encode and EncodeBody is compared piece by piece with a form. The forms are trusted. Values set are taken as they are: the setters do not check that they are tokens of the grammar. Same trust base as P10.")

prop("P05", "A well-formed header, start line or URI is accepted and its parts are read as they were written",
     "Every text that the SIP grammar allows for a header (in its long or compact name, in any letters, with blanks around the colon and at the end), a request or status line, a SIP or tel URI or a quoted or unquoted address is accepted by its parser, and what the getters of the parsed object return are exactly the pieces of the text: names, tokens, user, password, host and port, quoted texts, comments, numbers, parameters and every element of a list in their order; an optional part that is not in the text reads as absent. (A Contact written without angle brackets keeps its parameters in the URI, as the tests demand.)",
     ["inputs"], "every text of the classes of the grammar, every combination of optional parts and of spellings of the 500 texts derived from the forms of all header parsers",
     "The tests parse a few dozen lines and compare what is printed again; a character that cuts a token short, an optional part read into the wrong attribute or a list element that swallows the next shows only for particular texts.",
     PARSER + DATA, [("sets of characters of tokens", "core/CoreLexer.go, core/CoreLexer.go"), ("parsers of headers", "sip/parser/*Parser.go"), ("compact names", "sip/parser/ParserFactory.go, sip/parser/Lexer.go")],
     "proof", "abstract interpretation of go/ssa with symbolic-content string domain: texts made of pieces of arbitrary contents",
     "Each form is a row of literal pieces and pieces of arbitrary contents over a set of characters; the abstract parser must consume them and the getters must return the very pieces. Forms that the library does not parse by design are not in the table. Trusted: the table of forms, go/ssa, the models of the standard library in tool/models*.go.")

prop("P04", "What was parsed, printed and parsed again is the same",
     "Every text that the SIP grammar allows for a header (or start line, SIP or tel URI, address, host and port) can be parsed, the parsed object printed with String, and the printed text parsed again: it is accepted, every getter of the second object returns the same piece of the original text as that of the first, lists have the same elements in the same order, and the second object prints exactly the same text. (The method of a CSeq and the transport of a Via are printed in capital letters.)",
     ["inputs"], "every text of the classes of the grammar, every combination of optional parts of the 100 forms of headers, lines, URIs and addresses",
     "The tests compare the printed text of a few dozen lines; a part that is read but not written, or written where the parser does not look for it, shows only when it is there.",
     PARSER + DATA, [("what parsers store", "sip/parser/*Parser.go"), ("what is printed", "sip/header/*Impl.go String, EncodeBody"), ("URIs and addresses", "sip/address/*Impl.go String")],
     "proof", "abstract interpretation of go/ssa with symbolic-content string domain: parse, print, parse",
     "The same forms and trust base as P05. User-Agent is left out (its products are joined in a loop whose text is not followed). Two findings are recorded: Contact: * is printed as <*>, and the comment of a Via before its parameters, neither of which the parser reads; tests pin both.")

MSG = ["sip/message/*.go", "sip/header/*List*.go"]

prop("P16", "A message holds the headers it was given, and loses those it was told to lose",
     "For every type of header, given to a request by SetHeader, AddHeader or AttachHeader in its variants, once or several times, by itself or as a list, and removed by name (in any case of letters), first or last: SetHeader replaces all headers of the name, the other calls add to those that are kept as lists, at the end or in front as asked (a Via is added on top by AddHeader), and keep the first of those that a message has once; the particular getters, the getters by name, the list of header names and the encoded lines show exactly the headers that are left; a header of another name in the message is not touched.",
     ["inputs", "histories"], "every value of every header type, 28 histories of up to four calls, each type alone and as a list",
     "A header that survives its removal in one of the two tables of a message, or a list that swallows a member, needs a history of calls on a particular type; the tests parse and print.",
     MSG, [("two tables kept in step", "sip/message/SIPMessage.go AttachHeader2, RemoveHeader"), ("list headers", "sip/message/ListMap.go, sip/header/SIPHeaderList.go")],
     "proof", "abstract interpretation of go/ssa with symbolic-content string domain",
     "Each history is interpreted with headers of arbitrary contents; all public views of the message are compared. The table of types that a message wraps in lists (Via, Contact, Route, Record-Route, Error-Info) is trusted. Same trust base as P10.")

prop("P18", "Content-Length is always the number of bytes of the body",
     "Whatever a request or response held before and in whatever way its body is then set or removed (text or bytes, with or without content type), with or without a Content-Length header of the application's own or none at all: the body is returned as it was set, the one Content-Length header holds its number of bytes, the Content-Type is the one given with it, and the message is written with both.",
     ["inputs", "histories"], "every text and byte sequence, 11 previous histories times 13 ways to set the body, requests and responses",
     "A stale length needs a body replaced after another form of body, or a removed header; the tests set one body.",
     MSG, [("length updated with the body", "sip/message/SIPMessage.go SetMessageContent, SetMessageContentFromByte, RemoveContent")],
     "proof", "abstract interpretation of go/ssa with symbolic-content string domain",
     "The interpreted length is compared symbolically with the length of the content. Bodies given to SetContent are texts or bytes. Same trust base as P10.")

prop("P08", "A message is written as its start line, its headers in order, Content-Length, an empty line and the body",
     "For requests and responses, with or without a start line, with headers of any type, and with any text or bytes as body or none: String returns the start line, the headers in the order in which they were set, the Content-Length, an empty line and the body, each exactly once; the encoded lines are the same lines, the start line first. A request line without a method is written with the method of the CSeq.",
     ["inputs"], "every value of every header type, start line and body",
     "The order and completeness of the parts matter for each type of header and body; the tests print a few complete messages.",
     MSG, [("encoding", "sip/message/SIPMessage.go String, sip/message/SIPRequest.go String")],
     "proof", "abstract interpretation of go/ssa with symbolic-content string domain",
     "The abstract text is compared with the concatenation of the texts of the parts (whose form is P07). EncodeAsBytes is not covered. Same trust base as P10.")

prop("P12", "Messages made from others carry exactly the headers they should",
     "For a message with two Via, From, To, Call-ID, CSeq, Max-Forwards, a body and one more header of any type (single or in a list), the message made from it - a response (From, To, all Via, Call-ID, CSeq, Max-Forwards, Record-Route and Timestamp), a CANCEL (all but Require, Proxy-Require and the content), an ACK (the top Via only; no Route, Proxy-Authorization or content; the To of the response, if given), a BYE, ACK or other request within the dialog (From and To as asked, in either direction), or a request made from a response (no headers that belong in responses only, no Record-Route; ACK and CANCEL with the branch of the original) - consists of exactly those headers with their values, the method, request URI, CSeq and status line that were asked for, and no body; the text of the original is unchanged by it.",
     ["inputs"], "every value of the headers, every type of extra header, 13 ways to make a message",
     "A header that leaks into a derived message, or a change to the original, shows for one header type and form only; there are no tests of these methods on such messages.",
     MSG, [("filters on header types", "sip/message/SIPRequest.go CreateCancelRequest, CreateAckRequest, CreateResponse2"), ("copy before change", "sip/message/SIPRequest.go, sip/message/SIPResponse.go CreateRequest")],
     "proof", "abstract interpretation of go/ssa with symbolic-content string domain",
     "Each method is interpreted on the arbitrary message; the encoded lines of the result are compared as a multiset with the expected ones, and the text of the original before and after. Header objects are shared between the two messages, as before: changes made later are not considered. Same trust base as P10.")

prop("P14", "Dialog identifiers are made of Call-ID, local and remote party and their tags",
     "For any request or response with From, To and Call-ID, with or without tags: GetDialogId(isServer) is the Call-ID followed by user@host:port and tag, if any, of the local and then the remote party, in lower case - From first for a client, To first for a server; GetDialogId2 uses the To tag it is given instead. The same dialog therefore has the same identifier in both kinds of message on either side, and letter case never matters.",
     ["inputs"], "every value of the headers, all combinations of tags, sides and given tags",
     "Swapped parties or a dropped tag show only when the two ends of a dialog are compared; nothing tests this.",
     MSG, [("order of the parts", "sip/message/SIPRequest.go GetDialogId2, sip/message/SIPResponse.go GetDialogId2")],
     "proof", "abstract interpretation of go/ssa with symbolic-content string domain",
     "The abstract text is compared with the concatenation of the parts. Same trust base as P10.")

prop("P15", "Transaction identifiers follow the branch, or else the message",
     "For any message with From, To, Call-ID, CSeq and Via: if the branch of the topmost Via carries the magic cookie (in any case of letters) the transaction identifier is that branch in lower case, whatever the rest of the message; otherwise it is computed from From, To, tag, Call-ID, CSeq number and method and the topmost sent-by with its port (5060 if there is none), in lower case, in hexadecimal, and has at most 32 characters.",
     ["inputs"], "every value of the headers, with and without tags, ports and branch",
     "Two messages of one transaction must agree in every combination of optional parts; nothing tests this.",
     MSG, [("magic cookie", "sip/message/SIPMessage.go GetTransactionId")],
     "proof", "abstract interpretation of go/ssa with symbolic-content string domain",
     "The abstract text is compared with the concatenation of the parts; ToHexString is replaced by a model. Same trust base as P10.")

prop("P22", "Status codes have their reason phrases, and 200 to 699 are final",
     "The reason phrase of every status code of RFC 3261 and 3265 is the one given there (in the wording and capitals of either RFC 2543 or 3261), every other code has none, a response created for a code carries the code and its phrase, and a response is final exactly if its code lies between 200 and 699.",
     ["inputs"], "every status code",
     "There are 60 codes in a switch of which no test looks at more than two.",
     MSG, [("switch over codes", "sip/message/SIPResponse.go GetReasonPhraseFromInt"), ("range test", "sip/message/SIPResponse.go IsFinalResponseFromInt")],
     "proof", "abstract interpretation of go/ssa with interval domain",
     "The partition of the integers by the phrase returned is enumerated and compared with a table, which is trusted. Same trust base as P10.")

prop("P33", "CheckHeaders reports exactly the incomplete messages",
     "CheckHeaders accepts a request with CSeq, To, From, Via and Max-Forwards and a response with CSeq, To, From and Via, with any contents, and reports an error if one of these is missing or if both the request line and the CSeq of a request have a method and these differ other than in case.",
     ["inputs"], "every value of the headers, each header missing",
     "Each missing header is a path of its own; no test looks at any of them.",
     MSG, [("mandatory headers", "sip/message/SIPRequest.go CheckHeaders, sip/message/SIPResponse.go CheckHeaders")],
     "proof", "abstract interpretation of go/ssa: nilness and dynamic types",
     "The nilness of the result is compared on every path. Same trust base as P10.")

RTP = ["rtp/*.go"]
SHAPE = "abstract interpretation of go/ssa over rows of bits (bit provenance) with enumerated lengths"

prop("P23", "RTP packets are laid out and read back as RFC 3550 says",
     "For every payload type, sequence number, timestamp, source, marker, list of up to 15 contributing sources, header extension and payload, the RTP packet that is built has each of these in the bits where RFC 3550 puts them, in network order, and its getters return them; a received packet so laid out, with or without padding, is understood and its getters return the values it carries, the payload without the padding. A header or extension that was read is encoded as the same bytes. Building refuses payload types above 127, 72 and 73, more than 15 sources, and sources or extension words that are missing; receiving refuses other versions, RTCP data, what could be an RTCP report, and packets that are cut off or announce more padding than there is. Neither keeps the caller's buffer.",
     ["inputs"], "every value of every field and byte; 0 to 15 sources; extensions, payloads and paddings of several lengths; every truncation",
     "No test builds or reads a packet with sources, an extension or padding; a swapped byte or a wrong mask shows only for certain values.",
     RTP, [("header layout", "rtp/rtp.go RTPHeader.Encode, Parse"), ("extension layout", "rtp/rtp.go RTPExtension.Encode, Parse"), ("offsets and padding", "rtp/rtppacket.go ParseRawPacket, BuildPacket")],
     "other", SHAPE,
     "Complete in the values, bounded in the lengths: payloads of 0, 1, 2, 7 bytes, extensions of 0 to 5 words (to 16385 alone), padding of 1, 4, 9 bytes. A result that comes from arithmetic the analysis does not follow is reported as undecided, not as a violation. Trusted: go/ssa, the interpreter.")

prop("P06", "A message is split into exactly its lines and its body",
     "For every message given to the message parser, as text or as bytes: empty lines in front are skipped; the first line is read as a request or status line, and each header line, with its continuations joined to it, is given to the parser of headers as it stands in the message, in order; every header so read is attached to the message in its turn; the body is exactly the number of bytes after the empty line that the Content-Length says, whatever those bytes are (none without a Content-Length); a message that has no empty line or fewer bytes than its Content-Length is refused. This holds with CR LF and with LF as the end of a line and for a parser that has parsed, or refused, other messages before; the caller's buffer is neither changed nor kept. A header that is parsed by itself has its continuations joined with a blank and its bytes kept.",
     ["inputs", "histories"], "every content of the lines and the body; zero to five header lines, folded or not; both line ends; sequences of two messages",
     "The tests parse messages with text bodies whose bytes are harmless and whose Content-Length is right; a body with line ends in it, a second message on the same parser or a line end lost shows only for others.",
     ["sip/parser/StringMsgParser.go", "core/StringTokenizer.go"], [("end of the header, continuations", "sip/parser/StringMsgParser.go ParseSIPMessageFromByte"), ("lines and headers in order", "sip/parser/StringMsgParser.go ParseMessage"), ("body and Content-Length", "sip/parser/StringMsgParser.go GetBodyAsBytes")],
     "other", SHAPE,
     "Complete in the values, bounded in the numbers and lengths of lines and bodies. The parsers of the lines are replaced by stand-ins (they are the subject of P05). One finding is recorded: a message's folded lines are joined without a blank. Same trust base as P23.")

prop("P34", "A line that cannot be parsed is refused, or handed once to the listener",
     "For every message given to the message parser in which one or several lines - the start line or any header line - cannot be parsed: without a ParseExceptionListener the message is refused with the error of the first such line and no message is returned. With one, the listener is called once for each such line, in order, with the error, the message being built and the text of that line; when it returns nil the parse goes on, the line is left out, and all other headers are attached in their turn and the body is read as ever; when it returns an error, no further line is handed to it and the message is refused with that error. With or without a listener, a request whose CSeq names a method other than that of its start line is refused, and one with the same method, or a response, is not on that account.",
     ["inputs", "histories"], "every content of the lines; one or two lines that fail, at every place among up to four, refused when the parser is chosen or when it parses; a listener that ignores, refuses or refuses the second; every pair of methods",
     "The tests set no listener and feed messages in which nothing or one thing is wrong.",
     ["sip/parser/StringMsgParser.go", "sip/parser/ParseExceptionListener.go"], [("the listener and the errors", "sip/parser/StringMsgParser.go ParseMessage"), ("the method of the CSeq", "sip/parser/StringMsgParser.go ParseMessage")],
     "other", SHAPE,
     "Complete in the values, bounded in the numbers and lengths of lines. The parsers of the lines are replaced by stand-ins that fail or not (what they refuse is the subject of P03 and P05). Same trust base as P23.")

prop("P35", "Every number of a state leads to that state, and no other number does",
     "For transaction states, dialog states and timeouts of the stack: GetTransactionState, GetDialogState and GetTimeout return, for the number of a state, the very object of the public constant of that state (so states can be compared with ==), and for any other number an error and no state; GetValue of a public constant is its number and leads back to it; ToString names it.",
     ["inputs"], "every 64-bit number; all twelve states",
     "No test touches package sip; a bound or an entry of a table that is off by one shows for one number only.",
     ["sip/TransactionState.go", "sip/DialogState.go", "sip/Timeout.go"], [("tables and bounds", "sip/TransactionState.go GetTransactionState, sip/DialogState.go GetDialogState, sip/Timeout.go GetTimeout")],
     "other", SHAPE,
     "Complete for the numbers. Same trust base as P23.")

prop("P36", "Transmission parameters, transmitter information and raw packets hold what they are given",
     "TransmissionParams start with the documented defaults (port 5000, time to live 1, interface index 0, buffers of 32768 bytes, no addresses); every setter changes exactly its own value, whatever was set before or after, and its getter returns that value. A RawPacket returns the data, their length, the sender, the time and the kind it was made with, does not touch the data, and after ZeroData has no data and length 0 while all else stays. TransmissionInfo is of protocol IPv4 when the first address is an IPv4 one, in four or sixteen bytes, and IPv6 otherwise, and returns the list and the sockets it was made with.",
     ["inputs", "histories"], "every value; every sequence of two setters and all setters in two orders",
     "No test uses these types; a setter that stores to a neighbour of the same type compiles.",
     RTP, [("setters", "rtp/transmissionparams.go"), ("kinds of address", "rtp/transmissioninfo.go NewTransmissionInfo"), ("raw packets", "rtp/rawpacket.go")],
     "other", SHAPE,
     "Complete in the values, bounded in the lengths of data and lists. Same trust base as P23.")

prop("P37", "Every step of the tokenizer takes from the text exactly what it says",
     "For every text and every place in it, each step of StringTokenizer and CoreLexer that the parsers are built from returns exactly the bytes it is defined to take and leaves the place right behind them: GetLine and NextToken a line with its line feed, GetLines every line of the text in order, SPorHT blanks and tabs, Ttoken and GetNextId the longest run of RFC 3261 token characters, TtokenAllowSpace the same with blanks and tabs, ByteStringNoSemicolon and ByteStringNoComma up to a semicolon or comma or the end of the line, QuotedString and Comment up to the closing character that no backslash precedes (the backslashes are kept), GetString(c) up to c with backslash escapes resolved, GetNextTokenByDelim(c) up to but without c, Number a run of digits, Match the asked character, digit, letter, identifier or keyword, GetNextChar one byte. What is not there, or does not end before the text does, is an error, never a part of it. PeekLine, PeekNextId, PeekNextTokenK, LookAhead, LookAheadK, NCharAsString, StartsId, HasMoreChars, GetRest and GetBuffer do not move the place, and Consume after a peek moves it behind what was peeked; RewindInputPosition returns to a marked place. No step changes the text. ToHexString gives two lower-case hexadecimal digits for each byte.",
     ["inputs"], "texts of up to six bytes, all or one of them arbitrary, from up to three places; every class of bytes for all ASCII bytes",
     "The parser tests feed complete well-formed lines; nothing tests the tokenizer by itself, and a step that is off at the end of the text or for one character shows far away from it.",
     ["core/StringTokenizer.go", "core/CoreLexer.go", "sip/message/Utils.go"], [("lines and lookahead", "core/StringTokenizer.go"), ("tokens, quoting, matching", "core/CoreLexer.go"), ("hexadecimal text", "sip/message/Utils.go ToHexString")],
     "other", SHAPE,
     "Complete in the arbitrary bytes, bounded in the length. The text of a token that is a single byte outside ASCII is not claimed (it comes out in UTF-8), nor is the place after an error. strconv.Atoi is given the digits and replaced by a stand-in. Same trust base as P23.")

prop("P24", "RTCP APP and BYE packets are read as RFC 3550 says",
     "For every RTCP APP packet the subtype, source, name and data, and for every BYE packet the sources and the reason for leaving, are returned exactly as they stand in the packet, without the padding; a packet that is too short for what its counts announce, or whose padding is no multiple of four or larger than the packet, is reported as not understood, and its getters then return nothing. The packet is a copy of the caller's buffer.",
     ["inputs"], "every value of every field and byte; 0 to 31 sources; data, reasons and paddings of several lengths; every truncation; every announced padding",
     "No test reads an RTCP packet.",
     RTP, [("counts checked against the length", "rtp/rtcpbyepacket.go NewRTCPBYEPacket, rtp/rtcpapppacket.go NewRTCPAPPPacket"), ("field offsets", "rtp/rtcpbyepacket.go, rtp/rtcpapppacket.go getters")],
     "other", SHAPE,
     "Complete in the values, bounded in the lengths: data of 0 to 17 bytes, reasons of 0 to 19, padding of 4 to 16. Same trust base as P23.")

prop("P26", "The random number generator is rand48 and safe for several goroutines",
     "A generator made from a seed gives the numbers of rand48 from that seed (the 32-bit ones bits 16 to 47 of the state, the 16- and 8-bit ones the top bits of those; a double also advances the state once), whatever the order of calls; SetSeed starts it over. Every call uses the state only while it holds the lock, in one critical section, and has released the lock when it returns.",
     ["inputs", "schedules"], "every seed; sequences of up to five calls",
     "A lost update or a missing lock shows only when two goroutines meet; the tests call the generator from one.",
     RTP, [("step under the lock", "rtp/random.go GetRandom32, GetRandomDouble, SetSeed")],
     "other", "lockset typestate and linear forms over an abstract interpretation of go/ssa",
     "Atomicity follows from the lock discipline. The value of GetRandomDouble is floating point and is not decided. Trusted: sync.Mutex.")

prop("P28", "RTP addresses are equal when host and port are, and clones are independent",
     "IsSameAddress tells whether the other address is of the same kind and has the same host (an IPv4 address in 4 or 16 bytes is the same) and port, IsFromSameHost whether it has the same host; both answer false to nil. A clone has the host and port of its original and does not change with it.",
     ["inputs"], "every pair of addresses with arbitrary bytes and ports",
     "No test compares addresses.",
     RTP, [("comparison", "rtp/ipaddress.go, rtp/hostaddress.go IsSameAddress, IsFromSameHost"), ("copied bytes", "rtp/ipaddress.go Clone")],
     "other", SHAPE,
     "Complete in the values; host names of 0, 1 and 3 bytes stand for all. net.IP.Equal and To4 are replaced by their definitions. Same trust base as P23.")

prop("P29", "The collision list holds each address once, with its latest time, until it times out",
     "After any operations on a collision list, HasAddress is true exactly for the addresses that were updated since the list was last cleared and whose last update is not older than the delay of any Timeout since. UpdateAddress tells whether the address is new, refuses nil, and keeps its own copy of the address.",
     ["histories"], "sequences of up to four operations with up to three addresses, equal or not, and arbitrary times",
     "The order of updates and time-outs matters, and no test uses the list.",
     RTP, [("search by address", "rtp/collisionlist.go UpdateAddress, HasAddress"), ("removal while walking", "rtp/collisionlist.go Timeout")],
     "other", SHAPE,
     "Complete in addresses and times for the sequences enumerated. container/list is interpreted, not trusted. Same trust base as P23.")

prop("P30", "RTP times are compared, added and subtracted exactly",
     "For all times with less than a million microseconds: LT, GT, ELT and EGT are the order of the times; Add and Sub give the exact sum and difference (seconds modulo 2^32) and leave the argument alone; Clone is an equal, independent time; converting to and from NTP shifts the seconds by those between 1900 and 1970, and times before 1970 become zero.",
     ["inputs"], "every pair of times",
     "Carry and borrow show only when the microseconds cross a second; no test does arithmetic on times.",
     RTP, [("carry and borrow", "rtp/rtptime.go Add, Sub"), ("lexicographic order", "rtp/rtptime.go LT, GT, ELT, EGT"), ("epoch", "rtp/ntptime.go NTPTIMEOFFSET")],
     "proof", "abstract interpretation of go/ssa over rows of bits, linear forms and bounds",
     "The fraction of a second in NTP, converted in floating point, is not decided. Same trust base as P23.")

prop("P40", "Random numbers are evenly spread and hard to guess",
     "The numbers of the random number generator are evenly distributed over their range, and two generators made without a seed do not give the same numbers.",
     ["histories"], "every sequence of calls and every moment at which a generator is made",
     "A test sees one sequence.",
     ["rtp/random.go"], [("rand48 step", "rtp/random.go GetRandom32"), ("seed from process and time", "rtp/random.go PickSeed")],
     na="A statement about the distribution of values at run time and about the clock and process id of the machine: no static argument in reach bounds it.")

prop("P41", "Parsing takes time linear in the length of the text",
     "The number of steps taken to parse a message is at most proportional to its length.",
     ["inputs"], "every message",
     "Tests parse short messages only.",
     PARSER, [("look-ahead and rewinding", "core/CoreLexer.go"), ("removal of carriage returns", "sip/parser/StringMsgParser.go")],
     na="Bounding the number of steps needs a cost analysis over nested scanners with look-ahead and rewinding that is out of reach here; P02 decides that every parse ends. (Removing carriage returns is quadratic on purpose of the original.)")
