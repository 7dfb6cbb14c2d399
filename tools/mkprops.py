#!/usr/bin/env python3
"""Writes properties.jsonl (the one place the property texts live)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "A message's headers behave as one ordered, case-blind table under any edits",
  "After any sequence of attaching, adding, setting and removing headers, every view of a message (lookup, presence test, per-name list, header iteration, typed accessor, encoded text) agrees with one table kept in attachment order and keyed by the name regardless of letter case. Attaching a second single-valued header of a name changes nothing, attaching to a comma-list header appends in order (a new Via goes on top, its own order kept), setting replaces every value of that name, and removing the last value removes the name. No edit disturbs headers of another name.",
  ["histories"], "every sequence of header edits (attach, add, set, remove, remove-top, remove-bottom, typed setters) over single-valued, list-valued, cached and extension headers",
  "The tests parse one message and print it; none edits a message, and the bugs of this area need two or three edits of one name in a particular order.",
  ["sip/message/SIPMessage.go", "sip/header/SIPHeaderList.go", "sip/header/SIPHeaderImpl.go"],
  [("attach/replace/concatenate", "sip/message/SIPMessage.go AttachHeader3"), ("removal", "sip/message/SIPMessage.go RemoveHeader, RemoveHeader2"), ("list concatenation", "sip/header/SIPHeaderList.go Concatenate")],
  [("headers", "ordered header objects", "SIPMessage.headers"), ("nameTable", "lower-cased name to header", "SIPMessage.nameTable"), ("typed shortcuts", "cached From/To/CSeq/Call-ID/Max-Forwards/Content-Length", "SIPMessage fields")],
  ["String/EncodeAsBytes", "GetHeader, GetHeaders, HasHeader, GetHeaderNames", "GetMessageAsEncodedStrings", "typed getters"])

p("P02", "Content-Length, the body and every rendering of a message always agree",
  "After any history of setting, replacing and removing content (text or bytes, with or without a content type), the message reports the content set last, exactly one Content-Length equal to its number of bytes is encoded, and the encoding is start line, headers, one empty line, then those bytes and nothing more, in the text form and in the byte form alike. Removing the content leaves an empty body and a zero length.",
  ["histories", "inputs"], "every sequence of content operations on a request or response, over empty, ASCII, multi-byte and CRLF-bearing bodies",
  "Tests never set content; the states that break are reached only by mixing the text and byte interfaces, or by removing and setting again.",
  ["sip/message/SIPMessage.go", "sip/message/SIPRequest.go", "sip/message/SIPResponse.go", "sip/header/ContentLengthImpl.go"],
  [("content setters", "sip/message/SIPMessage.go SetContent, SetMessageContent*, RemoveContent"), ("encoders", "String, EncodeAsBytes of SIPMessage, SIPRequest, SIPResponse")],
  [("content fields", "text, bytes, object forms of the body", "SIPMessage.messageContent*")],
  ["String", "EncodeAsBytes", "GetContent", "GetMessageContent", "GetContentLength", "HasContent"])

p("P03", "Parsing a well-formed message and encoding it loses and reorders nothing",
  "Parsing a well-formed request or response and encoding it yields the canonical form of the same message: same start line, same headers in the same order with the same values, list and parameter order kept, same body bytes. Parsing that encoding again succeeds and encodes to exactly the same bytes.",
  ["inputs"], "all well-formed messages composed of the supported start lines, header kinds, header values, parameters and bodies",
  "The tests hold a few dozen fixed strings and compare header by header; combinations, orders and bodies are unbounded.",
  ["sip/parser/StringMsgParser.go", "sip/parser/*Parser.go", "sip/header/*.go", "sip/message/*.go"],
  [("message parser", "sip/parser/StringMsgParser.go ParseSIPMessageFromByte, ParseMessage"), ("parser choice per header", "sip/parser/ParserFactory.go CreateParser"), ("encoders", "String and EncodeBody of sip/header")],
  None, ["ParseSIPMessage", "String", "EncodeAsBytes"])

p("P04", "Equivalent wire forms of a message parse to the same message",
  "Letter case of header names, compact header names, optional white space around the colon and separators, line folding, CRLF or bare LF line ends, empty lines before the start line, and several header lines versus one comma-separated line never change the parsed message. The header section ends at the first empty line and the body is exactly the number of bytes Content-Length announces, whatever those bytes are and whatever follows them.",
  ["inputs"], "all combinations of equivalent spellings for every header kind and position, all body contents and trailing bytes",
  "Each spelling is independent of the others, so the space is a product; tests fix one spelling per header.",
  ["sip/parser/StringMsgParser.go", "sip/parser/ParserFactory.go", "sip/parser/SIPLexer.go", "core/StringTokenizer.go", "core/CoreLexer.go"],
  [("framing, unfolding, body extent", "sip/parser/StringMsgParser.go ParseSIPMessageFromByte"), ("name tables", "sip/parser/SIPLexer.go SelectLexer; sip/parser/ParserFactory.go"), ("white space", "core/CoreLexer.go SPorHT")],
  None, ["ParseSIPMessage", "ParseSIPMessageFromByte", "String", "GetContent"])

p("P05", "Damaged or hostile input is answered by an error, never by a crash or a hang",
  "For any byte sequence, parsing a message, a header, an address, a URL, a host and port or a start line returns in bounded time with a result or an error (no message and no error only for a message text that is empty or nothing but line ends), and never panics. A message that ends before its empty line or with a body shorter than announced is an error. A malformed start line or header fails the parsing with an error, or, when an exception listener is set, is put before the listener with its text, in order, and costs the message only that line unless the listener gives up.",
  ["inputs"], "every byte string; explored as every truncation and every one- or two-edit damage of well-formed messages and values",
  "A parser on the network sees arbitrary bytes; the tests feed it well-formed ones and a few torture messages.",
  ["sip/parser/*.go", "core/CoreLexer.go", "core/CoreParser.go", "core/HostNameParser.go"],
  [("message framing", "sip/parser/StringMsgParser.go"), ("lexing primitives", "core/CoreLexer.go, core/StringTokenizer.go"), ("URL, address and Via parsers", "sip/parser/URLParser.go, AddressParser.go, ViaParser.go")],
  None, ["ParseSIPMessage*", "NewXParser(text).Parse", "ParseException listener"])

p("P06", "Derived responses, CANCEL, ACK and BYE are right and leave the original intact",
  "A response created from a request carries its Via list, From, To, Call-ID, CSeq, Record-Route, Max-Forwards and Timestamp in the original order, the given status and its default reason phrase, and an empty body; a CANCEL, ACK or BYE created from a request carries its Request-URI, Call-ID, sequence number, and the prescribed method, Via, From, To and content headers, and a request created from a response carries the given URI, Via and CSeq. Creating a message never changes the one it was created from. Afterwards each keeps its own set of headers, start line and content, a CANCEL or ACK also its own CSeq, and a BYE its own CSeq, From, To and Via, whatever is done to the other; other header objects may be shared, as the library documents.",
  ["inputs", "histories"], "every subset and order of headers in the original, every status code, every derivation, and edits of either message afterwards",
  "No test derives a message; the damage shows only when the original is encoded again after the derivation.",
  ["sip/message/SIPRequest.go", "sip/message/SIPResponse.go", "sip/header/ToImpl.go", "sip/header/FromImpl.go"],
  [("derivation", "SIPRequest CreateResponse2, CreateCancelRequest, CreateAckRequest, CreateSIPRequest, CreateBYERequest, CreateACKRequest; SIPResponse CreateRequest")],
  None, ["String of the derived message", "String of the original"])

p("P07", "The transaction identifier matches exactly the messages of one transaction",
  "The transaction identifier of a request, of every response to it, and of a message rebuilt from its encoding is the same, and depends on the top Via branch alone, ignoring letter case, exactly when that branch begins with the RFC 3261 cookie. Otherwise it is a function of the From and To addresses, the From tag, the Call-ID, the sequence number, the method and the top Via's sent-by address (port 5060 when none is given), so that a difference in any one of them gives another identifier, while other headers, lower Vias and the To tag never matter.",
  ["inputs"], "all pairs of messages differing in any one or two identifying or irrelevant components",
  "It is a relation between pairs of messages; no test computes an identifier.",
  ["sip/message/SIPMessage.go", "sip/message/Utils.go"],
  [("identifier", "sip/message/SIPMessage.go GetTransactionId"), ("hex form", "sip/message/Utils.go ToHexString")],
  None, ["GetTransactionId"])

p("P08", "Both ends of a dialog compute the same identifier, distinct dialogs do not",
  "The dialog identifier is the Call-ID, then the local address and tag, then the remote address and tag, ignoring letter case, so the identifier one side computes for a message equals the one the other side computes for the same message with the roles of From and To exchanged. It is the same for a request and its responses once tags agree, changes when the Call-ID, either address or either tag changes, and an explicitly supplied To tag takes the place of the header's.",
  ["inputs"], "all combinations of Call-ID, addresses, tags present or absent, role and supplied tag, on requests and responses",
  "It is a relation between messages and roles; no test computes an identifier.",
  ["sip/message/SIPRequest.go", "sip/message/SIPResponse.go"],
  [("identifiers", "SIPRequest/SIPResponse GetDialogId, GetDialogId2")],
  None, ["GetDialogId", "GetDialogId2"])

p("P09", "Start lines and status codes are classified, worded and carried exactly",
  "A request line keeps method, Request-URI and version, and a status line keeps version, code and reason phrase, through parsing, accessors, setters and encoding. A status code is final exactly from 200 to 699, every code the library names has its own default phrase and codes without a name have none, and changing a request's method also changes the method of its CSeq.",
  ["inputs", "histories"], "all status codes from 0 to 999, all methods including extension methods, all phrases, and setter histories",
  "Tests parse four start lines; codes and phrases number in the hundreds.",
  ["sip/header/RequestLine.go", "sip/header/StatusLine.go", "sip/message/SIPRequest.go", "sip/message/SIPResponse.go", "sip/parser/RequestLineParser.go", "sip/parser/StatusLineParser.go"],
  [("start line types", "sip/header/RequestLine.go, StatusLine.go"), ("reason phrases and classification", "SIPResponse GetReasonPhraseFromInt, IsFinalResponse"), ("method coupling", "SIPRequest SetMethod")],
  None, ["String", "GetStatusCode", "GetReasonPhrase", "GetMethod", "GetVersionMajor/Minor"])

p("P10", "What is set on a header is what is read, encoded and parsed back",
  "For every supported header kind, the fields given to its setters are returned by its getters, appear in the encoded header in the standard syntax, and are recovered unchanged when that text is parsed; parsing the standard syntax gives those same fields. For headers that allow several values, each value keeps its own fields and parameters and its position.",
  ["inputs"], "all supported header kinds, combinations of their fields being present or absent, value classes per field, and one to three values per line",
  "Header tests compare a text with itself after parsing; getters, setters and built headers are not exercised.",
  ["sip/header/*.go", "sip/parser/*Parser.go"],
  [("header types", "sip/header/*Impl.go"), ("header parsers", "sip/parser/*Parser.go")],
  None, ["setters and getters of sip/header", "String", "Parse"])

p("P11", "Out-of-range or missing values are refused and leave the header unchanged",
  "A header setter accepts exactly the values its header allows (sequence numbers, lengths, expiry and retry times not negative, reliability sequence numbers (RSeq, RAck) positive, Max-Forwards from 0 to 255, warning codes from 300 to 399, quality values from 0 to 1, required text not empty) and otherwise returns an error. A refused call leaves every field and the encoding of the header as they were, and an accepted one changes only its own field.",
  ["inputs", "histories"], "all setters with values on both sides of every bound, in sequences of accepted and refused calls",
  "Bounds matter only at their edges, and the unchanged-after-refusal half needs two calls in a row.",
  ["sip/header/*Impl.go"],
  [("validation in setters", "CSeqImpl, ContentLengthImpl, MaxForwardsImpl, ExpiresImpl, MinExpiresImpl, RetryAfterImpl, WarningImpl, RAckImpl, RSeqImpl, TimeStampImpl, SubscriptionStateImpl, ViaImpl, AcceptImpl, ContactImpl")],
  None, ["setter errors", "getters", "String"])

p("P12", "Parameter lists behave as ordered maps and encode as they read",
  "After any sequence of setting, adding, removing and clearing parameters, presence, value, names, count and the encoded text all follow from one ordered list: names are compared regardless of letter case, setting an existing name changes its value in place, a new name goes last, removing drops it, and a parameter without a value encodes as its bare name. A quoted parameter encodes between double quotes and reads back without them, and the parameters of one header never affect another's.",
  ["histories"], "every sequence of parameter operations over several names, values present, absent and quoted, on parameter lists and on the headers that carry them",
  "No test edits a parameter; wrong in-place updates and removals need at least two operations to show.",
  ["core/NameValueList.go", "core/NameValue.go", "sip/header/ParametersImpl.go", "sip/header/AuthenticationImpl.go"],
  [("list operations", "core/NameValueList.go"), ("header parameters", "sip/header/ParametersImpl.go")],
  [("list", "ordered name/value pairs", "NameValueList.List")],
  ["GetParameter, HasParameter, GetParameterNames", "String"])

p("P13", "A SIP address keeps each component through parsing, edits and encoding",
  "User, password, host, port, transport and other URI parameters, URI headers, display name and angle-bracket form of an address are each returned, encoded and parsed back exactly, whichever of them are present. Setting or removing one component changes that component only, and a telephone URI likewise keeps its number, global mark and parameters.",
  ["inputs", "histories"], "all combinations of present and absent components and all sequences of component edits",
  "A dozen fixed URLs are parsed in the tests and none is edited; components interact pairwise in parsing.",
  ["sip/address/*.go", "sip/parser/URLParser.go", "sip/parser/AddressParser.go", "sip/parser/AddressParametersParser.go"],
  [("URI parsing", "sip/parser/URLParser.go"), ("address parsing", "sip/parser/AddressParser.go"), ("components", "sip/address/SipURIImpl.go, Authority.go, UserInfo.go, TelphoneNumber.go, AddressImpl.go")],
  None, ["getters", "String", "Parse"])

p("P14", "Hosts and ports are parsed, classified and printed exactly",
  "A host name, IPv4 address or bracketed IPv6 reference with or without a port is accepted, classified as what it is, reported with its port, and printed in a form that parses to the same host and port; an absent port is reported as absent. Setting or removing host or port changes only that part.",
  ["inputs", "histories"], "all host forms (labels, hyphens, digits, IPv4, IPv6) with ports absent or 0 to 65535, and edit sequences",
  "One test covers eleven strings and fails on the unchanged tree.",
  ["core/Host.go", "core/HostPort.go", "core/HostNameParser.go"],
  [("host model", "core/Host.go, core/HostPort.go"), ("parser", "core/HostNameParser.go")],
  None, ["GetHostName, GetPort, HasPort, String", "GetHostPort"])

p("P15", "The scanner never moves by looking and never loses or invents a byte",
  "Looking ahead or peeking never changes what is read next; consuming moves forward by exactly what was returned; returning to a mark restores exactly the position of the mark; the unread rest plus what was consumed is always the input. A match succeeds exactly when the next token is of the asked kind, then consumes it alone and returns its text, and reading a number, a token, a quoted string, a comment or text up to a delimiter returns exactly the longest such prefix.",
  ["histories", "inputs"], "every sequence of scanner operations on every input of a small alphabet covering each character class",
  "Tests drive the scanner only through whole-header parsers on well-formed text.",
  ["core/StringTokenizer.go", "core/CoreLexer.go", "core/CoreParser.go"],
  [("cursor", "core/StringTokenizer.go"), ("tokens", "core/CoreLexer.go")],
  [("ptr, savedPtr, currentMatch", "cursor, mark, last token", "StringTokenizer/CoreLexer fields")],
  ["LookAheadK, ConsumeK, GetNextChar, MarkInputPosition, RewindInputPosition, Match, GetNextToken, PeekNextToken, GetRest"])

p("P16", "A copy equals its original and shares nothing with it",
  "A copy made of a name/value pair, a parameter list, a host, a host and port, a URI or telephone number, a Via or Contact header or list, an RTP time or an RTP address encodes as its original does. After that, no change to the original shows in the copy and no change to the copy shows in the original.",
  ["histories"], "every copyable object in every shape, followed by every edit on either side",
  "No test copies anything; sharing shows only after an edit made later on the other side.",
  ["core/NameValueList.go", "core/NameValue.go", "core/Host.go", "core/HostPort.go", "sip/address/*.go", "sip/header/ViaImpl.go", "sip/header/ViaList.go", "sip/header/ContactListImpl.go", "rtp/rtptime.go", "rtp/ipaddress.go", "rtp/hostaddress.go"],
  [("copying", "Clone methods")], None, ["Clone", "String"])

p("P17", "An RTP packet's fields survive building and parsing; a bad packet is refused",
  "A packet built from a payload, type, sequence number, timestamp, source, marker, contributing sources and extension has the RFC 3550 layout, and parsing those bytes returns the same fields, sources, extension words and payload. A received packet of another version, too short for the sources, extension or padding it announces, or confusable with RTCP is refused with an error, padding is not part of the payload, and no byte sequence makes parsing panic.",
  ["inputs"], "all field values, 0 to 15 sources, extensions, payload sizes and paddings; all truncations and header bit patterns",
  "The RTP package has no tests at all.",
  ["rtp/rtppacket.go", "rtp/rtp.go", "rtp/rawpacket.go"],
  [("build", "rtp/rtppacket.go BuildPacket"), ("parse", "rtp/rtppacket.go ParseRawPacket, rtp/rtp.go Parse"), ("layout", "rtp/rtp.go Encode")],
  None, ["GetPacket", "getters of the parsed packet", "errors"])

p("P18", "RTCP BYE and APP packets are decoded within their bounds or marked unknown",
  "For any received bytes an RTCP APP packet yields exactly its subtype, source, four-byte name and application data without padding, and a BYE packet exactly its sources and reason text, when its source count, reason length and padding fit the packet. Otherwise the packet is marked as of unknown format and its accessors return nothing, and neither decoding nor any accessor ever reads outside the packet or panics.",
  ["inputs"], "all packet lengths from 0, source counts, padding values (multiples of four or not), reason lengths and data",
  "The RTP package has no tests at all, and bounds fail only at particular length and padding combinations.",
  ["rtp/rtcppacket.go", "rtp/rtcpapppacket.go", "rtp/rtcpbyepacket.go"],
  [("decoding", "NewRTCPAPPPacket, NewRTCPBYEPacket")],
  None, ["IsKnownFormat", "GetSubType, GetSSRC, GetName, GetAPPData", "GetSSRCCount, GetReasonData"])

p("P19", "RTP time arithmetic, order and NTP conversion are exact",
  "Adding and subtracting times carries between seconds and microseconds so that microseconds stay below one million, subtraction undoes addition, and the comparisons form one total order. Conversion to NTP time and back, for every time the NTP era can hold, returns the same time to within one microsecond, and NTP times before 1970 map to zero.",
  ["inputs", "histories"], "all pairs of times with seconds over the 32-bit range and microseconds at the carry edges, and all sequences of arithmetic",
  "The RTP package has no tests at all.",
  ["rtp/rtptime.go", "rtp/ntptime.go"],
  [("arithmetic, order, conversion", "rtp/rtptime.go")],
  None, ["Add, Sub, LT, GT, ELT, EGT, GetNTPTime, NewRTPTimeFromNTPTime"])

p("P20", "The collision table remembers exactly the addresses seen within the time-out",
  "After any history of sightings, time-outs and clears, an address is reported as known exactly if it was seen after the last clear and no time-out since its latest sighting found that sighting older than the delay. A sighting reports whether the address was new, refreshes its time otherwise, addresses are the same exactly when type, host and port are equal, and later changes to a caller's address object do not alter the table.",
  ["histories"], "every sequence of sightings, time-outs and clears over several addresses of both kinds and clock values, including caller mutation of address objects",
  "The RTP package has no tests at all, and expiry depends on the order of refreshes and time-outs.",
  ["rtp/collisionlist.go", "rtp/ipaddress.go", "rtp/hostaddress.go", "rtp/rtptime.go"],
  [("table", "rtp/collisionlist.go"), ("identity", "IsSameAddress, IsFromSameHost")],
  [("addresslist", "address and last sighting", "CollisionList.addresslist")],
  ["UpdateAddress", "HasAddress"])

p("P21", "Random numbers are the drand48 sequence of the seed under any concurrent use",
  "From a seed, the generator yields exactly the 48-bit linear congruential sequence of drand48, whichever mix of 8-, 16-, 32-bit and floating-point requests is made, floating-point values lying in [0,1). Concurrent callers together receive exactly the values one caller would, each once, with no data race, and reseeding restarts the sequence.",
  ["schedules", "histories"], "every interleaving of requests and reseeding by several callers, every request mix, all seeds",
  "The RTP package has no tests at all and lost updates need a particular interleaving.",
  ["rtp/random.go"],
  [("step under lock", "rtp/random.go GetRandom32, GetRandomDouble, SetSeed")],
  [("state", "48-bit state word", "RandomRand48.state")],
  ["GetRandom8/16/32", "GetRandomDouble"])

p("P22", "State and time-out constants map one-to-one between number, object and text",
  "Each dialog state, transaction state and time-out kind has one object, found by its number, returning that number and its own text; numbers outside the defined range are refused with an error. The RTP transmission settings and address objects return what was set on them, independently of each other.",
  ["inputs", "histories"], "all integers around the defined ranges and all sequences of setter calls",
  "Neither package has tests.",
  ["sip/DialogState.go", "sip/TransactionState.go", "sip/Timeout.go", "rtp/transmissionparams.go", "rtp/transmissioninfo.go"],
  [("tables", "GetDialogState, GetTransactionState, GetTimeout"), ("settings", "rtp/transmissionparams.go")],
  None, ["GetValue", "ToString", "getters"])

p("P23", "The check of a message finds exactly what every message must have and lacks",
  "After any edits, checking the headers of a message succeeds exactly when it has a CSeq, To, From and at least one Via (a request also Max-Forwards) and, in a request with a method, the CSeq is for that method, letter case aside; the check changes nothing. A request text whose CSeq is for another method than its start line is refused by the parser. Filling in the defaults of an INVITE or REGISTER request adds the user and transport parameters a SIP Request-URI lacks, and a request line without method takes that of the CSeq; nothing else changes.",
  ["inputs", "histories"], "every set of headers present, every history of setting and removing headers, of changing the method and the Request-URI, and of filling in defaults",
  "The tests parse complete messages; what is refused depends on which header was removed, set again or changed method, through which of several routes.",
  ["sip/message/SIPRequest.go", "sip/message/SIPResponse.go", "sip/message/SIPMessage.go", "sip/parser/StringMsgParser.go"],
  [("required headers", "SIPRequest.CheckHeaders, SIPResponse.CheckHeaders"), ("method agreement", "StringMsgParser.parseMessage, SIPRequest.CheckHeaders, SetMethod"), ("defaults", "SIPRequest.SetDefaults, SetRequestLineDefaults")],
  [("required", "CSeq, To, From, Via, Max-Forwards", "the typed header fields of SIPMessage"), ("start line", "method and Request-URI", "SIPRequest.requestLine")],
  ["error of CheckHeaders", "String()", "parse error"])

p("P24", "Callers working on their own messages at the same time do not disturb each other",
  "Parsing, building, editing, copying and encoding messages, headers, URIs, addresses, parameter lists and RTP and RTCP packets from several goroutines at the same time, each on objects of its own, gives every caller exactly what it gets when it is alone: the library keeps no state shared between objects, and there is no data race. In whatever order the calls of several callers come, each sees only the effects of its own.",
  ["schedules", "inputs", "histories"], "every interleaving of any programs of several callers, each working on objects it made or parsed itself",
  "No test uses more than one goroutine, and a shared table, buffer or cache shows only under particular interleavings.",
  ["core/*.go", "sip/parser/*.go", "sip/header/*.go", "sip/address/*.go", "sip/message/*.go", "rtp/*.go"],
  [("tables of each lexer", "core/CoreLexer.go, sip/parser/SIPLexer.go"), ("encoding buffers of each call", "core/NameValueList.go, sip/header/*.go, sip/message/*.go"), ("byte order found once", "rtp/rtp.go CheckEndian")],
  [("objects", "what each caller made or parsed", "fields of the objects")],
  ["String()", "getters", "errors", "race detector"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P), "properties")
