#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.
Run by hand after editing; the two files are committed."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"observe_at": observe} if observe else {})}})

M = "sip/message/"; H = "sip/header/"; A = "sip/address/"; R = "sip/parser/"

prop("C01", "Messages survive the round trip through text",
 "Encoding a well-formed request or response gives text that parses to a message equal to the original in start line, header fields with all their parts and order, and body; encoding that again gives the same text. The same holds for a message assembled through the API and for one that was received.",
 ["inputs"], "every well-formed message over the supported header types, any number and order of headers, with or without a body",
 "The tests encode and reparse a few dozen fixed headers and messages from the torture suite; interactions of header types, optional parts and bodies are not enumerated.",
 [M+"SIPMessage.go", M+"SIPRequest.go", M+"SIPResponse.go", R+"StringMsgParser.go"],
 [("message encoding", M+"SIPMessage.go String/EncodeAsBytes"), ("message parsing", R+"StringMsgParser.go ParseSIPMessageFromByte")])
prop("C02", "Parsing a message recovers exactly what the text says",
 "For a well-formed message the parsed start line (method, request URI, version, status code, reason phrase), each header field's value and its parts, the order of repeated header fields and the body are those written in the text. Nothing is invented, dropped, merged or taken from another field.",
 ["inputs"], "every well-formed message generated from a model of the grammar",
 "The tests look at a handful of texts and mostly check only that the encoding of a parsed header is stable.",
 [R+"StringMsgParser.go", R+"ParserFactory.go", R+"RequestLineParser.go", R+"StatusLineParser.go", M+"SIPMessage.go"],
 [("line splitting and dispatch", R+"StringMsgParser.go"), ("per-header parser table", R+"ParserFactory.go"), ("attaching headers", M+"SIPMessage.go AttachHeader2")])
prop("C03", "No input makes a parser panic, hang or exhaust memory",
 "Every public parsing entry point, given any byte string, returns in time and memory proportionate to the input with either a result or an error: it never panics, never loops forever and never returns neither or both. What it returns as a result can be read through its accessors and encoded without a panic.",
 ["inputs"], "every byte string given to the message, header, address, URI and host parsers",
 "Arbitrary malformed and truncated inputs cannot be enumerated; the tests feed almost only valid texts (and two of the torture tests crash).",
 [R+"StringMsgParser.go", R+"URLParser.go", R+"ViaParser.go", "core/CoreLexer.go", "core/StringTokenizer.go"],
 [("token matching and errors", "core/CoreLexer.go Match"), ("tokenizer end-of-input", "core/StringTokenizer.go"), ("message framing", R+"StringMsgParser.go")])
prop("C04", "Equivalent spellings of a message parse alike",
 "Folding a header over several lines, changing the letter case of header names, using the compact form of a header name, adding white space around separators or ending lines with LF instead of CRLF does not change what a message, or a header parsed on its own, parses to. Splitting a comma-separated list header into several header lines, or the reverse, does not either.",
 ["inputs"], "every well-formed message and every combination of these rewritings",
 "The tests contain a few folded and compact headers; the relation between spellings is never checked.",
 [R+"StringMsgParser.go", R+"ParserFactory.go", R+"HeaderParser.go", "core/CoreLexer.go"],
 [("unfolding and trimming", R+"StringMsgParser.go"), ("short names", R+"ParserFactory.go"), ("keyword lookup", "core/CoreLexer.go")])
prop("C05", "The body is exactly the bytes Content-Length frames",
 "A parsed message's body is exactly the bytes after the blank line, limited to Content-Length when that header is given and the rest of the input when not, whatever bytes it consists of, and stays so when the caller reuses its buffer; a body shorter than Content-Length is an error. What follows the body stays to be read from the parser. The encoding of a message ends with exactly its body, preceded by one blank line, and carries a Content-Length equal to the body's length in bytes.",
 ["inputs"], "every body (binary, empty, containing CRLFs or message-like text) and Content-Length present, absent, smaller or larger than the data",
 "Bodies in the tests are short SDP texts that happen to contain no awkward bytes and are not compared.",
 [R+"StringMsgParser.go", M+"SIPMessage.go"],
 [("body extraction", R+"StringMsgParser.go"), ("content and its length", M+"SIPMessage.go SetContent/SetMessageContent")])
prop("C06", "Malformed headers are reported, to the listener when there is one",
 "Parsing a message with a malformed start line or header returns an error when no exception listener is set. With a listener, each malformed part is reported to it once with its own text and line number, the parse fails if the listener returns an error, and otherwise the well-formed headers are all still parsed.",
 ["inputs", "fault_sequences"], "every well-formed message with one or more headers or the start line damaged, with no listener, an accepting one and a refusing one",
 "No test sets a listener, and tests with malformed input only print what happens.",
 [R+"StringMsgParser.go", R+"ParseExceptionListener.go"],
 [("exception handler", R+"StringMsgParser.go SetParseExceptionListener/ProcessHeader")])
prop("C07", "Validation accepts a request iff its mandatory headers are in order",
 "Checking a request succeeds exactly when From, To, Call-ID, CSeq, Via and Max-Forwards are present and the CSeq method is the request method. Checking a response succeeds exactly when From, To, Call-ID, CSeq and Via are present. The outcome is the same for parsed and for assembled messages, whatever other headers and body they have, and checking changes nothing.",
 ["inputs"], "every subset of the mandatory headers, in parsed and assembled messages, and every pair of request and CSeq methods",
 "The tests never call the validation on a message that lacks a header.",
 [M+"SIPRequest.go", M+"SIPResponse.go"], [("CheckHeaders", M+"SIPRequest.go CheckHeaders")])
prop("C08", "A message's header table behaves like an ordered multimap",
 "After any sequence of adding (at the end or on top), setting, removing and looking up headers of a message, each lookup by name (in any letter case), the header iterators, the typed accessors, the list of names and the encoded lines agree with the sequence: single-valued headers hold the last value set, list headers hold all their elements in order, and removed ones are gone. No operation disturbs the value or the relative order of headers of another name.",
 ["histories"], "every sequence of header operations on requests and responses",
 "No test performs more than one header operation on a message.",
 [M+"SIPMessage.go", H+"SIPHeaderList.go"],
 [("name table and ordered list", M+"SIPMessage.go AttachHeader2/RemoveHeader/SetHeader")])
prop("C09", "Content operations keep body, type and Content-Length in step",
 "After any sequence of setting, replacing and removing a message's content (as text or as bytes), the content read back is that of the last operation, the Content-Type is the one set with it, none remains when the content is removed, and the encoded message carries exactly that content. The Content-Length in the encoding always equals the number of body bytes, even when another value was set.",
 ["histories", "inputs"], "every sequence of content operations and every content, in requests and responses",
 "No test sets content through the API.",
 [M+"SIPMessage.go", M+"Message.go"], [("SetContent, RemoveContent, ComputeContentLength", M+"SIPMessage.go")])
prop("C10", "A response derived from a request belongs to it",
 "A response created from a request has the status asked for and the reason asked for (or the code's standard phrase), and the request's Via list in order, From, To, Call-ID, CSeq, Record-Route and Timestamp where present, each unchanged, and no other header of the request except Max-Forwards, and no body; it validates, and encodes to text that parses back as that response. The request is not changed.",
 ["inputs"], "every well-formed request and every status code",
 "No test creates a response.",
 [M+"SIPRequest.go", M+"SIPResponse.go"], [("CreateResponse, CreateResponse2", M+"SIPRequest.go"), ("reason phrases", M+"SIPResponse.go GetReasonPhraseFromInt")])
prop("C11", "CANCEL, ACK and BYE derived from a request match its transaction",
 "A CANCEL created from a request carries its request URI, topmost Via alone, From, To, Call-ID, Route set and CSeq number with the method CANCEL; an ACK likewise with the method ACK, no Route, and the To of the response where one is given; both have the request's transaction identifier. A BYE, ACK or other request created from a request carries the request line asked for, its Call-ID, CSeq number with the new method, topmost Via alone and Max-Forwards, and From and To (swapped on demand). A derived request never carries a body or Content-Type of the original, validates, and encodes to text that parses back to the same. The original is not changed. A request made from a response with a given URI, Via and CSeq carries just these (an ACK or CANCEL the response's top branch), no body, and the response's headers other than Via, CSeq, Record-Route, Content-* and those only responses have.",
 ["inputs"], "every well-formed INVITE and response to it",
 "No test derives a request.",
 [M+"SIPRequest.go"], [("CreateCancelRequest, CreateAckRequest, CreateACKRequest, CreateBYERequest, CreateSIPRequest", M+"SIPRequest.go")])
prop("C12", "Deriving or cloning never alters or aliases the original",
 "Creating responses and other requests from a message leaves the original's encoding unchanged, also when the derived message is then given another status or method, another body, a further header of another kind, or relieved of a whole header (what is changed inside a header object is another matter: responses are documented to share those with their request). A clone of a header, header list, start line, address, URI, host and port or parameter list has the type and the encoding of the original, and no later change to either, or to any part its getters lead to, changes the encoding of the other.",
 ["histories"], "every message, header, address and URI value, and every later change to either side",
 "No test clones anything.",
 [M+"SIPMessage.go", M+"SIPRequest.go", H+"SIPHeaderList.go", "core/NameValueList.go", A+"AddressImpl.go"],
 [("Clone methods", H+" and "+A), ("derived messages", M+"SIPRequest.go")])
prop("C13", "Dialog and transaction identifiers separate what RFC 3261 separates",
 "Requests and responses of one dialog (same Call-ID, parties and tags) have the same dialog identifier for a role, and that of the other role for the mirrored message (From and To swapped); those with another Call-ID, From tag or To tag have another one. GetDialogId2 gives the identifier of the message with the To tag replaced by the one given, and changes nothing. A request, its retransmissions and its responses have one transaction identifier. Requests with other branches have different ones; where the branch has no magic cookie, so do those with another Call-ID, From tag, CSeq number or Via sent-by. Header spelling (letter case, compact names, other headers) and the letter case of host names and tags have no influence, and identifiers differ for values that differ in more than letter case.",
 ["inputs"], "every pair of requests and responses with equal or differing tags, Call-IDs, branches, methods and sequence numbers",
 "No test computes an identifier.",
 [M+"SIPMessage.go", M+"SIPRequest.go", M+"SIPResponse.go"], [("GetDialogId, GetDialogId2, GetTransactionId", M)])

prop("C14", "From, To, Contact, Route and similar headers keep address and parameters",
 "For From, To, Contact, Reply-To, Refer-To, Route and Record-Route, what is parsed or set — display name, URI with its own parameters, header parameters such as tag, expires and q, the Contact wildcard — is what the accessors return and what the encoding carries, and the encoding parses back to the same. Parameters of the URI inside angle brackets never mix with header parameters.",
 ["inputs", "histories"], "every address header generated from the model, and every sequence of setters",
 "The tests check a few fixed texts per header for a stable encoding.",
 [H+"ContactImpl.go", H+"FromImpl.go", H+"ToImpl.go", H+"RouteImpl.go", H+"RecordRouteImpl.go", R+"AddressParametersParser.go", R+"ContactParser.go"],
 [("address with parameters", R+"AddressParametersParser.go"), ("encoding", H+"AddressParametersImpl.go")])
prop("C15", "Via headers keep protocol, sent-by, parameters and comment",
 "A Via header's protocol name, version, transport, sent-by host and port, and parameters (branch, received, rport, maddr, ttl, others) are what the text says or the setters set, in every accessor and in the encoding. A list of Vias keeps its order and each element its own parts.",
 ["inputs", "histories"], "every Via list generated from the model, and every sequence of setters",
 "The tests check a handful of Via texts for a stable encoding only.",
 [H+"ViaImpl.go", R+"ViaParser.go", H+"Protocol.go"], [("Via parser", R+"ViaParser.go"), ("Via encoding and accessors", H+"ViaImpl.go")])
prop("C16", "Authentication headers keep scheme and every parameter intact",
 "WWW-Authenticate, Proxy-Authenticate, Authorization, Proxy-Authorization and Authentication-Info keep their scheme and each parameter's value, quoted or not as the syntax demands, through parsing, accessors, setters and encoding. Reading a parameter that is absent yields its empty value, not a failure.",
 ["inputs", "histories"], "every challenge and credential generated from the model, and every sequence of setters",
 "The tests check a few fixed texts.",
 [H+"AuthenticationImpl.go", H+"Challenge.go", H+"AuthenticationInfoImpl.go", R+"ChallengeParser.go", R+"ParametersParser.go"],
 [("challenge parsing", R+"ChallengeParser.go"), ("parameter accessors", H+"AuthenticationImpl.go")])
prop("C17", "List headers keep their elements, parts and order",
 "Accept, Accept-Encoding, Accept-Language, Alert-Info, Allow, Allow-Events, Call-Info, Content-Encoding, Content-Language, Error-Info, In-Reply-To, Proxy-Require, Reason, Require, Supported, Unsupported and Warning parse to one element per comma-separated item, in order, with each item's parts and parameters as written. Their encoding parses back to the same elements.",
 ["inputs"], "every list generated from the models of these headers",
 "The tests use a few fixed lists and compare encodings only.",
 [R+"HeaderParser.go", H+"SIPHeaderList.go", R+"AcceptParser.go", R+"WarningParser.go", R+"ReasonParser.go"],
 [("per-header list parsers", R), ("list encoding", H+"SIPHeaderList.go")])
prop("C18", "Single-valued headers keep their values",
 "Call-ID, CSeq, Content-Disposition, Content-Length, Content-Type, Date, Event, Expires, Max-Forwards, MIME-Version, Min-Expires, Organization, Priority, RAck, RSeq, Retry-After, Server, Subject, Subscription-State, Timestamp, User-Agent and unknown headers give back through their accessors the values and parameters their text carries or their setters set. Their encoding parses back to the same values.",
 ["inputs", "histories"], "every value in the grammar of each header, including the ends of the numeric ranges",
 "The tests use one to four fixed texts per header.",
 [R+"CSeqParser.go", R+"ContentTypeParser.go", R+"DateParser.go", H+"RetryAfterImpl.go", H+"SubscriptionStateImpl.go", H+"TimeStampImpl.go"],
 [("per-header parsers and encoders", R+" and "+H)])
prop("C19", "Setters reject out-of-range values and leave the header unchanged",
 "A setter given a value outside its documented range (a negative count or port, a q-value outside 0 to 1, an unknown code, an empty mandatory text) returns an error and the header's encoding stays as it was; a value inside the range is accepted and read back.",
 ["inputs", "histories"], "every documented setter and every value, in particular at the ends of its range",
 "No test calls a setter with an invalid value.",
 [H+"ContactImpl.go", H+"WarningImpl.go", H+"MaxForwardsImpl.go", H+"ViaImpl.go", M+"SIPResponse.go"],
 [("range checks", H)])
prop("C20", "Parameter maps behave like an ordered case-insensitive map",
 "After any sequence of setting, deleting and reading parameters, a parameter has the value last set under its name in any letter case, the names list has each present parameter once in the order in which they were last set, and the encoding is name=value pairs in that order with the right separator and quoting. Cloning gives an independent equal map.",
 ["histories"], "every sequence of operations on a parameter list and on headers with parameters",
 "No test operates on a parameter list.",
 ["core/NameValueList.go", "core/NameValue.go", H+"ParametersImpl.go"],
 [("NameValueList operations", "core/NameValueList.go")])
prop("C21", "Header lists behave like sequences",
 "After any sequence of adding first or last, removing and concatenating on a header list, first and last element, size, membership, iteration and encoding agree with the sequence model.",
 ["histories"], "every sequence of operations on header lists",
 "No test operates on a header list.",
 [H+"SIPHeaderList.go"], [("list operations", H+"SIPHeaderList.go")])
prop("C22", "SIP URIs survive parsing and encoding",
 "A sip or sips URI's scheme, user, password, host, port, parameters and headers are those its text gives, including escaped characters and IPv6 hosts, and its encoding is an equivalent text that parses back to the same URI.",
 ["inputs"], "every SIP URI generated from the RFC 3261 grammar",
 "The tests parse nine fixed URIs and compare encodings.",
 [A+"SipURIImpl.go", R+"URLParser.go", A+"Authority.go", A+"UserInfo.go"], [("SIP URL parser", R+"URLParser.go SipURL"), ("encoding", A+"SipURIImpl.go String")])
prop("C23", "SIP URI accessors and setters agree",
 "After any sequence of setting and removing user, password, host, port, secure flag, the transport, ttl, maddr, user, method and lr parameters, other parameters and headers of a SIP URI, every accessor returns what was last set, absent parts read as absent, and the encoding contains exactly the parts set and parses back to them.",
 ["histories"], "every sequence of setters on SIP URIs built or parsed",
 "No test calls an accessor or setter of a URI.",
 [A+"SipURIImpl.go", A+"Authority.go", A+"UserInfo.go"], [("setters and accessors", A+"SipURIImpl.go")])
prop("C24", "Telephone and other URIs survive parsing and encoding",
 "A tel URI's number, global or local kind, isdn-subaddress, post-dial and other parameters are those its text gives or its setters set; a URI of another scheme keeps its scheme and text, and a URI kept as plain text is a SIP URI by its scheme alone. Their encoding parses back to the same.",
 ["inputs", "histories"], "every tel URI and generic URI generated from the grammar, and every sequence of setters",
 "The tests parse two tel URIs.",
 [A+"TelURLImpl.go", A+"TelphoneNumber.go", R+"URLParser.go", A+"URIImpl.go"], [("telephone parser", R+"URLParser.go ParseTelephoneNumber")])
prop("C25", "Name-addr and addr-spec addresses keep display name and URI",
 "An address's display name (token, several tokens or quoted string with escapes) and URI are those the text gives or the setters set, and a bare URI has no display name. Its encoding parses back to the same address.",
 ["inputs", "histories"], "every address generated from the grammar",
 "The tests parse five fixed addresses and compare encodings.",
 [A+"AddressImpl.go", R+"AddressParser.go"], [("address parser", R+"AddressParser.go"), ("encoding", A+"AddressImpl.go String")])
prop("C26", "Host names, IPv4 and IPv6 hosts and ports are told apart and kept",
 "A host given as name, IPv4 address or IPv6 reference is classified as what it is, keeps its text (IPv6 with brackets exactly once) and its port if one is given, through parsing, constructors, setters and encoding.",
 ["inputs", "histories"], "every host and host:port text of the grammar",
 "The one host test checks a few texts and none of the classification.",
 ["core/Host.go", "core/HostPort.go", "core/HostNameParser.go"], [("host parser", "core/HostNameParser.go"), ("host classification", "core/Host.go")])
prop("C27", "The lexer's scanners consume what they return and nothing else",
 "Each scanning function of the lexer and of the URL parser returns exactly the longest prefix of the remaining input in its character class (or up to its delimiter) and leaves the input position just after what it consumed; marking and rewinding restores the position. A scan that does not find what it needs reports an error. A word is a keyword exactly if the selected table holds it, in any letter case.",
 ["inputs", "histories"], "every buffer and every sequence of scanner calls",
 "No test drives the lexer directly.",
 ["core/CoreLexer.go", "core/StringTokenizer.go", R+"URLParser.go"], [("scanners", "core/CoreLexer.go"), ("tokenizer", "core/StringTokenizer.go"), ("URL scanners", R+"URLParser.go")])
prop("C28", "State and timeout enumerations map codes and objects one to one",
 "For dialog states, transaction states and timeouts, looking up a defined code returns the object with that code and text, the same one every time, and looking up any other code is an error.",
 ["inputs"], "every integer code",
 "No test covers the package; out-of-range codes are unbounded.",
 ["sip/DialogState.go", "sip/TransactionState.go", "sip/Timeout.go"], [("lookup tables", "sip/DialogState.go GetDialogState")])
prop("C29", "RTP packets carry exactly their fields on the wire",
 "A packet built from payload type, marker, sequence number, timestamp, SSRC, up to 15 CSRCs, optional extension and payload has the RFC 3550 wire form, and a received wire form gives back exactly these fields and the payload without padding. Building refuses payload types over 127, 72 and 73 and more than 15 CSRCs.",
 ["inputs"], "every packet: all field values, 0 to 15 CSRCs, extensions up to 65535 words, padding 1 to 255",
 "The package has no tests.",
 ["rtp/rtppacket.go", "rtp/rtp.go"], [("header and extension encoding", "rtp/rtp.go"), ("packet building and parsing", "rtp/rtppacket.go")])
prop("C30", "Malformed RTP data is refused, never crashed on",
 "Received bytes that are not a well-formed version 2 RTP packet (too short for their header, CSRCs or extension, too much padding, an RTCP report's type) are refused with an error, well-formed ones are accepted, and no byte string makes the RTP or RTCP parsers panic.",
 ["inputs"], "every byte string",
 "The package has no tests.",
 ["rtp/rtppacket.go", "rtp/rtp.go", "rtp/rtcpbyepacket.go", "rtp/rtcpapppacket.go"], [("length checks", "rtp/rtp.go Parse"), ("padding and payload checks", "rtp/rtppacket.go ParseRawPacket")])
prop("C31", "RTCP BYE and APP packets give back exactly their fields",
 "A well-formed BYE packet gives its SSRCs and its reason with its length, a well-formed APP packet its subtype, SSRC, four-byte name and data without padding; packets whose counts, padding or reason do not fit are marked as of unknown format and give empty values.",
 ["inputs"], "every well-formed and malformed BYE and APP packet",
 "The package has no tests.",
 ["rtp/rtcpbyepacket.go", "rtp/rtcpapppacket.go"], [("field offsets", "rtp/rtcpbyepacket.go"), ("padding", "rtp/rtcpapppacket.go")])
prop("C32", "RTP and NTP times convert and compute without loss beyond resolution",
 "Converting a time between seconds with microseconds, floating point and NTP form and back gives the same time within the coarser resolution, and addition, subtraction and the comparison of times agree with exact arithmetic.",
 ["inputs"], "every time in the first NTP era",
 "The package has no tests.",
 ["rtp/rtptime.go", "rtp/ntptime.go"], [("carry and borrow", "rtp/rtptime.go"), ("NTP conversion", "rtp/rtptime.go GetNTPTime")])
prop("C33", "RTP addresses, collision list and transmission parameters keep their values",
 "Address equality and same-host tests are those of IP or host name and port, and a clone is equal and independent. The collision list tells whether an address was already known, refreshes its time and expires exactly the entries older than the timeout; transmission parameters and information give back what was set.",
 ["histories", "inputs"], "every pair of addresses and every sequence of collision-list and parameter operations",
 "The package has no tests.",
 ["rtp/ipaddress.go", "rtp/hostaddress.go", "rtp/collisionlist.go", "rtp/transmissionparams.go", "rtp/transmissioninfo.go"],
 [("address comparison", "rtp/ipaddress.go"), ("timeout", "rtp/collisionlist.go")])
prop("C34", "Random numbers follow the documented 48-bit generator",
 "A generator started from a seed gives the documented rand48 sequence, the same for the same seed, in 8, 16 and 32 bit and floating form, with floating values in [0, 1) and every other value in range. Several goroutines may draw from one generator: together they get each value of the sequence once, without a data race.",
 ["inputs", "histories", "schedules"], "every seed, every sequence of draws and every interleaving of them",
 "The package has no tests.",
 ["rtp/random.go"], [("linear congruential step", "rtp/random.go")])
prop("C35", "All ways to parse the same text agree",
 "The text of a header, start line, address, URI, telephone number or host gives the same result, an equal object or an error, through its parser made from the text and made from a lexer. A well-formed text also gives that object through the header parser factory and through the message parser's method for it (ParseSIPHeader, ParseAddress, ParseHostPort, ParseHost, ParseSIPUrl, ParseUrl as plain text, ParSetelephoneNumber, ParseSIPRequestLine, ParseSIPStatusLine) and through the URL parser's specific functions. A well-formed message parsed from a string, from bytes, and put together from its start line and headers parsed on their own is the same.",
 ["inputs"], "every header, start line, address, URI and host text, well-formed and damaged",
 "The tests use one entry point for each header, on well-formed texts.",
 [R+"ParserFactory.go", R+"StringMsgParser.go", R+"HeaderParser.go", R+"URLParser.go", R+"AddressParser.go"],
 [("entry points", R+"StringMsgParser.go ParseSIPHeader/ParseAddress"), ("table of parsers", R+"ParserFactory.go")])
prop("C36", "The start line of a message is what was set last",
 "After any sequence of setting the method, request URI, version, status code, reason phrase or a whole start line of a message, or changing the line object itself, the getters of message and line, the version numbers, the first line and the encodings (text, bytes and list of lines) agree with it. Setting a request's method sets the CSeq's too; a request line without a method is encoded with the CSeq's; a response is final exactly from 200 to 699; the default parameters go to SIP URIs of INVITE and REGISTER only.",
 ["histories"], "every sequence of start line operations on requests and responses",
 "No test changes the start line of a message.",
 [H+"RequestLine.go", H+"StatusLine.go", M+"SIPRequest.go", M+"SIPResponse.go"],
 [("request line", H+"RequestLine.go String"), ("SetMethod, SetRequestLineDefaults, EncodeAsBytes", M+"SIPRequest.go"), ("SetStatusCode, IsFinalResponse", M+"SIPResponse.go")])
prop("C37", "Goroutines with values of their own do not disturb each other",
 "Any number of goroutines may parse, build, derive, clone and encode messages, headers, addresses, URIs, parameter lists and RTP packets of their own at once, and may read one message together: each gets exactly the result it gets alone, without a data race.",
 ["schedules", "inputs"], "every set of tasks and every interleaving of them",
 "No test uses two goroutines, and the tests are not run under the race detector.",
 [R+"StringMsgParser.go", "core/CoreLexer.go", R+"SIPLexer.go", M+"SIPMessage.go"],
 [("tables made per lexer", R+"SIPLexer.go"), ("tables made per message", M+"SIPMessage.go super")])
prop("C38", "Logged messages reach the log file",
 "A message logged to a named file is appended to it after a separator, the file being made when missing, and everything logged before stays; while logging is off nothing is written.",
 ["histories"], "every sequence of log calls and message texts",
 "No test logs anything.",
 ["core/LogWriter.go"], [("LogMessageToFile, LogMessage", "core/LogWriter.go")])
prop("C39", "Text helpers keep the text they are given",
 "The hexadecimal form of bytes has two lower-case digits for each byte, in order; quoting adds only the quotes; squeezing a text gives it in lower case without its blanks and tabs and changes nothing else.",
 ["inputs"], "every byte string and text",
 "No test calls them.",
 [M+"Utils.go"], [("ToHexString, GetQuotedString, ReduceString", M+"Utils.go")])

# property -> level note; a property listed here is claimed
exec(open(os.path.join(ROOT, "tools", "claims.py")).read())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
ids = [p["id"] for p in P]
assert set(CLAIMED) | set(NOT) == set(ids), set(ids) ^ (set(CLAIMED) | set(NOT))
man = {"version": 1, "setup_cmd": "bash setup.sh",
 "checks": [{"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
   "technique": CLAIMED[i][0], "level": "exploration", "level_note": CLAIMED[i][1]} for i in ids if i in CLAIMED],
 "not_applicable": [{"property": i, "reason": NOT[i]} for i in ids if i in NOT],
 "notes": "All checks drive the public API of the packages in /repo; no hooks are needed in /repo."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1); f.write("\n")
