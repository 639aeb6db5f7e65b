#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))

PAR="sip/parser/"
p("C01","Parsing arbitrary input never panics",
 "For every byte sequence handed to the message parser and every string handed to the URL, address, request-line, status-line or single-header parsers, the call returns a value or an error to its caller. It never panics (nil dereference, index or slice out of range, failed type assertion, division by zero).",
 ["inputs"],"every finite byte sequence / string given to an exported parse entry point",
 "The tests parse a few dozen well-formed samples and a handful of truncated ones; a crash needs one particular malformed byte sequence out of infinitely many.",
 ["sip/parser","core/CoreLexer.go","core/StringTokenizer.go","core/CoreParser.go","core/HostNameParser.go"],
 [("StringMsgParser.ParseSIPMessageFromByte / ParseSIPMessage and the per-header Parse methods","sip/parser/*.go"),("error returns of Match/LookAhead/ByteStringNoSemicolon","core/CoreLexer.go, core/StringTokenizer.go")],
 [("cursor","current read position inside the lexer's buffer","core/StringTokenizer.go")],
 ["return value or panic of any Parse* function"])
p("C02","Parsing always terminates",
 "For every input string, each lexer, host/URL/address and single-header parse operation returns after finitely many steps: every parsing loop either consumes at least one input character per round or leaves with a result or an error. It never spins and never keeps growing a result list without consuming input.",
 ["inputs"],"every finite input string given to an exported parse entry point",
 "A hang shows only on particular malformed inputs (missing separator, stray escape, premature end of input); tests use inputs that parse.",
 ["sip/parser","core/CoreLexer.go","core/StringTokenizer.go"],
 [("loop exits on errors of Match/GetNextChar and cursor progress","sip/parser/*.go, core/*.go")],
 [("cursor","measure len(buffer)-cursor","core/StringTokenizer.go")],["return of any Parse* function"])
p("C03","Lexer cursor discipline",
 "Peeking operations (look-ahead, token peek) never move the read position and never change the text; consuming operations only move it forward and never past the end of the text. The character returned by a consuming read is the one at the old position, mark/rewind returns to exactly the marked position, and the unread rest reported by the lexer is exactly the text from the read position on.",
 ["inputs","histories"],"every text, every reachable read position, every sequence of lexer operations",
 "Tests drive the lexer only through whole-header parses of valid samples.",
 ["core/StringTokenizer.go","core/CoreLexer.go"],[("ptr/savedPtr updates","core/StringTokenizer.go, core/CoreLexer.go")],
 [("ptr","read position","core/StringTokenizer.go"),("savedPtr","marked position","core/StringTokenizer.go")])
p("C04","Scanners return exactly the maximal lexical run",
 "A token scan returns exactly the longest run, starting at the read position, of letters, digits and the RFC 3261 token punctuation; a number scan returns exactly the longest digit run and fails when there is none; a host-name byte run and a 'byte string without semicolon/slash/comma/newline' scan return exactly the text up to the first excluded character. Each leaves the read position right after what it returned, and a whitespace skip stops exactly at the first character that is not a blank or tab.",
 ["inputs"],"every text and read position",
 "Which byte ends a run is a question about all 256 byte values at all positions; tests touch a handful.",
 ["core/StringTokenizer.go","core/CoreLexer.go"],[("Ttoken, Number, ByteStringNo*, SPorHT, IsAlpha/IsDigit classes","core/CoreLexer.go, core/StringTokenizer.go")])
p("C05","Delimited text is returned verbatim",
 "Scanning a quoted string returns exactly the characters between the opening quote and the first quote not preceded by a backslash escape, with escapes left as written, and positions after the closing quote; scanning a parenthesised comment returns exactly the characters between the parentheses. When the closing delimiter is missing the scan fails with an error, and so does parsing a name=\"value\" pair whose quoted value is not closed.",
 ["inputs"],"every text and read position",
 "Escapes next to the end of input or next to delimiters are not in the samples.",
 ["core/CoreLexer.go"],[("QuotedString, Comment","core/CoreLexer.go")])
p("C06","Host and port survive parse and encode",
 "Parsing 'host' or 'host:port' yields exactly the host text as written and that decimal port, or no port when none is written; an unparsable or missing port after ':' is an error, not a wrong value. Encoding a host/port gives the host, bracketed when it is an IPv6 address, followed by ':' and the decimal port exactly when a port is set.",
 ["inputs"],"every host text and port number",
 "Tests use a dozen sample hosts and compare by eye-picked outputs.",
 ["core/HostNameParser.go","core/HostPort.go","core/Host.go"],[("GetHostPort, HostPort.String/SetPort/HasPort","core/HostNameParser.go, core/HostPort.go")])
p("C07","Parameter lists behave as case-insensitive maps",
 "In a parameter (name/value) list, setting a name makes lookups of that name in any letter case return the new value and leaves every other name's value unchanged; deleting a name makes exactly that name absent and reports whether it was present; a name that was never set is reported absent. The list's size changes exactly by the number of names added or removed. (Lists in which no name occurs twice; appending a pair without setting it can create a second one.)",
 ["inputs","histories"],"every list content, every sequence of add/set/get/has/delete",
 "Tests only check the re-encoded text of parsed samples; histories of mutations are not exercised.",
 ["core/NameValueList.go","core/NameValue.go","sip/header/ParametersImpl.go"],[("AddNameValue/SetNameValue/GetNameValue/Delete","core/NameValueList.go")])
p("C08","Parameters are encoded in order with exact quoting",
 "Encoding a name/value pair gives the name alone when the value is absent, 'name=value' for plain values and 'name=\"value\"' for quoted ones. Encoding a parameter list gives the encodings of all its pairs in list order joined by the list's separator, with no leading or trailing separator.",
 ["inputs"],"every pair and every list",
 "Tests compare a few sample encodings.",["core/NameValue.go","core/NameValueList.go"],[("String methods","core/NameValue.go, core/NameValueList.go")])
p("C09","Clones are equal and independent",
 "Cloning a name/value pair, a name/value list or a host/port gives an object with the same observable content (same pairs in the same order, same encoding). Mutating the clone afterwards leaves the original unchanged and vice versa.",
 ["inputs","histories"],"every object content and later mutation","Clone is not called by any test.",
 ["core/NameValue.go","core/NameValueList.go","core/HostPort.go","core/Host.go"],[("Clone methods","core/*.go")])
p("C10","SIP URI components are set, read and encoded faithfully",
 "On a SIP URI, after setting scheme, user, password, host, port, a URI parameter or a header the corresponding getters (including user@host, user@host:port and the ttl, transport, maddr, user, method and lr shortcuts) return what was set (the transport in lower case, a ttl that is not a number is ignored) and the other components are unchanged; removing a component makes it absent. The encoding is scheme ':' [user [':' password] '@'] host [':' port] followed by ';'-joined parameters and '?'-introduced '&'-joined headers, each part present exactly when set. The same holds for the number, global flag and parameters of a tel URL, encoded 'tel:' ['+'] number and ';'-joined parameters. A clone has the same components and later changes of either leave the other alone. An address reports the user, host, port and kind of the URI it holds and encodes as '*' (wildcard), the bare URI, or an optional quoted display name and the URI in angle brackets.",
 ["inputs","histories"],"every component value and every sequence of sets/removals",
 "Tests parse a few URIs and compare encodings; setters are never run.",
 ["sip/address/SipURIImpl.go","sip/address/Authority.go","sip/address/UserInfo.go"],[("Set*/Get*/Remove*/String","sip/address/*.go")])
p("C11","RTP header and extension codecs follow the RFC 3550 layout",
 "Encoding an RTP header or header extension produces exactly the network-order bit layout of RFC 3550 (version, padding, extension, CSRC count, marker, payload type, sequence, timestamp, SSRC, CSRC list; extension id, word count, words). Parsing such bytes returns exactly those field values, for every value of every field including 15 CSRCs and 65535 extension words, and too-short input is an error.",
 ["inputs"],"every header value and every byte sequence","There is no RTP test at all.",
 ["rtp/rtp.go"],[("RTPHeader.Parse/Encode, RTPExtension.Parse/Encode","rtp/rtp.go")])
p("C12","Building then parsing an RTP packet is lossless",
 "A packet built from payload type, payload, sequence number, timestamp, SSRC, CSRCs, marker and optional extension has the total length header+CSRCs+extension+payload, rejects more than 15 CSRCs and reserved or over-wide payload types with an error, and carries the fields and payload bytes unchanged. Parsing the raw bytes of a received packet yields the same fields, extension and payload, with the padding removed.",
 ["inputs"],"every combination of fields, payload, extension, padding","There is no RTP test at all.",
 ["rtp/rtppacket.go"],[("BuildPacket, ParseRawPacket","rtp/rtppacket.go")])
p("C13","Parsing RTP and RTCP data never panics",
 "For every byte sequence received from the network, parsing it as an RTP packet, RTP header, RTP extension, RTCP BYE or RTCP APP packet and then asking the result for the fields it reports as present returns normally. Malformed input is rejected with an error or a not-recognised packet.",
 ["inputs"],"every byte sequence","There is no RTP test at all.",
 ["rtp/rtp.go","rtp/rtppacket.go","rtp/rtcpbyepacket.go","rtp/rtcpapppacket.go"],[("length checks before indexing","rtp/*.go")])
p("C14","RTCP BYE and APP fields are the bytes on the wire",
 "For a well-formed BYE packet the reported SSRC count, each SSRC, and the presence, length and bytes of the leave reason equal the wire fields; for a well-formed APP packet the subtype, SSRC, four-byte name and application data equal the wire fields. A packet whose declared counts do not fit its length is reported as not well-formed.",
 ["inputs"],"every byte sequence","There is no RTP test at all.",
 ["rtp/rtcpbyepacket.go","rtp/rtcpapppacket.go","rtp/rtcppacket.go"],[("constructors and getters","rtp/rtcp*.go")])
p("C15","RTP time arithmetic and ordering",
 "Time values keep whole seconds and microseconds with microseconds below one million after every addition and subtraction; adding then subtracting the same amount gives the original, and the ordering operators agree with the (seconds, microseconds) lexicographic order.",
 ["inputs","histories"],"every pair of time values","There is no RTP test at all.",
 ["rtp/rtptime.go"],[("Add, Sub, comparison methods","rtp/rtptime.go")])
p("C16","The 48-bit generator is the standard linear congruence",
 "After seeding, every draw advances the 48-bit state by x' = (x*0x5DEECE66D + 0xB) mod 2^48 and returns the documented high bits of the new state, so equal seeds give equal sequences and the state never leaves 48 bits.",
 ["inputs","histories"],"every seed and every number of draws","There is no RTP test at all.",
 ["rtp/random.go"],[("SetSeed, GetRandom8/16/32/Double","rtp/random.go")])
p("C17","The collision list remembers exactly the addresses seen",
 "Recording an address reports 'created' exactly when no equal address was present, keeps one entry per address with its latest time, and has-queries answer true exactly for recorded addresses; timing out (with a delay not beyond the current time) removes exactly the entries older than the limit; clearing removes all.",
 ["inputs","histories"],"every sequence of updates, timeouts and queries","There is no RTP test at all.",
 ["rtp/collisionlist.go"],[("UpdateAddress, HasAddress, Timeout, Clear","rtp/collisionlist.go")])
p("C18","Content-Length always equals the body length",
 "After content is set or removed on a message, its Content-Length value equals the number of bytes of the body the message emits, and the encoded message (as a text and as bytes, alone or behind a request or status line) is the other headers, the Content-Length header, a blank line and exactly that body.",
 ["inputs","histories"],"every body and every sequence of content changes","Tests parse but never mutate contents.",
 ["sip/message/SIPMessage.go"],[("SetMessageContent*, RemoveContent, String, EncodeAsBytes","sip/message/SIPMessage.go")])
p("C19","Message framing extracts exactly the declared body",
 "Parsing a complete message yields as body exactly the bytes after the first blank line, limited to the declared Content-Length, whatever bytes the body contains; a message without a blank line, or with a declared length exceeding the data behind the blank line, is rejected with an error and nothing is read beyond the data.",
 ["inputs"],"every message text and body bytes","Samples have short ASCII bodies.",
 ["sip/parser/StringMsgParser.go"],[("ParseSIPMessageFromByte/ParseSIPMessage","sip/parser/StringMsgParser.go")])
p("C20","A message's header table and header list agree",
 "After any sequence of attaching, setting, adding and removing headers: looking a name up in any letter case gives the header in force under it (the first element, if it is a list) and the typed getters give the same one; setting replaces what was there; attaching a second single-valued header of a name is ignored (a second Content-Length only passes its value on) and attaching a header list to a present one appends its elements in order, or puts them in front in order when asked to; a removed header is absent from look-ups and from the encoding; each kind of header is emitted exactly once, in the order attached; the headers of all other names are unchanged; and new messages carry only Content-Length: 0.",
 ["histories","inputs"],"every sequence of header operations","Tests never mutate messages.",
 ["sip/message/SIPMessage.go"],[("AttachHeader*, SetHeader, AddHeader, RemoveHeader*, GetHeader*, typed setters and getters","sip/message/SIPMessage.go")])
p("C21","Derived messages copy what RFC 3261 requires",
 "A response created from a request carries the given status code and the request's From, To, Call-ID, CSeq and all Via headers; CANCEL and ACK requests created from a request carry its Request-URI, Call-ID, From and CSeq number, with the CSeq method replaced. Creating a derived message never changes the original.",
 ["inputs"],"every request","Tests never derive messages.",
 ["sip/message/SIPRequest.go","sip/message/SIPResponse.go"],[("CreateResponse, CreateCancelRequest, CreateAckRequest","sip/message/*.go")])
p("C22","Dialog identifiers identify the dialog",
 "The dialog identifier of a message is the lower-cased join, with colons, of the Call-ID, the local party's user@host:port and tag, and the remote party's user@host:port and tag; From is the local party in the client view and To in the server view; an absent user, port or tag is left out; requests and responses give the same identifier, and GetDialogId2 uses the given To tag in place of the header's.",
 ["inputs"],"every message","Tests never compute dialog ids.",
 ["sip/message/SIPRequest.go","sip/message/SIPResponse.go"],[("GetDialogId*","sip/message/*.go")])
p("C23","Validating setters reject bad values and change nothing",
 "A header setter that rejects a value (negative length, port, sequence number, expiry or TTL; version out of range; warning or status code out of range; malformed call identifier) returns an error and leaves the header exactly as it was; an accepted value is what the getter returns afterwards.",
 ["inputs"],"every value, every prior header state","Setters are not tested.",
 ["sip/header"],[("Set* methods with range checks","sip/header/*.go")])
p("C24","Header encodings are exact",
 "Each numeric or single-field header encodes as its name, ': ', the exact decimal or text of its fields in RFC order, and CRLF; From, To, Contact, Route, Record-Route, Refer-To and Reply-To encode as their address (in angle brackets when it is a bare URI; Route leaves a bare URI bare, a wild-card Contact is '*') followed by ';' and the parameters; status lines and request lines encode as their three parts separated by one blank and ended by CRLF.",
 ["inputs"],"every field value","Tests re-encode a few samples.",["sip/header"],[("String/EncodeBody methods","sip/header/*.go")])
p("C25","Header names dispatch to the right parser",
 "A header line is parsed into the header kind named by its name, in any letter case and in both long and compact form, and a header name not known to the library becomes an extension header keeping its name and value.",
 ["inputs"],"every spelling of every header name","Tests use one spelling each and call the specific parser directly.",
 ["sip/parser/ParserFactory.go","sip/parser/SIPLexer.go","sip/parser/StringMsgParser.go"],[("CreateParser","sip/parser/ParserFactory.go")])
p("C26","Call identifiers are split and joined losslessly",
 "A call identifier 'local@host' is stored as exactly those parts and encodes back to the same text; one without '@' is stored and encoded unchanged, and a malformed identifier is rejected without changing the stored one.",
 ["inputs"],"every identifier text","Two samples only.",["sip/header/CallIdentifier.go"],[("NewCallIdentifierFromString, SetCallID, String","sip/header/CallIdentifier.go")])
p("C27","Text utilities are exact",
 "Hex conversion yields two lower-case hex digits per byte in order; white-space reduction keeps all other characters in order, lower-cased.",
 ["inputs"],"every byte sequence","Not tested.",["sip/message/Utils.go"],[("ToHexString, ReduceString","sip/message/Utils.go")])
p("C30","Transaction and dialog timing follows RFC 3261",
 "Transactions and dialogs move through the RFC 3261 states and retransmission timers fire as specified.",
 ["schedules","histories"],"every schedule of messages and timers","Needs a running stack; the repository contains only the interfaces.",
 ["sip/SipProvider.go","sip/Dialog.go","sip/Transaction.go"],[("interfaces only","sip/*.go")])
p("C31","Concurrent use of the random generators is safe",
 "Concurrent draws from a shared generator each return a value of the sequence and never corrupt its state.",
 ["schedules"],"every interleaving of draws","Schedules are not sampled by tests.",["rtp/random.go"],[("mutex","rtp/random.go")])
import sys
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
