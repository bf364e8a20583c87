import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    assert len(title)<=80,(id,len(title))
    P.append(d)
PK="radius/src/core/packet.rs";AT="radius/src/core/attributes.rs";AV="radius/src/core/avp.rs";SV="radius/src/server.rs";CL="radius/src/client.rs";CO="radius/src/core/code.rs";TG="radius/src/core/tag.rs";VS="radius/src/core/vsa.rs";GE="code-generator/src/main.rs";RQ="radius/src/core/request.rs"
p("C01","A packet survives encoding and decoding unchanged",
 "Whenever encoding a packet succeeds, decoding the resulting bytes succeeds and yields the same packet type, identifier and shared secret and the same attributes (type and value octets) in the same order; for Access-Request and Status-Server the authenticator is the same too. The bytes are exactly: type octet, identifier, two-octet big-endian total length, 16-octet authenticator, then each attribute as type, length (value length + 2) and value. Encoding does not change the packet and encoding it again gives the same bytes.",
 ["inputs"],"every packet that can be built through the public constructors and attribute operations: all types, identifiers, secrets, attribute types 0..255, value lengths 0..253, any number and order of attributes up to 4096 octets",
 "The tests encode two RFC examples and a few packets with one attribute; they never vary order, lengths, types or identifiers systematically.",
 [PK,AT],[("Packet::encode / marshal_binary",PK),("Packet::decode",PK),("Attributes::encode/decode",AT)],["bytes returned by encode","packet returned by decode"])
p("C02","Decoding accepts exactly the well-formed packets and never panics",
 "For every byte string, decoding returns either a packet or an error and never panics. It succeeds exactly when there are at least 20 octets, the length field is between 20 and 4096 and not larger than the input, and the octets from 20 up to the length field split exactly into attributes whose length octet is at least 2. On success every field is the corresponding octets (type octets that name no known packet type read as the invalid type), and octets beyond the length field are ignored.",
 ["inputs"],"every byte string, in particular every length-field/actual-length combination, every packet type octet and every attribute-length structure",
 "test_parse_invalid samples five malformed inputs; boundaries (20, 4096, attribute lengths 0, 1, 255, last attribute cut short, padding) and the type octets are not covered.",
 [PK,AT,CO],[("length checks in Packet::decode",PK),("attribute walk in Attributes::decode",AT),("Code::from",CO)],["result of decode","packet accessors"])
p("C03","Encoding emits a well-formed datagram or an error, never anything else",
 "Encoding any packet either fails with an error or yields bytes whose length field equals their number, at most 4096; it never panics or truncates. It fails exactly when some attribute value is longer than 253 octets, the total would exceed 4096 octets, or the packet type is one that has no defined encoding (Status-Client, Reserved, Invalid).",
 ["inputs"],"every packet, including those with oversized values, with attribute totals around 4096, 65536 and beyond, and every packet type",
 "One test checks a 253/254-octet value; no test reaches the 4096 limit, the 16-bit limit or an unencodable type.",
 [PK,AT],[("size check in marshal_binary",PK),("value length check in Attributes::encode",AT),("match on code in Packet::encode",PK)],["result of encode"])
p("C04","A request is judged authentic exactly when it is sealed with the secret",
 "Encoding an Accounting-, Disconnect- or CoA-Request seals it with MD5(type+id+length+16 zero octets+attributes+secret) as its authenticator, and Access-Request and Status-Server carry the packet's own authenticator. With a non-empty secret and at least 20 octets, the request authenticity check accepts every Access-Request and Status-Server, accepts an Accounting-, Disconnect- or CoA-Request exactly when its authenticator is that digest under the given secret (octets beyond the length field are padding and do not count), and rejects every other type; in all other cases it rejects, and it never panics.",
 ["inputs"],"all request bytes and secrets: every type octet, every single-octet tampering of a sealed request, other secrets, padding, short inputs",
 "The only test calls the check on one Access-Request, for which it is unconditionally true; the digest branch and every rejecting branch are never executed.",
 [PK],[("Packet::encode",PK),("Packet::is_authentic_request (md5 and openssl variants)",PK)],["bytes returned by encode","verdict"])
p("C05","A response is authentic exactly for its own request and secret",
 "A response made from a request has the request's identifier, secret and authenticator and no attributes; encoding it stores MD5(type+id+length+request authenticator+attributes+secret) as its authenticator. The response authenticity check accepts a response exactly when response and request have at least 20 octets, the secret is not empty and the response's authenticator is that digest for this request's authenticator and this secret (octets beyond the response's length field are padding and do not count). Hence a response tampered with in any octet, or paired with another request or secret, is rejected.",
 ["inputs"],"all requests, response types, attribute lists and secrets, and every single-octet tampering of response or request authenticator",
 "One RFC example is accepted; no test checks any rejection.",
 [PK],[("Packet::make_response_packet",PK),("Packet::encode",PK),("Packet::is_authentic_response (md5 and openssl variants)",PK)],["bytes returned by encode","verdict"])
p("C06","A packet's attributes behave as an ordered multimap under any history",
 "After any sequence of add, extend, delete, set-identifier and clone operations, the packet holds exactly the attributes added and not since deleted, in the order of addition: lookup gives the first value of that type or nothing, lookup-all gives all values of that type in order, delete removes all values of that type and no others. Operations on one packet never affect another one (a clone, or a response made from it), and no lookup changes the packet.",
 ["histories"],"every sequence of operations on one or several packets, with all attribute types and repeated and interleaved types",
 "One test deletes one attribute once; no test has repeated types, interleavings or clones.",
 [AT,PK],[("Attributes::add/extend/del/lookup/lookup_all",AT),("Packet wrappers, Clone",PK)],["lookup, lookup_all, encode"])
p("C07","User-Password hiding is reversible, exact and bounded",
 "A password of up to 128 octets that does not end in a zero octet, hidden with a non-empty secret and a 16-octet authenticator, is recovered unchanged with the same secret and authenticator, also after the Access-Request was sent and decoded. The hidden value is zero-padded to a positive multiple of 16 octets and is c(i) = p(i) xor MD5(secret + c(i-1)) with c(0) the request authenticator. Passwords over 128 octets, empty secrets, authenticators of another length, and hidden values shorter than 16 or longer than 128 octets give an error, never a panic or a wrong value.",
 ["inputs"],"every password content and length 0..130, secret, authenticator, and every received attribute value",
 "Tests round-trip six passwords of at most 48 octets and never compare the ciphertext with the RFC formula for more than one block, nor reach the limits or an error.",
 [AV,"radius/src/core/rfc2865.rs"],[("AVP::from_user_password / encode_user_password (md5 and openssl variants)",AV)],["attribute value octets","recovered password or error"])
p("C08","Tunnel-Password hiding is reversible, tagged and salted",
 "A password of up to 240 octets that does not end in a zero octet, hidden with any tag, a non-empty secret and a 16-octet authenticator, is recovered unchanged together with its tag under the same secret and authenticator. The hidden value is the tag (zero if absent), a two-octet salt whose top bit is set, and the zero-padded password in a positive multiple of 16 octets hidden block by block with MD5(secret + authenticator + salt) and then MD5(secret + previous block). Longer passwords, empty secrets, authenticators of another length, received values of another shape or with the salt's top bit clear give an error, never a panic.",
 ["inputs"],"every password content and length 0..260, tag, salt, secret, authenticator, and every received attribute value",
 "Tests round-trip six short passwords with one tag; ciphertext, salt bit, limits and errors are never checked.",
 [AV,"radius/src/core/rfc2868.rs"],[("AVP::from_tunnel_password / encode_tunnel_password (md5 and openssl variants)",AV)],["attribute value octets","recovered password, tag or error"])
p("C09","Integers, addresses, dates and prefixes have one exact representation",
 "Every 16- and 32-bit integer, IPv4 and IPv6 address, and date in whole seconds between 1970 and 2106 is written as its big-endian octets and read back unchanged; an IPv4 prefix (4 octets) and an IPv6 prefix (0 to 16 octets) are written as a zero octet, their length in bits and their octets, and read back unchanged. Reading a value of the wrong length (other than 2, 4, 16, 6, or below 2 for an IPv6 prefix) gives an error, and so does making a prefix of another length. None of these operations panics.",
 ["inputs"],"every value of each type and every received octet string of length 0..253",
 "Each conversion is tested with one or two values; wrong lengths are tested only for prefixes.",
 [AV],[("AVP::from_u32/u16/ipv4/ipv6/ipv4_prefix/ipv6_prefix/date and the encode_* readers",AV)],["attribute value octets","value or error read back"])
p("C10","Text and tagged values are read back with the right tag or rejected",
 "A text value is written as its UTF-8 octets and read back unchanged, and octets that are not UTF-8 give an error. A tagged integer is a tag octet (zero when absent) and four big-endian octets, read back with that tag and rejected when empty, of another length or with a tag above 31; a tagged text with a tag is the tag octet followed by the text and one without is just the text, and on reading a first octet of 1 to 31 is the tag, zero or an empty value is an error, and anything above 31 belongs to the text. None of these operations panics.",
 ["inputs"],"every text, tag 0..255 or none, integer, and every received octet string",
 "Tests use one string, tags 2, 3 and 0; boundary tags (31, 32), invalid UTF-8, empty and wrong-length values are not covered.",
 [AV,TG],[("AVP::from_string/from_tagged_string/from_tagged_u32 and readers",AV),("Tag::is_valid_value/is_zero",TG)],["attribute value octets","value, tag or error read back"])
p("C11","Vendor-specific messages carry vendor, type, length and value exactly",
 "The message of a vendor-specific text value is the four big-endian octets of the vendor id, the vendor type, a length octet, the tag octet if the variant has one, and the value's octets; the length octet and the reported length equal 2 (3 with a tag) plus the value's length. This holds for every vendor id, type, tag and value that fits an attribute, so a packet carrying the message as a Vendor-Specific attribute delivers it unchanged.",
 ["inputs"],"every vendor id (also negative), vendor type, tag and text of up to 247 (246 with a tag) octets",
 "One value per variant is tested.",
 [VS],[("StringVSA::new/message, TaggedStringVSA::new/message",VS)],["message(), len(), is_empty(), bytes of the encoded packet"])
p("C12","Every dictionary attribute has the right number, format and constants",
 "For each attribute of the supported RFC dictionaries, the module of that RFC writes and reads exactly the attribute number and value format (text, octets, fixed-length octets, address, prefix, date, 16/32-bit integer, tagged, hidden, concatenated) that the dictionary declares, and each named value constant has the declared number. Looking up gives the first value (or nothing), looking up all gives every value in order or an error if one is malformed, deleting removes exactly that attribute's values; other attributes are never read or changed. A value of a concatenated attribute longer than 253 octets is split into consecutive attributes and read back joined.",
 ["inputs","histories"],"all 159 dictionary attributes and all 179 value constants, with any packet contents around them, any values and any order of operations",
 "The tests touch about ten of the attributes, with one value each.",
 ["radius/src/core/rfc2865.rs","radius/src/core/rfc2866.rs","radius/src/core/rfc2867.rs","radius/src/core/rfc2868.rs","radius/src/core/rfc2869.rs","radius/src/core/rfc3162.rs","radius/src/core/rfc3576.rs","radius/src/core/rfc3580.rs","radius/src/core/rfc4072.rs","radius/src/core/rfc4372.rs","radius/src/core/rfc4603.rs","radius/src/core/rfc4675.rs","radius/src/core/rfc4818.rs","radius/src/core/rfc4849.rs","radius/src/core/rfc5090.rs","radius/src/core/rfc5176.rs","radius/src/core/rfc5607.rs","radius/src/core/rfc5904.rs","radius/src/core/rfc6519.rs","radius/src/core/rfc6572.rs","radius/src/core/rfc6677.rs","radius/src/core/rfc6911.rs","radius/src/core/rfc7055.rs","radius/src/core/rfc7155.rs","dicts"],
 [("generated add_/lookup_/lookup_all_/delete_ functions and constants","radius/src/core/rfc*.rs")],["results of the generated functions, encoded bytes"])
p("C13","A request being handled is never handled a second time concurrently",
 "At no time are two invocations of the request handler in progress for the same source address and port and the same identifier; a datagram that repeats them while an invocation is in progress is dropped without invoking the handler and without a reply. This holds for every arrival order and thread interleaving.",
 ["schedules","histories"],"every interleaving of datagram arrivals, worker threads and handler completions, with any number of sources and identifiers",
 "The end-to-end test sends one request at a time; no test sends a duplicate or runs handlers concurrently.",
 [SV],[("undergoing request set under a lock",SV),("RequestKey (address, identifier)",SV)],["handler invocations and completions"],[dict(name="undergoing requests",meaning="keys of requests whose handler has started and not finished",where=SV)])
p("C14","A finished request's identifier can be used again",
 "Once the handler of a request has finished, whether with success, an error or a panic, a later request with the same source and identifier is handled again. No dropped datagram (duplicate, malformed, unauthentic or without secret) ever makes a later request be dropped.",
 ["histories","schedules","fault_sequences"],"every history of requests, duplicates, dropped datagrams and handler outcomes, including panics, on any number of sources and identifiers",
 "No test sends two requests with the same identifier; handler failures are never exercised.",
 [SV],[("removal of the key when handling ends",SV)],["handler invocations after a completion"])
p("C15","Only authentic well-formed requests of known sources reach the handler",
 "With authenticity validation on, which is the default, the handler is invoked only for a datagram for whose source address the secret provider returned a non-empty secret, which the request authenticity check accepts under that secret and which decodes. With validation switched off only the authenticity condition is dropped. Every other datagram is dropped silently: no handler invocation, no reply, and no effect on the server.",
 ["inputs","configurations","fault_sequences"],"every datagram, every secret provider answer (secret, empty secret, error, panic; per source), validation on or off",
 "The end-to-end test sends only valid Access-Requests with the right secret.",
 [SV,PK],[("process_request: secret, authenticity and decode checks",SV),("Packet::is_authentic_request",PK)],["handler invocations, replies"])
p("C16","Each acceptable request is handled exactly once with its own content",
 "Each acceptable datagram that is not a duplicate of a request in progress leads to exactly one handler invocation, which sees that datagram's packet (as decoded with the secret returned for its source), its source address and port, and the server's listening address. This holds for datagrams of any size up to the configured buffer size (1500 by default), in any arrival order and whatever else was received before or is being handled, including handlers that never finish, fail or panic.",
 ["schedules","histories","inputs"],"every sequence and interleaving of datagrams of different sizes and sources, handler outcomes and buffer sizes",
 "The end-to-end test has one request outstanding at a time and checks only its user name and password.",
 [SV,RQ],[("run_loop: one task per datagram with its own copy",SV),("Request",RQ)],["arguments of handler invocations"])
p("C17","Shutdown stops the server cleanly and it can run again",
 "When the shutdown trigger completes, running the server returns success, also while datagrams keep arriving, and from then on no further datagram starts a handler until it is run again. Handlers in progress are not aborted by the shutdown: they finish and can reply. Running the same server again resumes service, with requests still in progress still protected from duplicates.",
 ["schedules","histories"],"every interleaving of shutdown with arrivals and handlers in progress, and repeated runs",
 "The tests shut down an idle server once.",
 [SV],[("Server::run select of loop and trigger",SV)],["result of run, handler invocations, replies"])
p("C18","The client sends the request once and reports exactly what happened",
 "Sending a packet transmits exactly one datagram, the packet's encoding, to the given IPv4 or IPv6 address, and nothing at all if encoding fails, which is reported as an encoding error. The outcome is decided by the first datagram received from that address: the decoded packet if it is an authentic response, a decoding error otherwise; datagrams from any other address or port have no effect. If no answer arrives within the socket timeout the result is the socket timeout error, not earlier than the timeout, and with no timeout it keeps waiting; the client never panics.",
 ["histories","fault_sequences","inputs"],"every request, timeout setting and every sequence of answers (none, late, several, malformed, of any size up to 4096 octets, from other sources)",
 "The end-to-end test has one answer and one zero timeout; malformed, late, foreign and repeated answers are not covered.",
 [CL],[("Client::send_packet / request",CL)],["datagrams seen by the peer, result and its time"])
p("C19","The client returns only an authentic response to its own request",
 "The packet returned by the client always carries the request's identifier and a response authenticator that is valid for the very request sent and the request's secret. A datagram that is forged, tampered with in any octet, made with another secret, or the answer to another request yields an error instead.",
 ["inputs","fault_sequences"],"every answer datagram, in particular every single-octet tampering of the right answer, wrong secrets, replayed answers",
 "No test gives the client anything but the right answer.",
 [CL,PK],[("verification in Client::send_packet",CL),("Packet::is_authentic_response",PK)],["result of send_packet"])
p("C20","Both crypto back ends behave identically",
 "Built with the md5 feature or with the openssl feature, every operation gives the same result on the same input: the same encoded bytes, the same authenticity verdicts, the same hidden and recovered passwords and the same errors.",
 ["configurations","inputs"],"every operation and input under both feature selections",
 "The unit tests run under both features but never compare the two, and reach few of the duplicated branches.",
 [PK,AV],[("cfg(feature) duplicated encode, is_authentic_*, *_user_password, *_tunnel_password",PK+", "+AV)],["results of all operations under both builds"])
p("C21","Generated code implements the dictionary it was generated from",
 "For every dictionary in the supported format (comments, attributes with each value type and option, value lines with trailing comments, values for attributes of an earlier dictionary), the code generator produces a module that compiles and whose functions and constants have exactly the numbers, formats and values the dictionary declares. Regenerating the shipped dictionaries gives modules that behave as the shipped ones. A dictionary line with too few fields, an unknown kind or an unknown value type makes it fail.",
 ["programs","inputs"],"every dictionary file in the supported format, in particular every combination of value type and option, and the shipped ones",
 "The generator has no tests at all.",
 [GE,"dicts","scripts/generate-code.sh"],[("parse_dict_file",GE),("generate_*_code",GE)],["behaviour of the compiled generated modules, exit status"])
p("C22","The shared secret never leaks through debug output, error texts or logs",
 "The debug rendering of a packet does not depend on its shared secret, also in alternate formatting and for decoded packets, clones and responses, while it shows type, identifier, authenticator and attributes. The text of an error returned by any packet or attribute operation does not depend on the secret either, and no secret shows up in the text of a client error in a log record that the server or the client writes, or in what they print, whatever is received and however handlers and secret provider fail.",
 ["inputs","fault_sequences"],"every packet, secret and way of obtaining the packet, and every history of the server and the client",
 "No test formats a packet or looks at the log.",
 [PK,SV,CL],[("Debug for Packet",PK),("PacketError, AVPError",PK),("ClientError",CL),("log records",SV)],["debug text, error text, log records"])
p("C23","New packets get fresh authenticators and the identifier asked for",
 "Each newly constructed packet has a 16-octet authenticator that no other packet of the history has and whose octets all vary, and an identifier that is the one given or, if none is given, varies over the whole range 0..255; setting the identifier changes nothing else. Each hidden tunnel password gets a newly drawn salt.",
 ["histories"],"every history of packet constructions, across threads",
 "Tests construct packets but never look at the authenticator or at the spread of identifiers.",
 [PK,AV],[("Packet::_new",PK),("salt in from_tunnel_password",AV)],["get_authenticator, get_identifier, attribute value"])
p("C24","End to end, an answer is the handler's answer to that very request",
 "Whatever a network does to datagrams (loss, duplication, reordering, delay, corruption, replay), when a client gets a packet from a server of this library, that server's handler has handled a request with this client's identifier and authenticator, the packet has the type and attributes the handler put in its response (a tunnel password in it being recoverable), and, if the request type is sealed or the network corrupts nothing, the request the handler saw is exactly this client's (type and attributes, with the user password recovered). Duplicates in the network never make two handlers run at once for one request, and a lost or damaged datagram only leads to a timeout or an error. Over a network that delivers every datagram once, every request gets its handler's answer.",
 ["schedules","histories","fault_sequences"],"every behaviour of a network between several clients and a server, with handlers finishing in any order",
 "The end-to-end test runs over a perfect network with one client and one request at a time.",
 [CL,SV,PK],[("Client::send_packet",CL),("Server::process_request",SV),("authenticators",PK)],["client results, handler invocations"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
