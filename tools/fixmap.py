# (part of the fix commit's subject, properties it repairs); the first that matches counts
MAP = [
 ("blanks at the ends of a quoted display name","P13 P10"),
 ("made by several goroutines at once","P24"),
 ("that is a wild card says","P10"),
 ("empty user name encodes without","P13"), ("Expires value from 2^31","P10"), ("white space around the colon before the port","P04"), ("a single header with CRLF line ends","P04"),
 ("a comment within a comment","P15"), ("a Timestamp whose seconds end in a point","P03"), ("Content-Length near the largest","P05"),
 ("library's own URIs","P06"), ("AddHeader puts a Via","P01"), ("method is not in capitals","P03"), ("parsing a header on its own","P05 P10"), ("parsing a URL of any scheme","P05"),
 ("exception listener lets pass","P05"), ("header section of a message ends","P04 P05"), ("without start line can be given","P09"), ("reason phrases of 421","P09"), ("encoded with its own version","P09"),
 ("a request created from a response","P06"), ("belongs in a request or a response","P06"), ("creating a BYE","P06"), ("creating a CANCEL","P06"), ("a From made of a To","P06 P16"),
 ("header names of a message","P01"), ("asking a message for its sequence number","P01"), ("without Call-ID as it was","P01"), ("dialog identifier","P08"), ("transaction identifier","P07"),
 ("takes an absent method from its CSeq","P02 P09"), ("has no method and that has no CSeq","P02 P09"), ("ends with its body","P02"), ("body is empty has no content","P02"), ("content set in one form","P02"),
 ("Content-Length was removed","P02"), ("an empty header list is not attached","P01"), ("removing the last value","P01"), ("attaching a header in place","P01"), ("attached as a list of one","P01"),
 ("put on top of another","P01"), ("asking a message for a header","P01"), ("an absent From, To","P01"),
 ("SIP URI is kept as text","P13"), ("SIP URI","P13"), ("telephone number","P13"), ("an address answers","P13"), ("a URI other than SIP","P13 P10"),
 ("reseeding the random", "P21"), ("a cloned IP address", "P16 P20"), ("a collision time-out", "P20"),
 ("RTCP", "P18"), ("an RTP packet", "P17"), ("a parsed RTP", "P17"), ("RTP ", "P17"),
 ("copying a Via or Contact", "P16"), ("a copied or joined", "P12 P16"), ("setting a parameter replaces", "P12"), ("an unterminated quoted", "P05 P15"),
 ("the value of an absent", "P12"), ("parsed quoted header", "P12"), ("the encoding of a flag", "P12 P10"),
 ("setting a parameter from", "P12"), ("hosts are classified", "P14"), ("header parsers match", "P05"),
 ("peeking past", "P15"), ("a failed match", "P15"), ("a quoted string that", "P15"), ("looking for a delimiter", "P15"),
 ("header parsers report", "P05"), ("a refused call identifier", "P11"), ("refuses an empty protocol", "P11"), ("not decremented below", "P11"),
 ("negative cause", "P10 P11"), ("expiry of a Contact replaces", "P10 P11"), ("time to live", "P10 P11"), ("RAck refuses", "P10 P11"),
 ("Subscription-State takes", "P11"), ("a quoted authentication parameter whose", "P11"), ("replacing a quoted auth", "P11"), ("is no number", "P11"),
 ("compact names", "P04"), ("holds no comma", "P05"),
 ("IPv6 reference", "P10"), ("every character of a Call-ID", "P10"), ("empty text", "P03"),
 ("defaults of a request", "P23"), ("wild card", "P05"),
 ("absent challenge", "P10 P12"), ("out of range is refused by the parser", "P11 P05"), ("white space", "P10 P04"),
 ("telephone URI", "P13"), ("SIP URI header", "P05 P13"), ("URL scanner", "P05 P13"), ("sips URI", "P13"), ("URI without a scheme", "P05"), ("user and password", "P13 P05"),
 ("refuse", "P05"), ("Via", "P10"), ("Retry-After", "P10"), ("nonce count", "P10"), ("Authentication-Info", "P10"), ("Error-Info", "P10"), ("Alert-Info", "P10"),
 ("a Date is", "P10"), ("Allow", "P10"), ("Accept", "P10"), ("Warning", "P10"), ("Timestamp", "P10"), ("User-Agent", "P10"), ("Route", "P10"), ("Subscription", "P10"),
]
