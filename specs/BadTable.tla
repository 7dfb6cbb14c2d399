------------------------------ MODULE BadTable ------------------------------
(* Header lines and start lines that are not well formed and must not pass for one. *)
BadHeaders == <<
  "NoColon", ": x", "From:", "From: <sip:a@b",
  "From: \"A <sip:a@b>", "From: sip:a@b x", "From: <sip:a@b>,<sip:c@d>", "From: <sip:a@b> x",
  "From: <sip:a@b>;;tag=1", "From: http", "To: A B", "To: <>",
  "CSeq: INVITE", "CSeq: 1", "CSeq: x INVITE", "CSeq: -1 INVITE",
  "CSeq: 99999999999999999999 INVITE", "CSeq: 1 INVITE x", "CSeq: 1, INVITE", "Call-ID: @",
  "Call-ID: a@", "Max-Forwards: x", "Max-Forwards: -1", "Max-Forwards: 256",
  "Max-Forwards: 1 2", "Max-Forwards: 1x", "Expires: x", "Expires: -1",
  "Expires: 1 x", "Expires: 99999999999999999999", "Min-Expires: x", "Min-Expires: 5 5",
  "Content-Length: x", "Content-Length: -1", "Content-Length: 1 2", "Content-Length: 99999999999999999999",
  "Content-Type: application", "Content-Type: application/", "Content-Type: /sdp", "Content-Type: a/b/c",
  "Content-Type: a/b;", "Content-Type: a/b,c/d", "Content-Disposition: ;x=y", "Content-Disposition: a b",
  "Authorization: realm=\"x\"", "Authorization: Digest realm=\"x", "Authorization: Digest realm=\"x\" nonce=\"y\"", "WWW-Authenticate: Digest realm=\"x",
  "Proxy-Authenticate: Digest realm=\"x\",,a=b", "MIME-Version: 1", "MIME-Version: x.y", "MIME-Version: 1.0.0",
  "MIME-Version: 1.x", "Timestamp: x", "Timestamp: 1 x", "Timestamp: -1",
  "Timestamp: 1 2 3", "Timestamp: .5", "Timestamp: 1 .", "Timestamp: 1..5", "Timestamp: 1.5.5", "Retry-After: x", "Retry-After: -1", "Retry-After: 5 (a",
  "Retry-After: 5 x", "Retry-After: 5;duration=x", "Event: ", "Event: ;id=1",
  "Event: a b", "RSeq: x", "RSeq: 0", "RSeq: -1",
  "RSeq: 1 2", "RAck: 1 2", "RAck: 1 INVITE", "RAck: x 2 INVITE",
  "RAck: 0 1 INVITE", "RAck: 1 2 INVITE x", "Subscription-State: ;x=y", "Subscription-State: active;expires=x",
  "Subscription-State: active;retry-after=x", "Subscription-State: active x", "Refer-To: <sip:a@b", "Reply-To: <sip:a@b",
  "Date: x", "Date: Sat, 13 Foo 2010 23:29:00 GMT", "Date: Sat, 13 Nov 2010 25:29:00 GMT", "Date: Sat, 13 Nov 2010 23:29:00 EST",
  "Date: Sat, 13 Nov 2010 23:29:00 GMT x", "Date: Sat, 32 Nov 2010 23:29:00 GMT", "Via: SIP/2.0/UDP", "Via: SIP/2.0 h",
  "Via: SIP h", "Via: UDP h", "Via: SIP/2.0/UDP h:", "Via: SIP/2.0/UDP h:x",
  "Via: SIP/2.0/UDP [::1", "Via: SIP/2.0/UDP h;branch=", "Via: SIP/2.0/UDP h (x", "Via: SIP/2.0/UDP h,",
  "Via: SIP/2.0/UDP h x", "Route: <sip:a@b>,", "Route: <sip:a@b> x", "Route: <sip:a@b",
  "Record-Route: <sip:a@b", "Record-Route: <sip:a@b>,", "Contact: <sip:a@b", "Contact: <sip:a@b>,",
  "Contact: <sip:a@b>;q=2", "Contact: <sip:a@b>;expires=x", "Contact: <sip:a@b> x", "Error-Info: http://x",
  "Error-Info: <http://x", "Alert-Info: <http://x", "Call-Info: <http://x", "Content-Encoding: a b",
  "Content-Encoding: a,", "Content-Language: a,", "Content-Language: a b", "Warning: 307 h",
  "Warning: 307", "Warning: 200 h \"a\"", "Warning: x h \"a\"", "Warning: 307 h \"a",
  "Warning: 307 h \"a\",", "Warning: 307 h a", "Accept: a", "Accept: a/",
  "Accept: a/b;q=2", "Accept: a/b,", "Accept: a/b c", "Accept-Encoding: a;q=2",
  "Accept-Encoding: a b", "Accept-Encoding: a,", "Accept-Language: a;q=2", "Accept-Language: a b",
  "Allow: A,", "Allow: A B", "Allow-Events: a,", "Allow-Events: a b",
  "In-Reply-To: a,", "In-Reply-To: a b", "Proxy-Require: a,", "Require: a b",
  "Require: a,", "Supported: a b", "Supported: a,", "Unsupported: a,",
  "Reason: ;x", "Reason: SIP,", "User-Agent: ", "Server: ",
  "From : <sip:a@b", "f: <sip:a@b", "m: <sip:a@b>,", "l: x",
  "v: x", "i: @", "c: a", "k: a,",
  "t: <>", "X-Ext",
  "Via: SIP/3.0/UDP h", "Via: SIP/2.00/UDP h", "Via: HTTP/2.0/UDP h", "Via: SIP/2.0/UDP h;", "Via: SIP/2.0/UDP h;=x",
  "Via: SIP//UDP h", "Via: SIP/2.0/ h", "v: SIP/2.0 UDP h", "From: \"A\" sip:a@b", "To: <sip:a@b",
  "To: <sip:a@b>>", "To: <<sip:a@b>", "Contact: *,<sip:a@b>", "Contact: <sip:a@b>,*", "m: *,*", "Contact: **", "Contact: \"A\"<sip:a@b>x",
  "CSeq: 1.5 INVITE", "CSeq: 0x1 INVITE", "CSeq: ", "Max-Forwards: ", "Expires: ",
  "Content-Length: ", "Content-Length: 1.0", "Content-Type: ", "Content-Type: a", "Content-Type: a/b;c=\"d",
  "Allow: A B", "Allow: A,,B", "Allow: ,A", "Require: a b", "Supported: a,,b", "Unsupported: ,",
  "RAck: 1 -2 INVITE", "RAck: 1 2 ", "RSeq: 1.5", "RSeq: ", "Min-Expires: ", "Min-Expires: -1",
  "Warning: 200 h \"x\"", "Warning: 400 h \"x\"", "Warning: x h \"x\"", "Warning: 307 h x", "Warning: 307 h", "Warning: 307 h \"x", "Warning: 307",
  "Accept: a", "Accept: a/", "Accept: a/b;q=x", "Accept: a/b;q=1.5", "Accept-Language: en;q=2", "Accept-Language: en;q=x", "Accept-Encoding: gzip;q=2", "Accept-Encoding: gzip;q=-1",
  "Alert-Info: http://x", "Alert-Info: <http://x", "Call-Info: <http://x", "Call-Info: http://x", "Error-Info: <sip:a@b", 
  "Reason: ", "Reason: ;cause=1", "Reason: SIP;", "Event: a;", "Event: a;;b", "Event: a,b",
  "Subscription-State: ", "Subscription-State: active;", "Subscription-State: active,x", "Timestamp: ", "Timestamp: 1.x", "Timestamp: 1 -1",
  "In-Reply-To: a b", "In-Reply-To: a,,b", "In-Reply-To: ,", "Call-ID: ", "Call-ID: @a",
  "Refer-To: ", "Refer-To: <sip:a@b>,<sip:c@d>", "Reply-To: ", "Reply-To: <sip:a@b> x", "MIME-Version: ", "MIME-Version: 1.", "MIME-Version: .1", "MIME-Version: 1,0",
  "Retry-After: ", "Retry-After: 1;", "Retry-After: 1;duration=", "Retry-After: 1;duration=-1", "Retry-After: 1.5", "Date: ", "Date: Sat, 13 Nov 2010 23:29 GMT", "Date: 13 Nov 2010 23:29:00 GMT",
  "Content-Encoding: ", "Content-Encoding: a,,b", "Content-Encoding: a b", "Content-Language: a b", "Content-Language: a,,b", "Content-Disposition: ", "Content-Disposition: a;", "Content-Disposition: a,b",
  "Authorization: Digest realm=\"a\",,nonce=\"b\"", "Authorization: ", "Proxy-Authorization: Digest realm=\"a", "WWW-Authenticate: ",
  "Authentication-Info: ", "Authentication-Info: nextnonce=\"x", "Authentication-Info: a b", "Authentication-Info: nextnonce=\"x\" qop=auth" >>
BadStarts == <<
  "INVITE", "INVITE sip:h.org", "sip:h.org SIP/2.0", "INVITE sip:h.org SIP", "INVITE sip:h.org SIP/2.0 x", "INVITE h.org SIP/2.0", "INVITE sip: SIP/2.0", "INVITE  SIP/2.0",
  "INVITE sip:h.org SIP/x.0", "INVITE <sip:h.org> SIP/2.0", "SIP/2.0", "SIP/2.0 OK", "SIP/2.0 x OK", "SIP/2.0 -1 OK", "SIP/2.0 99999999999999999999 OK", "SIP/x 200 OK", "IN,VITE sip:h.org SIP/2.0",
  "INVITE sip:h.org:x SIP/2.0", "INVITE sip:u@[::1 SIP/2.0", "garbage", ": x", "Via: SIP/2.0/UDP h" >>
=============================================================================
