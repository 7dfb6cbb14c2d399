------------------------------- MODULE Large --------------------------------
(* P01, P03, P05, P06, P10, P12, P13, P15.  Nothing that the other specifications say has  *)
(* a size in it: the same holds for long tables, long lists, long values and long texts.     *)
EXTENDS Common
CONSTANTS What, Sizes
VARIABLES scene, done
vars == <<scene, done>>

Seen(ret) == [err |-> FALSE, ret |-> ret, objs |-> <<>>]
Get(id, kind, text) == S("parse", <<id, kind, text>>, Seen("*"))
Ask(id, m, args, ret) == S("call", <<id, m, args>>, Seen(ret))
Tell(id, m, args) == Ask(id, m, args, "*")
Shows(id, text) == Ask(id, "String", <<>>, text)
Again(id, kind) == S("reparse", <<id, kind>>, Seen("*"))

(* joining halves: the sequences are long *)
RECURSIVE Part(_, _, _, _)
Part(s, sep, i, j) == IF i > j THEN "" ELSE IF i = j THEN s[i] ELSE LET m == (i + j) \div 2 IN Part(s, sep, i, m) \o sep \o Part(s, sep, m + 1, j)
Glue(s, sep) == Part(s, sep, 1, Len(s))
RECURSIVE Times(_, _)
Times(x, n) == IF n = 0 THEN "" ELSE IF n % 2 = 0 THEN Times(x \o x, n \div 2) ELSE x \o Times(x \o x, n \div 2)
N(n, F(_)) == [i \in 1..n |-> F(i)]
T(i) == ToString(i)

(* ---- messages (P01, P03, P06) *)
Start(m) == IF m = "request" THEN "INVITE sip:u@h SIP/2.0" \o CRLF ELSE "SIP/2.0 200 OK" \o CRLF
Length(n) == "Content-Length: " \o T(n) \o CRLF
End == Length(0) \o CRLF
Value(name, i) == CASE name = "Via" -> "SIP/2.0/UDP h" \o T(i) \o ":" \o T(i) \o ";branch=z9hG4bK" \o T(i)
                    [] name \in {"Record-Route", "Route", "Contact"} -> "<sip:p" \o T(i) \o "@h;lr>" [] name = "Warning" -> "301 h" \o T(i) \o " \"w\"" [] OTHER -> "v" \o T(i)
Line(name, i) == name \o ": " \o Value(name, i) \o CRLF
Lines(name, n) == Glue(N(n, LAMBDA i : Line(name, i)), "")
Row(name, from, to) == IF from > to THEN "" ELSE name \o ": " \o Part(N(to, LAMBDA i : Value(name, i)), ",", from, to) \o CRLF
Unknown(n) == Glue(N(n, LAMBDA i : "X-" \o T(i) \o ": " \o T(i) \o CRLF), "")
Names == {"Via", "Record-Route", "Contact", "Warning", "Supported"}
Sorts == {"request", "response"}
TableScenes ==
     {LET t == Start(m) \o Unknown(n) \o End IN
      <<Get(1, m, t), Shows(1, t), Ask(1, "GetHeader", <<"x-" \o T(n)>>, "X-" \o T(n) \o ": " \o T(n) \o CRLF), Again(1, m), Shows(1, t)>> : m \in Sorts, n \in Sizes}
  \cup {LET x == "X-A: " \o Times("v", n) \o CRLF \o Times("N", n) \o ": 1" \o CRLF \o "Subject: " \o Times("a b ", n) \o "c" \o CRLF IN
      <<Get(1, m, Start(m) \o x \o CRLF), Shows(1, Start(m) \o x \o End), Ask(1, "GetHeader", <<Times("n", n)>>, Times("N", n) \o ": 1" \o CRLF)>> : m \in Sorts, n \in Sizes}
  \cup {LET u == "sip:" \o Times("u", n) \o "@h" IN LET t == Times("M", n) \o " " \o u \o " SIP/2.0" \o CRLF \o End IN
      <<Get(1, "request", t), Shows(1, t), Ask(1, "GetMethod", <<>>, Times("M", n)), Ask(1, "GetRequestURI", <<>>, u)>> : n \in Sizes}
  \cup {LET t == "SIP/2.0 299 " \o Times("r ", n) \o "x" \o CRLF \o End IN <<Get(1, "response", t), Shows(1, t), Ask(1, "GetReasonPhrase", <<>>, Times("r ", n) \o "x")>> : n \in Sizes}
EditScenes ==
  {<<Get(1, m, Start(m) \o (IF apart THEN Lines(name, n) ELSE Row(name, 1, n)) \o CRLF), Shows(1, Start(m) \o Row(name, 1, n) \o End), Ask(1, "GetHeaders", <<Upper(name)>>, N(n, LAMBDA i : Line(name, i))),
     Tell(1, "RemoveHeader2", <<name, TRUE>>), Tell(1, "RemoveHeader2", <<name, FALSE>>), Shows(1, Start(m) \o Row(name, 2, n - 1) \o End),
     Ask(1, "GetHeaders", <<Lower(name)>>, N(n - 2, LAMBDA i : Line(name, i + 1))), Tell(1, "RemoveHeader", <<name>>), Shows(1, Start(m) \o End)>>
     : m \in Sorts, name \in Names, n \in Sizes, apart \in BOOLEAN}
Must == "From: <sip:a@x>;tag=f" \o CRLF \o "To: <sip:b@y>;tag=t" \o CRLF \o "Call-ID: c@x" \o CRLF \o "CSeq: 7 INVITE" \o CRLF
DerivedScenes ==
  {LET vias == Row("Via", 1, n) rest == Unknown(n) \o Row("Route", 1, n) IN
   <<Get(1, "request", Start("request") \o vias \o Must \o rest \o CRLF), S("make", <<2, 1, "CreateResponse", <<200>>>>, Seen("*")), Ask(2, "GetHeaders", <<"Via">>, N(n, LAMBDA i : Line("Via", i))),
     S("make", <<3, 1, "CreateCancelRequest", <<>>>>, Seen("*")), Ask(3, "GetHeaders", <<"Via">>, N(n, LAMBDA i : Line("Via", i))), Ask(3, "GetHeaders", <<"Route">>, N(n, LAMBDA i : Line("Route", i))),
     Shows(1, Start("request") \o vias \o Must \o rest \o End)>> : n \in Sizes}

(* ---- headers, parameters, addresses (P10, P12, P13) *)
Pars(n) == Glue(N(n, LAMBDA i : ";p" \o T(i) \o "=" \o T(i)), "")
HeaderScenes ==
     {LET t(from) == h \o Part(N(n, LAMBDA i : ";p" \o T(i) \o "=" \o T(i)), "", from, n) IN
      <<Get(1, "element", t(1) \o "\n"), Shows(1, t(1) \o CRLF), Ask(1, "GetParameter", <<"P" \o T(n)>>, T(n)), Tell(1, "RemoveParameter", <<"p1">>), Shows(1, t(2) \o CRLF), Again(1, "element"), Shows(1, t(2) \o CRLF)>>
       : h \in {"Contact: <sip:a@b>", "Content-Type: t/u", "Accept: t/u", "Via: SIP/2.0/UDP h", "Route: <sip:a@b>"}, n \in Sizes}
  \cup {LET t == h[1] \o Times(h[2], n) \o h[3] IN <<Get(1, "element", t \o "\n"), Shows(1, t \o CRLF), Again(1, "element"), Shows(1, t \o CRLF)>>
       : h \in {<<"Call-ID: ", "c", "@h">>, <<"Subject: a", " b", "">>, <<"From: \"", "n ", "m\" <sip:a@b>">>, <<"From: <sip:", "u", "@b>;tag=1">>, <<"To: <sip:a@b>;tag=", "t", "">>, <<"Warning: 301 h \"", "w, ", "x\"">>,
                <<"Authorization: Digest username=\"", "u ", "\",realm=\"r\"">>, <<"CSeq: 7 ", "M", "">>, <<"User-Agent: ", "ab", "/1">>, <<"Organization: ", "o, ", "p">>, <<"Via: SIP/2.0/UDP h;branch=z9hG4bK", "b", "">>,
                <<"Alert-Info: <http://h/", "p/", ">">>, <<"X-Y: ", "z; ", "z">>, <<"Retry-After: 5 (", "c ", "c)">>}, n \in Sizes}
UriScenes ==
     {LET ps == Pars(n) hs == "?" \o Glue(N(n, LAMBDA i : "h" \o T(i) \o "=" \o T(i)), "&") IN
      <<Get(1, "uri", "sip:u@h" \o ps \o hs), Shows(1, "sip:u@h" \o ps \o hs), Ask(1, "GetParameter", <<"P" \o T(n)>>, T(n)), Ask(1, "GetHeader", <<"h" \o T(n)>>, T(n)), Tell(1, "RemoveHeaders", <<>>), Shows(1, "sip:u@h" \o ps),
        Tell(1, "ClearUriParms", <<>>), Shows(1, "sip:u@h")>> : n \in Sizes}
  \cup {LET h == Times("a.", n) \o "org" IN <<Get(1, "uri", "sips:" \o Times("%41", n) \o ":" \o Times("w", n) \o "@" \o h \o ":65535"), Shows(1, "sips:" \o Times("%41", n) \o ":" \o Times("w", n) \o "@" \o h \o ":65535"),
        Ask(1, "GetHost", <<>>, h), Ask(1, "GetUser", <<>>, Times("%41", n)), Ask(1, "GetUserPassword", <<>>, Times("w", n)), Ask(1, "GetPort", <<>>, 65535)>> : n \in Sizes}
  \cup {LET d == Times("1-2", n) IN <<Get(1, "uri", "tel:+" \o d \o Pars(n)), Shows(1, "tel:+" \o d \o Pars(n)), Ask(1, "GetPhoneNumber", <<>>, d)>> : n \in Sizes}
  \cup {LET d == Times("d ", n) \o "e" IN <<Get(1, "address", Q(d) \o " <sip:a@b>"), Shows(1, Q(d) \o " <sip:a@b>"), Ask(1, "GetDisplayName", <<>>, d)>> : n \in Sizes}

(* ---- a great deal of the same: there is an answer (P05) *)
Pieces == {",", ";", " ", "\t", "<", ">", "\"", "\\", "(", ")", "=", ":", "@", "/", "%", "[", "]", "?", "&", "a", "1", "{ff}", "{00}", "\r\n ", "\r\n", "a,", ";a=b", "\"a\",", "<sip:a>,", "(a", "sip:", ". ", "*"}
Fields == {"", "Via: ", "Via: SIP/2.0/UDP ", "From: ", "To: <sip:", "Contact: ", "Route: <", "Call-ID: ", "CSeq: ", "CSeq: 1 ", "Authorization: Digest ", "WWW-Authenticate: ", "Warning: 301 ", "Accept: ", "Date: ", "Subject: ", "Content-Length: ", "Retry-After: 5 (", "User-Agent: ", "X-Y: ",
   "Content-Type: ", "Reply-To: \"", "Max-Forwards: ", "Timestamp: 1", "Supported: ", "MIME-Version: ", "Subscription-State: ", "Event: ", "RAck: ", "Refer-To: ", "Reason: ", "Call-Info: <"}
Damage(m) == S("try", <<m[1], m[2]>>, [ret |-> "answered"])
DamageScenes == {<<Damage(<<"message", Start("request") \o f \o Times(p, n) \o CRLF \o CRLF>>), Damage(<<"header", f \o Times(p, n) \o "\n">>)>> : f \in Fields, p \in Pieces, n \in Sizes}
  \cup {<<Damage(<<k, f \o Times(p, n)>>)>> : k \in {"message", "uri", "address", "hostport", "requestline", "statusline", "telephone"}, f \in {"", "sip:", "SIP/2.0 200 ", "A sip:", "tel:"}, p \in Pieces, n \in Sizes}

Scenes == CASE What = "table" -> TableScenes [] What = "edit" -> EditScenes [] What = "derived" -> DerivedScenes [] What = "header" -> HeaderScenes [] What = "uri" -> UriScenes [] What = "damage" -> DamageScenes
Init == scene \in Scenes /\ done = FALSE
Next == ~done /\ done' = TRUE /\ Emit(scene) /\ UNCHANGED scene
Spec == Init /\ [][Next]_vars
=============================================================================
