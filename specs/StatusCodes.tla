---------------------------- MODULE StatusCodes ----------------------------
(* Status codes the library names, with their default reason phrases. *)
EXTENDS Common
Codes == <<
  <<100, "Trying">>, <<180, "Ringing">>, <<181, "Call is being forwarded">>, <<182, "Queued">>, <<183, "Session progress">>,
  <<200, "OK">>, <<202, "Accepted">>,
  <<300, "Multiple choices">>, <<301, "Moved permanently">>, <<302, "Moved Temporarily">>, <<305, "Use proxy">>, <<380, "Alternative service">>,
  <<400, "Bad request">>, <<401, "Unauthorized">>, <<402, "Payment required">>, <<403, "Forbidden">>, <<404, "Not found">>,
  <<405, "Method not allowed">>, <<406, "Not acceptable">>, <<407, "Proxy Authentication required">>, <<408, "Request timeout">>, <<410, "Gone">>,
  <<413, "Request entity too large">>, <<414, "Request-URI too large">>, <<415, "Unsupported media type">>, <<416, "Unsupported URI Scheme">>,
  <<420, "Bad extension">>, <<421, "Extension Required">>, <<423, "Interval too brief">>, <<480, "Temporarily Unavailable">>,
  <<481, "Call leg/Transaction does not exist">>, <<482, "Loop detected">>, <<483, "Too many hops">>, <<484, "Address incomplete">>, <<485, "Ambiguous">>,
  <<486, "Busy here">>, <<487, "Request Terminated">>, <<488, "Not acceptable here">>, <<489, "Bad Event">>, <<491, "Request Pending">>, <<493, "Undecipherable">>,
  <<500, "Server Internal Error">>, <<501, "Not implemented">>, <<502, "Bad gateway">>, <<503, "Service unavailable">>, <<504, "Gateway timeout">>,
  <<505, "SIP version not supported">>, <<513, "Message Too Large">>,
  <<600, "Busy everywhere">>, <<603, "Decline">>, <<604, "Does not exist anywhere">>, <<606, "Session Not acceptable">> >>
Named == {Codes[i][1] : i \in 1..Len(Codes)}
Phrase(n) == IF n \in Named THEN Codes[CHOOSE i \in 1..Len(Codes) : Codes[i][1] = n][2] ELSE ""
Final(n) == n >= 200 /\ n < 700
ASSUME \A i, j \in 1..Len(Codes) : i # j => Codes[i][1] # Codes[j][1] /\ Codes[i][2] # Codes[j][2]
=============================================================================
