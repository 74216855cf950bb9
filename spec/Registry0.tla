------------------------------ MODULE Registry0 ------------------------------
(* The registered methods, statuses and versions.                              *)
EXTENDS Text
(* name, safe (RFC 7231 s4.2.1 and the registering RFCs)                      *)
SafeMethods == {"GET", "HEAD", "OPTIONS", "PRI", "PROPFIND", "REPORT", "SEARCH", "TRACE"}
Methods == {"GET", "HEAD", "OPTIONS", "PRI", "PROPFIND", "REPORT", "SEARCH", "TRACE", "ACL", "BASELINE-CONTROL", "BIND", "CHECKIN", "CHECKOUT", "CONNECT", "COPY", "DELETE", "LABEL", "LINK",
  "LOCK", "MERGE", "MKACTIVITY", "MKCALENDAR", "MKCOL", "MKREDIRECTREF", "MKWORKSPACE", "MOVE", "ORDERPATCH", "PATCH", "POST",
  "PROPPATCH", "PUT", "REBIND", "UNBIND", "UNCHECKOUT", "UNLINK", "UNLOCK", "UPDATE", "UPDATEREDIRECTREF", "VERSION-CONTROL"}
Statuses == << <<100, "Continue">>, <<101, "Switching Protocols">>, <<103, "Early Hints">>, <<200, "OK">>, <<201, "Created">>,
  <<202, "Accepted">>, <<203, "Non Authoritative Information">>, <<204, "No Content">>, <<205, "Reset Content">>,
  <<206, "Partial Content">>, <<207, "Multi-Status">>, <<226, "Im Used">>, <<300, "Multiple Choice">>, <<301, "Moved Permanently">>,
  <<302, "Found">>, <<303, "See Other">>, <<304, "Not Modified">>, <<307, "Temporary Redirect">>, <<308, "Permanent Redirect">>,
  <<400, "Bad Request">>, <<401, "Unauthorized">>, <<402, "Payment Required">>, <<403, "Forbidden">>, <<404, "Not Found">>,
  <<405, "Method Not Allowed">>, <<406, "Not Acceptable">>, <<407, "Proxy Authentication Required">>, <<408, "Request Timeout">>,
  <<409, "Conflict">>, <<410, "Gone">>, <<411, "Length Required">>, <<412, "Precondition Failed">>, <<413, "Payload Too Large">>,
  <<414, "URI Too Long">>, <<415, "Unsupported Media Type">>, <<416, "Requested Range Not Satisfiable">>, <<417, "Expectation Failed">>,
  <<418, "I'm a teapot">>, <<421, "Misdirected Request">>, <<422, "Unprocessable Entity">>, <<423, "Locked">>, <<424, "Failed Dependency">>,
  <<425, "Too Early">>, <<426, "Upgrade Required">>, <<428, "Precondition Required">>, <<429, "Too Many Requests">>,
  <<431, "Request Header Fields Too Large">>, <<451, "Unavailable For Legal Reasons">>, <<500, "Internal Server Error">>,
  <<501, "Not Implemented">>, <<502, "Bad Gateway">>, <<503, "Service Unavailable">>, <<504, "Gateway Timeout">>,
  <<505, "HTTP Version Not Supported">>, <<506, "Variant Also Negotiates">>, <<507, "Insufficient Storage">>, <<508, "Loop Detected">>,
  <<510, "Not Extended">>, <<511, "Network Authentication Required">> >>
StatusNums == {Statuses[i][1] : i \in 1..Len(Statuses)}
ReasonOf == [n \in StatusNums |-> LET i == CHOOSE j \in 1..Len(Statuses) : Statuses[j][1] = n IN Statuses[i][2]]
Versions == << "HTTP/0.9", "HTTP/1.0", "HTTP/1.1", "HTTP/2", "HTTP/3" >>
VersionSet == {Versions[i] : i \in 1..Len(Versions)}
=============================================================================
