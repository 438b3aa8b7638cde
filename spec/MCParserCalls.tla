---- MODULE MCParserCalls ----
(* All interleavings of the given scenarios; writes every complete schedule. *)
EXTENDS ParserCalls, TLC, Json, IOUtils, CSV
MCScenarios == ndJsonDeserialize(IOEnv.TRACE)
View == <<sc, pc, tls, buf, sinks, fresh, hist>>
EmitDone == IF AllOver THEN CSVWrite("%1$s", <<ToJson([sc |-> sc, hist |-> hist])>>, IOEnv.OUT) ELSE TRUE
====
