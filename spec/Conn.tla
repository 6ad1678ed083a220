-------------------------------- MODULE Conn --------------------------------
(***************************************************************************)
(* To whom reports are sent, and how (C18).                                *)
(*   cfg.secure  connections are to be secured (the default)               *)
(*   cfg.reports how many reports there are                                *)
(* A server is a record                                                    *)
(*   tls    it talks TLS                                                   *)
(*   known  its certificate leads to a root that is trusted here           *)
(*   named  the certificate is for the configured host                     *)
(*   timely it is valid now                                                *)
(*   server it is a certificate for servers                                *)
(*   modern it can use a version of TLS that is not broken                 *)
(* Observed events:                                                        *)
(*   serve  a server begins to answer at the configured address            *)
(*   bytes  what a server was sent began like TLS or not (tls), and had    *)
(*          something of the report in it that could be read (clear)       *)
(*   got    a server received a report (and accepted it)                   *)
(*   down   the server is gone                                             *)
(*   stop   the program did not end although the server was there for      *)
(*          long; it is killed                                             *)
(*   end    the program ended                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences

\* whether this is who reports are for
Right(cfg, srv) ==
  IF cfg.secure THEN srv.tls /\ srv.known /\ srv.named /\ srv.timely /\ srv.server /\ srv.modern
  ELSE ~srv.tls

NoServer == [up |-> FALSE]

ConnInit(cfg) == {[srv |-> NoServer, got |-> 0]}

ConnStep(cfg, s, e) ==
  CASE e.op = "serve" -> {[s EXCEPT !.srv = [up |-> TRUE, is |-> e.is]]}
    [] e.op = "bytes" -> {x \in {s} : cfg.secure => e.tls /\ ~e.clear}
    [] e.op = "got" -> {x \in {[s EXCEPT !.got = @ + 1]} : s.srv.up /\ Right(cfg, s.srv.is)}
    [] e.op = "down" -> {[s EXCEPT !.srv = NoServer]}
    [] e.op = "stop" -> {x \in {s} : s.srv.up /\ ~Right(cfg, s.srv.is)}
    [] e.op = "end" -> {x \in {s} : s.got >= cfg.reports}
    [] OTHER -> {}
=============================================================================
