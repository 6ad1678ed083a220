------------------------------ MODULE MCConn ------------------------------
(***************************************************************************)
(* The design: for every attempt the client connects anew, says hello in   *)
(* the way it is configured for, examines the certificate, and sends only  *)
(* then.  An attempt that fails is repeated.  Who answers at the address   *)
(* is up to an adversary.                                                  *)
(***************************************************************************)
EXTENDS Conn, TLC, Json

CONSTANTS MaxServers, Reports, Mistake

T(known, named, timely, server, modern) == [tls |-> TRUE, known |-> known, named |-> named, timely |-> timely, server |-> server, modern |-> modern]
Plain == [tls |-> FALSE, known |-> FALSE, named |-> FALSE, timely |-> FALSE, server |-> FALSE, modern |-> FALSE]
Servers == {Plain} \cup {T(a, b, c, d, e) : a, b, c, d, e \in BOOLEAN}

VARIABLES secure, hist, \* servers so far
          pc, left,     \* reports to be sent
          failed,       \* attempts in a row that failed
          cfgd,         \* configuration of the client, made for the first report
          bad, obs
vars == <<secure, hist, pc, left, failed, cfgd, bad, obs>>
cfg == [secure |-> secure, reports |-> Reports]
Now == hist[Len(hist)]

See(e) == /\ obs' = UNION {ConnStep(cfg, s, e) : s \in obs}
          /\ bad' = (bad \/ obs' = {})

Init == /\ secure \in BOOLEAN /\ hist = <<>> /\ pc = "idle" /\ left = Reports /\ failed = 0 /\ cfgd = "no" /\ bad = FALSE /\ obs = ConnInit(cfg)

Serve == /\ pc \in {"idle", "wait"} /\ Len(hist) < MaxServers
         /\ \E s \in Servers : hist' = Append(hist, s) /\ See([op |-> "serve", is |-> s])
         /\ pc' = "wait"
         /\ UNCHANGED <<secure, left, failed, cfgd>>

Tls == CASE Mistake = "fallback" /\ failed > 1 -> FALSE
         [] Mistake = "second" /\ cfgd = "done" -> FALSE
         [] Mistake = "always" -> FALSE
         [] Mistake = "never plain" -> TRUE
         [] OTHER -> secure
Examined(s) == /\ s.known \/ Mistake = "any root" \/ (Mistake = "trusts on first use" /\ cfgd = "done")
               /\ s.named \/ Mistake = "any name"
               /\ s.timely \/ Mistake = "any time"
               /\ s.server \/ Mistake = "any usage"
               /\ s.modern \/ Mistake = "any version"

Hello == /\ pc = "wait" /\ hist # <<>> /\ left > 0 /\ failed < 3
         /\ See([op |-> "bytes", tls |-> Tls, clear |-> FALSE])
         /\ pc' = IF Tls = Now.tls /\ (Tls => Examined(Now)) THEN "send" ELSE "fail"
         /\ UNCHANGED <<secure, hist, left, failed, cfgd>>
Fail == /\ pc = "fail" /\ pc' = "wait" /\ failed' = failed + 1
        /\ UNCHANGED <<secure, hist, left, cfgd, bad, obs>>
Send == /\ pc = "send" /\ pc' = "wait" /\ left' = left - 1 /\ failed' = 0 /\ cfgd' = "done"
        /\ See([op |-> "got"])
        /\ UNCHANGED <<secure, hist>>
End == /\ pc = "wait" /\ (left = 0 \/ (Mistake = "gives up" /\ failed > 1)) /\ pc' = "end"
       /\ See([op |-> "end"])
       /\ UNCHANGED <<secure, hist, left, failed, cfgd>>
\* the servers are all there were, and no attempt is left: it is stopped
Stop == /\ pc = "wait" /\ Len(hist) = MaxServers /\ left > 0 /\ failed = 3 /\ pc' = "end"
        /\ IF Right(cfg, Now) /\ Mistake # "never plain" THEN UNCHANGED <<obs, bad>> ELSE See([op |-> "stop"])
        /\ UNCHANGED <<secure, hist, left, failed, cfgd>>

Next == Serve \/ Hello \/ Fail \/ Send \/ End \/ Stop
Spec == Init /\ [][Next]_vars

Conforms == ~bad
\* nothing but the right server ever has a report
Private == \A s \in obs : s.got > 0 => \E i \in 1..Len(hist) : Right(cfg, hist[i])
Emit == IF pc = "wait" /\ Len(hist) = MaxServers /\ left = Reports /\ failed = 0 /\ Mistake = "" THEN PrintT("SCRIPT " \o ToJson([secure |-> secure, servers |-> hist])) ELSE TRUE
=============================================================================
