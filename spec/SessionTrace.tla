---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Validates recorded scripts against Session.  One line per event:        *)
(*   {"ev":"reset","tabs":..,"vars":..,"up":..,"csv":[..]}  a fresh state            *)
(*   {"ev":"script","lvl":..,"stmts":[..],"obs":{tabs,vars,err}}           *)
(* After every script the observed state is taken over, so each script is  *)
(* judged on its own.                                                      *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, St, up, bad
tvars == <<l, St, up, bad>>

Init == l = 1 /\ St = [tabs |-> <<>>, vars |-> <<>>, csv |-> {}, err |-> 0] /\ up = <<>> /\ bad = <<>>

Ev(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Reset == /\ Ev("reset")
         /\ St' = [tabs |-> Trace[l].tabs, vars |-> Trace[l].vars, csv |-> Range(Trace[l].csv), err |-> 0]
         /\ up' = Trace[l].up
         /\ UNCHANGED bad

Run == /\ Ev("script")
       /\ UNCHANGED up
       /\ LET e == Trace[l]
              v == HistoryVerdict(Outcomes(e.stmts, St, up, e.lvl), e.obs, up)
          IN /\ St' = [tabs |-> e.obs.tabs, vars |-> e.obs.vars, csv |-> St.csv, err |-> 0]
             /\ bad' = IF v = "ok" THEN bad ELSE Append(bad, <<l, v>>)

(* {"ev":"command","groups":[[..stmts]..],"stop":0|1,"obs":{tabs,err}}: its variables end with it *)
Started == /\ Ev("command")
           /\ UNCHANGED up
           /\ LET e == Trace[l]
                  outs == Command(e.groups, {St}, up, e.stop)
                  v == IF \E o \in outs : o.err = 2 THEN "open"
                       ELSE HistoryVerdict({[o EXCEPT !.vars = <<>>] : o \in outs}, [tabs |-> e.obs.tabs, vars |-> <<>>, err |-> e.obs.err], up)
              IN /\ St' = [St EXCEPT !.tabs = e.obs.tabs]
                 /\ bad' = IF v = "ok" THEN bad ELSE Append(bad, <<l, v>>)

Next == Reset \/ Run \/ Started
Spec == Init /\ [][Next]_tvars

Done == (l = Len(Trace) + 1) => PrintT(<<"TRACE-END", l - 1, ToJson(bad)>>)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
