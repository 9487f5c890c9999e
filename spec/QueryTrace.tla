----------------------------- MODULE QueryTrace -----------------------------
(***************************************************************************)
(* Validates recorded queries against Rel.  One line per event:            *)
(*   {"ev":"tabs","tabs":{name:[row..]}}             the store is replaced *)
(*   {"ev":"query","q":Q,"res":[row..]}              a SELECT and its rows *)
(* Every line gets a verdict; the ones that are not "ok" are collected in  *)
(* bad and printed at the end, so one mismatch never hides another.        *)
(***************************************************************************)
EXTENDS Rel, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, tabs, bad
vars == <<l, tabs, bad>>

Init == l = 1 /\ tabs = [x \in {} |-> <<>>] /\ bad = <<>>

Ev(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Load == Ev("tabs") /\ tabs' = Trace[l].tabs /\ UNCHANGED bad

Query == /\ Ev("query")
         /\ UNCHANGED tabs
         /\ LET v == Verdict(Trace[l].q, Ctx0(tabs, <<>>), Trace[l].res)
            IN bad' = IF v = "ok" THEN bad ELSE Append(bad, <<l, v>>)

Next == Load \/ Query
Spec == Init /\ [][Next]_vars

Done == (l = Len(Trace) + 1) => PrintT(<<"TRACE-END", l - 1, ToJson(bad)>>)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
