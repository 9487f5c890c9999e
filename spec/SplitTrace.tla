----------------------------- MODULE SplitTrace -----------------------------
(* {"s":[codes],"err":0|1,"out":[[[codes],line]..]}: how the code split a text *)
EXTENDS Splitter, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Init == l = 1 /\ bad = <<>>
SplitVerdict(e) ==
  LET w == Split(e.s)
  IN IF w.err # e.err THEN (IF e.err = 1 THEN "refused" ELSE "accepted")
     ELSE IF w.err = 1 THEN "ok"
     ELSE IF [i \in DOMAIN w.out |-> w.out[i][1]] # [i \in DOMAIN e.out |-> e.out[i][1]] THEN "text"
     ELSE IF w.out # e.out THEN "line"
     ELSE "ok"
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET v == SplitVerdict(Trace[l]) IN bad' = IF v = "ok" THEN bad ELSE Append(bad, <<l, v>>)
        /\ Assert(Whole(Trace[l].s), <<"lemma Whole", Trace[l].s>>)
        /\ l > 1 => Assert(Joins(Trace[l - 1].s, Trace[l].s), <<"lemma Joins", Trace[l].s>>)
Spec == Init /\ [][Next]_<<l, bad>>
Done == (l = Len(Trace) + 1) => PrintT(<<"TRACE-END", l - 1, ToJson(bad)>>)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
