----------------------------- MODULE SubstTrace -----------------------------
(* {"t":[codes],"env":[levels],"calls":[[name, function]..],"obs":[codes]}: a text and what stood in its place *)
EXTENDS Subst, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Init == l = 1 /\ bad = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ bad' = IF Subst(e.t, e.env, e.calls) = e.obs THEN bad ELSE Append(bad, <<l, "text">>)
           /\ Assert(Plain(e.t, e.env, e.calls), <<"lemma Plain", e.t>>)
           /\ Assert(Parts(e.t, Len(e.t) \div 2, e.env, e.calls), <<"lemma Parts", e.t>>)
Spec == Init /\ [][Next]_<<l, bad>>
Done == (l = Len(Trace) + 1) => PrintT(<<"TRACE-END", l - 1, ToJson(bad)>>)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
