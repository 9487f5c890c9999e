---------------------------- MODULE ConfigTrace ----------------------------
(***************************************************************************)
(* One line per event:                                                     *)
(*  {"ev":"load","files":[{cfg,extends,inits}],"up":{..},"obs":..}  new engine      *)
(*  {"ev":"ops","lvl":..,"ops":[..],"obs":..}   statements at a level              *)
(*  {"ev":"file","lvl":..,"ops":[..],"inner":..,"obs":..}   an executed file       *)
(* obs: level -> what the level was seen to have.  Only the names that     *)
(* occur in the history are compared.                                      *)
(***************************************************************************)
EXTENDS Config, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, up, bad
vars == <<l, st, up, bad>>
Init == l = 1 /\ st = <<>> /\ up = <<>> /\ bad = <<>>

SameF(a, b) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : a[k] = b[k]
SameDbs(a, b) == DOMAIN a = DOMAIN b /\ \A d \in DOMAIN a : SameF(a[d].par, b[d].par) /\ SameF(a[d].views, b[d].views)
Diff(want, got) == IF ~SameF(want.imp, got.imp) THEN "imports" ELSE IF ~SameF(want.oth, got.oth) THEN "formats" ELSE IF ~SameDbs(want.dbs, got.dbs) THEN "databases" ELSE "ok"
RECURSIVE Worst(_)
Worst(vs) == IF vs = {} THEN "ok" ELSE LET v == CHOOSE x \in vs : TRUE IN IF v # "ok" THEN v ELSE Worst(vs \ {v})
Judge(n, obs) == Worst({LET d == Diff(Effective(n, up', k), obs[k]) IN IF d = "ok" THEN d ELSE d \o " of " \o k : k \in DOMAIN obs})
Note(v) == bad' = IF v = "ok" THEN bad ELSE Append(bad, <<l, v>>)
Ev(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Load == /\ Ev("load")
        /\ LET e == Trace[l]
               s0 == [k \in {"g", "m"} \union DOMAIN e.up |-> IF k = "g" THEN Loaded(e.files) ELSE NoCfg]
           IN /\ up' = e.up
              /\ st' = Steps(s0, "m", Inits(e.files))
              /\ Note(Judge(st', e.obs))
Ops == /\ Ev("ops") /\ UNCHANGED up
       /\ LET e == Trace[l]
          IN /\ st' = Steps(st, e.lvl, e.ops)
             /\ Assert(\A i \in DOMAIN e.ops : StepLemma(Steps(st, e.lvl, SubSeq(e.ops, 1, i - 1)), up, e.lvl, e.ops[i]), <<"lemma Step", l>>)
             /\ Note(Judge(st', e.obs))
File == /\ Ev("file") /\ UNCHANGED up
        /\ LET e == Trace[l]
               inn == InFile(st, e.lvl, up, e.ops)
               eff == Effective(inn, ("f" :> e.lvl) @@ up, "f")
               din == Diff(eff, [e.inner EXCEPT !.oth = eff.oth])      \* the file shows its imports and databases only
           IN /\ st' = AfterFile(st, e.lvl, up, e.ops)
              /\ Note(IF din # "ok" THEN din \o " in the file" ELSE Judge(st', e.obs))
Next == Load \/ Ops \/ File
Spec == Init /\ [][Next]_vars
Done == (l = Len(Trace) + 1) => PrintT(<<"TRACE-END", l - 1, ToJson(bad)>>)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
