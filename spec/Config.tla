------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Where a setting comes from.  A configuration has three parts:           *)
(*   imp  alias -> module                                                  *)
(*   oth  key -> text           (encoding, date formats, ...)              *)
(*   dbs  database -> [par: parameter -> text, views: view -> text]        *)
(* Level "g" is what the configuration files and the engine's custom       *)
(* configuration give; every session ("m" the engine, contexts, executed   *)
(* files) has its own part, which is laid over its parent's.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Over(lo, hi) == hi @@ lo                                  \* key by key
OverDb(lo, hi) == [par |-> Over(lo.par, hi.par), views |-> Over(lo.views, hi.views)]
NoDb == [par |-> <<>>, views |-> <<>>]
OverDbs(lo, hi) == [d \in DOMAIN lo \union DOMAIN hi |->
                      OverDb(IF d \in DOMAIN lo THEN lo[d] ELSE NoDb, IF d \in DOMAIN hi THEN hi[d] ELSE NoDb)]
OverCfg(lo, hi) == [imp |-> Over(lo.imp, hi.imp), oth |-> Over(lo.oth, hi.oth), dbs |-> OverDbs(lo.dbs, hi.dbs)]
NoCfg == [imp |-> <<>>, oth |-> <<>>, dbs |-> <<>>]

\* a file extends others: they are read first, in order, it is laid over them
RECURSIVE Fold(_, _), Read(_)
Fold(lo, seq) == IF seq = <<>> THEN lo ELSE Fold(OverCfg(lo, Head(seq)), Tail(seq))
Read(f) == OverCfg(Fold(NoCfg, [i \in DOMAIN f.extends |-> Read(f.extends[i])]), f.cfg)
\* files in the order home json, home yaml, directory json, directory yaml, custom configuration
Loaded(files) == Fold(NoCfg, [i \in DOMAIN files |-> Read(files[i])])
\* the init scripts each of them names, in the same order
RECURSIVE Inits(_)
Inits(files) == IF files = <<>> THEN <<>> ELSE Head(files).inits \o Inits(Tail(files))

\* what a level sees
RECURSIVE Effective(_, _, _)
Effective(st, up, l) == IF l \notin DOMAIN up THEN st[l] ELSE OverCfg(Effective(st, up, up[l]), st[l])

Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Put(f, k, v) == (k :> v) @@ f
Db(c, d) == IF d \in DOMAIN c.dbs THEN c.dbs[d] ELSE NoDb
\* an operation on one level's own part
Apply(c, o) ==
  CASE o.op = "imp"   -> [c EXCEPT !.imp = Put(@, o.k, o.v)]
    [] o.op = "unimp" -> [c EXCEPT !.imp = Without(@, o.k)]
    [] o.op = "oth"   -> [c EXCEPT !.oth = Put(@, o.k, o.v)]
    [] o.op = "unoth" -> [c EXCEPT !.oth = Without(@, o.k)]
    [] o.op = "db"    -> [c EXCEPT !.dbs = Put(@, o.d, [par |-> o.par, views |-> <<>>])]
    [] o.op = "par"   -> [c EXCEPT !.dbs = Put(@, o.d, [Db(c, o.d) EXCEPT !.par = Put(@, o.k, o.v)])]
    [] o.op = "view"  -> [c EXCEPT !.dbs = Put(@, o.d, [Db(c, o.d) EXCEPT !.views = Put(@, o.k, o.v)])]
    [] o.op = "unview" -> [c EXCEPT !.dbs = Put(@, o.d, [Db(c, o.d) EXCEPT !.views = Without(@, o.k)])]
    [] OTHER -> Assert(FALSE, o)
\* o.global: the operation is on level "g"
Step(st, l, o) == LET t == IF o.global = 1 THEN "g" ELSE l IN [st EXCEPT ![t] = Apply(@, o)]
RECURSIVE Steps(_, _, _)
Steps(st, l, os) == IF os = <<>> THEN st ELSE Steps(Step(st, l, Head(os)), l, Tail(os))
\* an executed file runs at a level of its own, which ends with it; only what it sets globally stays
InFile(st, l, up, os) == Steps(Put(st, "f", NoCfg), "f", os)
AfterFile(st, l, up, os) == Without(InFile(st, l, up, os), "f")

(***************************************************************************)
(* Lemmas, checked for every recorded state and step                       *)
(***************************************************************************)
Sees(c, o) ==
  CASE o.op = "imp" -> c.imp[o.k] = o.v
    [] o.op = "oth" -> c.oth[o.k] = o.v
    [] o.op = "par" -> c.dbs[o.d].par[o.k] = o.v
    [] o.op = "view" -> c.dbs[o.d].views[o.k] = o.v
    [] OTHER -> TRUE
Above(up, l, t) == l = t \/ (l \in DOMAIN up /\ (up[l] = t \/ (up[l] \in DOMAIN up /\ up[up[l]] = t)))
StepLemma(st, up, l, o) ==
  LET n == Step(st, l, o)
      t == IF o.global = 1 THEN "g" ELSE l
  IN /\ Sees(Effective(n, up, t), o)                                              \* what is set is what that level sees
     /\ \A k \in DOMAIN st : ~Above(up, k, t) => Effective(n, up, k) = Effective(st, up, k)   \* and no other branch does
=============================================================================
