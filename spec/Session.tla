------------------------------- MODULE Session ------------------------------
(***************************************************************************)
(* The state a script works on, and what its statements do to it.          *)
(*                                                                         *)
(* State St = [tabs, vars, csv, err]:                                       *)
(*   tabs  table name -> sequence of rows (column 1 is the key "id")       *)
(*   vars  level -> variable -> value or UNSET; level "g" is the process,  *)
(*         "m" the engine, "c1", "c2".. contexts or EXECUTE'd files, whose *)
(*         enclosing level is given by up                                  *)
(*   csv   names of the tables that are CSV files (a JSON file is a table   *)
(*         like any other)                                                 *)
(*   err   1 when the script stopped at a failing statement                *)
(*                                                                         *)
(* A script is compiled as a whole before any statement runs, so a         *)
(* statement that cannot be compiled (op "cerr") makes the script do       *)
(* nothing; a statement failing while it runs (op "rerr") stops the script *)
(* and keeps what the earlier statements did.                              *)
(***************************************************************************)
EXTENDS Rel

UNSET == <<8, 0, 1, <<>>>>
MISS  == <<4, 0, 1, <<>>>>       \* a column the row does not have

(*------------------------------ variables ------------------------------*)
RECURSIVE Lookup(_, _, _, _)
Lookup(vars, up, lvl, v) ==
  IF vars[lvl][v] # UNSET THEN vars[lvl][v]
  ELSE IF lvl \in DOMAIN up THEN Lookup(vars, up, up[lvl], v)
  ELSE NULL
Seen(St, up, lvl) == [v \in DOMAIN St.vars[lvl] |-> Lookup(St.vars, up, lvl, v)]
Assign(St, lvl, v, x) == [St EXCEPT !.vars[lvl][v] = x]

(*-------------------------------- tables -------------------------------*)
TabsOf(tabs, n) == IF n \in DOMAIN tabs THEN tabs[n] ELSE <<>>
PutTab(tabs, n, rows) == [x \in DOMAIN tabs \cup {n} |-> IF x = n THEN rows ELSE tabs[x]]
(* a CSV file keeps texts only; NULL and a missing column become empty *)
CsvForm(rows) == [i \in DOMAIN rows |-> [c \in DOMAIN rows[i] |-> IF rows[i][c] \in {NULL, MISS} THEN Txt(<<>>) ELSE Txt(Text(rows[i][c]))]]
Put(St, n, rows) == [St EXCEPT !.tabs = PutTab(St.tabs, n, IF n \in St.csv THEN CsvForm(rows) ELSE rows)]
NonEmpty(tabs) == {n \in DOMAIN tabs : tabs[n] # <<>>}
SameTabs(a, b) == /\ NonEmpty(a) = NonEmpty(b)
                  /\ \A n \in NonEmpty(a) : BagEq(a[n], b[n])

(* WITH n1 AS (q1), n2 AS (q2): each definition sees the ones before it and
   hides a table of the same name for this statement only.                 *)
(* A recursive definition: its second part runs for each row alone, those  *)
(* it gave included, in the order the rows came.                            *)
RECURSIVE Grow(_, _, _, _, _)
Grow(w, rows, i, tabs, vars) ==
  IF i > Len(rows) THEN rows
  ELSE Grow(w, rows \o EvalQuery(w.rec[1], Ctx0(PutTab(tabs, w.n, <<rows[i]>>), vars)), i + 1, tabs, vars)
WithRows(w, tabs, vars) ==
  LET rows == EvalQuery(w.q, Ctx0(tabs, vars)) IN IF w.rec = <<>> THEN rows ELSE Grow(w, rows, 1, tabs, vars)
RECURSIVE WithTabs(_, _, _)
WithTabs(ws, tabs, vars) ==
  IF ws = <<>> THEN tabs
  ELSE WithTabs(Tail(ws), PutTab(tabs, Head(ws).n, WithRows(Head(ws), tabs, vars)), vars)

(*-------------------------------- INSERT -------------------------------*)
(* old: the target's rows; new: the rows of the select, spread over the    *)
(* target's columns (MISS where the select has no such column).            *)
(*   I    append                                                           *)
(*   U    update the rows whose key is among the new ones, nothing else    *)
(*   UI   update those, append the new rows whose key is not there         *)
(*   UDI  as UI, and first delete the target's rows in the select's range  *)
(*        whose key is not among the new ones                              *)
(*   DI   delete the target's rows in the select's range, append all       *)
(* The range is what the source filters of the select say about the        *)
(* target's columns of the same name (all rows without WHERE).             *)
Apply(mode, old, new, InRange(_)) ==
  LET newIds == {new[i][1] : i \in DOMAIN new}
      LastOf(k) == new[CHOOSE i \in DOMAIN new : new[i][1] = k /\ \A j \in DOMAIN new : j > i => new[j][1] # k]
      Over(r, n) == [c \in DOMAIN r |-> IF n[c] = MISS THEN r[c] ELSE n[c]]
      Upd(r) == IF InRange(r) /\ r[1] \in newIds THEN Over(r, LastOf(r[1])) ELSE r
      oldIds == {old[i][1] : i \in {j \in DOMAIN old : InRange(old[j])}}
      Fresh  == FilterSeq(new, LAMBDA n : n[1] \notin oldIds)
      Kept   == FilterSeq(old, LAMBDA r : ~InRange(r) \/ r[1] \in newIds)
  IN CASE mode = "I"   -> old \o new
       [] mode = "U"   -> MapSeq(old, Upd)
       [] mode = "UI"  -> MapSeq(old, Upd) \o Fresh
       [] mode = "UDI" -> MapSeq(Kept, Upd) \o Fresh
       [] mode = "DI"  -> FilterSeq(old, LAMBDA r : ~InRange(r)) \o new

Spread(map, out) == [i \in DOMAIN out |-> [c \in DOMAIN map |-> IF map[c] = 0 THEN MISS ELSE out[i][map[c]]]]

(* A keyed mode takes "id" for a key; what it does to a target that has an id
   twice, or when several new rows want to update one row, is left open
   (err 2).                                                                *)
DupKeys(rows) == Cardinality({rows[i][1] : i \in DOMAIN rows}) < Len(rows)
Open(mode, old, new) ==
  /\ mode \in {"U", "UI", "UDI"}
  /\ \/ DupKeys(old)
     \/ DupKeys(FilterSeq(new, LAMBDA n : \E i \in DOMAIN old : old[i][1] = n[1]))
Store(st, St, new, InRange(_)) ==
  LET old == TabsOf(St.tabs, st.t) IN
  IF Open(st.mode, old, new) THEN [St EXCEPT !.err = 2]
  ELSE Put(St, st.t, Apply(st.mode, old, new, InRange))

Insert(st, St, vars) ==
  LET tabs == WithTabs(st.with, St.tabs, vars)
      out  == EvalQuery(st.q, Ctx0(tabs, vars))
      ctx  == Ctx0(St.tabs, vars)
      InRange(r) == st.rng.k = "true" \/ Truth(Eval(st.rng, RowCtx(ctx, r)))
  IN Store(st, St, Spread(st.map, out), InRange)

InsertValues(st, St, vars) ==
  LET ctx == Ctx0(St.tabs, vars)
      out == [i \in DOMAIN st.rows |-> EvalSeq(st.rows[i], ctx)]
  IN Store(st, St, Spread(st.map, out), LAMBDA r : TRUE)

(*-------------------------------- DELETE -------------------------------*)
Delete(st, St, vars) ==
  LET ctx == Ctx0(St.tabs, vars)
      Hit(r) == st.where.k = "true" \/ Truth(Eval(st.where, RowCtx(ctx, r)))
  IN Put(St, st.t, FilterSeq(TabsOf(St.tabs, st.t), LAMBDA r : ~Hit(r)))

(*----------------------- SELECT ... INTO, counters ---------------------*)
IntoValue(out) == IF Len(out) = 1 THEN out[1][1] ELSE Lst(ColumnOf(out))

(* INSERT INTO t SELECT id, @v:=e, s FROM src: the rows are visited in the
   source's order and each sees the value the row before left behind.      *)
RECURSIVE Count(_, _, _, _, _)
Count(rows, st, ctx, v, acc) ==
  IF rows = <<>> THEN <<v, acc>>
  ELSE LET r == Head(rows)
           c == [RowCtx(ctx, r) EXCEPT !.vars[st.v] = v]
           x == Eval(st.e, c)
       IN Count(Tail(rows), st, ctx, x, Append(acc, <<r[1], x, r[3]>>))

Counter(st, St, lvl, vars) ==
  LET ctx == Ctx0(St.tabs, vars)
      res == Count(TabsOf(St.tabs, st.src), st, ctx, vars[st.v], <<>>)
      S2  == Put(St, st.t, TabsOf(St.tabs, st.t) \o res[2])
  IN IF TabsOf(St.tabs, st.src) = <<>> THEN S2 ELSE Assign(S2, lvl, st.v, res[1])

(*------------------------------ statements -----------------------------*)
RECURSIVE ExecSeq(_, _, _, _)
(* EXECUTE: the statements of a file, at a level of their own (st.lvl) that *)
(* lies within the one that executes it and ends with the file.            *)
ExecFile(st, St, up, lvl) ==
  LET none == [v \in DOMAIN St.vars[lvl] |-> UNSET]
      S1   == [St EXCEPT !.vars = (st.lvl :> none) @@ St.vars]
      S2   == ExecSeq(st.stmts, S1, (st.lvl :> lvl) @@ up, st.lvl)
  IN [S2 EXCEPT !.vars = [l \in DOMAIN St.vars |-> S2.vars[l]]]

Exec1(st, St, up, lvl) ==
  LET vars == Seen(St, up, lvl) IN
  CASE st.op = "ins"  -> Insert(st, St, vars)
    [] st.op = "insv" -> InsertValues(st, St, vars)
    [] st.op = "del"  -> Delete(st, St, vars)
    [] st.op = "set"  -> Assign(St, IF st.glob = 1 THEN "g" ELSE lvl, st.v, Eval(st.e, Ctx0(St.tabs, vars)))
    [] st.op = "into" -> Assign(St, lvl, st.v, IntoValue(EvalQuery(st.q, Ctx0(WithTabs(st.with, St.tabs, vars), vars))))
    [] st.op = "acc"  -> Counter(st, St, lvl, vars)
    [] st.op = "exec" -> ExecFile(st, St, up, lvl)
    [] st.op = "sel"  -> St                        \* only prints
    [] st.op = "rerr" -> IF EvalQuery(st.q, Ctx0(St.tabs, vars)) = <<>> THEN St ELSE [St EXCEPT !.err = 1]   \* nothing to write: nothing fails

ExecSeq(sts, St, up, lvl) ==
  IF sts = <<>> \/ St.err # 0 THEN St
  ELSE ExecSeq(Tail(sts), Exec1(Head(sts), St, up, lvl), up, lvl)

RECURSIVE Compiles(_)
Compiles(sts) == \A i \in DOMAIN sts : sts[i].op # "cerr" /\ (sts[i].op = "exec" => Compiles(sts[i].stmts))

Script(sts, St, up, lvl) ==
  LET S0 == [St EXCEPT !.err = 0]
  IN IF Compiles(sts) THEN ExecSeq(sts, S0, up, lvl) ELSE [S0 EXCEPT !.err = 1]

(* a variable that is NULL and one nobody set look the same, unless an
   outer level has a value for it to hide                                  *)
SameVars(a, b, up) ==
  \A l \in DOMAIN a : \A v \in DOMAIN a[l] :
     \/ a[l][v] = b[l][v]
     \/ /\ {a[l][v], b[l][v]} = {UNSET, NULL}
        /\ l \in DOMAIN up => Lookup(b, up, up[l], v) \in {UNSET, NULL}

(* A DELETE whose condition the engine may not be able to evaluate (refuse):
   the script is refused as a whole, or does what it says.                 *)
RECURSIVE MayRefuse(_)
MayRefuse(sts) == \E i \in DOMAIN sts : \/ sts[i].op = "del" /\ sts[i].refuse = 1
                                        \/ sts[i].op = "exec" /\ MayRefuse(sts[i].stmts)
Outcomes(sts, St, up, lvl) ==
  {Script(sts, St, up, lvl)} \cup (IF MayRefuse(sts) THEN {[St EXCEPT !.err = 1]} ELSE {})

(* The command: scripts one after another in one process.  A failing one ends it  *)
(* (stop = 1), or, at the prompt, only itself (stop = 0).                          *)
RECURSIVE Command(_, _, _, _)
Command(groups, Ss, up, stop) ==
  IF groups = <<>> THEN (IF stop = 1 THEN Ss ELSE {IF s.err = 2 THEN s ELSE [s EXCEPT !.err = 0] : s \in Ss})
  ELSE Command(Tail(groups), UNION {IF s.err = 2 \/ (stop = 1 /\ s.err = 1) THEN {s} ELSE Outcomes(Head(groups), s, up, "m") : s \in Ss}, up, stop)

ScriptVerdict(St, obs, up) ==
  IF St.err = 2 THEN "open"
  ELSE IF St.err # obs.err THEN (IF obs.err = 1 THEN "failed" ELSE "did-not-fail")
  ELSE IF NonEmpty(obs.tabs) \ NonEmpty(St.tabs) # {} THEN "unexpected-table"
  ELSE IF ~SameTabs(St.tabs, obs.tabs) THEN "tables"
  ELSE IF ~SameVars(St.vars, obs.vars, up) THEN "variables"
  ELSE "ok"

HistoryVerdict(outs, obs, up) ==
  IF \E o \in outs : ScriptVerdict(o, obs, up) = "ok" THEN "ok"
  ELSE ScriptVerdict(CHOOSE o \in outs : o.err = 0 \/ \A p \in outs : p.err # 0, obs, up)
=============================================================================
