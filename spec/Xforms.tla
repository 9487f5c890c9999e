------------------------------- MODULE Xforms -------------------------------
(***************************************************************************)
(* Transforms: functions from the whole result of a query to rows whose    *)
(* columns depend on its values.  A row is a sequence of <<name, value>>   *)
(* pairs with distinct names, a name is a sequence of characters.          *)
(***************************************************************************)
EXTENDS Values

DHas(d, k) == \E i \in DOMAIN d : d[i][1] = k
DGet(d, k) == IF DHas(d, k) THEN d[CHOOSE i \in DOMAIN d : d[i][1] = k][2] ELSE NULL
DSet(d, k, v) == IF DHas(d, k) THEN [i \in DOMAIN d |-> IF d[i][1] = k THEN <<k, v>> ELSE d[i]] ELSE Append(d, <<k, v>>)
DKeys(d) == [i \in DOMAIN d |-> d[i][1]]
Cat(ss) == FoldS(LAMBDA a, s : a \o s, <<>>, ss)
DDoc(d) == <<7, 0, 1, SortSeq2(d, LAMBDA a, b : SeqCmp(a[1], b[1]) < 0)>>

(* wide to long: one row for every other column of every row *)
H2V(ds, h, v, x) ==
  Cat([i \in DOMAIN ds |->
    LET o == FilterSeq(ds[i], LAMBDA p : p[1] # v)
    IN [j \in DOMAIN o |-> <<<<v, DGet(ds[i], v)>>, <<h, Txt(o[j][1])>>>> \o (IF x = <<>> THEN <<>> ELSE <<<<x, o[j][2]>>>>)]])

(* rows to names and values; keep: columns repeated beside them *)
V4H(ds, k, v, keep) ==
  Cat([i \in DOMAIN ds |->
    LET o == FilterSeq(ds[i], LAMBDA p : p[1] \notin {k, v} \cup keep)
        r == FilterSeq(ds[i], LAMBDA p : p[1] \in keep)
    IN [j \in DOMAIN o |-> <<<<k, Txt(o[j][1])>>, <<v, o[j][2]>>>> \o r]])

(* names and values back to rows: a new one begins when a name comes again, or the identifying column changes *)
RECURSIVE H4VFrom(_, _, _, _, _)
H4VFrom(ds, k, v, id, cur) ==
  IF ds = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE LET d     == Head(ds)
           h     == DGet(d, k)[4]
           start == IF id = <<>> THEN <<>> ELSE <<<<id, DGet(d, id)>>>>
           next  == cur # <<>> /\ (DHas(cur, h) \/ (id # <<>> /\ DGet(cur, id) # DGet(d, id)))
       IN IF next THEN <<cur>> \o H4VFrom(Tail(ds), k, v, id, DSet(start, h, DGet(d, v)))
          ELSE H4VFrom(Tail(ds), k, v, id, DSet(IF cur = <<>> THEN start ELSE cur, h, DGet(d, v)))
H4V(ds, k, v, id) == H4VFrom(ds, k, v, id, <<>>)

(* what a cell of a pivot holds: how many rows, their sum, or the last of their texts *)
Cell(rs, x) ==
  IF x = <<>> THEN Num(Len(rs))
  ELSE LET vs == [i \in DOMAIN rs |-> DGet(rs[i], x)]
       IN IF IsNum(vs[1]) THEN FoldS(LAMBDA a, b : Arith("+", a, b), Num(0), vs) ELSE vs[Len(vs)]

(* long to wide: a row for every value of v, a column for every value of h *)
V2H(ds, h, v, x) ==
  LET hs == DedupSeq([i \in DOMAIN ds |-> DGet(ds[i], h)])
      vs == DedupSeq([i \in DOMAIN ds |-> DGet(ds[i], v)])
      At(a, b) == FilterSeq(ds, LAMBDA d : DGet(d, h) = a /\ DGet(d, v) = b)
  IN [i \in DOMAIN vs |-> <<<<v, vs[i]>>>> \o
       [j \in DOMAIN hs |-> <<hs[j][4], IF At(hs[j], vs[i]) = <<>> THEN Num(0) ELSE Cell(At(hs[j], vs[i]), x)>>]]

(* the first row of every value of u, with a column for every value of h *)
UniqKV(ds, u, h, x) ==
  LET us == DedupSeq([i \in DOMAIN ds |-> DGet(ds[i], u)])
      hs == DedupSeq([i \in DOMAIN ds |-> DGet(ds[i], h)])
      Of(a) == FilterSeq(ds, LAMBDA d : DGet(d, u) = a)
      At(a, b) == FilterSeq(ds, LAMBDA d : DGet(d, u) = a /\ DGet(d, h) = b)
      None == IF x = <<>> THEN Num(0) ELSE NULL
  IN [i \in DOMAIN us |-> Of(us[i])[1] \o
       [j \in DOMAIN hs |-> <<hs[j][4], IF At(us[i], hs[j]) = <<>> THEN None ELSE Cell(At(us[i], hs[j]), x)>>]]

Transformed(f, as, ds) ==       \* as: the arguments, as values
  LET A(i) == IF i \in DOMAIN as THEN as[i][4] ELSE <<>> IN
  CASE f = "h2v"      -> H2V(ds, A(1), A(2), A(3))
    [] f = "v4h"      -> V4H(ds, A(1), A(2), IF Len(as) > 2 THEN {A(3)} ELSE {})
    [] f = "h4v"      -> H4V(ds, A(1), A(2), A(3))
    [] f = "v2h"      -> V2H(ds, A(1), A(2), A(3))
    [] f = "uniqkv"   -> UniqKV(ds, A(1), A(2), A(3))
    [] f = "u_number" -> [i \in DOMAIN ds |-> DSet(ds[i], <<110, 95, 95>>, Num(i))]
    [] f = "u_back"   -> [i \in DOMAIN ds |-> ds[Len(ds) + 1 - i]]
    [] f = "u_take"   -> SubSeq(ds, 1, IF as[1][2] < Len(ds) THEN as[1][2] ELSE Len(ds))
=============================================================================
