-------------------------------- MODULE Rel ---------------------------------
(***************************************************************************)
(* The meaning of one SELECT: expression evaluation, filtering, joins,     *)
(* grouping, aggregates, windows, DISTINCT, HAVING, ORDER BY, LIMIT,       *)
(* UNION and subqueries, over a table store  tabs : name -> seq of rows.   *)
(* Query and expression trees are records (decoded from JSON).             *)
(*                                                                         *)
(* ctx.rows is the stack of rows in scope: rows[1] the innermost query's   *)
(* row, rows[2] the row of the enclosing query, ...                        *)
(* ctx.grp is the group being aggregated, ctx.all the rows a window sees   *)
(* (each a full row), ctx.tabs the table store, ctx.vars the variables.    *)
(***************************************************************************)
EXTENDS Funcs, Xforms

RECURSIVE Eval(_, _)
RECURSIVE EvalQuery(_, _)
RECURSIVE EvalSeq(_, _)

(*--------------------------- aggregates --------------------------------*)
NonNull(s) == FilterSeq(s, LAMBDA v : ~IsNull(v))
SumOf(s)   == FoldS(LAMBDA a, v : Arith("+", a, v), Num(0), s)
MinOf(s)   == FoldS(LAMBDA a, v : IF IsNull(a) THEN v ELSE IF Cmp(v, a) < 0 THEN v ELSE a, NULL, s)
MaxOf(s)   == FoldS(LAMBDA a, v : IF IsNull(a) THEN v ELSE IF Cmp(v, a) > 0 THEN v ELSE a, NULL, s)
BitAgg(o, s) == IF s = <<>> THEN NULL
                ELSE Num(FoldS(LAMBDA a, v : BitOp(o, a, v[2]), Head(s)[2], Tail(s)))

Sorted(s) == SortSeq2(s, LAMBDA a, b : OrdCmp(a, b) < 0)

(* vs: the argument's value for every row of the group; n: rows in group *)
Aggregate(f, vs, n) ==
  LET nn == NonNull(vs) IN
  CASE f = "count*"  -> Num(n)
    [] f = "count"   -> Num(Len(nn))
    [] f = "countd"  -> Num(Cardinality(RangeOf(nn)))
    [] f = "sum"     -> SumOf(nn)                     \* empty sum is 0 here
    [] f = "avg"     -> IF nn = <<>> THEN Num(0) ELSE Arith("/", SumOf(nn), Num(Len(nn)))
    [] f = "min"     -> MinOf(nn)
    [] f = "max"     -> MaxOf(nn)
    [] f = "gconcat" -> Txt(JoinText(nn, <<44>>))
    [] f = "garray"  -> Lst(nn)
    [] f = "guniq"   -> Lst(Sorted(DedupSeq(nn)))     \* harness sorts the observed list
    [] f = "bitand"  -> BitAgg("and", nn)
    [] f = "bitor"   -> BitAgg("or", nn)
    [] f = "bitxor"  -> BitAgg("xor", nn)
    [] f = "ujoin"   -> Txt(JoinText(nn, <<44>>))              \* a user's aggregate: '' over nothing
    [] f = "upeak"   -> MaxOf(nn)                              \* a user's aggregate written with None as its empty state
    [] f = "jarr"    -> IF nn = <<>> THEN NULL ELSE Lst(nn)    \* harness parses the JSON text

(* JSON_OBJECTAGG: the last pair of a key wins; keys are texts.  The value is
   the list of <<key, value>> in first-occurrence order (harness parses the
   JSON text into the same shape, sorted by key).                           *)
JsonObj(ps) ==
  LET keys == Sorted(DedupSeq([i \in DOMAIN ps |-> Txt(Text(ps[i][1]))]))
      LastOf(k) == ps[CHOOSE i \in DOMAIN ps : Txt(Text(ps[i][1])) = k
                                              /\ \A j \in DOMAIN ps : j > i => Txt(Text(ps[j][1])) # k][2]
  IN IF ps = <<>> THEN NULL ELSE Lst([i \in DOMAIN keys |-> Lst(<<keys[i], LastOf(keys[i])>>)])

(*----------------------------- windows ---------------------------------*)
RowCtx(ctx, r) == [ctx EXCEPT !.rows = <<r>> \o Tail(ctx.rows)]
WinKey(w, ctx, r) == [i \in DOMAIN w.part |-> Eval(w.part[i], RowCtx(ctx, r))]
OrdKey(os, ctx, r) == [i \in DOMAIN os |-> Eval(os[i].e, RowCtx(ctx, r))]
RECURSIVE KeyCmp(_, _, _)
KeyCmp(os, a, b) ==      \* compares two key vectors under ORDER BY list os
  IF os = <<>> THEN 0
  ELSE LET c == OrdCmp(a[1], b[1])
           d == IF os[1].d = 1 THEN -c ELSE c
       IN IF d # 0 THEN d ELSE KeyCmp(Tail(os), Tail(a), Tail(b))

(* a window function's value for row number ctx.pos of ctx.all.  Peers under
   the window order keep their input order (rows are numbered in a stable
   order); cases that would expose more than that are not generated.       *)
Window(w, ctx) ==
  LET n    == Len(ctx.all)
      me   == ctx.pos
      key  == WinKey(w, ctx, ctx.all[me])
      idx  == SortSeq2(FilterSeq([i \in 1..n |-> i],
                                 LAMBDA i : WinKey(w, ctx, ctx.all[i]) = key),
                       LAMBDA i, j : KeyCmp(w.ord, OrdKey(w.ord, ctx, ctx.all[i]),
                                                   OrdKey(w.ord, ctx, ctx.all[j])) < 0)
      m    == Len(idx)
      p    == CHOOSE q \in 1..m : idx[q] = me
      KeyAt(q) == OrdKey(w.ord, ctx, ctx.all[idx[q]])
      ArgAt(q, a) == Eval(w.args[a], RowCtx(ctx, ctx.all[idx[q]]))
      OffOf(a) == Eval(w.args[a], RowCtx(ctx, ctx.all[me]))[2]
      \* deviation RANK-TIES, pinned by the repository's tests: only ties with the first row share their rank
      rank == Cardinality({q \in 2..p : KeyAt(q) # KeyAt(1)}) + 1
      frame == IF w.ord = <<>> THEN 1..m ELSE 1..p
      vals == [q \in 1..(IF w.ord = <<>> THEN m ELSE p) |-> ArgAt(q, 1)]
      Shift(q) == IF q < 1 \/ q > m
                  THEN (IF Len(w.args) >= 3 THEN ArgAt(p, 3) ELSE NULL)
                  ELSE ArgAt(q, 1)
  IN CASE w.f = "row_number"  -> Num(p)
       [] w.f = "rank"        -> Num(rank)
       [] w.f = "dense_rank"  -> Num(rank)
       \* deviations PERCENT-RANK and CUME-DIST, pinned as well
       [] w.f = "percent_rank" -> IF p = 1 THEN Num(0) ELSE Rat((rank - 1) * p - 1, p)
       [] w.f = "cume_dist"   -> Rat(p * m + 1, m)
       [] w.f = "first_value" -> ArgAt(1, 1)
       [] w.f = "last_value"  -> ArgAt(m, 1)
       [] w.f = "nth_value"   -> IF OffOf(2) > m THEN NULL ELSE ArgAt(OffOf(2), 1)
       [] w.f = "ntile"       -> LET k == OffOf(1) IN Num((((p - 1) * k) \div m) + 1)  \* buckets of even width
       [] w.f = "lag"         -> Shift(p - (IF Len(w.args) >= 2 THEN OffOf(2) ELSE 1))
       [] w.f = "lead"        -> Shift(p + (IF Len(w.args) >= 2 THEN OffOf(2) ELSE 1))
       [] w.f = "count*"      -> Num(Cardinality(frame))
       [] OTHER               -> Aggregate(w.f, vals, Cardinality(frame))

(*---------------------------- expressions ------------------------------*)
EvalSeq(es, ctx) == [i \in DOMAIN es |-> Eval(es[i], ctx)]

RECURSIVE CaseEval(_, _, _)
CaseEval(ws, els, ctx) ==
  IF ws = <<>> THEN Eval(els, ctx)
  ELSE IF Truth(Eval(ws[1].c, ctx)) THEN Eval(ws[1].v, ctx)
  ELSE CaseEval(Tail(ws), els, ctx)

RECURSIVE SCaseEval(_, _, _, _)      \* CASE v WHEN ws[1].c THEN ws[1].v ...
SCaseEval(v, ws, els, ctx) ==
  IF ws = <<>> THEN Eval(els, ctx)
  ELSE IF Truth(Cmp3("=", v, Eval(ws[1].c, ctx))) THEN Eval(ws[1].v, ctx)
  ELSE SCaseEval(v, Tail(ws), els, ctx)

RECURSIVE CoalesceSeq(_)
CoalesceSeq(vs) == IF vs = <<>> THEN NULL ELSE IF IsNull(Head(vs)) THEN CoalesceSeq(Tail(vs)) ELSE Head(vs)

Items(v) == IF v[1] = 3 THEN v[4] ELSE <<v>>
ScalarOf(res) == IF res = <<>> THEN NULL ELSE res[1][1]
ColumnOf(res) == [i \in DOMAIN res |-> res[i][1]]
SubCtx(ctx)   == [ctx EXCEPT !.rows = <<<<>>>> \o ctx.rows]

Eval(e, ctx) ==
  CASE e.k = "lit"  -> e.v
    [] e.k = "col"  -> ctx.rows[e.d + 1][e.i]
    [] e.k = "cmp"  -> Cmp3(e.o, Eval(e.a, ctx), Eval(e.b, ctx))
    [] e.k = "lcmp" -> LoaderCmp(e.o, Eval(e.a, ctx), Eval(e.b, ctx))
    [] e.k = "kcmp" -> Bool(OrdCmp(Eval(e.a, ctx), Eval(e.b, ctx)) = 0)   \* a join key: NULL pairs with NULL here
    [] e.k = "icmp" -> Cmp3("=", Eval(e.a, ctx), Eval(e.b, ctx))
    [] e.k = "and"  -> AndShort(Eval(e.a, ctx), Eval(e.b, ctx))
    [] e.k = "or"   -> OrShort(Eval(e.a, ctx), Eval(e.b, ctx))
    [] e.k = "not"  -> Not3(Eval(e.a, ctx))
    [] e.k = "isnull"  -> Bool(IsNull(Eval(e.a, ctx)))
    [] e.k = "notnull" -> Bool(~IsNull(Eval(e.a, ctx)))
    [] e.k = "in"   -> In3(Eval(e.a, ctx), EvalSeq(e.l, ctx))
    [] e.k = "lin"  -> Bool(\E i \in DOMAIN e.l : OrdCmp(Eval(e.a, ctx), Eval(e.l[i], ctx)) = 0)
    [] e.k = "btw"  -> LET a == Eval(e.a, ctx) IN
                       And3(Cmp3(">=", a, Eval(e.lo, ctx)), Cmp3("<=", a, Eval(e.hi, ctx)))
    [] e.k = "like" -> Like3(Eval(e.a, ctx), Eval(e.b, ctx))
    [] e.k = "ar"   -> Arith(e.o, Eval(e.a, ctx), Eval(e.b, ctx))
    [] e.k = "if"   -> IF Truth(Eval(e.c, ctx)) THEN Eval(e.a, ctx) ELSE Eval(e.b, ctx)
    [] e.k = "case" -> CaseEval(e.w, e.e, ctx)
    [] e.k = "coalesce" -> CoalesceSeq(EvalSeq(e.l, ctx))
    [] e.k = "neg"  -> Arith("-", Num(0), Eval(e.a, ctx))
    [] e.k = "bit"  -> LET a == Eval(e.a, ctx)
                           b == Eval(e.b, ctx) IN
                       IF IsNull(a) \/ IsNull(b) THEN NULL ELSE Num(BitOp(e.o, a[2], b[2]))
    [] e.k = "scase" -> SCaseEval(Eval(e.a, ctx), e.w, e.e, ctx)
    [] e.k = "notin" -> Not3(In3(Eval(e.a, ctx), EvalSeq(e.l, ctx)))
    [] e.k = "istrue" -> Bool(Truth(Eval(e.a, ctx)))
    [] e.k = "nullif" -> LET a == Eval(e.a, ctx) IN
                         IF Truth(Cmp3("=", a, Eval(e.b, ctx))) THEN NULL ELSE a
    [] e.k = "fn"   -> Fn(e.f, EvalSeq(e.l, ctx))
    [] e.k = "list" -> Lst(EvalSeq(e.l, ctx))
    [] e.k = "agg"  -> Aggregate(e.f, IF e.f = "count*" THEN <<>>
                                      ELSE [i \in DOMAIN ctx.grp |-> Eval(e.a, RowCtx(ctx, ctx.grp[i]))],
                                 Len(ctx.grp))
    [] e.k = "jobj" -> JsonObj([i \in DOMAIN ctx.grp |->
                                <<Eval(e.a, RowCtx(ctx, ctx.grp[i])), Eval(e.b, RowCtx(ctx, ctx.grp[i]))>>])
    [] e.k = "win"  -> Window(e, ctx)
    \* the values of a subquery arrive without its NULLs (named deviation InSubNoNull)
    [] e.k = "insub" -> In3(Eval(e.a, ctx), NonNull(ColumnOf(EvalQuery(e.q, SubCtx(ctx)))))
    [] e.k = "linsub" -> LET s == NonNull(ColumnOf(EvalQuery(e.q, SubCtx(ctx)))) IN
                         Bool(\E i \in DOMAIN s : LoaderCmp("=", Eval(e.a, ctx), s[i]) = TRUEV)
    [] e.k = "scalar" -> ScalarOf(EvalQuery(e.q, SubCtx(ctx)))
    [] e.k = "exists" -> Bool(EvalQuery(e.q, SubCtx(ctx)) # <<>>)
    [] e.k = "var"  -> ctx.vars[e.n]
    \* IN @v: a list variable holds the values, any other variable is one value
    [] e.k = "invar"  -> In3(Eval(e.a, ctx), Items(ctx.vars[e.n]))
    [] e.k = "linvar" -> LET s == Items(ctx.vars[e.n]) IN
                         Bool(\E i \in DOMAIN s : LoaderCmp("=", Eval(e.a, ctx), s[i]) = TRUEV)

(*------------- row-wise evaluation: what depends on the rows before ------*)
(* A SELECT naming @v := e, ROW_INDEX(), ROW_LAST(e) or a generator works   *)
(* through its input rows in order, and through a row's items from left to  *)
(* right, carrying st = [vars, cnt, last] along: the variables, how often   *)
(* each ROW_INDEX was asked and what each ROW_LAST was last given.  IF      *)
(* evaluates only the branch it takes.                                      *)
RECURSIVE REv(_, _, _)
RECURSIVE RSeq(_, _, _)
RSeq(es, c, st) ==       \* values of es from left to right: <<values, state>>
  IF es = <<>> THEN <<<<>>, st>>
  ELSE LET h == REv(Head(es), c, st)
           t == RSeq(Tail(es), c, h[2])
       IN <<<<h[1]>> \o t[1], t[2]>>
REv(e, c, st) ==
  CASE e.k = "set" -> LET v == REv(e.a, c, st) IN <<v[1], [v[2] EXCEPT !.vars[e.n] = v[1]]>>
    [] e.k = "rowindex" -> LET n == st.cnt[e.id] + 1 IN <<Num(n), [st EXCEPT !.cnt[e.id] = n]>>
    [] e.k = "rowlast"  -> LET v == REv(e.a, c, st) IN <<st.last[e.id], [v[2] EXCEPT !.last[e.id] = v[1]]>>
    [] e.k = "ar"   -> LET r == RSeq(<<e.a, e.b>>, c, st) IN <<Arith(e.o, r[1][1], r[1][2]), r[2]>>
    [] e.k = "cmp"  -> LET r == RSeq(<<e.a, e.b>>, c, st) IN <<Cmp3(e.o, r[1][1], r[1][2]), r[2]>>
    [] e.k = "fn"   -> LET r == RSeq(e.l, c, st) IN <<Fn(e.f, r[1]), r[2]>>
    [] e.k = "list" -> LET r == RSeq(e.l, c, st) IN <<Lst(r[1]), r[2]>>
    [] e.k = "if"   -> LET t == REv(e.c, c, st) IN IF Truth(t[1]) THEN REv(e.a, c, t[2]) ELSE REv(e.b, c, t[2])
    [] e.k = "yield" -> REv(e.a, c, st)
    [] OTHER -> <<Eval(e, [c EXCEPT !.vars = st.vars]), st>>

(* a generator's list: yield_array hands out a list's items or a single value, range the numbers below n *)
YieldOf(e, v) == IF e.f = "array" THEN Items(v)
                 ELSE IF IsNull(v) THEN <<>> ELSE [i \in 1..(IF v[2] < 0 THEN 0 ELSE v[2]) |-> Num(i - 1)]
(* one input row becomes as many rows as its longest list; short lists end in NULLs *)
Expand(sel, vs) ==
  LET ys == {i \in DOMAIN sel : sel[i].k = "yield"}
      L(i) == YieldOf(sel[i], vs[i])
      n == IF ys = {} THEN 1 ELSE CHOOSE m \in {Len(L(i)) : i \in ys} : \A i \in ys : Len(L(i)) <= m
  IN [k \in 1..n |-> [i \in DOMAIN sel |-> IF i \in ys THEN (IF k <= Len(L(i)) THEN L(i)[k] ELSE NULL) ELSE vs[i]]]
RECURSIVE RowFold(_, _, _, _)
RowFold(sel, rows, c, st) ==       \* <<output rows, final state>>
  IF rows = <<>> THEN <<<<>>, st>>
  ELSE LET h == RSeq(sel, RowCtx(c, Head(rows)), st)
           t == RowFold(sel, Tail(rows), c, h[2])
       IN <<Expand(sel, h[1]) \o t[1], t[2]>>
Rowwise(q, ctx) == RowFold(q.sel, EvalQuery(q.src, ctx), ctx,
                           [vars |-> q.vars, cnt |-> [i \in 1..9 |-> 0], last |-> [i \in 1..9 |-> NULL]])

(*-------------------------------- FROM ---------------------------------*)
NullRow(n) == [i \in 1..n |-> NULL]
(* A view may have parameters: a condition of the statement on the named    *)
(* column, with the named comparison, gives one its value and is used up;   *)
(* otherwise it has its default.                                            *)
Uses(a, c) == a.i = c.i /\ a.o = c.o
ViewVars(f) == [n \in {f.args[i].n : i \in DOMAIN f.args} |->
  LET a == f.args[CHOOSE i \in DOMAIN f.args : f.args[i].n = n]
      c == FilterSeq(f.conds, LAMBDA x : Uses(a, x))
  IN IF c = <<>> THEN a.v ELSE c[1].v]
View(f, ctx) ==
  LET rest == FilterSeq(f.conds, LAMBDA c : ~\E i \in DOMAIN f.args : Uses(f.args[i], c))
  IN FilterSeq(EvalQuery(f.q, [SubCtx(ctx) EXCEPT !.vars = ViewVars(f)]), LAMBDA r : \A i \in DOMAIN rest : Truth(Cmp3(rest[i].o, r[rest[i].i], rest[i].v)))
(* a transform's rows as documents; q.q.names: the columns of what it transforms *)
RECURSIVE XDocs(_, _)
XDocs(q, ctx) ==
  LET in == IF q.q.k = "xform" THEN XDocs(q.q, ctx)
            ELSE LET rs == EvalQuery(q.q, SubCtx(ctx)) IN [i \in DOMAIN rs |-> [j \in DOMAIN rs[i] |-> <<q.cn[j], rs[i][j]>>]]
  IN Transformed(q.f, q.xa, in)
Source(f, ctx) == CASE f.kind = "sub"   -> EvalQuery(f.q, SubCtx(ctx))
                    [] f.kind = "view"  -> View(f, ctx)
                    [] f.kind = "xform" -> LET ds == XDocs(f.q, SubCtx(ctx)) IN [i \in DOMAIN ds |-> [j \in DOMAIN f.cn |-> DGet(ds[i], f.cn[j])]]
                    [] OTHER            -> ctx.tabs[f.t]
OnRow(f, ctx, row) == \/ f.on.k = "true"
                      \/ Truth(Eval(f.on, RowCtx(ctx, row)))

JoinStep(left, lw, f, ctx) ==    \* lw: width of the rows on the left
  LET right == Source(f, ctx)
      rw    == f.w
      Match(l) == FilterSeq(right, LAMBDA r : OnRow(f, ctx, l \o r))
      MatchL(r) == FilterSeq(left, LAMBDA l : OnRow(f, ctx, l \o r))
      Inner == FlattenSeq([i \in DOMAIN left |->
                 [j \in DOMAIN Match(left[i]) |-> left[i] \o Match(left[i])[j]]])
      Left  == FlattenSeq([i \in DOMAIN left |->
                 LET m == Match(left[i]) IN
                 IF m = <<>> THEN <<left[i] \o NullRow(rw)>>
                 ELSE [j \in DOMAIN m |-> left[i] \o m[j]]])
      Right == FlattenSeq([i \in DOMAIN right |->
                 LET m == MatchL(right[i]) IN
                 IF m = <<>> THEN <<NullRow(lw) \o right[i]>>
                 ELSE [j \in DOMAIN m |-> m[j] \o right[i]]])
  IN CASE f.join = "inner" -> Inner
       [] f.join = "cross" -> Inner
       [] f.join = "theta" -> Inner     \* a LEFT JOIN whose ON has no equality drops unmatched rows (ThetaJoinInner)
       [] f.join = "left"  -> Left
       [] f.join = "right" -> Right

RECURSIVE FromRows(_, _, _, _)
FromRows(fs, acc, w, ctx) ==
  IF fs = <<>> THEN acc
  ELSE FromRows(Tail(fs), JoinStep(acc, w, Head(fs), ctx), w + Head(fs).w, ctx)

(*-------------------------- one SELECT block ---------------------------*)
SortKey(os, out, c) == [j \in DOMAIN os |-> IF os[j].i > 0 THEN out[os[j].i] ELSE Eval(os[j].e, c)]

Block(q, ctx) ==          \* rows before ORDER BY / LIMIT: <<out, in-row>> pairs
  LET base == IF q.from = <<>> THEN <<<<>>>>
              ELSE FromRows(Tail(q.from), Source(q.from[1], ctx), q.from[1].w, ctx)
      kept == IF q.where.k = "true" THEN base
              ELSE FilterSeq(base, LAMBDA r : Truth(Eval(q.where, RowCtx(ctx, r))))
      keyOf(r) == [i \in DOMAIN q.group |-> Eval(q.group[i], RowCtx(ctx, r))]
      keys == DedupSeq([i \in DOMAIN kept |-> keyOf(kept[i])])
      grpOf(k) == FilterSeq(kept, LAMBDA r : keyOf(r) = k)
      Out(c) == [i \in DOMAIN q.sel |-> Eval(q.sel[i], c)]
      HavingOk(o, c) == q.having.k = "true" \/ Truth(Eval(q.having, [c EXCEPT !.rows = <<o \o c.rows[1]>> \o Tail(c.rows)]))
      GOut(k) == LET g == grpOf(k)
                     c == [RowCtx(ctx, g[1]) EXCEPT !.grp = g]
                 IN <<Out(c), c>>
      ROut(i) == LET c == [RowCtx(ctx, kept[i]) EXCEPT !.all = kept, !.pos = i] IN <<Out(c), c>>
      prs  == IF q.agg = 1 THEN [i \in DOMAIN keys |-> GOut(keys[i])]
              ELSE [i \in DOMAIN kept |-> ROut(i)]
      hav  == FilterSeq(prs, LAMBDA p : HavingOk(p[1], p[2]))
  IN [i \in DOMAIN hav |-> <<hav[i][1], SortKey(q.order, hav[i][1], hav[i][2])>>]

(* an ORDER BY item is an output column (i > 0) or an expression over the row *)
PairLess(os, a, b) == KeyCmp(os, a[2], b[2]) < 0
SliceSeq(s, off, lim) ==
  LET a == IF off > Len(s) THEN Len(s) ELSE off
      b == IF lim < 0 \/ a + lim > Len(s) THEN Len(s) ELSE a + lim
  IN SubSeq(s, a + 1, b)

DistinctPairs(s) ==       \* keeps the first pair of every output row
  LET keep == {i \in DOMAIN s : \A j \in 1..(i - 1) : s[j][1] # s[i][1]}
      idx  == FilterSeq([i \in DOMAIN s |-> i], LAMBDA i : i \in keep)
  IN [n \in DOMAIN idx |-> s[idx[n]]]

RECURSIVE UnionAll(_, _)
UnionAll(qs, ctx) == IF qs = <<>> THEN <<>> ELSE EvalQuery(Head(qs), ctx) \o UnionAll(Tail(qs), ctx)

RowBlock(q, ctx) ==
  LET o == FilterSeq(Rowwise(q, ctx)[1], LAMBDA r : q.having.k = "true" \/ Truth(Eval(q.having, RowCtx(ctx, r))))
  IN [i \in DOMAIN o |-> <<o[i], SortKey(q.order, o[i], ctx)>>]
(* the variables after the last row *)
RowEnd(q, ctx) == <<<<[i \in DOMAIN q.vs |-> Rowwise(q.q, ctx)[2].vars[q.vs[i]]], <<>>>>>>

Unordered(q, ctx) ==      \* <<output row, sort key>> pairs
  IF q.k = "rw" THEN RowBlock(q, ctx)
  ELSE IF q.k = "rwend" THEN RowEnd(q, ctx)
  ELSE IF q.k = "xform" THEN LET ds == XDocs(q, ctx) IN [i \in DOMAIN ds |-> <<<<DDoc(ds[i])>>, <<>>>>]
  ELSE IF q.k = "union" THEN LET u == UnionAll(q.qs, ctx)
                            p == [i \in DOMAIN u |-> <<u[i], SortKey(q.order, u[i], ctx)>>]
                        IN IF q.distinct = 1 THEN DistinctPairs(p) ELSE p
  ELSE IF q.distinct = 1 THEN DistinctPairs(Block(q, ctx)) ELSE Block(q, ctx)

Outs(s) == [i \in DOMAIN s |-> s[i][1]]
Ordered(q, u) == IF q.order = <<>> THEN u ELSE SortSeq2(u, LAMBDA a, b : PairLess(q.order, a, b))
EvalQuery(q, ctx) == Outs(SliceSeq(Ordered(q, Unordered(q, ctx)), q.off, q.lim))

(*------------------ is an observed result acceptable? -------------------*)
(* The order of rows is only specified by ORDER BY: without it results are *)
(* bags; with it, rows of equal key may come in any order; LIMIT may pick  *)
(* any rows the order allows.                                              *)
Verdict(q, ctx, res) ==
  LET u   == Unordered(q, ctx)
      exp == SliceSeq(Ordered(q, u), q.off, q.lim)
  IN IF Len(res) # Len(exp) THEN "row-count"
     ELSE IF q.off = 0 /\ q.lim < 0 /\ ~BagEq(res, Outs(u)) THEN "rows"
     ELSE IF ~BagLeq(res, Outs(u)) THEN "rows"
     ELSE IF q.k = "xform" THEN IF res = Outs(exp) THEN "ok" ELSE "order"
     ELSE IF q.order = <<>> THEN "ok"
     ELSE IF \E k \in {exp[i][2] : i \in DOMAIN exp} :
               LET pos == FilterSeq([i \in DOMAIN exp |-> i], LAMBDA i : exp[i][2] = k)
               IN ~BagLeq([n \in DOMAIN pos |-> res[pos[n]]], Outs(FilterSeq(u, LAMBDA p : p[2] = k)))
          THEN "order"
     ELSE "ok"
Ctx0(tabs, vars) == [rows |-> <<<<>>>>, grp |-> <<>>, all |-> <<>>, pos |-> 0, tabs |-> tabs, vars |-> vars]
=============================================================================
