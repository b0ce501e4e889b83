------------------------------- MODULE Xform --------------------------------
(* Data sets, their transform pipelines and post filters.                     *)
(*   A : given values;  B : derived from A;  L : lookup table;  sig : a signal *)
(* A pipeline is a sequence of transforms (records with field t); Apply gives  *)
(* the rows a transform yields.  Rows are records of integers; other values    *)
(* are coded: see Ratio, NAI (undefined / not a number), NULL, and names.      *)
EXTENDS Util
NAI == -99999999
NULL == -88888888
FRAC == 500000000
NAME == 900000000
Names == <<"k", "g", "h", "v", "w", "p", "q", "r", "a1", "a2", "a3", "b1", "b2", "b3">>
NameCode(f) == NAME + Index(Names, f)
Field(x) == IF x > NAME THEN Names[x - NAME] ELSE ToString(x)      \* a value used as a field name
Gcd(a, b) == LET RECURSIVE g(_, _)
                 g(x, y) == IF y = 0 THEN x ELSE g(y, x % y) IN g(Abs(a), Abs(b))
(* n/d; fractions are coded in thousandths above FRAC; 0 denominators are not a number *)
Ratio(n0, d0) == IF d0 = 0 THEN NAI ELSE
  LET c == Max2(1, Gcd(n0, d0)) n == IF d0 < 0 THEN -(n0 \div c) ELSE n0 \div c d == Abs(d0) \div c
  IN IF d = 1 THEN n ELSE FRAC + RoundDiv(n * 1000, d)
Put(r, f, x) == [q \in DOMAIN r \cup {f} |-> IF q = f THEN x ELSE r[q]]
Get(r, f) == IF f \in DOMAIN r THEN r[f] ELSE NAI
Val(s, p) == IF Has(p, "s") THEN s.sig ELSE p.c
Cmp(x, op, y) == CASE op = "gt" -> x > y [] op = "le" -> x <= y [] op = "odd" -> x % 2 = 1 [] op = "ne" -> x # y
Sum(rows, f) == SumSeq(Map(rows, LAMBDA r : r[f]))
Min(rows, f) == SetMin({rows[i][f] : i \in 1..Len(rows)})
Max(rows, f) == SetMax({rows[i][f] : i \in 1..Len(rows)})
IMap(rows, F(_, _)) == [i \in 1..Len(rows) |-> F(rows[i], i)]

(* lexicographic order by fields, each ascending or descending *)
Before(a, b, fs, os) ==
  LET RECURSIVE lt(_)
      lt(i) == IF i > Len(fs) THEN FALSE
               ELSE IF a[fs[i]] = b[fs[i]] THEN lt(i + 1)
               ELSE IF i <= Len(os) /\ os[i] = "desc" THEN a[fs[i]] > b[fs[i]] ELSE a[fs[i]] < b[fs[i]]
  IN lt(1)
Agg(vals, how) == CASE how = "sum" -> SumSeq(vals) [] how = "min" -> SetMin(Range(vals)) [] how = "max" -> SetMax(Range(vals))
                    [] how = "count" -> Len(vals) [] how = "mean" -> Ratio(SumSeq(vals), Len(vals))
Proj(r, fs) == [f \in Range(fs) |-> Get(r, f)]
Unfold(rows, t) ==
  LET keys == IF t.gb = <<>> THEN << [f \in {} |-> 0] >> ELSE Uniq(Map(rows, LAMBDA r : Proj(r, t.gb)))
      one(d) == LET mine == IF t.gb = <<>> THEN rows ELSE SelectSeq(rows, LAMBDA r : Proj(r, t.gb) = d)
                    cols == {r[t.key] : r \in Range(mine)}
                    cell(c) == Agg(Map(SelectSeq(mine, LAMBDA r : r[t.key] = c), LAMBDA r : r[t.val]), t.agg)
                IN [f \in DOMAIN d \cup {Field(c) : c \in cols} |->
                     IF \E c \in cols : Field(c) = f THEN cell(CHOOSE c \in cols : Field(c) = f) ELSE d[f]]
  IN Map(keys, one)
Lookup(s, t, x) == LET m == SelectSeq(s.lv, LAMBDA r : r[t.key] = x) IN
                   IF Len(m) = 0 THEN <<>> ELSE <<m[Len(m)]>>
JoinRow(s, t, r) ==
  LET nv == Len(t.vals)
      RECURSIVE go(_, _)
      go(i, acc) == IF i > Len(t.fs) * nv THEN acc ELSE
         LET m == Lookup(s, t, r[t.fs[(i - 1) \div nv + 1]])
             x == IF m = <<>> THEN t.def ELSE Get(m[1], t.vals[((i - 1) % nv) + 1])
         IN go(i + 1, Put(acc, t.as[i], x))
  IN go(1, r)

Bin(s, t, rows) ==
  LET lo == Val(s, t.lo) hi == Val(s, t.hi) n == Max2(1, Val(s, t.bins))
      \* step num/den
      num == IF t.step > 0 THEN t.step ELSE hi - lo
      den == IF t.step > 0 THEN 1 ELSE n
      last == CeilDiv((hi - lo) * den, num) - 1
      idx(v) == IF v = hi THEN last ELSE ((v - lo) * den) \div num
      End(v) == LET e == lo * den + (idx(v) + 1) * num IN IF e > hi * den THEN Ratio(hi, 1) ELSE Ratio(e, den)
  IN Map(rows, LAMBDA r : Put(Put(r, t.as[1], Ratio(lo * den + idx(r[t.f]) * num, den)), t.as[2], End(r[t.f])))
PutIf(r, t, o, x) == IF o \in DOMAIN t.as THEN Put(r, t.as[o], x) ELSE r       \* outputs are written when asked for
Pie(s, t, rows) ==
  LET tot == Sum(rows, t.f) iv == t.hi - t.lo mx == Max(rows, t.f)
      before(i) == SumSeq([j \in 1..(i - 1) |-> rows[j][t.f]])
      ang(n) == Ratio(t.lo * tot + n * iv, tot)
      half(n) == Ratio(t.lo * 2 * tot + n * iv, 2 * tot)
      one(r, i) == LET b == before(i) v == r[t.f] IN
        PutIf(PutIf(PutIf(PutIf(PutIf(PutIf(r, t, "ratio", Ratio(v, tot)), t, "start", ang(b)), t, "end", IF i = Len(rows) THEN t.hi ELSE ang(b + v)),
          t, "mid", half(2 * b + v)), t, "rad", Ratio(v * iv, tot)), t, "k", Ratio(v, mx))
  IN IMap(rows, one)
Funnel(s, t, rows) ==
  LET n == Len(rows) V(i) == rows[i][t.f]
      top == IF t.max > 0 THEN t.max ELSE Max(rows, t.f)
      one(r, i) ==
        LET nx == IF i < n THEN V(i + 1) ELSE NAI
            pv == IF i > 1 THEN V(i - 1) ELSE NAI
            tr == IF i < n THEN Ratio(nx, V(i)) ELSE NULL
            vr == Ratio(V(i), top)
            a == PutIf(PutIf(PutIf(r, t, "last", pv), t, "next", nx), t, "cur", V(i))
            b == PutIf(PutIf(a, t, "tr", tr), t, "reach", IF i = 1 THEN 1 ELSE Ratio(V(i), pv))
            c == PutIf(PutIf(b, t, "h", IF t.visual THEN tr ELSE Ratio(1, n)), t, "vr", vr)
            d == PutIf(c, t, "nvr", IF i = n THEN (IF t.cone THEN 0 ELSE vr) ELSE Ratio(nx, top))
        IN PutIf(d, t, "lvr", IF i = 1 THEN 1 ELSE Ratio(pv, top))
  IN IMap(rows, one)
StackAsc(t, rows) ==
  LET div == t.off = "diverging"
      val(i) == IF div THEN rows[i][t.f] ELSE Abs(rows[i][t.f])
      pos(i) == val(i) >= 0
      same(i) == {j \in 1..Len(rows) : rows[j][t.dim] = rows[i][t.dim] /\ (pos(j) <=> pos(i))}
      dim(i) == SelectSeq([j \in 1..Len(rows) |-> j], LAMBDA j : rows[j][t.dim] = rows[i][t.dim])
      tot(S) == SumSeq([j \in 1..Len(rows) |-> IF j \in S THEN val(j) ELSE 0])
      prev(i) == tot({j \in same(i) : j < i})
      dsum(i) == SumSeq(Map(dim(i), val))
      wig(i) == LET d == dim(i) m == Len(d) IN SumSeq([q \in 1..m |-> val(d[q]) * (m - q + 1)])
      \* baseline bn/bd
      bn(i) == IF t.off = "silhouette" THEN -dsum(i) ELSE IF t.off = "wiggle" THEN -wig(i) ELSE 0
      bd(i) == IF t.off = "silhouette" THEN 2 ELSE IF t.off = "wiggle" THEN Len(dim(i)) + 1 ELSE 1
      pct(n, d, sum) == IF sum = 0 THEN 0 ELSE Ratio(n, d * sum)
      one(r, i) == LET p == prev(i) x == p + val(i) sum == tot(same(i)) n0 == p * bd(i) + bn(i) n1 == x * bd(i) + bn(i) IN
        PutIf(PutIf(PutIf(PutIf(PutIf(Put(r, IF Has(t.as, "stack") THEN t.as["stack"] ELSE t.f, Ratio(n1, bd(i))), t, "prev", Ratio(n0, bd(i))), t, "sum", sum),
          t, "pct", pct(val(i), 1, sum)), t, "pstack", pct(n1, bd(i), sum)), t, "pprev", pct(n0, bd(i), sum))
  IN IMap(rows, one)
Stack(t, rows) == IF t.neg THEN Rev(StackAsc(t, Rev(rows))) ELSE StackAsc(t, rows)

(* aggregated sampling of one series: sequence of <<index, value>>; frames of n \div size rows after the first row *)
SampleSeries(vals, size, mode) ==
  LET n == Len(vals) fr == n \div size
      agg(i) == LET m == Min2(fr, n - i + 1) q == SubSeq(vals, i, i + m - 1) IN
                CASE mode = "min" -> SetMin(Range(q)) [] mode = "max" -> SetMax(Range(q)) [] mode = "sum" -> SumSeq(q) [] mode = "average" -> Ratio(SumSeq(q), m)
      RECURSIVE go(_)
      go(i) == IF i >= n THEN <<>> ELSE << <<i + Min2(RoundDiv(Min2(fr, n - i + 1), 2), Min2(fr, n - i + 1) - 1), agg(i)>> >> \o go(i + fr)
  IN << <<1, vals[1]>> >> \o go(2)
SampleAgg(t, rows) ==
  IF t.size <= 0 THEN <<>> ELSE IF Len(rows) <= t.size THEN rows ELSE
  LET groups == IF t.gb = "" THEN << [j \in 1..Len(rows) |-> j] >>
                ELSE LET gs == Uniq(Map(rows, LAMBDA r : r[t.gb])) IN Map(gs, LAMBDA g : SelectSeq([j \in 1..Len(rows) |-> j], LAMBDA j : rows[j][t.gb] = g))
      pick(ix) == IF Len(ix) <= t.size THEN Map(ix, LAMBDA j : <<j, rows[j][t.f]>>)
                  ELSE Map(SampleSeries(Map(ix, LAMBDA j : rows[j][t.f]), t.size, t.mode), LAMBDA c : <<ix[c[1]], c[2]>>)
      all == StableSort(Concat(Map(groups, pick)), LAMBDA a, b : a[1] < b[1])
  IN Map(all, LAMBDA c : Put(rows[c[1]], t.f, c[2]))

Apply(s, t, rows) ==
  CASE t.t = "filter" -> SelectSeq(rows, LAMBDA r : Cmp(r[t.f], t.cmp, Val(s, t.p)))
    [] t.t = "sort" -> StableSort(rows, LAMBDA a, b : Before(a, b, t.fs, t.os))
    [] t.t = "map" -> Map(rows, LAMBDA r : Put(r, t.as, r[t.f] * 2 + Val(s, t.p)))
    [] t.t = "mapall" -> (IF t.how = "rev" THEN Rev(rows) ELSE SubSeq(rows, 1, Min2(Len(rows), Max2(0, Val(s, t.p)))))
    [] t.t = "pick" -> Map(rows, LAMBDA r : [f \in Range(t.as) |-> r[t.fs[Index(t.as, f)]]])
    [] t.t = "fold" -> Concat(Map(rows, LAMBDA r : Map(t.fs, LAMBDA f :
                         Put(Put([q \in (IF t.ret = <<>> THEN DOMAIN r \ Range(t.fs) ELSE Range(t.ret)) |-> r[q]], t.askey, NameCode(f)), t.asval, r[f]))))
    [] t.t = "unfold" -> (IF rows = <<>> THEN <<>> ELSE Unfold(rows, t))
    [] t.t = "join" -> Map(rows, LAMBDA r : JoinRow(s, t, r))
    [] t.t = "range" -> [i \in 1..Max2(0, CeilDiv(Val(s, t.hi) - t.lo, t.step)) |-> [f \in {t.as} |-> t.lo + (i - 1) * t.step]]
    [] t.t = "id" -> rows
    [] t.t = "bin" -> Bin(s, t, rows)
    [] t.t = "pie" -> (IF rows = <<>> THEN rows ELSE Pie(s, t, rows))
    [] t.t = "funnel" -> (IF rows = <<>> THEN rows ELSE Funnel(s, t, rows))
    [] t.t = "stack" -> Stack(t, rows)
    [] t.t = "sample" -> SampleAgg(t, rows)
    [] t.t = "lttb" -> rows
RECURSIVE Pipe(_, _, _)
Pipe(s, ts, rows) == IF ts = <<>> THEN rows ELSE Pipe(s, Tail(ts), Apply(s, ts[1], rows))
(* post filters, by rank (equal ranks in order of addition) *)
Filtered(s, fl, rows) == Fold(LAMBDA acc, f : SelectSeq(acc, LAMBDA r : Cmp(Get(r, f.f), f.cmp, f.c)), rows, StableSort(fl, LAMBDA a, b : a.rank < b.rank))

Xform0(cfg) == [av |-> <<>>, lv |-> <<>>, at |-> cfg.at, bt |-> cfg.bt, af |-> <<>>, sig |-> cfg.sig, A |-> <<>>, B |-> <<>>, ran |-> FALSE]
Run(s) == LET a == Filtered(s, s.af, Pipe(s, s.at, s.av)) IN [s EXCEPT !.A = a, !.B = Pipe(s, s.bt, a), !.ran = TRUE]
XformStep(s, e) ==
  CASE e.op = "vals" -> [s EXCEPT !.ran = FALSE, !.av = e.rows]
    [] e.op = "look" -> [s EXCEPT !.ran = FALSE, !.lv = e.rows]
    [] e.op = "sig" -> [s EXCEPT !.ran = FALSE, !.sig = e.v]
    [] e.op = "at" -> [s EXCEPT !.ran = FALSE, !.at = e.ts]
    [] e.op = "bt" -> [s EXCEPT !.ran = FALSE, !.bt = e.ts]
    [] e.op = "addf" -> [s EXCEPT !.ran = FALSE, !.af = Append(@, e.f)]
    [] e.op = "delf" -> [s EXCEPT !.ran = FALSE, !.af = SelectSeq(@, LAMBDA f : f.id # e.id)]
    [] e.op = "run" -> Run(s)
    [] OTHER -> s
(* ------------------------------------------------------------ observations *)
Close(x, y) == x = y \/ (x > FRAC \div 2 /\ y > FRAC \div 2 /\ x < NAME /\ y < NAME /\ Abs(x - y) <= 1)
(* rows shared with other data sets may carry fields the others wrote: those (names a..., b..., id...) are ignored *)
Own(r, exp) == \A f \in DOMAIN exp : f \in DOMAIN r /\ Close(r[f], exp[f])
Extra(r, exp) == {f \in DOMAIN r : f \notin DOMAIN exp}
SameRows(obs, exp, shared) == Len(obs) = Len(exp) /\ \A i \in 1..Len(exp) : Own(obs[i], exp[i]) /\ Extra(obs[i], exp[i]) \subseteq shared
Ids(ts, obs) == ts = <<>> \/ LET t == ts[Len(ts)] IN t.t = "id" =>
   /\ \A i \in 1..Len(obs) : t.as \in DOMAIN obs[i] /\ obs[i][t.as] >= 0
   /\ Cardinality({obs[i][t.as] : i \in 1..Len(obs)}) = Len(obs)
(* lttb: observed rows are rows of the input in order; first and last stay; one row of each frame, spanning the largest triangle *)
Triangle(vals, pa, prev, i, fs, fe) ==   \* 2m times the area for row i; indices are 1-based, frame of the averages fs..fe-1
  LET m == fe - fs S == SumSeq([q \in 1..m |-> vals[fs + q - 1]]) IN
  Abs((2 * (pa - 1) - (fs + fe - 2)) * m * (vals[i] - vals[prev]) - 2 * (pa - i) * (S - m * vals[prev]))
LttbOk(rows, obs, f, size) ==
  IF size <= 0 THEN obs = <<>> ELSE IF Len(rows) <= size THEN SameRows(obs, rows, {}) ELSE
  LET n == Len(rows) fr == n \div size vals == Map(rows, LAMBDA r : r[f])
      at(o) == IF \E i \in 1..n : rows[i].k = o.k THEN CHOOSE i \in 1..n : rows[i].k = o.k ELSE 0
      ix == Map(obs, at)
      nf == CeilDiv(n - 2, fr)
      frame(j) == LET i == 2 + (j - 1) * fr IN <<i, Min2(i + fr, n + 1)>>        \* rows i..end-1 (1-based)
      best(j) == LET F == frame(j) s1 == Min2(F[1] + fr, n) e1 == Min2(F[1] + 2 * fr, n + 1)
                     T(i) == Triangle(vals, F[1] - 1, ix[j], i, s1, e1)
                 IN ix[j + 1] \in F[1]..(F[2] - 1) /\ \A i \in F[1]..(F[2] - 1) : T(i) <= T(ix[j + 1])
  IN /\ \A j \in 1..Len(obs) : ix[j] > 0 /\ Own(obs[j], rows[ix[j]])
     /\ Len(obs) \in {nf + 1, nf + 2} /\ ix[1] = 1 /\ ix[Len(ix)] = n
     /\ (Len(obs) = nf + 1 => ix[nf + 1] = n) /\ (Len(obs) = nf + 2 => ix[nf + 1] < n)
     /\ \A j \in 1..nf : best(j)
Fields(rows) == UNION {DOMAIN rows[i] : i \in 1..Len(rows)}
Written(ts) == UNION {CASE ts[i].t \in {"map", "id"} -> {ts[i].as} [] ts[i].t = "join" -> Range(ts[i].as) [] OTHER -> {} : i \in 1..Len(ts)}
XformAccept(s, e) == e.op # "threw" /\ (Has(e, "A") =>
  LET t == XformStep(s, e) IN
  /\ SameRows(e.A, t.A, {"a1", "a2", "a3", "b1", "b2", "b3", "ida", "idb"}) /\ Ids(s.at, e.A)
  /\ IF Len(s.bt) = 1 /\ s.bt[1].t = "lttb" THEN LttbOk(t.A, e.B, s.bt[1].f, s.bt[1].size)
     ELSE SameRows(e.B, t.B, {"a1", "a2", "a3", "b1", "b2", "b3", "ida", "idb"}) /\ Ids(s.bt, e.B))
XformExplain(s, e) == IF e.op = "threw" THEN <<>> ELSE LET t == XformStep(s, e) IN <<t.A, t.B>>
(* -------------------------------------------------------------- invariants *)
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
Permutation(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
SubMulti(a, b) == \A i \in 1..Len(a) : Count(a, a[i]) <= Count(b, a[i])
Law(s, t, in, out) ==
  CASE t.t = "filter" -> SubMulti(out, in) /\ \A i \in 1..Len(in) : Cmp(in[i][t.f], t.cmp, Val(s, t.p)) <=> Count(out, in[i]) = Count(in, in[i])
    [] t.t = "sort" -> Permutation(in, out) /\ \A i \in 1..(Len(out) - 1) : ~Before(out[i + 1], out[i], t.fs, t.os)
    [] t.t = "fold" -> Len(out) = Len(in) * Len(t.fs) /\ \A f \in Range(t.fs) : Sum(SelectSeq(out, LAMBDA r : r[t.askey] = NameCode(f)), t.asval) = Sum(in, f)
    [] t.t = "unfold" /\ t.agg = "sum" -> SumSeq(Map(out, LAMBDA r : SumSeq(Map(SeqOfSet(DOMAIN r \ Range(t.gb), LAMBDA a, b : Index(Names, a) < Index(Names, b) \/ a # b), LAMBDA f : r[f])))) = Sum(in, t.val)
    [] t.t \in {"join", "map", "bin", "pie", "funnel", "stack"} -> Len(out) = Len(in)
    [] t.t = "sample" -> Len(out) <= Len(in)
    [] OTHER -> TRUE
StackLaw(t, in, out) == t.t = "stack" /\ t.off = "diverging" /\ {"stack", "prev"} \subseteq DOMAIN t.as =>
  \A i \in 1..Len(out) : out[i][t.as.stack] - out[i][t.as.prev] = in[i][t.f] /\ Abs(out[i][t.as.prev]) <= Abs(out[i][t.as.stack])
BinLaw(s, t, in, out) == t.t = "bin" /\ t.step > 0 =>
  \A i \in 1..Len(out) : LET v == in[i][t.f] a == out[i][t.as[1]] b == out[i][t.as[2]] IN
    v >= Val(s, t.lo) /\ v <= Val(s, t.hi) => a <= v /\ a < b /\ (v < b \/ v = Val(s, t.hi))
XformInv(s) == s.ran /\ Len(s.bt) = 1 => Law(s, s.bt[1], s.A, s.B) /\ StackLaw(s.bt[1], s.A, s.B) /\ BinLaw(s, s.bt[1], s.A, s.B)
==============================================================================