------------------------------- MODULE RbTree -------------------------------
(***************************************************************************)
(* The left-leaning red-black tree behind the ordered map, with the hash   *)
(* each node caches of the subtree below it.  A tree is Nil or a record    *)
(* with colour c, key k, value v, subtrees l and r and cached hash h.      *)
(* Hashes are recomputed only where the algorithm does so; that they are   *)
(* nevertheless always right is checked, not assumed (MC_RbTree).          *)
(***************************************************************************)
EXTENDS Map

Nil == [c |-> "black", k |-> "nil"]
IsNil(t) == t.k = "nil"
Red(t) == t.c = "red"
Flipped(c) == IF c = "red" THEN "black" ELSE "red"

DataHash(k, v) == LabeledHash(k, LeafHash(v))
NodeHash(n) ==
    LET d == DataHash(n.k, n.v)
    IN CASE IsNil(n.l) /\ IsNil(n.r) -> d
         [] ~IsNil(n.l) /\ IsNil(n.r) -> ForkHash(n.l.h, d)
         [] IsNil(n.l) /\ ~IsNil(n.r) -> ForkHash(d, n.r.h)
         [] OTHER -> ForkHash(n.l.h, ForkHash(d, n.r.h))
Rehash(n) == [n EXCEPT !.h = NodeHash(n)]
Single(k, v) == [c |-> "red", k |-> k, v |-> v, l |-> Nil, r |-> Nil, h |-> DataHash(k, v)]

RotateRight(n) ==
    LET x == n.l
        down == Rehash([n EXCEPT !.l = x.r, !.c = "red"])
    IN Rehash([x EXCEPT !.r = down, !.c = n.c])
RotateLeft(n) ==
    LET x == n.r
        down == Rehash([n EXCEPT !.r = x.l, !.c = "red"])
    IN Rehash([x EXCEPT !.l = down, !.c = n.c])
FlipColors(n) == [n EXCEPT !.c = Flipped(@), !.l.c = Flipped(@), !.r.c = Flipped(@)]
Balance(n) ==
    LET a == IF Red(n.r) /\ ~Red(n.l) THEN RotateLeft(n) ELSE n
        b == IF Red(a.l) /\ Red(a.l.l) THEN RotateRight(a) ELSE a
    IN IF Red(b.l) /\ Red(b.r) THEN FlipColors(b) ELSE b

RECURSIVE InsertIn(_, _, _)
InsertIn(n, k, v) ==
    IF IsNil(n) THEN Single(k, v)
    ELSE Balance(Rehash(
           IF k = n.k THEN [n EXCEPT !.v = v]
           ELSE IF HexLess(k, n.k) THEN [n EXCEPT !.l = InsertIn(n.l, k, v)]
           ELSE [n EXCEPT !.r = InsertIn(n.r, k, v)]))
RbInsert(t, k, v) == [InsertIn(t, k, v) EXCEPT !.c = "black"]

RECURSIVE RbModify(_, _, _)
RbModify(n, k, v) ==
    IF IsNil(n) THEN n
    ELSE Rehash(IF k = n.k THEN [n EXCEPT !.v = v]
                ELSE IF HexLess(k, n.k) THEN [n EXCEPT !.l = RbModify(n.l, k, v)]
                ELSE [n EXCEPT !.r = RbModify(n.r, k, v)])

MoveRedLeft(n) ==
    LET f == FlipColors(n)
    IN IF Red(f.r.l) THEN FlipColors(RotateLeft([f EXCEPT !.r = RotateRight(f.r)])) ELSE f
MoveRedRight(n) ==
    LET f == FlipColors(n)
    IN IF Red(f.l.l) THEN FlipColors(RotateRight(f)) ELSE f
RECURSIVE Min(_), DeleteMin(_), DeleteIn(_, _)
Min(n) == IF IsNil(n.l) THEN n ELSE Min(n.l)
DeleteMin(n) ==
    IF IsNil(n.l) THEN Nil
    ELSE LET a == IF ~Red(n.l) /\ ~Red(n.l.l) THEN MoveRedLeft(n) ELSE n
         IN Balance(Rehash([a EXCEPT !.l = DeleteMin(a.l)]))
DeleteIn(n, k) ==
    IF HexLess(k, n.k)
    THEN LET a == IF ~Red(n.l) /\ ~Red(n.l.l) THEN MoveRedLeft(n) ELSE n
         IN Balance(Rehash([a EXCEPT !.l = DeleteIn(a.l, k)]))
    ELSE LET a == IF Red(n.l) THEN RotateRight(n) ELSE n
         IN IF k = a.k /\ IsNil(a.r) THEN Nil
            ELSE LET b == IF ~Red(a.r) /\ ~Red(a.r.l) THEN MoveRedRight(a) ELSE a
                     m == Min(b.r)
                 IN Balance(Rehash(
                      IF k = b.k THEN [b EXCEPT !.k = m.k, !.v = m.v, !.r = DeleteMin(b.r)]
                      ELSE [b EXCEPT !.r = DeleteIn(b.r, k)]))
RECURSIVE HasKey(_, _)
HasKey(n, k) == IF IsNil(n) THEN FALSE
                ELSE k = n.k \/ HasKey(IF HexLess(k, n.k) THEN n.l ELSE n.r, k)
RbDelete(t, k) ==
    IF ~HasKey(t, k) THEN t
    ELSE LET top == IF ~Red(t.l) /\ ~Red(t.r) THEN [t EXCEPT !.c = "red"] ELSE t
             u == DeleteIn(top, k)
         IN IF IsNil(u) THEN u ELSE [u EXCEPT !.c = "black"]

(* The hash tree it shows. *)
Join3(a, m, b) == IF a = Empty /\ b = Empty THEN m
                  ELSE IF b = Empty THEN Fork(a, m)
                  ELSE IF a = Empty THEN Fork(m, b)
                  ELSE Fork(a, Fork(m, b))
RECURSIVE Shown(_), BlackHeight(_), Ordered(_), Leaning(_), Cached(_)
Shown(n) == IF IsNil(n) THEN Empty ELSE Join3(Shown(n.l), Labeled(n.k, Leaf(n.v)), Shown(n.r))
(* The black height, or -1 (here 99) if it is not the same everywhere. *)
BlackHeight(n) ==
    IF IsNil(n) THEN 0
    ELSE LET a == BlackHeight(n.l) b == BlackHeight(n.r)
         IN IF a # b \/ a = 99 THEN 99 ELSE a + (IF Red(n) THEN 0 ELSE 1)
Ordered(n) == IsNil(n) \/ (Ordered(n.l) /\ Ordered(n.r)
    /\ (IsNil(n.l) \/ HexLess(n.l.k, n.k)) /\ (IsNil(n.r) \/ HexLess(n.k, n.r.k)))
Leaning(n) == IsNil(n) \/ (Leaning(n.l) /\ Leaning(n.r) /\ ~Red(n.r) /\ ~(Red(n) /\ Red(n.l)))
Cached(n) == IsNil(n) \/ (Cached(n.l) /\ Cached(n.r) /\ n.h = NodeHash(n))

(***************************************************************************)
(* Proofs, as the tree builds them: bounds are <<"exact", k>>,             *)
(* <<"neighbour", k>> or <<>> (no bound).                                  *)
(***************************************************************************)
RECURSIVE LowerBound(_, _), UpperBound(_, _), PrefixBound(_, _)
LowerBound(n, k) ==
    IF IsNil(n) THEN <<>>
    ELSE IF n.k = k THEN <<"exact", k>>
    ELSE IF HexLess(n.k, k) THEN LET b == LowerBound(n.r, k) IN IF b = <<>> THEN <<"neighbour", n.k>> ELSE b
    ELSE LowerBound(n.l, k)
UpperBound(n, k) ==
    IF IsNil(n) THEN <<>>
    ELSE IF n.k = k THEN <<"exact", k>>
    ELSE IF HexLess(k, n.k) THEN LET b == UpperBound(n.l, k) IN IF b = <<>> THEN <<"neighbour", n.k>> ELSE b
    ELSE UpperBound(n.r, k)
PrefixBound(n, p) ==
    IF IsNil(n) THEN <<>>
    ELSE IF ~HexLess(p, n.k) \/ IsPrefixOf(p, n.k) THEN PrefixBound(n.r, p)
    ELSE LET b == PrefixBound(n.l, p) IN IF b = <<>> THEN <<"neighbour", n.k>> ELSE b

Hidden(n) == IF IsNil(n) THEN Empty ELSE Pruned(n.h)
KeyOnly(n) == Labeled(n.k, Pruned(LeafHash(n.v)))
WithValue(n) == Labeled(n.k, Leaf(n.v))
HiddenData(n) == Pruned(DataHash(n.k, n.v))
Joined(a, m, b) ==
    IF a = Empty \/ b = Empty THEN Join3(a, m, b)
    ELSE IF m[1] = "p" /\ b[1] = "p"
         THEN LET mb == Pruned(ForkHash(m[2], b[2]))
              IN IF a[1] = "p" THEN Pruned(ForkHash(a[2], mb[2])) ELSE Fork(a, mb)
    ELSE Fork(a, Fork(m, b))
RECURSIVE Range(_, _, _, _)
(* Is k beyond a bound, on it, or inside? *)
Side(b, k, Below(_, _)) == IF b = <<>> THEN "in" ELSE IF k = b[2] THEN b[1] ELSE IF Below(k, b[2]) THEN "out" ELSE "in"
Range(n, lo, hi, values) ==
    IF IsNil(n) THEN Empty
    ELSE LET s == Side(lo, n.k, HexLess)
             e == Side(hi, n.k, LAMBDA x, y : HexLess(y, x))
             show == IF s = "out" \/ e = "out" THEN HiddenData(n)
                     ELSE IF "exact" \in {s, e} THEN (IF values THEN WithValue(n) ELSE KeyOnly(n))
                     ELSE IF "neighbour" \in {s, e} THEN KeyOnly(n)
                     ELSE (IF values THEN WithValue(n) ELSE KeyOnly(n))
             left == IF s = "in" THEN Range(n.l, lo, hi, values) ELSE Hidden(n.l)
             right == IF e = "in" THEN Range(n.r, lo, hi, values) ELSE Hidden(n.r)
         IN Joined(left, show, right)
RECURSIVE Present(_, _)
Present(n, k) ==
    IF n.k = k THEN Joined(Hidden(n.l), WithValue(n), Hidden(n.r))
    ELSE IF HexLess(k, n.k) THEN Joined(Present(n.l, k), HiddenData(n), Hidden(n.r))
    ELSE Joined(Hidden(n.l), HiddenData(n), Present(n.r, k))
Proof(t, q) ==
    CASE q.q = "key" -> IF HasKey(t, q.a) THEN Present(t, q.a)
                        ELSE Range(t, LowerBound(t, q.a), UpperBound(t, q.a), FALSE)
      [] q.q = "range" -> Range(t, LowerBound(t, q.a), UpperBound(t, q.b), FALSE)
      [] q.q = "values" -> Range(t, LowerBound(t, q.a), UpperBound(t, q.b), TRUE)
      [] q.q = "prefix" -> Range(t, LowerBound(t, q.a), PrefixBound(t, q.a), FALSE)
      [] q.q = "keys" -> Range(t, <<>>, <<>>, FALSE)
=============================================================================
