------------------------------- MODULE Nested -------------------------------
(***************************************************************************)
(* The nested authenticated map.  State: a function from paths to values,  *)
(* no path a prefix of another.  Operations: <<"ins", path, v>>,           *)
(* <<"del", path>> (everything at or below the path) and <<"clear">>.      *)
(***************************************************************************)
EXTENDS Trees

Starts(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
NothingNested == [p \in {} |-> ""]
Restrict(m, S) == [p \in S |-> m[p]]
NestedApply(m, op) ==
    CASE op[1] = "ins" ->
            LET kept == {p \in DOMAIN m : ~Starts(p, op[2]) /\ ~Starts(op[2], p)}
            IN [p \in kept \cup {op[2]} |-> IF p = op[2] THEN op[3] ELSE m[p]]
      [] op[1] = "del" -> Restrict(m, {p \in DOMAIN m : ~Starts(op[2], p)})
      [] op[1] = "clear" -> NothingNested

(* What is held at or below a path: its remainders with their values. *)
Below(m, path) == {<<SubSeq(p, Len(path) + 1, Len(p)), m[p]>> : p \in {q \in DOMAIN m : Starts(path, q)}}
RECURSIVE Contents(_), NoEmptyBranch(_)
Contents(t) ==
    LET f == Flatten(t)
    IN UNION {CASE f[i][1] = "v" -> {<<<<>>, f[i][2]>>}
                [] f[i][1] = "l" -> {<<<<f[i][2]>> \o c[1], c[2]>> : c \in Contents(f[i][3])}
                [] OTHER -> {<<<<"?">>, "?">>} : i \in 1..Len(f)}
NoEmptyBranch(t) ==
    CASE t[1] = "f" -> NoEmptyBranch(t[2]) /\ NoEmptyBranch(t[3])
      [] t[1] = "l" -> NoEmptyBranch(t[3])
      [] OTHER -> t[1] # "e"
(* The tree shows exactly this content. *)
Shows(t, content) ==
    /\ ~HasPruned(t)
    /\ Contents(t) = content
    /\ IF content = {} THEN t = Empty ELSE NoEmptyBranch(t) /\ WellFormed(t)

ThroughLeaf(m, path) == \E p \in DOMAIN m : Starts(p, path) /\ p # path
(* w proves what there is at the path: all of it, or its absence. *)
Proves(w, m, path) ==
    LET s == LookupSubtree(path, w)
    IN IF Below(m, path) = {} /\ path # <<>> THEN s = <<"absent">>
       ELSE s[1] = "found" /\ Shows(s[2], Below(m, path))
RECURSIVE ValuePaths(_)
ValuePaths(t) == LET f == Flatten(t)
             IN UNION {CASE f[i][1] = "v" -> {<<>>}
                         [] f[i][1] = "l" -> {<<f[i][2]>> \o c : c \in ValuePaths(f[i][3])}
                         [] OTHER -> {} : i \in 1..Len(f)}
(* No value shows but those at, below or on the way to the given paths. *)
RevealsOnly(w, paths) == \A v \in ValuePaths(w) : \E p \in paths : Starts(p, v) \/ Starts(v, p)
NestedProofOK(w, m, root, paths) ==
    /\ w[1] # "panic"
    /\ Digest(w) = root
    /\ \A p \in paths : Proves(w, m, p)
    /\ RevealsOnly(w, paths)
=============================================================================
