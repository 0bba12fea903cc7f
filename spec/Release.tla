------------------------------ MODULE Release -------------------------------
(* Versions <<major, minor, patch>>, possibly with a pre-release              *)
(* [base, tag, num] where tag is "a", "b", "rc" or "" for a release.          *)
EXTENDS Integers, Sequences, FiniteSets
Bump(v, kind) == CASE kind = "major" -> <<v[1] + 1, 0, 0>>
                   [] kind = "minor" -> <<v[1], v[2] + 1, 0>>
                   [] kind = "micro" -> <<v[1], v[2], v[3] + 1>>
Kinds == {"major", "minor", "micro"}
Follows(a, b) == \E k \in Kinds : a = Bump(b, k)
Less(a, b) == \/ a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
TagRank == [a |-> 1, b |-> 2, rc |-> 3]
Rel(x) == x.tag = ""
\* is a a valid next version after b: "yes", "no", or not laid down
Next1(a, b) ==
  IF Rel(a) /\ Rel(b) THEN (IF Follows(a.base, b.base) THEN "yes" ELSE "no")
  ELSE IF Rel(b)          \* a new pre-release series begins at zero
       THEN IF a.num # 0 \/ ~Less(b.base, a.base) THEN "no" ELSE IF Follows(a.base, b.base) THEN "yes" ELSE "open"
  ELSE IF Rel(a) THEN (IF a.base = b.base THEN "yes" ELSE "no")
  ELSE IF a.base # b.base THEN "no"
  ELSE IF a.tag = b.tag THEN (IF a.num = b.num + 1 THEN "yes" ELSE "no")
  ELSE IF a.num = 0 /\ TagRank[a.tag] > TagRank[b.tag] THEN "yes" ELSE "no"
=============================================================================
