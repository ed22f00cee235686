------------------------------ MODULE GumTrace ------------------------------
(***************************************************************************)
(* Binds GumTree to recorded runs of compute_matching.  Cases is the list  *)
(* of inputs given to the code, Traces what it returned.  For every case   *)
(* TLC runs the specified procedure, evaluates the design invariants in    *)
(* every state and compares the outcome with the recorded one.             *)
(***************************************************************************)
EXTENDS GumTree, TLC, Json, IOUtils

Cases  == ndJsonDeserialize(IOEnv.VP_CASES)
Traces == ndJsonDeserialize(IOEnv.VP_TRACES)

TheCase(i) == Cases[i]
R == Traces[c]            \* the recorded run

Init == \E i \in 1..Len(Cases) : InitCase(i)
Next == GumNext
Spec == Init /\ [][Next]_gvars

\* tool check: the inputs are what this specification assumes, and trace i belongs to case i
InputsOk == pc = "start" =>
              /\ WellFormed(A) /\ WellFormed(B)
              /\ (CaseOf(c).merkle => MerkleSound(A, B))
              /\ R.id = CaseOf(c).id

At == pc = "start"        \* recorded-only predicates need one state per case

NoPanic == R.panic = ""

\* the recorded lookups as functions (0 = nothing)
FwdFn == R.fwd
BwdFn == R.bwd

RecordedOneToOne ==
  /\ Len(R.fwd) = Len(A.par) /\ Len(R.bwd) = Len(B.par)
  /\ \A i \in 1..Len(R.pairs) : R.pairs[i][1] \in Nodes(A) /\ R.pairs[i][2] \in Nodes(B)
  /\ \A i, j \in 1..Len(R.pairs) : i # j => R.pairs[i][1] # R.pairs[j][1] /\ R.pairs[i][2] # R.pairs[j][2]
RecordedViews ==
  LET P == Range(R.pairs) IN
  /\ \A x \in Nodes(A) : R.fwd[x] # 0 => <<x, R.fwd[x]>> \in P
  /\ \A y \in Nodes(B) : R.bwd[y] # 0 => <<R.bwd[y], y>> \in P
  /\ \A p \in P : R.fwd[p[1]] = p[2] /\ R.bwd[p[2]] = p[1]
  /\ \A x \in Nodes(A) : R.ca[x] = (R.fwd[x] # 0)
  /\ \A y \in Nodes(B) : R.cb[y] = (R.bwd[y] # 0)
  /\ R.len = Len(R.pairs) /\ R.emp = (R.pairs = << >>)
RecordedKinds == \A p \in Range(R.pairs) : A.kind[p[1]] = B.kind[p[2]]

(* C01 *)
C01Design == OneToOneOf(m, w) /\ (CaseOf(c).merkle => KindKept(m))
C01 == At => NoPanic /\ RecordedOneToOne /\ RecordedViews /\ (CaseOf(c).merkle => RecordedKinds)

(* C02 *)
C02Design == pc = "done" => Complete(m)
C02 == (At /\ Identical) => /\ NoPanic /\ R.ops = << >>
                            /\ \A x \in Nodes(A) : R.fwd[x] = (IF x \in OpaqueDesc(A) THEN 0 ELSE x)

(* C03 *)
C03 == pc = "done" => NoPanic /\ R.fwd = m /\ R.bwd = w /\ Range(R.pairs) = {<<x, m[x]>> : x \in {z \in Nodes(A) : m[z] # 0}}

(* C04 *)
C04Design == pc = "done" => \A x \in Nodes(A) : Justified(m, x)
C04 == At => NoPanic /\ RecordedOneToOne /\ \A x \in Nodes(A) : Justified(R.fwd, x)

(* C05 *)
C05Design == pc = "done" => OpaqueMatching(m, w)
C05 == At => NoPanic /\ RecordedOneToOne /\ OpaqueMatching(R.fwd, R.bwd)

(* C14: hashes may lie *)
C14Design == OneToOneOf(m, w)
C14 == At => NoPanic /\ RecordedOneToOne /\ RecordedViews

=============================================================================
