------------------------------ MODULE Session -------------------------------
(***************************************************************************)
(* A diffing session: requests arrive in any order, each for some content  *)
(* (key) in some representation (arena layout, concrete tree type, entry   *)
(* point, process).  The service is stateless: memo remembers the first    *)
(* answer for a key, every later answer for the key has to be the same.    *)
(* Requests may overlap (two threads that take turns in the middle of their *)
(* work): a stateless service answers each as if it were alone, so they    *)
(* are served here one after the other.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Requests == ndJsonDeserialize(IOEnv.VP_CASES)    \* [key, ...]
Answers  == ndJsonDeserialize(IOEnv.VP_TRACES)   \* what the code answered, in the same order

VARIABLES c,      \* requests answered so far
          memo    \* key |-> answer given first (<< >> = none yet)
vars == <<c, memo>>

Keys == {Requests[i].key : i \in 1..Len(Requests)}
Answer(i) == [pairs |-> Answers[i].pairs, ops |-> Answers[i].ops]

Init == c = 0 /\ memo = [q \in Keys |-> << >>]
Serve == /\ c < Len(Requests)
         /\ c' = c + 1
         /\ LET q == Requests[c + 1].key IN
            memo' = IF memo[q] = << >> THEN [memo EXCEPT ![q] = <<c + 1>>] ELSE memo
Next == Serve
Spec == Init /\ [][Next]_vars

InputsOk == c = 0 => Len(Requests) = Len(Answers) /\ \A i \in 1..Len(Requests) : Requests[i].id = Answers[i].id

C11 == c > 0 => LET i == c  q == Requests[i].key IN
         /\ Answers[i].panic = ""
         /\ Answer(i) = Answer(memo[q][1])
         /\ Requests[i].mode = 2 => /\ Answers[i].ops2 = Answers[i].ops
                                    /\ Answers[i].pairs2 = Answers[i].pairs
=============================================================================
