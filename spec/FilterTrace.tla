----------------------------- MODULE FilterTrace -----------------------------
(***************************************************************************)
(* Judges what the filter implementation did with a number of strings.     *)
(*                                                                         *)
(* A case is a record                                                      *)
(*   s      the string given to the parser                                 *)
(*   nest   how deep its parentheses are nested (s is left out if they are  *)
(*          nested extremely deep)                                         *)
(*   out    "ok", "refused" or "crash"                                     *)
(*   m      for each property set in ps (indices into the pool of property *)
(*          sets): does the filter match?                                  *)
(*   str    the filter's printed form                                      *)
(*   rout   what the parser did with the printed form                      *)
(*   rm     what the filter it made of the printed form matches            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Filter

Data == JsonDeserialize(IOEnv.PAF_CASES)

Cases == Data.cases

PropSet(p) == {Data.props[p][j] : j \in 1..Len(Data.props[p])}

(* The nesting depth that has to be supported *)
DEEP == 100

(* "" or what is wrong with case x *)
Why(x) ==
    LET p == Parse(x.s)
        q == Parse(x.str)
        deep == x.nest > DEEP
        n == Len(x.ps)
        H(ast, i) == Holds(ast, PropSet(x.ps[i]))
    IN  CASE x.out = "crash" -> "crash"
          [] x.out # "crash" /\ deep -> ""
          [] x.out = "ok" /\ ~deep /\ ~p.ok -> "accepted, but malformed"
          [] x.out = "refused" /\ ~deep /\ p.ok -> "refused, but well formed"
          [] x.out = "refused" /\ ~deep /\ ~p.ok -> ""
          [] OTHER ->
               IF \E i \in 1..n : x.m[i] # H(p.ast, i)
               THEN "matches what it should not, or vice versa"
               ELSE IF x.rout # "ok" THEN "printed form not accepted"
               ELSE IF ~q.ok THEN "printed form malformed"
               ELSE IF q.ast # p.ast /\
                       \E i \in 1..n : H(q.ast, i) # H(p.ast, i)
               THEN "printed form means something else"
               ELSE IF \E i \in 1..n : x.rm[i] # x.m[i]
               THEN "the filter made of the printed form matches differently"
               ELSE ""

VARIABLES i, end

Chunk == 250

Init == /\ i \in {1 + Chunk * k : k \in 0..((Len(Cases) - 1) \div Chunk)}
        /\ end = i + Chunk

Next ==
    /\ i < end
    /\ i' = i + 1
    /\ end' = end
    /\ IF i > Len(Cases) THEN TRUE
       ELSE LET w == Why(Cases[i])
            IN  IF w = "" THEN TRUE ELSE PrintT(<<"CASE", i, w>>)

Spec == Init /\ [][Next]_<<i, end>>
=============================================================================
