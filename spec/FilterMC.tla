------------------------------- MODULE FilterMC -------------------------------
(***************************************************************************)
(* All filters of a small world, written down and read again: what is      *)
(* written is accepted and means the same, with every single character     *)
(* removed it does not mean something unintended (it is refused or means   *)
(* something that can be written down, too), and the boolean operators     *)
(* obey their laws.  The written filters are printed, to be tried on the   *)
(* implementation.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Filter

CONSTANTS Emit, Big

Ca == 97
C1 == 49

Keys == IF Big THEN {<<Ca>>, <<EQ, Ca>>, <<C1, BANG>>} ELSE {<<Ca>>, <<EQ>>}
Vals == IF Big THEN {<<Ca>>, <<C1>>, <<STAR>>, <<BSL, Ca>>, <<Ca, Ca>>}
        ELSE {<<Ca>>, <<C1>>, <<STAR>>}
Ints == {<<C1>>, <<MINUS, C1>>, <<48>>, <<48, C1>>} \cup
        (IF Big THEN {<<MINUS, 48>>, <<C1, 48>>, <<57>>} ELSE {})
Subs == {<<Ca>>, <<STAR>>} \cup (IF Big THEN {<<C1>>} ELSE {})
Opt(S) == S \cup {<< >>}
Mids == {<< >>} \cup {<<x>> : x \in Subs} \cup
        {<<x, y>> : x \in Subs, y \in Subs}

Leaves ==
    UNION {
       {Ast("present", k, <<>>, <<>>, <<>>, <<>>)}
       \cup {Ast("eq", k, v, <<>>, <<>>, <<>>) : v \in Vals}
       \cup {Ast(o, k, v, <<>>, <<>>, <<>>) : o \in {"gt", "lt"}, v \in Ints}
       \cup {Ast("sub", k, x, m, y, <<>>) :
                x \in Opt(Subs), m \in Mids, y \in Opt(Subs)}
       : k \in Keys}
    \ {Ast("sub", k, <<>>, <<>>, <<>>, <<>>) : k \in Keys}

RECURSIVE Esc(_)
Esc(v) == IF v = << >> THEN << >>
          ELSE (IF Head(v) \in Escapables THEN <<BSL>> ELSE << >>)
               \o <<Head(v)>> \o Esc(Tail(v))

RECURSIVE Write(_), WriteAll(_), WriteMid(_)
WriteMid(m) == IF m = << >> THEN << >>
               ELSE Esc(Head(m)) \o <<STAR>> \o WriteMid(Tail(m))
WriteAll(q) == IF q = << >> THEN << >>
               ELSE Write(Head(q)) \o WriteAll(Tail(q))
Write(a) ==
    <<LP>> \o
    (CASE a.op = "present" -> Esc(a.key) \o <<EQ, STAR>>
       [] a.op = "eq" -> Esc(a.key) \o <<EQ>> \o Esc(a.val)
       [] a.op = "gt" -> Esc(a.key) \o <<GT>> \o a.val
       [] a.op = "lt" -> Esc(a.key) \o <<LT>> \o a.val
       [] a.op = "sub" -> Esc(a.key) \o <<EQ>> \o Esc(a.val) \o <<STAR>>
                          \o WriteMid(a.mid) \o Esc(a.fin)
       [] a.op = "not" -> <<BANG>> \o Write(a.args[1])
       [] a.op = "and" -> <<AMP>> \o WriteAll(a.args)
       [] a.op = "or" -> <<BAR>> \o WriteAll(a.args))
    \o <<RP>>

(* property sets to try the meaning on *)
P(k, t, v) == [k |-> k, t |-> t, v |-> v]
Worlds == {{}, {P(<<Ca>>, "s", <<Ca>>)}, {P(<<Ca>>, "i", <<C1>>)},
           {P(<<Ca>>, "s", <<C1>>)}, {P(<<EQ>>, "s", <<Ca, Ca>>)},
           {P(<<Ca>>, "s", <<Ca, STAR, Ca>>), P(<<Ca>>, "i", <<MINUS, C1>>)},
           {P(<<EQ>>, "i", <<48>>), P(<<Ca>>, "i", <<C1, 48>>)}}

Not(a) == Ast("not", <<>>, <<>>, <<>>, <<>>, <<a>>)
And(a, b) == Ast("and", <<>>, <<>>, <<>>, <<>>, <<a, b>>)
Or(a, b) == Ast("or", <<>>, <<>>, <<>>, <<>>, <<a, b>>)

VARIABLES a, depth

Init == a \in Leaves /\ depth = 0

(* operands of composites *)
Some == {x \in Leaves : x.key = <<Ca>> /\ x.mid = << >> /\ x.fin = << >>}

Next ==
    \/ /\ depth < 2
       /\ a' = Not(a)
       /\ depth' = depth + 1
    \/ /\ depth = 0
       /\ \E b \in Some : a' \in {And(a, b), Or(a, b), And(b, Not(a)),
                                  Or(Not(b), a),
                                  Ast("and", <<>>, <<>>, <<>>, <<>>,
                                      <<a, b, b>>)}
       /\ depth' = 2

Spec == Init /\ [][Next]_<<a, depth>>

Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

RoundTrip ==
    LET s == Write(a)
        p == Parse(s)
    IN  p.ok /\ p.ast = a

(* a filter with a character missing is not taken for the whole *)
Unambiguous ==
    LET s == Write(a)
    IN  \A i \in 1..Len(s) :
           LET p == Parse(Drop(s, i))
           IN  p.ok => (Parse(Write(p.ast)).ok /\
                        Parse(Write(p.ast)).ast = p.ast)

Laws ==
    \A w \in Worlds :
        /\ Holds(Not(a), w) = ~Holds(a, w)
        /\ Holds(And(a, Not(a)), w) = FALSE
        /\ Holds(Or(a, Not(a)), w) = TRUE
        /\ a.op \in {"eq", "sub", "gt", "lt"} /\ Holds(a, w) =>
              Holds(Ast("present", a.key, <<>>, <<>>, <<>>, <<>>), w)
        \* the value itself is a special case of any pattern it fits
        /\ a.op = "gt" => ~\E v \in Ints : Holds(a, {P(a.key, "i", v)}) /\
                             Holds([a EXCEPT !.op = "lt"],
                                   {P(a.key, "i", v)})

EmitIt == IF Emit THEN PrintT(<<"F", Write(a)>>) ELSE TRUE

Inv == RoundTrip /\ Unambiguous /\ Laws /\ EmitIt
=============================================================================
