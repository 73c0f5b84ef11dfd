------------------------------- MODULE Filter -------------------------------
(***************************************************************************)
(* The service filter language: syntax and meaning.                        *)
(*                                                                         *)
(* Strings are sequences of character codes.                               *)
(*                                                                         *)
(*   filter  = "(" expr ")"                                                *)
(*   expr    = key "=" value | key "=*" | key "=" pattern                  *)
(*           | key ">" integer | key "<" integer                           *)
(*           | "!" filter | "&" filter filter+ | "|" filter filter+        *)
(*   pattern = [value] "*" {value "*"} [value]                             *)
(*                                                                         *)
(* Keys and values are not empty; in them, the special characters          *)
(* ( ) * \ & | = > < have to be escaped with a backslash, and ! may be.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

LP == 40
RP == 41
STAR == 42
BSL == 92
BANG == 33
AMP == 38
BAR == 124
EQ == 61
GT == 62
LT == 60
MINUS == 45

Specials == {LP, RP, STAR, BSL, AMP, BAR, EQ, GT, LT}
Escapables == Specials \cup {BANG}

MaxDepth == 128

Ast(op, key, val, mid, fin, args) ==
    [op |-> op, key |-> key, val |-> val, mid |-> mid, fin |-> fin,
     args |-> args]

Bad == [ok |-> FALSE, i |-> 0, ast |-> Ast("bad", <<>>, <<>>, <<>>, <<>>,
                                            <<>>)]
Good(i, ast) == [ok |-> TRUE, i |-> i, ast |-> ast]

(* The string that starts at position i, up to the next special character  *)
(* which is not escaped: [ok, i (of that character), v]                    *)
NoStr == [ok |-> FALSE, i |-> 0, v |-> <<>>]

RECURSIVE Str(_, _, _)
Str(s, i, acc) ==
    IF i > Len(s) THEN NoStr
    ELSE IF s[i] = BSL
         THEN IF i + 1 <= Len(s) /\ s[i + 1] \in Escapables
              THEN Str(s, i + 2, Append(acc, s[i + 1]))
              ELSE NoStr
         ELSE IF s[i] \in Specials
              THEN [ok |-> TRUE, i |-> i, v |-> acc]
              ELSE Str(s, i + 1, Append(acc, s[i]))

IsDigit(x) == x >= 48 /\ x <= 57

IsInt(v) ==
    LET d == IF v # << >> /\ v[1] = MINUS THEN Tail(v) ELSE v
    IN  d # << >> /\ \A i \in 1..Len(d) : IsDigit(d[i])

At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0

(* after the first "*" of a pattern: substrings, each followed by "*" *)
RECURSIVE Pattern(_, _, _, _, _)
Pattern(s, i, key, init, mid) ==
    LET p == Str(s, i, <<>>)
    IN  IF ~p.ok THEN Bad
        ELSE IF At(s, p.i) = STAR
             THEN IF p.v = << >> THEN Bad
                  ELSE Pattern(s, p.i + 1, key, init, Append(mid, p.v))
             ELSE IF init = << >> /\ mid = << >> /\ p.v = << >>
                  THEN Good(p.i, Ast("present", key, <<>>, <<>>, <<>>, <<>>))
                  ELSE Good(p.i, Ast("sub", key, init, mid, p.v, <<>>))

Simple(s, i) ==
    LET k == Str(s, i, <<>>)
    IN  IF ~k.ok \/ k.v = << >> THEN Bad
        ELSE LET op == At(s, k.i)
                 v == Str(s, k.i + 1, <<>>)
             IN  CASE op = EQ ->
                        IF ~v.ok THEN Bad
                        ELSE IF At(s, v.i) = STAR
                             THEN Pattern(s, v.i + 1, k.v, v.v, <<>>)
                             ELSE IF v.v = << >> THEN Bad
                                  ELSE Good(v.i, Ast("eq", k.v, v.v, <<>>,
                                                     <<>>, <<>>))
                   [] op \in {GT, LT} ->
                        IF v.ok /\ IsInt(v.v)
                        THEN Good(v.i, Ast(IF op = GT THEN "gt" ELSE "lt",
                                           k.v, v.v, <<>>, <<>>, <<>>))
                        ELSE Bad
                   [] OTHER -> Bad

RECURSIVE Expr(_, _, _), Args(_, _, _, _)
(* the expression inside the parentheses; i is after the "(" *)
Expr(s, i, depth) ==
    IF depth > MaxDepth THEN Bad
    ELSE CASE At(s, i) = BANG ->
                IF At(s, i + 1) # LP THEN Bad
                ELSE LET e == Expr(s, i + 2, depth + 1)
                     IN  IF e.ok /\ At(s, e.i) = RP
                         THEN Good(e.i + 1,
                                   Ast("not", <<>>, <<>>, <<>>, <<>>,
                                       <<e.ast>>))
                         ELSE Bad
           [] At(s, i) \in {AMP, BAR} ->
                LET a == Args(s, i + 1, depth, <<>>)
                IN  IF a.ok /\ Len(a.args) >= 2
                    THEN Good(a.i,
                              Ast(IF At(s, i) = AMP THEN "and" ELSE "or",
                                  <<>>, <<>>, <<>>, <<>>, a.args))
                    ELSE Bad
           [] OTHER -> Simple(s, i)

(* filters up to the closing parenthesis of the enclosing expression *)
Args(s, i, depth, acc) ==
    CASE At(s, i) = LP ->
           LET e == Expr(s, i + 1, depth + 1)
           IN  IF e.ok /\ At(s, e.i) = RP
               THEN Args(s, e.i + 1, depth, Append(acc, e.ast))
               ELSE [ok |-> FALSE, i |-> 0, args |-> <<>>]
      [] At(s, i) = RP -> [ok |-> TRUE, i |-> i, args |-> acc]
      [] OTHER -> [ok |-> FALSE, i |-> 0, args |-> <<>>]

Parse(s) ==
    IF At(s, 1) # LP THEN Bad
    ELSE LET e == Expr(s, 2, 1)
         IN  IF e.ok /\ e.i = Len(s) /\ At(s, e.i) = RP THEN e ELSE Bad

Accepted(s) == Parse(s).ok

-----------------------------------------------------------------------------
(* MEANING.  A property set is a set of records [k, t, v]: key, type ("s"  *)
(* or "i") and value; integers are given by their decimal representation.  *)

Neg(v) == v # << >> /\ v[1] = MINUS

RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ d[1] = 48 THEN StripZeros(Tail(d)) ELSE d

Digits(v) == StripZeros(IF Neg(v) THEN Tail(v) ELSE v)

IsZero(v) == Digits(v) = <<48>>

RECURSIVE LexLess(_, _)
LexLess(a, b) ==
    IF a = << >> THEN FALSE
    ELSE IF a[1] # b[1] THEN a[1] < b[1]
         ELSE LexLess(Tail(a), Tail(b))

AbsLess(a, b) ==
    IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLess(a, b)

IntLess(x, y) ==
    LET nx == Neg(x) /\ ~IsZero(x)
        ny == Neg(y) /\ ~IsZero(y)
    IN  CASE nx /\ ~ny -> TRUE
          [] ~nx /\ ny -> FALSE
          [] nx /\ ny -> AbsLess(Digits(y), Digits(x))
          [] OTHER -> AbsLess(Digits(x), Digits(y))

StartsAt(v, i, p) ==      \* p occurs in v at position i
    /\ i + Len(p) - 1 <= Len(v)
    /\ \A j \in 1..Len(p) : v[i + j - 1] = p[j]

(* the first position in i..n where w, not extending beyond n, occurs; 0   *)
RECURSIVE First(_, _, _, _)
First(v, i, n, w) ==
    IF i + Len(w) - 1 > n THEN 0
    ELSE IF StartsAt(v, i, w) THEN i
    ELSE First(v, i + 1, n, w)

(* the substrings in mid occur in v[i..n], in order, without overlap *)
RECURSIVE InOrder(_, _, _, _)
InOrder(v, i, n, mid) ==
    IF mid = << >> THEN TRUE
    ELSE LET j == First(v, i, n, mid[1])
         IN  j > 0 /\ InOrder(v, j + Len(mid[1]), n, Tail(mid))

SubMatch(a, v) ==
    /\ Len(a.val) + Len(a.fin) <= Len(v)
    /\ StartsAt(v, 1, a.val)
    /\ StartsAt(v, Len(v) - Len(a.fin) + 1, a.fin)
    /\ InOrder(v, Len(a.val) + 1, Len(v) - Len(a.fin), a.mid)

RECURSIVE Holds(_, _)
Holds(a, props) ==
    CASE a.op = "present" -> \E p \in props : p.k = a.key
      [] a.op = "eq" -> \E p \in props : p.k = a.key /\ p.v = a.val
      [] a.op = "sub" -> \E p \in props : p.k = a.key /\ p.t = "s" /\
                                          SubMatch(a, p.v)
      [] a.op = "gt" -> \E p \in props : p.k = a.key /\ p.t = "i" /\
                                         IntLess(a.val, p.v)
      [] a.op = "lt" -> \E p \in props : p.k = a.key /\ p.t = "i" /\
                                         IntLess(p.v, a.val)
      [] a.op = "not" -> ~Holds(a.args[1], props)
      [] a.op = "and" -> \A i \in 1..Len(a.args) : Holds(a.args[i], props)
      [] a.op = "or" -> \E i \in 1..Len(a.args) : Holds(a.args[i], props)
=============================================================================
