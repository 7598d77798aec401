---------------------------- MODULE AlgebraCases ----------------------------
(***************************************************************************)
(* C08, C09: expressions with arguments and what they return.                *)
(* Enumerated: all well-typed compositions of two transforms over a set of    *)
(* leaves.  FromData: calls recorded by the driver (any depth, user-defined    *)
(* compounds).                                                             *)
(***************************************************************************)
EXTENDS Algebra, Json, IOUtils

CONSTANTS LeafNames, Consts, FromData, Salt, Pairs

DefaultConsts == {<<2, 1>>, <<-3, 2>>}

VARIABLE x

L(n) == [op |-> "leaf", name |-> n, side |-> IF n \in {"OuterMargin", "InnerMargin"} THEN "left" ELSE ""]
Sc == [op |-> "scalar"]
ScalarExprs == {Sc, [op |-> "mulc", a |-> Sc, c |-> <<2, 1>>], [op |-> "neg", a |-> Sc],
                [op |-> "partial", a |-> Sc, ps |-> <<[t |-> "num", v |-> <<3, 1>>]>>],
                [op |-> "powc", a |-> Sc, n |-> 2]}
Leaves == {L(n) : n \in LeafNames}

NumTable == << <<2, 1>>, <<-3, 1>>, <<1, 2>>, <<-1, 1>>, <<3, 2>>, <<5, 1>>, <<-2, 1>> >>
Num(i) == NumTable[((i + Salt) % 7) + 1]
ParamValue(k, i) ==
    CASE k.t = "num" -> [t |-> "num", v |-> Num(i)]
      [] k.t = "exp" -> [t |-> "exp", v |-> <<(i + Salt) % 3, 1>>]
      [] k.t = "bool" -> [t |-> "bool", v |-> ((i + Salt) % 2) = 0]
      [] k.t = "dir" -> [t |-> "dir", v |-> <<<<1, -2>>, <<0, 3>>, <<-1, 1>>>>[((i + Salt) % 3) + 1]]
      [] k.t = "target" -> IF (i + Salt) % 3 = 0 THEN [t |-> "num", v |-> Num(i + 1)]
                           ELSE [t |-> "vec", v |-> [j \in 1..k.n |-> Num(i + 2 * j)]]
ParamsFor(e) == LET k == ParamKinds(e) IN [i \in DOMAIN k |-> ParamValue(k[i], i)]

\* distinct primitives for every argument position
Pt(i) == <<3 * i - 4, 2 - i * i>>
PrimFor(k, i) ==
    CASE k = "P" -> Pt(i + (Salt % 3))
      [] k = "L" -> <<Pt(i), PAdd(Pt(i), <<<<3, 4>>, <<-2, 0>>, <<1, 1>>, <<0, 5>>>>[((i + Salt) % 4) + 1])>>
      [] k = "Q" -> LET p == Pt(i) IN <<p, PAdd(p, <<2 + i, 0>>), PAdd(p, <<3 + i, 2>>), PAdd(p, <<-1, 1 + i>>)>>
PrimsFor(e) == LET k == Kinds(e) IN [i \in DOMAIN k |-> PrimFor(k[i], i)]

Unary(E) ==
         {[op |-> o, a |-> e] : o \in {"neg", "pos", "constraint"}, e \in E}
    \cup {[op |-> o, a |-> e, c |-> c] : o \in {"mulc", "divc"}, e \in E, c \in Consts}
    \cup {[op |-> o, a |-> e, s |-> s] : o \in {"muls", "divs"}, e \in E, s \in ScalarExprs}
    \cup {[op |-> "powc", a |-> e, n |-> 2] : e \in E}
    \cup {[op |-> "pows", a |-> e, s |-> Sc] : e \in E}
    \cup {[op |-> "map", a |-> e, n |-> Len(Kinds(e)) + 1] : e \in {y \in E : Len(Kinds(y)) \in 1..3}}
    \cup UNION {LET k == ParamKinds(e)
                IN {[op |-> "partial", a |-> e,
                     ps |-> [i \in 1..m |-> ParamValue(k[Len(k) - m + i], i)]] : m \in 0..Len(k)} : e \in E}
Sums(E, F) == {[op |-> "sum", a |-> ef[1], b |-> ef[2]] : ef \in {z \in E \X F : Shape(z[1]) = Shape(z[2])}}

E1 == Unary(Leaves) \cup Sums(Leaves, Leaves)
E2 == Unary(E1) \cup Sums(E1, Leaves) \cup Sums(Leaves, E1)
           \cup (IF Pairs THEN Sums(E1, E1) ELSE {})
Exprs == Leaves \cup E1 \cup E2

Recorded == LET D == JsonDeserialize(IOEnv.DATA) IN {D[i] : i \in DOMAIN D}
Init == IF FromData THEN x \in Recorded
        ELSE \E e \in Exprs : x = [e |-> e, prims |-> PrimsFor(e), params |-> ParamsFor(e)]
Next == FALSE /\ UNCHANGED x
Spec == Init /\ [][Next]_x

-----------------------------------------------------------------------------
TypeOk == /\ WellTyped(x.e)
          /\ Len(x.prims) = Len(Kinds(x.e)) /\ Len(x.params) = Len(ParamKinds(x.e))
SizeOk == Len(Eval(x.e, x.prims, x.params)) = Total(x.e)
\* laws of the algebra
NegIsMul == Eval([op |-> "neg", a |-> x.e], x.prims, x.params)
            = Eval([op |-> "mulc", a |-> x.e, c |-> <<-1, 1>>], x.prims, x.params)
Doubling == Eval([op |-> "sum", a |-> x.e, b |-> x.e], x.prims \o x.prims, x.params \o x.params)
            = Eval([op |-> "mulc", a |-> x.e, c |-> <<2, 1>>], x.prims, x.params)
PartialAll == Eval([op |-> "partial", a |-> x.e, ps |-> x.params], x.prims, <<>>) = Eval(x.e, x.prims, x.params)
\* a scalar construction multiplied into an expression takes the last parameter
ScalarLast == Eval([op |-> "muls", a |-> x.e, s |-> Sc], x.prims, Append(x.params, [t |-> "num", v |-> <<3, 1>>]))
              = Eval([op |-> "mulc", a |-> x.e, c |-> <<3, 1>>], x.prims, x.params)
\* a construction mapped over one element is the construction
MapOne == Len(Kinds(x.e)) >= 1 =>
    Eval([op |-> "map", a |-> x.e, n |-> Len(Kinds(x.e))], x.prims, x.params) = Eval(x.e, x.prims, x.params)
TargetZero == Eval([op |-> "constraint", a |-> x.e], x.prims, Append(x.params, [t |-> "num", v |-> <<0, 1>>]))
              = Eval(x.e, x.prims, x.params)

Emit == PrintT("@" \o ToJson([e |-> x.e, prims |-> x.prims, params |-> x.params, kinds |-> Kinds(x.e),
            sizes |-> Shape(x.e), value |-> Eval(x.e, x.prims, x.params)]))
=============================================================================
