------------------------------ MODULE Algebra ------------------------------
(***************************************************************************)
(* C07-C09: constructions as expressions and what they return.               *)
(*                                                                         *)
(* An expression is a record with field op:                                  *)
(*   leaf      name, side           a library measurement                     *)
(*   scalar                         Scalar(): returns its parameter            *)
(*   vector    tree                 Vector(size tree)                         *)
(*   neg, pos  a                                                            *)
(*   sum       a, b                                                          *)
(*   mulc, divc   a, c (rational)      muls, divs  a, s (scalar expression)      *)
(*   powc      a, n (natural)        pows        a, s                         *)
(*   partial   a, ps (parameter values)                                       *)
(*   map       a, n (primitives mapped over)                                  *)
(*   constraint a                   value minus target                        *)
(*   compound  kinds, np, own, kids   a user-defined construction: kids are      *)
(*             records [key, e, args, params]; args are [i, path] (path: child    *)
(*             names below the i-th argument), params are selectors              *)
(*                                                                         *)
(* A parameter value is [t |-> "num" | "bool" | "dir" | "vec" | "exp", v].      *)
(* Values are vectors of exact reals, flattened in tree order.                 *)
(***************************************************************************)
EXTENDS Geometry

RECURSIVE FlattenSeqs(_)
FlattenSeqs(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenSeqs(Tail(ss))

-----------------------------------------------------------------------------
\* The library measurements used as leaves: argument kinds, parameter kinds and
\* output sizes (own output, outputs of the children)
LeafInfo(name) ==
    CASE name = "Coordinate" -> [kinds |-> <<"P">>, params |-> <<>>, n |-> 2, sub |-> <<>>]
      [] name \in {"XDistance", "YDistance"} -> [kinds |-> <<"P", "P">>, params |-> <<>>, n |-> 1, sub |-> <<>>]
      [] name = "DirectedDistance" -> [kinds |-> <<"P", "P">>, params |-> <<"dir">>, n |-> 1, sub |-> <<>>]
      [] name \in {"LineVector", "UnitLineVector", "Midpoint"} ->
            [kinds |-> <<"L">>, params |-> <<>>, n |-> 2, sub |-> <<>>]
      [] name \in {"Length", "XLength", "YLength"} -> [kinds |-> <<"L">>, params |-> <<>>, n |-> 1, sub |-> <<>>]
      [] name = "DirectedLength" -> [kinds |-> <<"L">>, params |-> <<"dir">>, n |-> 1, sub |-> <<>>]
      [] name \in {"MidpointXDistance", "MidpointYDistance", "Angle"} ->
            [kinds |-> <<"L", "L">>, params |-> <<>>, n |-> 1, sub |-> <<>>]
      [] name = "MidpointDirectedDistance" -> [kinds |-> <<"L", "L">>, params |-> <<"dir">>, n |-> 1, sub |-> <<>>]
      [] name \in {"PointOnLineDistance", "PointToLineDistance", "RelativePointOnLineDistance"} ->
            [kinds |-> <<"P", "L">>, params |-> <<"bool">>, n |-> 1, sub |-> <<>>]
      [] name = "AspectRatio" -> [kinds |-> <<"Q">>, params |-> <<>>, n |-> 1, sub |-> <<>>]
      [] name \in {"Width", "Height", "RectangleDim"} -> [kinds |-> <<"Q">>, params |-> <<>>, n |-> 0, sub |-> <<1>>]
      [] name \in {"OuterMargin", "InnerMargin"} -> [kinds |-> <<"Q", "Q">>, params |-> <<>>, n |-> 0, sub |-> <<1>>]

\* Children of primitives, by kind
ChildKind(kind, key) ==
    CASE kind = "L" -> "P"
      [] kind = "Q" -> "L"
      [] kind = "C" -> "A"
      [] kind = "D" -> "C"
      [] kind = "A" -> IF key \in {"Frame", "XAxis", "YAxis", "TwinXAxis", "TwinYAxis"} THEN "Q" ELSE "P"
LineIndex(key) == CASE key = "Line0" -> 0 [] key = "Line1" -> 1 [] key = "Line2" -> 2 [] key = "Line3" -> 3
Child(kind, v, key) ==
    CASE kind = "L" -> IF key = "Point0" THEN v[1] ELSE v[2]
      [] kind = "Q" -> Side(v, LineIndex(key))
      [] kind \in {"A", "C", "D"} -> v[key]
RECURSIVE KindAt(_, _), At(_, _, _)
KindAt(kind, path) == IF path = <<>> THEN kind ELSE KindAt(ChildKind(kind, Head(path)), Tail(path))
At(kind, v, path) ==
    IF path = <<>> THEN v ELSE At(ChildKind(kind, Head(path)), Child(kind, v, Head(path)), Tail(path))
FirstX(kind, v) ==
    CASE kind = "P" -> v[1] [] kind = "L" -> v[1][1] [] kind = "Q" -> v[1][1] [] kind = "A" -> v.Frame[1][1]
      [] kind = "C" -> v["Axes 0"].Frame[1][1] [] kind = "D" -> v["arg1 arg0"]["Axes 0"].Frame[1][1]

-----------------------------------------------------------------------------
\* Types
RECURSIVE Kinds(_), ParamKinds(_), Shape(_), Total(_), TreeTotal(_)

Leaf(t) == [n |-> t, ch |-> <<>>]
TreeTotal(t) == t.n + SumSeq([i \in DOMAIN t.ch |-> TreeTotal(t.ch[i].t)])
Total(e) == TreeTotal(Shape(e))

Kinds(e) ==
    CASE e.op = "leaf" -> LeafInfo(e.name).kinds
      [] e.op \in {"scalar", "vector"} -> <<>>
      [] e.op = "sum" -> Kinds(e.a) \o Kinds(e.b)
      [] e.op = "map" -> LET k == Kinds(e.a) m == Len(k) - 1
                         IN [i \in 1..(e.n - m) |-> k[1]] \o SubSeq(k, 2, Len(k))
      [] e.op = "compound" -> e.kinds
      [] OTHER -> Kinds(e.a)

\* kinds of the parameters; a target is marked with its size
ParamKinds(e) ==
    CASE e.op = "leaf" -> [i \in DOMAIN LeafInfo(e.name).params |-> [t |-> LeafInfo(e.name).params[i], n |-> 1]]
      [] e.op = "scalar" -> <<[t |-> "num", n |-> 1]>>
      [] e.op = "vector" -> <<[t |-> "target", n |-> TreeTotal(e.tree)]>>
      [] e.op = "sum" -> ParamKinds(e.a) \o ParamKinds(e.b)
      [] e.op \in {"muls", "divs"} -> ParamKinds(e.a) \o ParamKinds(e.s)
      [] e.op = "pows" -> ParamKinds(e.a) \o <<[t |-> "exp", n |-> 1]>>
      [] e.op = "partial" -> LET k == ParamKinds(e.a) IN SubSeq(k, 1, Len(k) - Len(e.ps))
      [] e.op = "map" -> LET k == ParamKinds(e.a)
                         IN FlattenSeqs([i \in 1..(e.n - Len(Kinds(e.a)) + 1) |-> k])
      [] e.op = "constraint" -> ParamKinds(e.a) \o <<[t |-> "target", n |-> Total(e.a)]>>
      [] e.op = "compound" -> [i \in 1..e.np |-> [t |-> "num", n |-> 1]]
      [] OTHER -> ParamKinds(e.a)

\* Tree of output sizes; the sum is defined for operands with equal trees
Shape(e) ==
    CASE e.op = "leaf" -> LET f == LeafInfo(e.name) IN
            [n |-> f.n, ch |-> [i \in DOMAIN f.sub |-> [k |-> e.name \o e.side, t |-> Leaf(f.sub[i])]]]
      [] e.op = "scalar" -> Leaf(1)
      [] e.op = "vector" -> e.tree
      [] e.op = "map" -> [n |-> 0, ch |-> [i \in 1..(e.n - Len(Kinds(e.a)) + 1) |->
                            [k |-> ToString(e.a) \o ToString(i), t |-> Shape(e.a)]]]
      [] e.op = "compound" ->
            [n |-> CASE e.own = "none" -> 0 [] e.own = "xs" -> Len(e.kinds) [] e.own = "params" -> e.np,
             ch |-> [i \in DOMAIN e.kids |-> [k |-> e.kids[i].key, t |-> Shape(e.kids[i].e)]]]
      [] OTHER -> Shape(e.a)

IsScalarExpr(e) == e.op \in {"scalar", "mulc", "muls", "divc", "divs", "neg", "partial", "powc"}

-----------------------------------------------------------------------------
\* Values
Broadcast(q, n) ==
    IF q.t = "vec" THEN (IF Len(q.v) = 1 THEN [i \in 1..n |-> OfRat(q.v[1])] ELSE [i \in 1..n |-> OfRat(q.v[i])])
    ELSE [i \in 1..n |-> OfRat(q.v)]

\* a selector of a child's parameter
Select(s, qs) ==
    CASE s.s = "param" -> qs[s.i]
      [] s.s = "const" -> s.p
      [] s.s = "neg" -> [t |-> "num", v |-> RNeg(qs[s.i].v)]
      [] s.s = "plus" -> [t |-> "num", v |-> RAdd(qs[s.i].v, qs[s.j].v)]

Power(x, n) == IF n >= 0 THEN PowNat(x, n) ELSE PowNat(InvSingle(x), -n)
IntOf(x) == IF x = Zero THEN 0 ELSE x[1].n

RECURSIVE Eval(_, _, _)
Eval(e, ps, qs) ==
    CASE e.op = "leaf" ->
            Measure([what |-> "measure", name |-> e.name, side |-> e.side, args |-> ps,
                     params |-> [i \in DOMAIN qs |-> qs[i].v]])
      [] e.op = "scalar" -> <<OfRat(qs[1].v)>>
      [] e.op = "vector" -> Broadcast(qs[1], TreeTotal(e.tree))
      [] e.op = "pos" -> Eval(e.a, ps, qs)
      [] e.op = "neg" -> VNeg(Eval(e.a, ps, qs))
      [] e.op = "sum" ->
            LET n == Len(Kinds(e.a)) m == Len(ParamKinds(e.a))
            IN VPlus(Eval(e.a, SubSeq(ps, 1, n), SubSeq(qs, 1, m)),
                     Eval(e.b, SubSeq(ps, n + 1, Len(ps)), SubSeq(qs, m + 1, Len(qs))))
      [] e.op = "mulc" -> VScale(e.c, Eval(e.a, ps, qs))
      [] e.op = "divc" -> VScale(RInv(e.c), Eval(e.a, ps, qs))
      [] e.op \in {"muls", "divs", "pows"} ->
            LET m == Len(ParamKinds(e.a))
                x == Eval(e.a, ps, SubSeq(qs, 1, m))
                s == Eval(e.s, <<>>, SubSeq(qs, m + 1, Len(qs)))[1]
            IN (CASE e.op = "muls" -> [i \in DOMAIN x |-> Times(x[i], s)]
                 [] e.op = "divs" -> [i \in DOMAIN x |-> Times(x[i], InvSingle(s))]
                 [] e.op = "pows" -> [i \in DOMAIN x |-> Power(x[i], IntOf(s))])
      [] e.op = "powc" -> LET x == Eval(e.a, ps, qs) IN [i \in DOMAIN x |-> Power(x[i], e.n)]
      [] e.op = "partial" -> Eval(e.a, ps, qs \o e.ps)
      [] e.op = "map" ->
            LET m == Len(Kinds(e.a)) - 1
                k == e.n - m
                c == Len(ParamKinds(e.a))
            IN FlattenSeqs([i \in 1..k |->
                  Eval(e.a, <<ps[i]>> \o SubSeq(ps, k + 1, e.n), SubSeq(qs, (i - 1) * c + 1, i * c))])
      [] e.op = "constraint" ->
            LET m == Len(qs) - 1
            IN VMinus(Eval(e.a, ps, SubSeq(qs, 1, m)), Broadcast(qs[m + 1], Total(e.a)))
      [] e.op = "compound" ->
            (CASE e.own = "none" -> <<>>
               [] e.own = "xs" -> [i \in DOMAIN e.kinds |-> Int0(FirstX(e.kinds[i], ps[i]))]
               [] e.own = "params" -> [i \in DOMAIN qs |-> OfRat(qs[i].v)])
            \o FlattenSeqs([i \in DOMAIN e.kids |->
                  LET c == e.kids[i]
                  IN Eval(c.e, [j \in DOMAIN c.args |-> At(e.kinds[c.args[j].i], ps[c.args[j].i], c.args[j].path)],
                          [j \in DOMAIN c.params |-> Select(c.params[j], qs)])])

\* an expression is well typed
RECURSIVE WellTyped(_)
WellTyped(e) ==
    CASE e.op \in {"leaf", "scalar", "vector"} -> TRUE
      [] e.op = "sum" -> WellTyped(e.a) /\ WellTyped(e.b) /\ Shape(e.a) = Shape(e.b)
      [] e.op \in {"muls", "divs", "pows"} -> WellTyped(e.a) /\ WellTyped(e.s) /\ IsScalarExpr(e.s)
      [] e.op = "partial" -> WellTyped(e.a) /\ Len(e.ps) <= Len(ParamKinds(e.a))
      [] e.op = "map" -> WellTyped(e.a) /\ Len(Kinds(e.a)) >= 1 /\ e.n >= Len(Kinds(e.a))
      [] e.op = "compound" ->
            \A i \in DOMAIN e.kids : LET c == e.kids[i] IN
               /\ WellTyped(c.e)
               /\ [j \in DOMAIN c.args |-> KindAt(e.kinds[c.args[j].i], c.args[j].path)] = Kinds(c.e)
               /\ Len(c.params) = Len(ParamKinds(c.e))
      [] OTHER -> WellTyped(e.a)

\* the parameters are accepted: their number is right, and a target has one number, or
\* one number per output entry
FitsKind(k, q) == (k.t = "target" /\ q.t = "vec") => Len(q.v) \in {1, k.n}
FitsParams(e, qs) ==
    LET k == ParamKinds(e) IN Len(qs) = Len(k) /\ \A i \in DOMAIN k : FitsKind(k[i], qs[i])
RECURSIVE Frozen(_)
\* so are those frozen inside of the expression
Frozen(e) ==
    CASE e.op \in {"leaf", "scalar", "vector", "compound"} -> TRUE
      [] e.op = "sum" -> Frozen(e.a) /\ Frozen(e.b)
      [] e.op = "partial" -> LET k == ParamKinds(e.a) m == Len(k) - Len(e.ps)
                             IN Frozen(e.a) /\ \A i \in DOMAIN e.ps : FitsKind(k[m + i], e.ps[i])
      [] OTHER -> Frozen(e.a)
=============================================================================
