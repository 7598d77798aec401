------------------------------ MODULE ExactReal ------------------------------
(***************************************************************************)
(* Exact real values: finite sums of terms                                   *)
(*     n/d * sqrt(r)          [k |-> "q", n, d, r]   (r squarefree, d > 0)    *)
(*     n/d * atan2(s, c)      [k |-> "a", n, d, c, s] ((c,s) primitive)        *)
(* Square roots of different squarefree numbers are linearly independent      *)
(* over the rationals, so in normal form a sum of "q" terms is zero exactly     *)
(* when it has no terms.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

RECURSIVE SumSeqN(_, _)
SumSeqN(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumSeqN(s, n - 1)
SumSeq(s) == SumSeqN(s, Len(s))

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Gcd(a, b) == GCD(Abs(a), Abs(b))

\* Rationals as <<n, d>> in lowest terms, d > 0
Norm(n, d) == LET g == Gcd(n, d)
                  s == Sgn(d)
              IN IF n = 0 THEN <<0, 1>> ELSE <<(s * n) \div g, (s * d) \div g>>
RAdd(a, b) == LET g == Gcd(a[2], b[2])
              IN Norm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
RMul(a, b) == LET g == Gcd(a[1], b[2]) h == Gcd(b[1], a[2])
                  g1 == IF g = 0 THEN 1 ELSE g
                  h1 == IF h = 0 THEN 1 ELSE h
              IN Norm((a[1] \div g1) * (b[1] \div h1), (a[2] \div h1) * (b[2] \div g1))
RNeg(a) == <<-a[1], a[2]>>
RInv(a) == Norm(a[2], a[1])
REq(a, b) == a[1] * b[2] = b[1] * a[2]
RLe(a, b) == a[1] * b[2] <= b[1] * a[2]

\* r = SqPart(r)^2 * SqFree(r)
RECURSIVE SqRed(_, _, _)
SqRed(r, s, p) ==
    IF p * p > r THEN <<s, r>>
    ELSE IF r % (p * p) = 0 THEN SqRed(r \div (p * p), s * p, p)
    ELSE SqRed(r, s, p + 1)
SqSplit(r) == IF r = 0 THEN <<0, 1>> ELSE SqRed(r, 1, 2)

Zero == <<>>

\* n/d * sqrt(r)
Surd(n, d, r) ==
    LET sp == SqSplit(r)
        q == Norm(n * sp[1], d)
    IN IF q[1] = 0 THEN Zero ELSE <<[k |-> "q", n |-> q[1], d |-> q[2], r |-> sp[2]]>>
Rat(n, d) == LET q == Norm(n, d)
             IN IF q[1] = 0 THEN Zero ELSE <<[k |-> "q", n |-> q[1], d |-> q[2], r |-> 1]>>
Int0(n) == Rat(n, 1)
OfRat(q) == Rat(q[1], q[2])

\* angle of the direction (c, s)
Ang(c, s) ==
    LET g == Gcd(c, s)
    IN IF s = 0 /\ c > 0 THEN Zero
       ELSE <<[k |-> "a", n |-> 1, d |-> 1, c |-> c \div g, s |-> s \div g]>>

SameBase(t, u) ==
    /\ t.k = u.k
    /\ IF t.k = "q" THEN t.r = u.r ELSE t.c = u.c /\ t.s = u.s

\* add one term to a normal sum
AddTerm(x, t) ==
    LET I == {i \in DOMAIN x : SameBase(x[i], t)} IN
    IF I = {} THEN Append(x, t)
    ELSE LET i == CHOOSE j \in I : TRUE
             q == RAdd(<<x[i].n, x[i].d>>, <<t.n, t.d>>)
         IN IF q[1] = 0 THEN RemoveAt(x, i)
            ELSE [x EXCEPT ![i].n = q[1], ![i].d = q[2]]
Plus(x, y) == FoldLeft(AddTerm, x, y)
Scale(q, x) == IF q[1] = 0 THEN Zero
               ELSE [i \in DOMAIN x |->
                      LET p == RMul(q, <<x[i].n, x[i].d>>)
                      IN [x[i] EXCEPT !.n = p[1], !.d = p[2]]]
Neg(x) == Scale(<<-1, 1>>, x)
Minus(x, y) == Plus(x, Neg(y))
SumAll(xs) == FoldLeft(Plus, Zero, xs)

\* products (of surds, or of an angle and a rational) and inverses (of surds)
MulTerm(t, u) == IF t.k = "a" THEN Scale(<<u.n, u.d>>, <<t>>)
                 ELSE IF u.k = "a" THEN Scale(<<t.n, t.d>>, <<u>>)
                 ELSE LET q == RMul(<<t.n, t.d>>, <<u.n, u.d>>)
                     g == Gcd(t.r, u.r)
                     \* sqrt(t.r) sqrt(u.r) = g sqrt((t.r/g)(u.r/g))
                     p == RMul(q, <<g, 1>>)
                 IN Surd(p[1], p[2], (t.r \div g) * (u.r \div g))
Times(x, y) == SumAll([k \in 1..(Len(x) * Len(y)) |->
                  MulTerm(x[((k - 1) \div Len(y)) + 1], y[((k - 1) % Len(y)) + 1])])
IsSurdSum(x) == \A i \in DOMAIN x : x[i].k = "q"
IsSingle(x) == Len(x) = 1 /\ x[1].k = "q"
\* 1 / (n/d sqrt r) = d/(n r) sqrt r
InvSingle(x) == Surd(x[1].d, x[1].n * x[1].r, x[1].r)
RECURSIVE PowNat(_, _)
PowNat(x, n) == IF n = 0 THEN Int0(1) ELSE Times(x, PowNat(x, n - 1))

IsZero(x) == x = Zero
AllZero(v) == \A i \in DOMAIN v : IsZero(v[i])

\* vectors
VPlus(v, w) == [i \in DOMAIN v |-> Plus(v[i], w[i])]
VMinus(v, w) == [i \in DOMAIN v |-> Minus(v[i], w[i])]
VScale(q, v) == [i \in DOMAIN v |-> Scale(q, v[i])]
VNeg(v) == [i \in DOMAIN v |-> Neg(v[i])]
=============================================================================
