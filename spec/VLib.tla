---- MODULE VLib ----
(* Arithmetic helpers shared by the specifications: sums, rounding division, fixed-point complex numbers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
BIG == 1000000000
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == -((-a) \div b)
RDiv(a, b) == (a + (b \div 2)) \div b
RECURSIVE SumTo(_, _)
\* sum of f[1..n], f a function or sequence of integers
SumTo(f, n) == IF n = 0 THEN 0 ELSE SumTo(f, n - 1) + f[n]
SumSeq(s) == SumTo(s, Len(s))
RECURSIVE SumOverRec(_, _, _)
SumOverRec(F(_), a, b) == IF a > b THEN 0 ELSE F(a) + SumOverRec(F, a + 1, b)
Sum(F(_), a, b) == SumOverRec(F, a, b)
RECURSIVE MaxOf(_, _, _)
MaxOf(F(_), a, b) == IF a = b THEN F(a) ELSE Max(F(a), MaxOf(F, a + 1, b))
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Last(s) == s[Len(s)]
SetOfSeq(s) == {s[i] : i \in DOMAIN s}
IsInt(x) == x \in Int
InRange(x) == x > -BIG /\ x < BIG
When(c, name) == IF c THEN {} ELSE {name}     \* clause: {} when it holds, its name otherwise
\* block distribution: the slab of rank r (0-based) of N items over P ranks
CountOf(N, P, r) == (N \div P) + (IF r < (N % P) THEN 1 ELSE 0)
StartOf(N, P, r) == r * (N \div P) + Min(r, N % P)
====
