------------------------------- MODULE Unitary -------------------------------
(* Rational unitary matrices: integer matrices m with m m^H = den^2 I.  They  *)
(* give Hermitian matrices with chosen eigenvalues and exact arithmetic.      *)
EXTENDS CInt
Rl(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> <<A[i][j], 0>>]]
Base2 == <<[m |-> Rl(<<<<1, 0>>, <<0, 1>>>>), den |-> 1],
           [m |-> Rl(<<<<3, 4>>, <<-4, 3>>>>), den |-> 5]>>
Base2C == <<[m |-> <<<< <<1, 2>>, <<2, 0>> >>, << <<-2, 0>>, <<1, -2>> >>>>, den |-> 3],
            [m |-> <<<< <<3, 0>>, <<0, 4>> >>, << <<0, 4>>, <<3, 0>> >>>>, den |-> 5]>>
Base3 == <<[m |-> Rl(<<<<1, 2, 2>>, <<2, 1, -2>>, <<2, -2, 1>>>>), den |-> 3],
           [m |-> Rl(<<<<3, 4, 0>>, <<-4, 3, 0>>, <<0, 0, 5>>>>), den |-> 5],
           [m |-> Rl(<<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>), den |-> 1]>>
Base3C == <<[m |-> <<<< <<1, 2>>, <<2, 0>>, <<0, 0>> >>, << <<-2, 0>>, <<1, -2>>, <<0, 0>> >>, << <<0, 0>>, <<0, 0>>, <<3, 0>> >>>>, den |-> 3]>>
Base4 == <<[m |-> Rl(<<<<1, 1, 1, 1>>, <<1, -1, 1, -1>>, <<1, 1, -1, -1>>, <<1, -1, -1, 1>>>>), den |-> 2]>>
Base4C == <<[m |-> <<<<One, One, One, One>>, <<One, Imag, <<-1, 0>>, <<0, -1>>>>,
                     <<One, <<-1, 0>>, One, <<-1, 0>>>>, <<One, <<0, -1>>, <<-1, 0>>, Imag>>>>, den |-> 2]>>
Bases(n, cplx) ==
    CASE n = 1 -> <<[m |-> <<<<One>>>>, den |-> 1]>>
      [] n = 2 -> IF cplx THEN Base2 \o Base2C ELSE Base2
      [] n = 3 -> IF cplx THEN Base3 \o Base3C ELSE Base3
      [] n = 4 -> IF cplx THEN Base4 \o Base4C ELSE Base4
UPhases(cplx) == IF cplx THEN Units ELSE {<<1, 0>>, <<-1, 0>>}
UPerms(n) == {p \in [1..n -> 1..n] : {p[i] : i \in 1..n} = 1..n}
(* base matrix with its rows permuted and rows and columns rephased          *)
Dressed(m, p, r, c) == TLCEval([i \in 1..Len(m) |-> [j \in 1..Len(m) |-> CMul(r[i], CMul(m[p[i]][j], c[j]))]])
RandPhases(n, cplx) == TLCEval([i \in 1..n |-> TLCEval(RandomElement(UPhases(cplx)))])
RandDressed(base, cplx) ==
    Bind(RandomElement(UPerms(Len(base.m))), LAMBDA p :
    Bind(RandPhases(Len(base.m), cplx), LAMBDA r :
    Bind(RandPhases(Len(base.m), cplx), LAMBDA c : Dressed(base.m, p, r, c))))
RandBase(n, cplx) == Bind(RandomElement(1..Len(Bases(n, cplx))), LAMBDA i : Bases(n, cplx)[i])
(* den^2 * U diag(d) U^H for an integer diagonal                             *)
Conjugated(m, d) == Bind(MMul(m, DiagM([i \in 1..Len(d) |-> <<d[i], 0>>])), LAMBDA md : MMul(md, Herm(m)))
IsScaledUnitary(m, den) == MMul(m, Herm(m)) = [i \in 1..Len(m) |-> [j \in 1..Len(m) |-> IF i = j THEN <<den * den, 0>> ELSE Zero]]
=============================================================================
