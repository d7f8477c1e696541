----------------------------- MODULE SymmetryGen -----------------------------
(* Words of generators and the element they compose to.                        *)
EXTENDS Symmetry, Json
CONSTANTS Cases, Shapes, MaxLen
VARIABLE out
R(S) == TLCEval(RandomElement(S))
Rot(n, r) == TLCEval([i \in 1..n |-> ((i - 1 + r) % n) + 1])
Rev(n) == TLCEval([i \in 1..n |-> n + 1 - i])
Swap(n, i, j) == TLCEval([k \in 1..n |-> IF k = i THEN j ELSE IF k = j THEN i ELSE k])
RandPerm(n) == Bind(R(1..3), LAMBDA w : CASE w = 1 -> Rot(n, R(1..(n - 1))) [] w = 2 -> Rev(n) [] w = 3 -> Bind(R(1..(n - 1)), LAMBDA i : Swap(n, i, n)))
Rot2(n, i, j) == TLCEval([a \in 1..n |-> [b \in 1..n |->
    IF a = b THEN (IF a \in {i, j} THEN <<3, 0>> ELSE <<5, 0>>) ELSE IF a = i /\ b = j THEN <<-4, 0>> ELSE IF a = j /\ b = i THEN <<4, 0>> ELSE Zero]])
Shear(n, i, j, c) == TLCEval([a \in 1..n |-> [b \in 1..n |-> IF a = b THEN One ELSE IF a = i /\ b = j THEN c ELSE Zero]])
Diag1(n, i, c) == TLCEval([a \in 1..n |-> [b \in 1..n |-> IF a # b THEN Zero ELSE IF a = i THEN c ELSE One]])
Sensor(id, C, M, dn, b) == TLCEval([id EXCEPT !.A = [k \in 1..Len(id.fb) |-> IF b = 0 \/ b = k THEN M ELSE Eye(C)],
                                      !.den = [k \in 1..Len(id.fb) |-> IF b = 0 \/ b = k THEN dn ELSE 1]])
DataK == {"frames", "bins", "phase", "fphase", "conj"}
UniK == {"perm", "unit", "rot"}
AffK == {"shear", "scale"}
Pool(c) == CASE c = "data" -> DataK [] c = "unitary" -> DataK \cup UniK \cup UniK [] c = "affine" -> UniK \cup AffK
             [] c = "source" -> DataK \cup {"src"} [] c = "all" -> DataK \cup UniK \cup AffK \cup {"src"}
             [] c = "real" -> {"frames", "perm", "rot", "sign"} [] c = "realaffine" -> {"frames", "perm", "rot", "sign", "shearr", "scale"}
             [] c = "realsource" -> {"frames", "src"} [] c = "psdtf" -> {"frames", "fphase", "conj", "rot", "shear", "scale", "perm", "unit"}
             [] c = "nobins" -> {"frames", "fphase", "phase", "conj"} [] c = "bins" -> {"bins"}
Gen(kind, id, C, nb, t) ==
    CASE kind = "frames" -> [id EXCEPT !.ft = RandPerm(t)]
      [] kind = "bins" -> [id EXCEPT !.fb = RandPerm(nb)]
      [] kind = "src" -> [id EXCEPT !.src = RandPerm(C)]
      [] kind = "conj" -> [id EXCEPT !.cj = 1]
      [] kind = "phase" -> Bind(<<R(1..11), R(0..11), R(1..11)>>, LAMBDA a :
              TLCEval([id EXCEPT !.ph = [b \in 1..nb |-> [j \in 1..t |-> (a[1] * b + a[2] * j + a[3] * b * j) % Turn]]]))
      [] kind = "fphase" -> Bind(<<R(1..11), R(0..11)>>, LAMBDA a :
              TLCEval([id EXCEPT !.ph = [b \in 1..nb |-> [j \in 1..t |-> (a[1] * j + a[2] * j * j) % Turn]]]))
      [] kind = "perm" -> Bind(PermM(RandPerm(C)), LAMBDA M : Sensor(id, C, M, 1, R(0..nb)))
      [] kind = "unit" -> Bind(Diag1(C, R(1..C), R(Units)), LAMBDA M : Sensor(id, C, M, 1, R(0..nb)))
      [] kind = "sign" -> Bind(Diag1(C, R(1..C), <<-1, 0>>), LAMBDA M : Sensor(id, C, M, 1, R(0..nb)))
      [] kind = "scale" -> Bind(Diag1(C, R(1..C), <<R({2, 3}), 0>>), LAMBDA M : Sensor(id, C, M, 1, R(0..nb)))
      [] kind = "rot" -> Bind(R(1..(C - 1)), LAMBDA i : Bind(Rot2(C, i, C), LAMBDA M : Sensor(id, C, M, 5, R(0..nb))))
      [] kind = "shear" -> Bind(R(1..(C - 1)), LAMBDA i :
              Bind(Shear(C, i, C, R({<<1, 0>>, <<0, 1>>, <<1, -1>>})), LAMBDA M : Sensor(id, C, M, 1, R(0..nb))))
      [] kind = "shearr" -> Bind(R(1..(C - 1)), LAMBDA i : Bind(Shear(C, i, C, <<1, 0>>), LAMBDA M : Sensor(id, C, M, 1, R(0..nb))))
RECURSIVE WordOf(_, _, _, _, _, _, _)
WordOf(cls, id, C, nb, t, k, acc) ==
    IF k = 0 THEN acc
    ELSE Bind(R(Pool(cls)), LAMBDA kind : Bind(Gen(kind, id, C, nb, t), LAMBDA h :
         WordOf(cls, id, C, nb, t, k - 1, [w |-> Append(acc.w, [kind |-> kind, e |-> h]), g |-> Compose(h, acc.g)])))
Classes == {"data", "unitary", "affine", "source", "all", "real", "realaffine", "realsource", "psdtf", "nobins", "bins"}
ShapesV == {<<2, 5, 24>>, <<3, 4, 24>>}
ShapesBig == ShapesV \cup {<<4, 3, 36>>}
ShapeOf(cls, s) == IF cls \in {"real", "realaffine", "realsource"} THEN <<s[1], 1, 60>> ELSE s
Case(i) == Bind(R(Classes), LAMBDA cls : Bind(ShapeOf(cls, R(Shapes)), LAMBDA s : Bind(Id(s[1], s[2], s[3]), LAMBDA id :
    Bind(WordOf(cls, id, s[1], s[2], s[3], R(1..MaxLen), [w |-> <<>>, g |-> id]), LAMBDA r :
      [id |-> i, cls |-> cls, shape |-> s, gens |-> [k \in 1..Len(r.w) |-> r.w[k].kind], word |-> [k \in 1..Len(r.w) |-> r.w[k].e], g |-> r.g]))))
GInit == out = 1 /\ x0 = 0 /\ x = 0 /\ W0 = 0 /\ W = 0 /\ g = 0 /\ steps = 0
GNext == out <= Cases /\ out' = out + 1 /\ UNCHANGED vars /\ PrintT("@@CASE " \o ToJson(TLCEval(Case(out))))
GSpec == GInit /\ [][GNext]_<<vars, out>>
===============================================================================
