-------------------------------- MODULE WavGen --------------------------------
(* Prints write programs and files (with requests) for the replay driver.    *)
EXTENDS Wav, TLC, Json
VARIABLE out
Dtypes == {"i1", "i2", "f2", "f4", "f8", "f16", "u1", "i4", "c8", "bool", "u2", "i8"}
Forms == {"1d", "last", "first"}
Layouts == {"C", "F", "strided", "reversed", "readonly", "offset"}
Writes == {[kind |-> "write", dtype |-> d, form |-> f, layout |-> y, ch |-> c, n |-> k, rate |-> r] :
            d \in Dtypes, f \in Forms, y \in Layouts, c \in {1, 2, 3}, k \in {0, 1, 2, 5, 8}, r \in {1, 8000, 44100, 48000}}
Good(x) == x.form = "1d" => x.ch = 1
Hash(x) == (x.n * 7 + x.ch * 3 + (x.rate \div 1000) + (IF x.layout \in {"F", "reversed"} THEN 5 ELSE 1)) % 3
(* files, including malformed ones, 32-bit ones and ones with a trailing chunk *)
S(w) == IF w = 1 THEN <<-128, 5, -1, 127, 0, 77>> ELSE <<-32768, 258, -1, 32767, 0, -12345>>
File(ch, w, n, rate) == Encode(ch, rate, w, [i \in 1..n |-> [c \in 1..ch |-> S(w)[((i * ch + c) % 6) + 1]]])
Patch(b, off, x) == [k \in 1..Len(b) |-> IF k > off /\ k <= off + Len(x) THEN x[k - off] ELSE b[k]]
Files == {[name |-> "plain", b |-> File(ch, w, n, r)] : ch \in {1, 2, 3}, w \in {1, 2}, n \in {0, 1, 4}, r \in {8000, 44100}}
    \cup {[name |-> "trailing-chunk", b |-> File(ch, w, 3, 16000) \o <<76, 73, 83, 84, 4, 0, 0, 0, 1, 2, 3, 4>>] : ch \in {1, 2}, w \in {1, 2}}
    \cup {[name |-> "32bit", b |-> Patch(Patch(Patch(File(2 * ch, 2, 3, 16000), 22, LE(ch, 2)), 34, LE(32, 2)), 32, LE(4 * ch, 2))] : ch \in {1, 2}}
    \cup {[name |-> "truncated", b |-> SubSeq(File(2, 2, 4, 16000), 1, k)] : k \in {44, 46, 57, 59}}
    \cup {[name |-> "riff", b |-> Patch(File(1, 2, 2, 8000), 0, <<82, 73, 70, 88>>)],
          [name |-> "wave", b |-> Patch(File(1, 2, 2, 8000), 8, <<119>>)],
          [name |-> "fmt", b |-> Patch(File(1, 2, 2, 8000), 12, <<70>>)],
          [name |-> "fmtsize", b |-> Patch(File(1, 2, 2, 8000), 16, <<18>>)],
          [name |-> "float-format", b |-> Patch(File(1, 2, 2, 8000), 20, <<3>>)],
          [name |-> "byterate", b |-> Patch(File(1, 2, 2, 8000), 28, <<1>>)],
          [name |-> "data", b |-> Patch(File(1, 2, 2, 8000), 36, <<68>>)]}
GInit == out = 0 /\ file = <<>> /\ src = <<>> /\ req = <<>> /\ res = <<>>
GNext == /\ out = 0 /\ out' = 1 /\ UNCHANGED vars
         /\ \A x \in Writes : Good(x) => PrintT("@@CASE " \o ToJson(x))
         /\ \A f \in Files : PrintT("@@CASE " \o ToJson([kind |-> "file", name |-> f.name, bytes |-> f.b]))
GSpec == GInit /\ [][GNext]_<<vars, out>>
=============================================================================
