--------------------------------- MODULE Wav ---------------------------------
(* Byte-level PCM WAV files: an encoder, an operational reader, and the laws *)
(* that tie them.  Bytes are 0..255, samples are signed integers.            *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
LE(v, w) == [k \in 1..w |-> (v \div Pow(256, k - 1)) % 256]           \* unsigned, w bytes
UnLE(b) == LET S[k \in 0..Len(b)] == IF k = 0 THEN 0 ELSE S[k-1] + b[k] * Pow(256, k - 1) IN S[Len(b)]
SLE(v, w) == LE(IF v < 0 THEN v + Pow(256, w) ELSE v, w)               \* signed, w <= 2
(* signed decoding without leaving 32 bit: the top byte is signed first      *)
SUnLE(b) == LET w == Len(b)
                top == IF b[w] >= 128 THEN b[w] - 256 ELSE b[w]
                S[k \in 0..(w-1)] == IF k = 0 THEN 0 ELSE S[k-1] + b[k] * Pow(256, k - 1)
            IN top * Pow(256, w - 1) + S[w-1]

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RIFF == <<82, 73, 70, 70>>
WAVE == <<87, 65, 86, 69>>
FMT_ == <<102, 109, 116, 32>>
DATA == <<100, 97, 116, 97>>

(* frames: sequence of frames, each a sequence of one sample per channel     *)
Payload(frames, w) == Flat([i \in 1..Len(frames) |-> Flat([c \in 1..Len(frames[i]) |-> SLE(frames[i][c], w)])])
Encode(ch, rate, w, frames) ==
    LET p == Payload(frames, w)
    IN RIFF \o LE(36 + Len(p), 4) \o WAVE \o FMT_ \o LE(16, 4) \o LE(1, 2) \o LE(ch, 2) \o LE(rate, 4)
       \o LE(rate * ch * w, 4) \o LE(ch * w, 2) \o LE(8 * w, 2) \o DATA \o LE(Len(p), 4) \o p

Field(b, off, w) == UnLE(SubSeq(b, off + 1, off + w))
Tag(b, off) == SubSeq(b, off + 1, off + 4)
(* the first header clause a byte string violates, given what was asked for  *)
HeaderClause(b, ch, rate, w, n) ==
    IF Len(b) < 44 THEN "file-too-short"
    ELSE IF Tag(b, 0) # RIFF THEN "riff-id"
    ELSE IF Field(b, 4, 4) # Len(b) - 8 THEN "riff-size"
    ELSE IF Tag(b, 8) # WAVE THEN "wave-id"
    ELSE IF Tag(b, 12) # FMT_ THEN "fmt-id"
    ELSE IF Field(b, 16, 4) # 16 THEN "fmt-size"
    ELSE IF Field(b, 20, 2) # 1 THEN "format-tag"
    ELSE IF Field(b, 22, 2) # ch THEN "channels"
    ELSE IF Field(b, 24, 4) # rate THEN "sample-rate"
    ELSE IF Field(b, 28, 4) # rate * ch * w THEN "byte-rate"
    ELSE IF Field(b, 32, 2) # ch * w THEN "block-align"
    ELSE IF Field(b, 34, 2) # 8 * w THEN "bits-per-sample"
    ELSE IF Tag(b, 36) # DATA THEN "data-id"
    ELSE IF Field(b, 40, 4) # n * ch * w THEN "data-size"
    ELSE IF Len(b) # 44 + n * ch * w THEN "file-length"
    ELSE "ok"

(* The reader: refusal or the frames asked for.  Numbers absent are -999.    *)
NONE == -999
Readable(b) == /\ Len(b) >= 44
               /\ Tag(b, 0) = RIFF /\ Tag(b, 8) = WAVE /\ Tag(b, 12) = FMT_ /\ Field(b, 16, 4) = 16
               /\ Field(b, 20, 2) = 1 /\ Tag(b, 36) = DATA
               /\ Field(b, 34, 2) * Field(b, 24, 4) * Field(b, 22, 2) = 8 * Field(b, 28, 4)
               /\ Field(b, 34, 2) \in {8, 16, 32}
Complete(b) == 44 + Field(b, 40, 4) <= Len(b)
NFrames(b) == Field(b, 40, 4) \div Field(b, 32, 2)
InRange(b, off, num) == /\ off >= 0 /\ off <= NFrames(b)
                        /\ num = NONE \/ (num >= 0 /\ off + num <= NFrames(b))
Present(b, off, num) ==  \* the frames asked for are in the file, whatever its header announces
    LET k == IF num = NONE THEN NFrames(b) - off ELSE num
    IN k = 0 \/ 44 + Field(b, 32, 2) * (off + k) <= Len(b)   \* no frames are always there
Sample(b, i, c) == LET ch == Field(b, 22, 2) w == Field(b, 32, 2) \div ch
                       p == 44 + ((i - 1) * ch + (c - 1)) * w
                   IN SUnLE(SubSeq(b, p + 1, p + w))
Frames(b, off, num) ==
    LET k == IF num = NONE THEN NFrames(b) - off ELSE num
    IN [i \in 1..k |-> [c \in 1..Field(b, 22, 2) |-> Sample(b, off + i, c)]]

Transpose(m, rows, cols) == [c \in 1..cols |-> [r \in 1..rows |-> m[r][c]]]

(* --- exhaustive model: every small file, every request                     *)
CONSTANTS MaxFrames, Rates
Samples1 == {-128, -1, 0, 127}
Samples2 == {-32768, -1, 255, 32767}
VARIABLES file, src, req, res
vars == <<file, src, req, res>>
FrameSets(ch, S) == UNION {[1..n -> [1..ch -> S]] : n \in 0..MaxFrames}
Init == /\ src \in {[ch |-> 1, w |-> 1, rate |-> r, fr |-> f] : r \in Rates, f \in FrameSets(1, Samples1)}
                \cup {[ch |-> 2, w |-> 1, rate |-> r, fr |-> f] : r \in Rates, f \in FrameSets(2, Samples1)}
                \cup {[ch |-> 1, w |-> 2, rate |-> r, fr |-> f] : r \in Rates, f \in FrameSets(1, Samples2)}
                \cup {[ch |-> 2, w |-> 2, rate |-> r, fr |-> f] : r \in Rates, f \in FrameSets(2, Samples2)}
        /\ file = <<>> /\ req = <<>> /\ res = <<>>
Write == file = <<>> /\ file' = Encode(src.ch, src.rate, src.w, src.fr) /\ UNCHANGED <<src, req, res>>
Read(off, num) == /\ file # <<>> /\ req = <<>>
                  /\ req' = <<off, num>>
                  /\ res' = IF Readable(file) /\ Complete(file) /\ InRange(file, off, num) THEN Frames(file, off, num) ELSE <<"refused">>
                  /\ UNCHANGED <<file, src>>
Next == Write \/ \E off \in -1..(MaxFrames + 1), num \in {NONE, -1} \cup 0..(MaxFrames + 1) : Read(off, num)
Spec == Init /\ [][Next]_vars

WellFormed == file # <<>> => HeaderClause(file, src.ch, src.rate, src.w, Len(src.fr)) = "ok"
Roundtrip == (req # <<>>) =>
    LET off == req[1] num == req[2] n == Len(src.fr)
        ok == off \in 0..n /\ (num = NONE \/ (num >= 0 /\ off + num <= n))
    IN res = IF ok THEN SubSeq(src.fr, off + 1, IF num = NONE THEN n ELSE off + num) ELSE <<"refused">>
WriteReadWrite == file # <<>> => Encode(src.ch, src.rate, src.w, Frames(file, 0, NONE)) = file
=============================================================================
