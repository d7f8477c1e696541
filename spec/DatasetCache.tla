---------------------------- MODULE DatasetCache ----------------------------
(* The sample-data helper: two archives (speech, room responses) are fetched   *)
(* once into a cache directory, digested per request into small files, and the *)
(* images are built from those.  The network can be up, down, or cut a         *)
(* transfer short; the user may remove cached files.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxReq,    \* requests in a history
          KeyS, KeyM \* the fields naming a digested speech / response file

Tags == {"dev1_female3", "dev1_female4"}
InRecording(tag) == IF tag = "dev1_female3" THEN 3 ELSE 4
Length(tag) == IF tag = "dev1_female3" THEN 12000 ELSE 10400      \* samples, of the stand-in recordings
Reverbs == {160, 360, 610}                                       \* milliseconds
Degrees == <<30, 345, 0, 60>>
Channels == <<3, 4, 2, 5>>
Rate == 16000
Default == [tag |-> "dev1_female3", n |-> 3, rev |-> 160, dur |-> 160000, conv |-> TRUE]

Valid(r) == /\ r.tag \in Tags /\ r.n \in 1..4 /\ r.n <= InRecording(r.tag)
            /\ r.conv => r.rev \in Reverbs
Min(a, b) == IF a < b THEN a ELSE b
Samples(r) == Min(r.dur, Length(r.tag))
Shape(r) == <<r.n, r.n, Samples(r)>>
(* what sits at each (channel, source) of the answer: source i of the recording *)
(* heard through the response from direction Degrees[i] at microphone           *)
(* Channels[c] of the requested room, that response ending at the reverberation *)
(* time; or an instantaneous gain                                               *)
Image(r) == [ch \in 1..r.n |-> [s \in 1..r.n |->
                IF r.conv THEN [tag |-> r.tag, src |-> s, rev |-> r.rev, deg |-> Degrees[s], mic |-> Channels[ch], taps |-> 16 * r.rev]
                ELSE [tag |-> r.tag, src |-> s, rev |-> 0, deg |-> 0, mic |-> 0, taps |-> 0]]]
Answer(r) == [shape |-> Shape(r), rate |-> Rate, image |-> Image(r)]

(* ---- the design ---- *)
VARIABLES zip,     \* fetched archives: name -> "whole" (a partial one is never under its final name)
          dig,     \* digested files: [name |-> key values, holds |-> contents]
          net, req, pc, ans, hist
vars == <<zip, dig, net, req, pc, ans, hist>>
Sub(r, K) == [k \in K |-> IF k = "tag" THEN <<r.tag>> ELSE IF k = "n" THEN <<r.n>> ELSE IF k = "rev" THEN <<r.rev>> ELSE <<>>]
NameS(r) == [kind |-> "speech", key |-> Sub(r, KeyS)]
NameM(r) == [kind |-> "room", key |-> Sub(r, KeyM)]
HoldsS(r) == [i \in 1..r.n |-> <<r.tag, i>>]
HoldsM(r) == [i \in 1..r.n |-> <<r.rev, Degrees[i], SubSeq(Channels, 1, r.n)>>]
ZipM(r) == "room" \o ToString(r.rev)
Requests == {r \in [tag : Tags \cup {"dev1_male3"}, n : {0, 2, 3, 4, 5}, rev : {160, 610, 200}, dur : {4800}, conv : BOOLEAN] :
               (r.conv \/ r.rev = 160) /\ (r.tag = "dev1_male3" => r.n = 3 /\ r.rev = 160 /\ r.conv)}
None == [tag |-> "-", n |-> 0, rev |-> 0, dur |-> 0, conv |-> FALSE]
Has(name) == \E d \in dig : d.name = name
Held(name) == (CHOOSE d \in dig : d.name = name).holds

Init == zip = {} /\ dig = {} /\ net = "up" /\ req = None /\ pc = "idle" /\ ans = <<>> /\ hist = 0
Begin == /\ pc = "idle" /\ hist < MaxReq
         /\ \E r \in Requests, w \in {"up", "down", "cut"} : req' = r /\ net' = w
         /\ pc' = "check" /\ ans' = <<>> /\ hist' = hist + 1 /\ UNCHANGED <<zip, dig>>
Refuse == pc' = "idle" /\ ans' = <<"refused">> /\ UNCHANGED <<zip, dig, net, req, hist>>
Go(p) == pc' = p /\ UNCHANGED <<net, req, hist>>
Check == pc = "check" /\ IF req.tag \in Tags THEN Go("zipS") /\ UNCHANGED <<zip, dig, ans>> ELSE Refuse
Fetch(p, name, next) == pc = p /\ IF name \in zip THEN Go(next) /\ UNCHANGED <<zip, dig, ans>>
                                  ELSE IF net = "up" THEN zip' = zip \cup {name} /\ Go(next) /\ UNCHANGED <<dig, ans>>
                                  ELSE Refuse
ZipS == Fetch("zipS", "speech", "digS")
DigS == pc = "digS" /\ IF req.n \notin 1..4 THEN Refuse
                       ELSE IF Has(NameS(req)) THEN Go(IF req.conv THEN "checkM" ELSE "answer") /\ UNCHANGED <<zip, dig, ans>>
                       ELSE IF req.n > InRecording(req.tag) THEN Refuse
                       ELSE dig' = dig \cup {[name |-> NameS(req), holds |-> HoldsS(req)]} /\ Go(IF req.conv THEN "checkM" ELSE "answer") /\ UNCHANGED <<zip, ans>>
CheckM == pc = "checkM" /\ IF req.rev \in Reverbs THEN Go("zipM") /\ UNCHANGED <<zip, dig, ans>> ELSE Refuse
ZipMStep == Fetch("zipM", ZipM(req), "digM")
DigM == pc = "digM" /\ (IF Has(NameM(req)) THEN UNCHANGED dig ELSE dig' = dig \cup {[name |-> NameM(req), holds |-> HoldsM(req)]})
                    /\ Go("answer") /\ UNCHANGED <<zip, ans>>
Built == [s |-> [i \in 1..req.n |-> IF i \in DOMAIN Held(NameS(req)) THEN Held(NameS(req))[i] ELSE <<"missing", i>>],
          m |-> IF req.conv THEN [i \in 1..req.n |-> IF i \in DOMAIN Held(NameM(req)) THEN Held(NameM(req))[i] ELSE <<0, 0, <<>>>>] ELSE <<>>]
Fresh(r) == [s |-> HoldsS(r), m |-> IF r.conv THEN HoldsM(r) ELSE <<>>]
AnswerStep == pc = "answer" /\ ans' = <<"ok", Built>> /\ pc' = "idle" /\ UNCHANGED <<zip, dig, net, req, hist>>
Evict == /\ pc = "idle" /\ UNCHANGED <<net, req, pc, ans, hist>>
         /\ \/ \E d \in dig : dig' = dig \ {d} /\ UNCHANGED zip
            \/ \E z \in zip : zip' = zip \ {z} /\ UNCHANGED dig
Next == Begin \/ Check \/ ZipS \/ DigS \/ CheckM \/ ZipMStep \/ DigM \/ AnswerStep \/ Evict
Spec == Init /\ [][Next]_vars

(* the answer depends on the request alone *)
OnlyTheRequest == ans # <<>> => IF ans[1] = "ok" THEN Valid(req) /\ ans[2] = Fresh(req)
                                ELSE ~Valid(req) \/ net # "up"
(* every digested file holds what its name says, for every request it serves *)
Faithful == \A d \in dig : \A r \in Requests : Valid(r) =>
               /\ (d.name = NameS(r) => d.holds = HoldsS(r))
               /\ (d.name = NameM(r) /\ r.conv => d.holds = HoldsM(r))
(* no more files than distinct names *)
OneFilePerName == \A d, e \in dig : d.name = e.name => d = e
(* once its archives are in the cache a valid request needs no network *)
WarmAnswers == (ans = <<"refused">> /\ Valid(req)) => ~({"speech"} \cup (IF req.conv THEN {ZipM(req)} ELSE {}) \subseteq zip)
=============================================================================
