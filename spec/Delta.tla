-------------------------------- MODULE Delta --------------------------------
(* Difference coding along a traversal: the encoder emits the differences of
   successive pixels (the first with 0), the decoder adds them up and puts the
   results back at the places of the same traversal.  Encoder and decoder run
   concurrently, connected by the sequence of differences. *)
EXTENDS Common

CONSTANTS MaxValue, MaxPixels

VARIABLES image, order, n, prev, diffs, m, acc, result

vars == <<image, order, n, prev, diffs, m, acc, result>>

Perms(k) == {f \in [1..k -> 1..k] : \A a, b \in 1..k : a # b => f[a] # f[b]}

Init ==
    /\ \E k \in 1..MaxPixels : image \in [1..k -> 0..MaxValue] /\ order \in Perms(k)
    /\ n = 0 /\ prev = 0 /\ diffs = << >> /\ m = 0 /\ acc = 0
    /\ result = [k \in 1..Len(image) |-> -1]

Emit ==
    /\ n < Len(image)
    /\ LET x == image[order[n + 1]] IN diffs' = Append(diffs, x - prev) /\ prev' = x
    /\ n' = n + 1
    /\ UNCHANGED <<image, order, m, acc, result>>

Absorb ==
    /\ m < Len(diffs)
    /\ acc' = acc + diffs[m + 1]
    /\ result' = [result EXCEPT ![order[m + 1]] = acc']
    /\ m' = m + 1
    /\ UNCHANGED <<image, order, n, prev, diffs>>

Done == m = Len(image)
Next == Emit \/ Absorb \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Emit \/ Absorb)

DiffsInRange == \A k \in 1..Len(diffs) : -MaxValue <= diffs[k] /\ diffs[k] <= MaxValue
AccIsAPixel == m > 0 => acc = image[order[m]]
RoundTrip == Done => result = image
PartOfImage == \A k \in 1..Len(image) : result[k] = -1 \/ result[k] = image[k]
Terminates == <>Done
=============================================================================
