---------------------------- MODULE ZipDictTrace ----------------------------
(* Streams written by the real dictionary compressor, pair by pair.

   This is ZipDict with the dictionary represented by what it is made of: the
   entry defined by the k-th pair is the slice of the data the pair covers.

   trace = [mode |-> "raw"   the data is `raw`
                   | "img"   dimensions, then the pixels in raster order
                   | "hil",  the pixels along the traversal `order`; the
                             dimensions precede the compressed stream
            w, h, px, order, raw, n |-> length of the data,
            head |-> the bytes that precede the pairs (hil), a, b |-> symbols of the pairs,
            start |-> start[k] = first byte covered by pair k (n + 1 after the last),
            greedy |-> 1: check that the symbols are the longest ones,
            perm |-> the defined pairs sorted by the two first bytes they cover, inv |-> its inverse
            lo1, hi1, lo2, hi2 |-> for each symbol, the range of perm with its two first bytes
                     (-1: this symbol's being the longest isn't checked)]
   start, perm, inv, lo, hi are hints, whose claims are verified. *)
EXTENDS ZipData

Eof == 65535
MaxDefs == 65535 - 256        \* codes 256..65534

VARIABLES k, pos

tvars == <<tr, k, pos>>
NPairs == Len(T.a)
Defs == Len(T.perm)
Key(p) == DataAt(p) * 256 + DataAt(p + 1)

EntryLen(e) == T.start[e + 1] - T.start[e]
SymLen(c) == IF c < 256 THEN 1 ELSE IF c = Eof THEN 0 ELSE EntryLen(c - 255)

\* c is known before the k-th pair is defined
KnownAt(c, j) == c < 256 \/ (c # Eof /\ c - 255 < j /\ c - 255 <= MaxDefs)

MatchesAt(c, p) ==
    IF c < 256 THEN p <= T.n /\ DataAt(p) = c
    ELSE LET e == c - 255 IN
         /\ p + EntryLen(e) - 1 <= T.n
         /\ \A j \in 0..EntryLen(e) - 1 : DataAt(T.start[e] + j) = DataAt(p + j)

\* no defined entry longer than len matches at p
NoLonger(p, len, j, lo, hi) ==
    IF T.greedy = 0 \/ p >= T.n \/ lo = -1 THEN TRUE
    ELSE /\ 1 <= lo /\ lo <= hi + 1 /\ hi <= Defs
         /\ lo > 1 => Key(T.start[T.perm[lo - 1]]) < Key(p)
         /\ hi < Defs => Key(T.start[T.perm[hi + 1]]) > Key(p)
         /\ \A x \in lo..hi :
               LET e == T.perm[x] IN
               IF e >= j \/ EntryLen(e) <= len \/ p + EntryLen(e) - 1 > T.n THEN TRUE
               ELSE IF DataAt(T.start[e] + len) # DataAt(p + len) THEN TRUE
               ELSE ~MatchesAt(255 + e, p)

SortedIndex ==
    T.greedy = 1 =>
        /\ Defs = Min2(MaxDefs, IF NPairs = 0 THEN 0 ELSE IF T.b[NPairs] = Eof THEN NPairs - 1 ELSE NPairs)
        /\ Len(T.inv) = Defs
        /\ \A e \in 1..Defs : 1 <= T.inv[e] /\ T.inv[e] <= Defs /\ T.perm[T.inv[e]] = e
        /\ \A x \in 1..Defs - 1 : Key(T.start[T.perm[x]]) <= Key(T.start[T.perm[x + 1]])

TInit ==
    /\ tr \in 1..Len(Traces)
    /\ k = 0 /\ pos = 1

Begin ==
    /\ k = 0
    /\ T.n = DataLen
    /\ Len(T.b) = NPairs /\ Len(T.start) = NPairs + 1 /\ T.start[1] = 1
    /\ IF T.mode = "hil" THEN Len(T.head) = 8 /\ LE32(T.head, 1) = T.w /\ LE32(T.head, 5) = T.h
       ELSE Len(T.head) = 0
    /\ Holds(\A e \in 1..NPairs : T.start[e] < T.start[e + 1] /\ T.start[e + 1] <= T.n + 1)
    /\ Holds(SortedIndex)
    /\ k' = 1 /\ pos' = pos /\ tr' = tr

Pair ==
    /\ k >= 1 /\ k <= NPairs
    /\ LET a == T.a[k] b == T.b[k] p2 == pos + SymLen(a) IN
         /\ KnownAt(a, k) /\ Holds(MatchesAt(a, pos))
         /\ Holds(NoLonger(pos, SymLen(a), k, T.lo1[k], T.hi1[k]))
         /\ IF b = Eof THEN k = NPairs /\ p2 = T.n + 1
            ELSE /\ KnownAt(b, k) /\ Holds(MatchesAt(b, p2))
                 /\ Holds(NoLonger(p2, SymLen(b), k, T.lo2[k], T.hi2[k]))
         /\ pos' = p2 + SymLen(b)
         /\ T.start[k] = pos /\ T.start[k + 1] = pos'
    /\ k' = k + 1 /\ tr' = tr

End == k = NPairs + 1 /\ pos = T.n + 1 /\ k' = NPairs + 2 /\ UNCHANGED <<tr, pos>>

TNext == Begin \/ Pair \/ End \/ (k = NPairs + 2 /\ UNCHANGED tvars)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
