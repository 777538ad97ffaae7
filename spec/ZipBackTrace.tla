---------------------------- MODULE ZipBackTrace ----------------------------
(* Streams written by the real look-back compressor, symbol by symbol: the
   rules of ZipBack (WellFormed, Maximal, the decoder) with the real constants.

   trace = data as in ZipData (mode "raw" or "img"), bytes |-> the stream,
           maximal |-> 1: check that references are as long as possible and that
           explicit symbols start where there is no repetition;
                      2: a stream of any writer of the format, with shorter references too
                      3: as 1, for the symbols with lo = 1 only and without perm and inv,
                         by looking at the whole window
           perm |-> positions 1..n-5 sorted by the 6 bytes found there, inv |-> its inverse
           lo, hi |-> for each symbol, the range of perm with the 6 bytes at its start *)
EXTENDS ZipData

Window == 65535
MinRep == 6
MaxLen == 32767

VARIABLES at, pos, k      \* next byte of the stream, next byte of the data, symbols read

tvars == <<tr, at, pos, k>>

Keys == Max2(0, T.n - 5)
Key1(p) == (DataAt(p) * 256 + DataAt(p + 1)) * 256 + DataAt(p + 2)
KeyLess(p, q) == \/ Key1(p) < Key1(q)
                 \/ Key1(p) = Key1(q) /\ Key1(p + 3) < Key1(q + 3)
KeySame(p, q) == Key1(p) = Key1(q) /\ Key1(p + 3) = Key1(q + 3)

SortedIndex ==
    T.maximal = 1 =>
        /\ Len(T.perm) = Keys /\ Len(T.inv) = Keys
        /\ \A p \in 1..Keys : 1 <= T.inv[p] /\ T.inv[p] <= Keys /\ T.perm[T.inv[p]] = p
        /\ \A x \in 1..Keys - 1 : ~KeyLess(T.perm[x + 1], T.perm[x])

SameSlice(p, q, len) == \A j \in 0..len - 1 : DataAt(p + j) = DataAt(q + j)

\* Is a repetition of more than len bytes available at p?  (len >= 5)
NoLonger(p, len, lo, hi) ==
    IF T.maximal \notin {1, 3} \/ p > Keys \/ len >= MaxLen THEN TRUE
    ELSE IF T.maximal = 3 THEN
         lo = 1 => \A q \in Max2(1, p - Window)..p - len - 1 :
             IF DataAt(q) # DataAt(p) THEN TRUE
             ELSE IF p + len > T.n THEN TRUE
             ELSE IF DataAt(q + len) # DataAt(p + len) THEN TRUE
             ELSE ~SameSlice(q, p, len)
    ELSE /\ 1 <= lo /\ lo <= hi /\ hi <= Keys
         /\ lo > 1 => KeyLess(T.perm[lo - 1], p)
         /\ hi < Keys => KeyLess(p, T.perm[hi + 1])
         /\ \A x \in lo..hi :
               LET q == T.perm[x] IN
               \* a repetition of len + 1 bytes from q
               IF q + len >= p \/ p - q > Window \/ p + len > T.n THEN TRUE
               ELSE IF DataAt(q + len) # DataAt(p + len) THEN TRUE
               ELSE ~SameSlice(q, p, len)

TInit == tr \in 1..Len(Traces) /\ at = 1 /\ pos = 1 /\ k = -1

Begin ==
    /\ k = -1
    /\ T.n = DataLen
    /\ Holds(SortedIndex)
    /\ k' = 0 /\ UNCHANGED <<tr, at, pos>>

SymbolLen == LET v == LE16(T.bytes, at) IN v % 32768
IsRef == LE16(T.bytes, at) >= 32768

Explicit ==
    /\ k >= 0 /\ at + 1 <= Len(T.bytes) /\ ~IsRef
    /\ SymbolLen >= 1 /\ SymbolLen <= MaxLen
    /\ at + 1 + SymbolLen <= Len(T.bytes)
    /\ pos + SymbolLen - 1 <= T.n
    /\ Holds(\A j \in 0..SymbolLen - 1 : T.bytes[at + 2 + j] = DataAt(pos + j))
    /\ Holds(NoLonger(pos, MinRep - 1, T.lo[k + 1], T.hi[k + 1]))
    /\ at' = at + 2 + SymbolLen /\ pos' = pos + SymbolLen /\ k' = k + 1 /\ tr' = tr

Reference ==
    /\ k >= 0 /\ at + 3 <= Len(T.bytes) /\ IsRef
    /\ (IF T.maximal = 2 THEN 1 ELSE MinRep) <= SymbolLen /\ SymbolLen <= MaxLen
    /\ LET back == LE16(T.bytes, at + 2) IN
         /\ SymbolLen <= back /\ back <= Min2(pos - 1, Window)
         /\ pos + SymbolLen - 1 <= T.n
         /\ Holds(SameSlice(pos - back, pos, SymbolLen))
    /\ Holds(NoLonger(pos, SymbolLen, T.lo[k + 1], T.hi[k + 1]))
    /\ at' = at + 4 /\ pos' = pos + SymbolLen /\ k' = k + 1 /\ tr' = tr

End == k >= 0 /\ at = Len(T.bytes) + 1 /\ pos = T.n + 1 /\ k' = -2 /\ UNCHANGED <<tr, at, pos>>

TNext == Begin \/ Explicit \/ Reference \/ End \/ (k = -2 /\ UNCHANGED tvars)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
