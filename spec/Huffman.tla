------------------------------- MODULE Huffman -------------------------------
(* The prefix-code container shared by the hufman, delta and cluster-colors
   codecs, as a machine that reads a stream:

     tree     preorder: tag 1 = branch (left child, right child), tag 0 = leaf
              followed by its symbol;
     payload  the codes of the symbols, 0 = left, 1 = right, first bit of the
              path in the most significant bit, padded with zeros to a byte.

   One action per tree node and one per symbol of the message.  The stream is
   given by TagAt(p), SymAt(p) (p: byte offset from 1) and BitAt(b) (b: bit
   number in the payload which starts at byte `at` when the tree is over);
   LeafLen(p) is the length of the symbol of the leaf at p.

   The optimal cost is the sum of the weights of the internal nodes created by
   repeatedly merging two lightest trees (checked against brute force over all
   the prefix codes in MCHuffman). *)
EXTENDS Common

CONSTANTS TagAt(_), SymAt(_), BitAt(_, _), LeafLen(_)

VARIABLES
    at,      \* next byte of the tree, later first byte of the payload
    path,    \* path to the next node
    syms,    \* symbols of the leaves read so far
    codes,   \* their codes
    phase,   \* "tree", "payload"
    bit,     \* bits of the payload consumed
    out      \* number of symbols of the message read

hvars == <<at, path, syms, codes, phase, bit, out>>

\* Path to the node after a leaf, in preorder; <<2>> when the tree is over
After(p) ==
    LET Turn == {k \in 1..Len(p) : p[k] = 0 /\ \A j \in k + 1..Len(p) : p[j] = 1}
    IN IF Turn = {} THEN <<2>>
       ELSE LET k == CHOOSE k \in Turn : TRUE IN [j \in 1..k |-> IF j = k THEN 1 ELSE p[j]]

HInit(start) ==
    /\ at = start /\ path = << >> /\ syms = << >> /\ codes = << >>
    /\ phase = "tree" /\ bit = 0 /\ out = 0

ReadBranch ==
    /\ phase = "tree" /\ TagAt(at) = 1
    /\ at' = at + 1
    /\ path' = Append(path, 0)
    /\ UNCHANGED <<syms, codes, phase, bit, out>>

ReadLeaf ==
    /\ phase = "tree" /\ TagAt(at) = 0
    /\ at' = at + 1 + LeafLen(at)
    /\ syms' = Append(syms, SymAt(at + 1))
    /\ codes' = Append(codes, path)
    /\ path' = IF After(path) = <<2>> THEN << >> ELSE After(path)
    /\ phase' = IF After(path) = <<2>> THEN "payload" ELSE "tree"
    /\ UNCHANGED <<bit, out>>

\* The next symbol of the message is that of leaf x
ReadSymbol(x) ==
    /\ phase = "payload"
    /\ x \in 1..Len(codes)
    /\ \A j \in 1..Len(codes[x]) : BitAt(at, bit + j - 1) = codes[x][j]
    /\ bit' = bit + Len(codes[x])
    /\ out' = out + 1
    /\ UNCHANGED <<at, path, syms, codes, phase>>

\* No symbol twice in the tree
Distinct == phase = "payload" => Cardinality({syms[j] : j \in 1..Len(syms)}) = Len(syms)
PrefixFree ==
    phase = "payload" =>
        \A a, b \in 1..Len(codes) :
            a # b => ~(Len(codes[a]) <= Len(codes[b]) /\ SubSeq(codes[b], 1, Len(codes[a])) = codes[a])

(* Cost of an optimal code, by the two-queue algorithm: ws are the weights in
   ascending order, q the weights of the trees built so far, whose heads are at
   i and j. *)
HeadIsLeaf(ws, q, i, j) == IF j > Len(q) THEN TRUE ELSE IF i > Len(ws) THEN FALSE ELSE ws[i] <= q[j]
PopW(ws, q, i, j) == IF HeadIsLeaf(ws, q, i, j) THEN ws[i] ELSE q[j]
PopI(ws, q, i, j) == IF HeadIsLeaf(ws, q, i, j) THEN i + 1 ELSE i
PopJ(ws, q, i, j) == IF HeadIsLeaf(ws, q, i, j) THEN j ELSE j + 1
Left(ws, q, i, j) == (Len(ws) - i + 1) + (Len(q) - j + 1)

RECURSIVE OptRec(_, _, _, _, _)
OptRec(ws, q, i, j, cost) ==
    IF Left(ws, q, i, j) < 2 THEN cost
    ELSE LET a == PopW(ws, q, i, j) i1 == PopI(ws, q, i, j) j1 == PopJ(ws, q, i, j)
             b == PopW(ws, q, i1, j1) i2 == PopI(ws, q, i1, j1) j2 == PopJ(ws, q, i1, j1)
         IN OptRec(ws, Append(q, a + b), i2, j2, cost + a + b)
OptCost(ws) == OptRec(ws, << >>, 1, 1, 0)
=============================================================================
