------------------------------ MODULE MCHuffman ------------------------------
(* The construction of the code (merging two lightest trees, any of them on
   ties), the encoder, and the reader of Huffman.tla behind it. *)
EXTENDS Huffman, SequencesExt

CONSTANTS MaxSyms, MaxWeight

VARIABLES
    counts,   \* weights, ascending (symbol s has weight counts[s])
    forest,   \* set of [w, t, id]; t is the preorder of the tree
    msg,      \* the message: every symbol counts[s] times, in some order
    stream,   \* [tree, bits]
    done

mvars == <<counts, forest, msg, stream, done, at, path, syms, codes, phase, bit, out>>

Tree == stream.tree
Bits == stream.bits
\* tree as a sequence of tokens: 1, or 0 followed by the symbol
MTagAt(p) == IF p <= Len(Tree) THEN Tree[p] ELSE 9
MLeafLen(p) == 1
MSymAt(p) == Tree[p]
MBitAt(a, b) == IF b < Len(Bits) THEN Bits[b + 1] ELSE 9

Vectors == {c \in UNION {[1..n -> 1..MaxWeight] : n \in 1..MaxSyms} :
               \A j \in 1..Len(c) - 1 : c[j] <= c[j + 1]}

RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN << >> ELSE <<s>> \o Rep(s, n - 1)
RECURSIVE Message(_, _)
Message(c, s) == IF s > Len(c) THEN << >> ELSE Rep(s, c[s]) \o Message(c, s + 1)

Build == "build"

MInit ==
    /\ counts \in Vectors
    /\ forest = {[w |-> counts[s], t |-> <<0, s>>, id |-> s] : s \in 1..Len(counts)}
    /\ msg = LET m == Message(counts, 1) IN [j \in 1..Len(m) |-> m[((j * 23) % Len(m)) + 1]]
    /\ stream = [tree |-> << >>, bits |-> << >>]
    /\ done = FALSE
    /\ at = 1 /\ path = << >> /\ syms = << >> /\ codes = << >> /\ phase = Build /\ bit = 0 /\ out = 0

\* any two lightest trees, in any order
MergeTwo ==
    /\ phase = Build /\ Cardinality(forest) > 1
    /\ \E a \in forest : \E b \in forest \ {a} :
         /\ \A x \in forest : a.w <= x.w
         /\ \A x \in forest \ {a} : b.w <= x.w
         /\ \E swap \in BOOLEAN :
              LET l == IF swap THEN b ELSE a
                  r == IF swap THEN a ELSE b IN
              forest' = (forest \ {a, b}) \cup {[w |-> a.w + b.w, t |-> <<1>> \o l.t \o r.t, id |-> a.id]}
    /\ UNCHANGED <<counts, msg, stream, done, at, path, syms, codes, phase, bit, out>>

\* code of symbol s in the preorder t (walk from position p along path q)
RECURSIVE CodeIn(_, _, _, _)
CodeIn(t, s, p, q) ==
    IF t[p] = 1 THEN CodeIn(t, s, p + 1, Append(q, 0))
    ELSE IF t[p + 1] = s THEN q
    ELSE CodeIn(t, s, p + 2, After(q))

Emit ==
    /\ phase = Build /\ Cardinality(forest) = 1
    /\ LET t == (CHOOSE x \in forest : TRUE).t
           b == FlattenSeq([j \in 1..Len(msg) |-> CodeIn(t, msg[j], 1, << >>)])
           pad == (8 - (Len(b) % 8)) % 8
       IN stream' = [tree |-> t, bits |-> b \o [j \in 1..pad |-> 0]]
    /\ phase' = "tree"
    /\ UNCHANGED <<counts, forest, msg, done, at, path, syms, codes, bit, out>>

Read ==
    /\ ~done
    /\ \/ ReadBranch \/ ReadLeaf
       \/ /\ out < Len(msg)
          /\ \E x \in 1..Len(syms) : ReadSymbol(x)
    /\ UNCHANGED <<counts, forest, msg, stream, done>>

Finish == phase = "payload" /\ out = Len(msg) /\ ~done /\ done' = TRUE
          /\ UNCHANGED <<counts, forest, msg, stream, at, path, syms, codes, phase, bit, out>>

MNext == MergeTwo \/ Emit \/ Read \/ Finish \/ (done /\ UNCHANGED mvars)
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(MNext)

(* The reader never has a choice, and sees the message *)
Deterministic ==
    phase = "payload" /\ out < Len(msg) =>
        {x \in 1..Len(codes) : \A j \in 1..Len(codes[x]) : MBitAt(at, bit + j - 1) = codes[x][j]}
          = {x \in 1..Len(codes) : syms[x] = msg[out + 1]}
AllSymbols == phase = "payload" => {syms[j] : j \in 1..Len(syms)} = 1..Len(counts)
\* Brute force: the least total length over all code lengths satisfying Kraft's inequality
RECURSIVE Kraft(_, _)
Kraft(l, n) == IF n = 0 THEN 0 ELSE 2 ^ (MaxSyms - l[n]) + Kraft(l, n - 1)
RECURSIVE Dot(_, _, _)
Dot(c, l, n) == IF n = 0 THEN 0 ELSE c[n] * l[n] + Dot(c, l, n - 1)
Brute(c) == IF Len(c) = 1 THEN 0
            ELSE LET L == {l \in [1..Len(c) -> 1..Len(c) - 1] : Kraft(l, Len(c)) <= 2 ^ MaxSyms}
                     C == {Dot(c, l, Len(c)) : l \in L}
                 IN CHOOSE m \in C : \A x \in C : m <= x
Optimal == done => bit = Brute(counts) /\ bit = OptCost(counts)
Padding == done => /\ Len(Bits) = 8 * ((bit + 7) \div 8)
                   /\ \A j \in bit + 1..Len(Bits) : Bits[j] = 0
TreeSize == phase = "payload" => at = 1 + 3 * Len(counts) - 1
Terminates == <>done
=============================================================================
