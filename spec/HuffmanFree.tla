----------------------------- MODULE HuffmanFree -----------------------------
(* Any writer of the format of Huffman: any binary tree, with different symbols
   on its leaves, used or not; any message over them.  The reader of Huffman
   must see the message. *)
EXTENDS Huffman, Json

CONSTANTS MaxLeaves, MaxMsg

VARIABLES
    tokens,   \* preorder of the tree: 1, or 0 followed by the symbol
    todo,     \* subtrees still to be written
    used,     \* number of leaves written
    msg, bits,
    stage     \* "tree", "msg", "read", "done"

fvars == <<tokens, todo, used, msg, bits, stage, at, path, syms, codes, phase, bit, out>>

FTagAt(p) == IF p <= Len(tokens) THEN tokens[p] ELSE 9
FLeafLen(p) == 1
FSymAt(p) == tokens[p]
FBitAt(a, b) == IF b < Len(bits) THEN bits[b + 1] ELSE 9

FInit ==
    /\ tokens = << >> /\ todo = 1 /\ used = 0 /\ msg = << >> /\ bits = << >> /\ stage = "tree"
    /\ HInit(1)

Branch ==
    /\ stage = "tree" /\ todo > 0 /\ used + todo < MaxLeaves
    /\ tokens' = Append(tokens, 1) /\ todo' = todo + 1
    /\ UNCHANGED <<used, msg, bits, stage, at, path, syms, codes, phase, bit, out>>
\* (the symbols are numbered along the leaves: the replay gives them values)
Leaf ==
    /\ stage = "tree" /\ todo > 0
    /\ tokens' = tokens \o <<0, used + 1>> /\ todo' = todo - 1 /\ used' = used + 1
    /\ UNCHANGED <<msg, bits, stage, at, path, syms, codes, phase, bit, out>>
TreeOver ==
    /\ stage = "tree" /\ todo = 0 /\ stage' = "msg"
    /\ UNCHANGED <<tokens, todo, used, msg, bits, at, path, syms, codes, phase, bit, out>>

\* code of symbol s in the preorder (walk from position p along path q)
RECURSIVE CodeIn(_, _, _)
CodeIn(s, p, q) ==
    IF tokens[p] = 1 THEN CodeIn(s, p + 1, Append(q, 0))
    ELSE IF tokens[p + 1] = s THEN q
    ELSE CodeIn(s, p + 2, After(q))
Say(s) ==
    /\ stage = "msg" /\ Len(msg) < MaxMsg
    /\ msg' = Append(msg, s)
    /\ bits' = bits \o CodeIn(s, 1, << >>)
    /\ UNCHANGED <<tokens, todo, used, stage, at, path, syms, codes, phase, bit, out>>
Said ==
    /\ stage = "msg" /\ msg # << >> /\ stage' = "read"
    /\ UNCHANGED <<tokens, todo, used, msg, bits, at, path, syms, codes, phase, bit, out>>

Read ==
    /\ stage = "read"
    /\ \/ ReadBranch \/ ReadLeaf
       \/ out < Len(msg) /\ \E x \in 1..Len(syms) : ReadSymbol(x) /\ syms[x] = msg[out + 1]
    /\ UNCHANGED <<tokens, todo, used, msg, bits, stage>>
Finish ==
    /\ stage = "read" /\ phase = "payload" /\ out = Len(msg) /\ stage' = "done"
    /\ UNCHANGED <<tokens, todo, used, msg, bits, at, path, syms, codes, phase, bit, out>>

Write == Branch \/ Leaf \/ TreeOver \/ (\E s \in 1..used : Say(s)) \/ Said
FNext == Write \/ Read \/ Finish \/ (stage = "done" /\ UNCHANGED fvars)
FSpec == FInit /\ [][FNext]_fvars /\ WF_fvars(FNext)

\* the next symbol is never in doubt
Deterministic ==
    phase = "payload" /\ out < Len(msg) =>
        {x \in 1..Len(codes) : \A j \in 1..Len(codes[x]) : FBitAt(at, bit + j - 1) = codes[x][j]}
          = {x \in 1..Len(codes) : syms[x] = msg[out + 1]}
TreeRead == phase = "payload" => Len(syms) = used /\ at = Len(tokens) + 1
AllBits == stage = "done" => bit = Len(bits)
Terminates == <>(stage = "done")

Emit == stage = "read" /\ PrintT("@@" \o ToJson([tree |-> tokens, leaves |-> used, msg |-> msg, bits |-> bits])) /\ UNCHANGED fvars
GSpec == FInit /\ [][Write \/ Emit]_fvars
=============================================================================
