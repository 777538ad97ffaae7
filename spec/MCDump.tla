------------------------------- MODULE MCDump -------------------------------
(* The dump of tiny images (with pixels of distinct colours, numbered from 1)
   along all walks: the program opens a file, which empties what an earlier run
   left in it, writes the header and a line per step that shows a pixel. *)
EXTENDS Dump
CONSTANTS MaxW, MaxH, Truncate
VARIABLES w, h, f, walk, lines, disk, finished
vars == <<w, h, f, walk, lines, disk, finished>>
Files == <<"rect", "small", "large">>

SideW == CASE f = 1 -> w [] f = 2 -> Inside(w, h) [] f = 3 -> Around(w, h)
SideH == IF f = 1 THEN h ELSE SideW
Old == <<-1>>         \* the header of an earlier run, lines of an earlier image
Init ==
    /\ w \in 1..MaxW /\ h \in 1..MaxH /\ f = 1 /\ walk = << >> /\ lines = << >>
    /\ disk \in [1..3 -> {<< >>, <<-1, 99, 99, 99>>}]
    /\ finished = FALSE
Pixel(i) == PY(SideW, i) * w + PX(SideW, i) + 1
Step(i) ==
    /\ walk' = Append(walk, i)
    /\ lines' = IF f # 3 \/ IsInImage(w, h, SideW, i) THEN Append(lines, Pixel(i)) ELSE lines
    /\ UNCHANGED <<w, h, f, disk, finished>>
Walk == \/ walk = << >> /\ Step(1)
        \/ /\ walk # << >> /\ Len(walk) < SideW * SideH
           /\ \E i \in 1..SideW * SideH :
                /\ \A k \in 1..Len(walk) : walk[k] # i
                /\ Adjacent(SideW, walk[Len(walk)], i)
                /\ Step(i)
\* a header is -1
Written(old, new) == IF Truncate \/ Len(old) <= Len(new) THEN new ELSE new \o SubSeq(old, Len(new) + 1, Len(old))
Close ==
    /\ Len(walk) = SideW * SideH /\ ~finished
    /\ disk' = [disk EXCEPT ![f] = Written(@, <<-1>> \o lines)]
    /\ walk' = << >> /\ lines' = << >>
    /\ IF f = 3 THEN finished' = TRUE /\ f' = f ELSE finished' = FALSE /\ f' = f + 1
    /\ UNCHANGED <<w, h>>
Next == (~finished /\ Walk) \/ Close
Spec == Init /\ [][Next]_vars

Square(s) == { y * w + x + 1 : x \in 0..s - 1, y \in 0..s - 1 }
Holds1(d, set) == Len(d) = 1 + Cardinality(set) /\ d[1] = -1 /\ { d[k] : k \in 2..Len(d) } = set
GoodDump == finished => /\ Holds1(disk[1], 1..w * h)
                        /\ Holds1(disk[2], Square(Inside(w, h)))
                        /\ Holds1(disk[3], 1..w * h)
                        /\ disk[1][2] = 1 /\ disk[2][2] = 1
==============================================================================
