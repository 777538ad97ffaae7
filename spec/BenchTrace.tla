----------------------------- MODULE BenchTrace -----------------------------
(* What benchmark runs left behind.

   trace = [lossless |-> 0/1, out |-> "ok" when the run completed normally,
     plan |-> << [o |-> outcome (see Bench), w, h, size |-> bytes it is compressed to (-1: anything),
                  px |-> packed pixels, dpx |-> packed pixels of the decoded image where this is known (else empty)] >>,
     head |-> 1 when the first line is the header, junk |-> number of lines that are neither header nor rows,
     rows |-> << [t |-> task (0: none), size, ratio, error |-> digits,
                  rw, ew |-> how many digits come before the point] >>,
     errors |-> number of lines on the error output (-1: not recorded),
     pics |-> << [t, w, h, px] >> pictures found afterwards] *)
EXTENDS Decimal, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, step, seen,
    k, sum          \* pixels of the picture or decoded image looked at, their squared error
vars == <<tr, step, seen, k, sum>>
T == Traces[tr]
Plan == T.plan
Lossless == T.lossless = 1
Success(t) == Plan[t].o = "ok" \/ (Plan[t].o = "diff" /\ ~Lossless)
Successes == { t \in 1..Len(Plan) : Success(t) }
Failures == (1..Len(Plan)) \ Successes

Channels(v) == <<v \div 65536, (v \div 256) % 256, v % 256>>
DistSq(a, b) == LET x == Channels(a)  y == Channels(b)
                IN SqrInt(x[1] - y[1]) + SqrInt(x[2] - y[2]) + SqrInt(x[3] - y[3])

TInit == tr \in 1..Len(Traces) /\ step = "pics" /\ seen = {} /\ k = 0 /\ sum = <<0, 0>>

\* The pictures: those of the images that came back different, with the pixels decoded
Pics ==
    /\ step = "pics"
    /\ T.out = "ok" /\ T.junk = 0
    /\ { T.pics[i].t : i \in 1..Len(T.pics) } = { t \in 1..Len(Plan) : Plan[t].o = "diff" }
    /\ \A i \in 1..Len(T.pics) :
        LET c == T.pics[i]  q == Plan[c.t] IN
        /\ c.w = q.w /\ c.h = q.h /\ Len(c.px) = Len(q.px)
        /\ q.dpx # << >> => c.px = q.dpx
        /\ c.px # q.px
    /\ T.head = IF Successes = {} THEN 0 ELSE 1
    /\ T.errors >= 0 => T.errors >= Cardinality(Failures)
    /\ Len(T.rows) = Cardinality(Successes)
    /\ step' = "rows" /\ UNCHANGED <<tr, seen, k, sum>>

Row == T.rows[Cardinality(seen) + 1]
\* The decoded image: what is in the picture, the original where there is none
Shown(t) == LET S == { i \in 1..Len(T.pics) : T.pics[i].t = t } IN
            IF S = {} THEN Plan[t].px ELSE T.pics[CHOOSE i \in S : TRUE].px

Batch == 128
RECURSIVE Add_(_, _, _, _, _)
Add_(a, b, i, e, s) == IF i > e THEN s ELSE Add_(a, b, i + 1, e, Add(s, 1, DistSq(a[i], b[i])))

Error ==
    /\ step = "rows" /\ Cardinality(seen) < Len(T.rows)
    /\ Row.t \in Successes \ seen
    /\ LET a == Plan[Row.t].px  b == Shown(Row.t)  e == Min2(k + Batch, Len(a)) IN
        /\ k < Len(a)
        /\ sum' = Add_(a, b, k + 1, e, sum)
        /\ k' = e
    /\ UNCHANGED <<tr, step, seen>>
Values ==
    /\ step = "rows" /\ Cardinality(seen) < Len(T.rows)
    /\ Row.t \in Successes \ seen
    /\ k = Len(Plan[Row.t].px)
    /\ LET q == Plan[Row.t]  px == q.w * q.h
           a == DigitsOf(Row.size, 10) \o <<0, 0>>
           e == DigitsOf2(sum[1], sum[2])
       IN
       /\ q.size >= 0 => Row.size = q.size
       /\ Row.size > 0
       /\ Row.rw = 12 /\ Close(a, 24 * px, Row.ratio)
       /\ Row.ew = 16 /\ Close(e, px, Row.error)
    /\ seen' = seen \cup {Row.t} /\ k' = 0 /\ sum' = <<0, 0>>
    /\ UNCHANGED <<tr, step>>

End == step = "rows" /\ seen = Successes /\ UNCHANGED vars
TNext == Pics \/ Error \/ Values \/ End
TSpec == TInit /\ [][TNext]_vars
=============================================================================
