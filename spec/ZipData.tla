------------------------------ MODULE ZipData ------------------------------
(* The byte sequence an image is turned into before it is compressed, for the
   trace specifications of the two byte compressors. *)
EXTENDS Common, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLE tr
T == Traces[tr]

Pixels == T.w * T.h
\* byte j (from 0) of the serialised pixel number q (from 1)
PixelByte(q, j) ==
    IF j = 0 THEN 3 ELSE IF j < 8 THEN 0
    ELSE LET c == IF T.mode = "hil" THEN T.px[T.order[q]] ELSE T.px[q]
         IN IF j = 8 THEN c \div 65536 ELSE IF j = 9 THEN (c \div 256) % 256 ELSE c % 256
DimByte(p) == LET v == IF p <= 4 THEN T.w ELSE T.h
                  j == (p - 1) % 4
              IN (v \div (256 ^ j)) % 256
DataAt(p) ==
    IF T.mode = "raw" THEN T.raw[p]
    ELSE IF T.mode = "img"
    THEN IF p <= 8 THEN DimByte(p) ELSE PixelByte(((p - 9) \div 11) + 1, (p - 9) % 11)
    ELSE PixelByte(((p - 1) \div 11) + 1, (p - 1) % 11)
DataLen ==
    IF T.mode = "raw" THEN Len(T.raw) ELSE IF T.mode = "img" THEN 8 + 11 * Pixels ELSE 11 * Pixels

=============================================================================
