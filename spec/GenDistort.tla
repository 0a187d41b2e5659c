----------------------------- MODULE GenDistort -----------------------------
(* Nonces, data sizes and counts for the derivation of distorted data (C18). *)
EXTENDS Distortion, TLC, Json, IOUtils

Seed == IOEnv.VERIF_SEED
\* <<size, count, variant>>; variant 0 random nonce, 1.. edge nonces
Shapes == ndJsonDeserialize(IOEnv.GEN_SHAPES)
R(k, t) == FRand(<<Seed, "dis", k>>, t)
Nonce(k, v) == CASE v = 1 -> FZero [] v = 2 -> FOne [] v = 3 -> FOfInt(-1) [] OTHER -> R(k, "nonce")
MaxData == 400
Data(k, n) == [i \in 1..n |-> IF i % 7 = 3 THEN FZero ELSE IF i % 7 = 5 THEN R(k, <<"d", i - 1>>) ELSE R(k, <<"d", i>>)]
VARIABLES k, done
Init == k \in 1..Len(Shapes) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ k' = k
        /\ LET sh == Shapes[k] IN
           PrintT("CASE " \o ToJson([size |-> sh[1], count |-> sh[2], nonce |-> Nonce(k, sh[3]), other |-> R(k, "other"),
                                      data |-> IF sh[1] <= MaxData THEN Data(k, sh[1]) ELSE <<>>]))
Spec == Init /\ [][Next]_<<k, done>>
\* the model obeys the laws, whatever the stream
ModelInv == done \/ LET sh == Shapes[k] IN Laws([i \in 1..(2 * sh[2]) |-> R(k, <<"stream", i>>)], sh[1], sh[2])
=============================================================================
