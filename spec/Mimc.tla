-------------------------------- MODULE Mimc --------------------------------
(* MiMC in a Feistel network: xL, xR := xR + (xL + c_i)^3, xL; the output is the last xL. *)
EXTENDS Integers, Sequences, SequencesExt, Fr
MimcHash(xl, xr, cs) ==
  FoldLeft(LAMBDA s, c : <<FAdd(s[2], FPow(FAdd(s[1], c), 3)), s[1]>>, <<xl, xr>>, cs)[1]
=============================================================================
