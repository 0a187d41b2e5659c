----------------------------- MODULE Distortion -----------------------------
(***************************************************************************)
(* Which entries of a data set are distorted for a nonce, and what the     *)
(* distorted data is.  The nonce determines a stream of numbers (48 bytes  *)
(* each of the SHAKE256 output, reduced modulo the group order); the       *)
(* indices are the first distinct residues modulo the size of the data,    *)
(* as many as requested, from a stream twice that long.  A distorted entry *)
(* is the hash of the original one; everything else is unchanged, and the  *)
(* original entries are kept aside.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Fr

Candidates(stream, size) == [i \in 1..Len(stream) |-> FOfInt(FMod(FReduce(stream[i]), size))]
\* the first `count` distinct elements
Select(cands, count) ==
  FoldLeft(LAMBDA acc, x : IF Cardinality(acc) < count THEN acc \cup {x} ELSE acc, {}, cands)
Indices(stream, size, count) == Select(Candidates(stream, size), count)
\* data: sequence (index 0 first); hashes: the hash of every entry
Distorted(data, hashes, idx) == [i \in 1..Len(data) |-> IF FOfInt(i - 1) \in idx THEN hashes[i] ELSE data[i]]
Kept(data, idx) == {<<FOfInt(i - 1), data[i]>> : i \in {j \in 1..Len(data) : FOfInt(j - 1) \in idx}}

\* what a user relies on
Laws(stream, size, count) ==
  LET I == Indices(stream, size, count) cs == Candidates(stream, size) IN
  /\ \A x \in I : FLt(x, FOfInt(size))
  /\ Cardinality(I) <= count
  /\ Cardinality(I) = IF Cardinality({cs[i] : i \in 1..Len(cs)}) < count THEN Cardinality({cs[i] : i \in 1..Len(cs)}) ELSE count
=============================================================================
