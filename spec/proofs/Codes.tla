------------------------------- MODULE Codes -------------------------------
(* For the proofs: the vocabulary of the specification, whatever it means.    *)
EXTENDS Integers, Sequences, TLC
TLCEval(x) == x
CONSTANTS Str(_), IsAscii(_), LastPos(_, _), Split(_), Field(_, _), UInt(_, _), MsgId(_), XorSum(_), Hex2(_), FlattenSeq(_),
          Star, Dollar, Bang
=============================================================================
