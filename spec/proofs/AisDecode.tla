----------------------------- MODULE AisDecode -----------------------------
(* For the proofs: the decoders of AIS messages, whatever they answer.        *)
EXTENDS Integers, Sequences
CONSTANTS ValidPayload(_), Sextets(_), U(_, _), Static24A,
          Decode123(_, _, _), Decode4(_, _, _), Decode5(_, _, _), Decode6(_, _, _), Decode9(_, _, _), Decode10(_, _, _),
          Decode18(_, _, _), Decode21(_, _, _), Decode24A(_, _), Decode24B(_, _), Decode27(_, _, _),
          Deviant5(_, _), Deviant27(_), Merge24(_, _, _)
(* What is merged is always what Decode24B made of a part B: both the memory and   *)
(* the arriving half hold nothing else, and merging keeps its kind.                *)
ASSUME Reports == \A d, a, b : Merge24(d, a, b).k = "VesselStaticData"
=============================================================================
