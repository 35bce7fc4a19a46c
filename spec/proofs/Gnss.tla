-------------------------------- MODULE Gnss --------------------------------
(* For the proofs: the GNSS sentences, whatever they mean.                    *)
EXTENDS Codes
CONSTANTS Nat0(_, _, _), IsBad(_), NavSystem(_), Satellites(_, _),
          Gga(_, _, _), Rmc(_, _, _), Gsa(_, _), Vtg(_, _), Gll(_, _, _)
Invalid == [k |-> "Err", e |-> "Invalid"]
=============================================================================
