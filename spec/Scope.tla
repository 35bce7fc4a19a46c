------------------------------- MODULE Scope -------------------------------
(* Which part of an observation a property talks about.  A result is judged   *)
(* for property p when the result the specification calls for is of a kind in *)
(* Kinds(p); then the kind must match and so must the fields in Fields(p, r). *)
EXTENDS NmeaParser

Position == {"lat", "lon", "tlat", "tlon"}
GnssKinds == {"Gga", "Rmc", "Gsa", "Gsv", "Vtg", "Gll"}
AllKinds == GnssKinds \cup {"Vdd", "Vsd", "Bsr", "Bam", "Sar", "Udi", "Aton", "Incomplete", "Err"}

Long(r)   == r.k = "Vdd" /\ r.gnss # <<>>
ClassA(r) == r.k = "Vdd" /\ r.cls = "ClassA" /\ ~Long(r)
ClassB(r) == r.k = "Vdd" /\ r.cls = "ClassB"

Judged(p, r) ==
  CASE p = "C11" -> r.k \in {"Bsr", "Sar", "Aton"} \/ (r.k = "Vdd" /\ ~Long(r))
    [] p = "C12" -> ClassA(r)
    [] p = "C13" -> ClassB(r) \/ r.k = "Sar"
    [] p = "C14" -> Long(r)
    [] p = "C15" -> r.k = "Vsd" /\ r.cls = "ClassA"
    [] p = "C16" -> r.k = "Vsd" /\ r.cls = "ClassA"
    [] p = "C17" -> r.k = "Vsd" /\ r.cls = "ClassB"
    [] p = "C18" -> r.k = "Bsr"
    [] p = "C19" -> r.k \in {"Bam", "Udi"}
    [] p = "C20" -> r.k = "Aton"
    [] p = "C21" -> r.k \in {"Vsd", "Aton"}
    [] p = "C22" -> r.k \in {"Vdd", "Vsd", "Bsr", "Aton", "Gga", "Gsa", "Vtg", "Gll", "Rmc"}
    [] p = "C23" -> r.k = "Vsd"
    [] p = "C24" -> r.k \in {"Gga", "Rmc", "Gll"}
    [] p = "C25" -> r.k \in {"Gga", "Rmc"}
    [] p = "C26" -> r.k \in {"Gsa", "Gsv", "Vtg", "Gll"}
    [] p = "C27" -> r.k \in {"Gga", "Rmc", "Gll"}
    [] OTHER     -> TRUE

Coded == {"nav", "psm", "ship", "cargo", "fix", "aid", "q", "faa", "auto", "active", "valid"}
Fields(p, r) ==
  LET d == DOMAIN r \ {"k"} IN
  CASE p = "C03" -> d \cap {"own", "st", "src", "cls", "e"}
    [] p = "C07" -> d
    [] p = "C11" -> d \cap Position
    [] p \in {"C12", "C13", "C18", "C20", "C25", "C26"} ->
         (d \ Position) \ (IF r.k \in {"Gga", "Rmc", "Gll"} THEN {"time"} ELSE {})
    [] p = "C15" -> d \ {"eta", "ctry"}
    [] p = "C16" -> d \cap {"eta"}
    [] p = "C17" -> d \ {"ctry"}
    [] p = "C21" -> d \cap (IF r.k = "Vsd" THEN {"call", "name", "dest", "vend"} ELSE {"name"})
    [] p = "C22" -> d \cap Coded
    [] p = "C23" -> d \cap {"ctry"}
    [] p = "C24" -> d \cap Position
    [] p = "C27" -> d \cap {"time"}
    [] OTHER     -> d

(* Numbers agree up to one billionth, large ones up to a millionth; sign 0 stands for some number. *)
NumEq(a, b) ==
  \/ a = b
  \/ a[1] = 0
  \/ /\ b[1] # 0
     /\ LET x == IF a[1] = b[1] THEN a[2] - b[2] ELSE a[2] + b[2]
            y == IF a[1] = b[1] THEN a[3] - b[3] ELSE a[3] + b[3]
            t == IF a[2] < 100000 THEN 1 ELSE 1000
        IN \/ (x = 0 /\ y <= t /\ y >= -t) \/ (x = 1 /\ y <= t - 1000000000) \/ (x = -1 /\ y >= 1000000000 - t)
OptNumEq(a, b) == Len(a) = Len(b) /\ (a = <<>> \/ NumEq(a[1], b[1]))
Numeric == Position \cup {"hdop", "alt", "geo", "age", "sog", "brg", "var", "pdop", "vdop", "cogt",
                          "cogm", "kn", "kph"}
IsOption(v, k, f) == f \in Numeric \cup {"n", "ref", "time", "active", "auto", "fix", "valid", "faa"}

(* Does the observed value b of field f do for the value a called for? *)
Same(p, k, f, a, b) ==
  \/ a = b
  \/ k \in GnssKinds /\ f \in Numeric /\ OptNumEq(a, b)
  \/ k = "Aton" /\ f = "acc" /\ b = "?"
  \/ p = "C28" /\ k \in GnssKinds /\ (IF IsOption(a, k, f) THEN Len(a) = Len(b) ELSE TRUE)
  \/ p = "C07" /\ f = "sats" /\ Len(a) = Len(b)
       /\ \A i \in 1..Len(a) : a[i].prn = b[i].prn /\ a[i].src = b[i].src

(* Verdict on observed result b where the specification calls for r, with the known  *)
(* deviation dev (an option) of this kind of message: "ok", "known" or "bad".         *)
Verdict(p, r, b, dev, listed) ==
  IF r = b THEN "ok"
  ELSE IF p = "C02" /\ r.k # "Err" /\ b.k # "Err" /\ r.k # b.k THEN "bad"
  ELSE IF ~Judged(p, r) THEN "ok"
  ELSE IF r.k # b.k THEN "bad"
  ELSE
    LET off == { f \in Fields(p, r) : ~Same(p, r.k, f, r[f], b[f]) }
    IN IF off = {} THEN "ok"
       ELSE IF dev # <<>> /\ dev[1].id \in listed
               /\ \A f \in off : f \in DOMAIN dev[1].v /\ dev[1].v[f] = b[f]
       THEN "known" ELSE "bad"
=============================================================================
