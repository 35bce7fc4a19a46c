------------------------------ MODULE Calendar ------------------------------
(* Dates and times of day.  A moment is <<year, month, day, hour, min, sec>>; *)
(* the clock may add the nanoseconds it has advanced into its second.          *)
EXTENDS Integers, Sequences

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m \in {4, 6, 9, 11} THEN 30
                ELSE IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE 31
ValidDate(y, m, d) == m >= 1 /\ m <= 12 /\ d >= 1 /\ d <= DaysIn(y, m)
ValidTime(h, mi, s) == h >= 0 /\ h <= 23 /\ mi >= 0 /\ mi <= 59 /\ s >= 0 /\ s <= 59

RECURSIVE Leq(_, _, _)
Leq(a, b, i) == IF i > Len(b) THEN Len(a) = Len(b) \/ a[i] = 0
                ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE Leq(a, b, i + 1)
NotAfter(a, b) == Leq(a, b, 1)

(* Option of a moment. *)
Moment(y, m, d, h, mi, s) ==
  IF ValidDate(y, m, d) /\ ValidTime(h, mi, s) THEN << <<y, m, d, h, mi, s>> >> ELSE <<>>
=============================================================================
