------------------------------- MODULE Trace -------------------------------
(* Trace validation: is a recorded run of the real parser a behaviour of the  *)
(* specification?  One step consumes one recorded operation.  A result that   *)
(* is not the one the specification calls for is noted and the run goes on,   *)
(* so that one deviation does not hide the next.                              *)
EXTENDS Scope, Names, Json, IOUtils

Log  == ndJsonDeserialize(IOEnv.TRACE)
Conf == JsonDeserialize(IOEnv.CONF)
Prop == Conf.prop
Listed == { Conf.known[i] : i \in 1..Len(Conf.known) }
Slack == Conf.slack

VARIABLES pos,        \* the next recorded operation
          mem,      \* [slot -> memory of that parser]
          clock,      \* the UTC clock
          excuse,   \* [what the specification calls for -> what a fresh parser made of it]
          marks,    \* heap measurements of this episode, which T starts: <<memories, live bytes>>
          bad,      \* deviations: <<operation, what was called for>>
          known,    \* operations explained by a listed known deviation
          tally     \* [kind of result -> how often it was called for]
vars == <<pos, mem, clock, excuse, marks, bad, known, tally>>

Init == pos = 1 /\ mem = <<>> /\ clock = <<2020, 1, 1, 0, 0, 0>> /\ excuse = <<>> /\ marks = <<>>
        /\ bad = <<>> /\ known = <<>> /\ tally = <<>>

Count(t, k) == IF k \in DOMAIN t THEN [t EXCEPT ![k] = @ + 1] ELSE (k :> 1) @@ t
Note(e) == IF Len(bad) < 12 THEN Append(bad, [line |-> pos, want |-> e]) ELSE bad

(* What the deviation is keyed by: data by its content, the rest by its sentence. *)
Key(s, r) == IF r.k \in {"Err", "Incomplete"} THEN <<s, r>> ELSE <<<<>>, r>>

RECURSIVE StepAll(_, _, _)
StepAll(st, t, ss) ==
  IF Len(ss) = 1 THEN Step(st, t, ss[1]) ELSE StepAll(Step(st, t, ss[1]).st, t, Tail(ss))

Judge(s, o, obs) ==
  LET v == Verdict(Prop, o.r, obs, o.dev, Listed)
      k == Key(s, o.r)
      x == IF v = "bad" /\ k \in DOMAIN excuse /\ excuse[k] = obs THEN "excused" ELSE v
  IN /\ bad' = IF x = "bad" THEN Note(o.r) ELSE bad
     /\ known' = IF x = "known" /\ Len(known) < 200 THEN Append(known, [line |-> pos, id |-> o.dev[1].id]) ELSE known
     /\ tally' = Count(tally, IF x = "excused" THEN "excused" ELSE o.r.k)

(* Only the absence of a crash matters for C01. *)
CrashOnly == Prop = "C01"

SetClock(e) == e.op \in {"T", "U"} /\ clock' = e.now /\ marks' = (IF e.op = "T" THEN <<>> ELSE marks) /\ UNCHANGED <<mem, excuse, bad, known, tally>>

NewParser(e) == e.op = "N" /\ mem' = (e.i :> Empty) @@ mem
                /\ UNCHANGED <<clock, excuse, marks, bad, known, tally>>

Parse(e) ==
  /\ e.op = "P"
  /\ IF CrashOnly
     THEN /\ bad' = IF e.r.k \in AllKinds THEN bad ELSE Note([k |-> "any result"])
          /\ tally' = Count(tally, e.r.k)
          /\ UNCHANGED <<mem, known>>
     ELSE LET o == Step(mem[e.i], clock, e.s) IN
          /\ mem' = [mem EXCEPT ![e.i] = o.st]
          /\ Judge(e.s, o, e.r)
  /\ UNCHANGED <<clock, excuse, marks>>

(* The same message as one plain sentence on a fresh parser: how it is decoded there is *)
(* not the business of the properties about state.                                      *)
Control(e) ==
  /\ e.op = "X"
  /\ LET o == Step(Empty, clock, e.s) IN
     excuse' = IF o.r = e.r THEN excuse ELSE (Key(e.s, o.r) :> e.r) @@ excuse
  /\ tally' = Count(tally, "control")
  /\ UNCHANGED <<mem, clock, marks, bad, known>>

RECURSIVE Run(_, _, _)       \* memory and results after a list of sentences
Run(st, ss, acc) ==
  IF ss = <<>> THEN [st |-> st, rs |-> acc]
  ELSE LET o == Step(st, clock, Head(ss)) IN Run(o.st, Tail(ss), Append(acc, o))
AllOk(os, ss, obs) ==
  \A i \in 1..Len(os) :
     \/ Verdict(Prop, os[i].r, obs[i], os[i].dev, Listed) # "bad"
     \/ LET k == Key(ss[i], os[i].r) IN k \in DOMAIN excuse /\ excuse[k] = obs[i]

(* A cycle of sentences repeated n times: after the first round the memory is the same *)
(* after every round, so every later round gives the results of the second.            *)
Cycle(e) ==
  /\ e.op = "Y"
  /\ LET a == Run(mem[e.i], e.ss, <<>>)
         b == Run(a.st, e.ss, <<>>)
     IN /\ Assert(a.st = b.st, "the cycle does not return to its memory")
        /\ mem' = [mem EXCEPT ![e.i] = b.st]
        /\ bad' = IF AllOk(a.rs, e.ss, e.r.first) /\ AllOk(b.rs, e.ss, e.r.then) /\ e.r.odd = 0
                  THEN bad ELSE Note([k |-> "Cycle", first |-> [i \in 1..Len(a.rs) |-> a.rs[i].r],
                                      then |-> [i \in 1..Len(b.rs) |-> b.rs[i].r]])
  /\ tally' = Count(tally, "Cycle")
  /\ UNCHANGED <<clock, excuse, marks, known>>

(* A crowd of messages of other senders, each waiting for its other half; of these only the first *)
(* and the last are heard of again.  The design models show that what the others wait for is      *)
(* nobody else's business, so it need not be carried along.                                       *)
Crowd(e) ==
  /\ e.op = "W"
  /\ LET o == Run(mem[e.i], e.ss, <<>>) IN
     /\ mem' = [mem EXCEPT ![e.i] = o.st]
     /\ bad' = IF AllOk(o.rs, e.ss, e.r.ends) /\ e.r.odd = 0 THEN bad
               ELSE Note([k |-> "Crowd", ends |-> [i \in 1..2 |-> o.rs[i].r]])
  /\ tally' = Count(tally, "Crowd")
  /\ UNCHANGED <<clock, excuse, marks, known>>

(* What the parsers have to remember, content aside. *)
Pending(m) == [frag |-> DOMAIN m.frag, stat |-> DOMAIN m.stat,
               gsv |-> { <<k, DOMAIN m.gsv[k]>> : k \in DOMAIN m.gsv }]
Measure(e) ==
  /\ e.op = "M"
  /\ LET p == [i \in DOMAIN mem |-> Pending(mem[i])] IN
     /\ marks' = Append(marks, <<p, e.live>>)
     /\ bad' = IF \E i \in 1..Len(marks) : marks[i][1] = p /\ e.live > marks[i][2] + Slack
               THEN Note([k |-> "Live", live |-> { marks[i][2] : i \in { j \in 1..Len(marks) : marks[j][1] = p } }])
               ELSE bad
  /\ tally' = Count(tally, "Measure")
  /\ UNCHANGED <<mem, clock, excuse, known>>

Table(t, v) == CASE t = "ship" -> ShipType(v) [] t = "cargo" -> CargoType(v) [] t = "fix" -> FixType(v)
                 [] t = "nav" -> NavStatus(v) [] t = "quality" -> Quality(v)
Pure(e, want) ==
  /\ bad' = IF want = e.r THEN bad ELSE Note([k |-> "Value", v |-> want])
  /\ tally' = Count(tally, "pure")
  /\ UNCHANGED <<mem, clock, excuse, marks, known>>
Lookup(e) == \/ e.op = "E" /\ Pure(e, Table(e.t, e.v))
             \/ e.op = "F" /\ Pure(e, Faa(e.s))
             \/ e.op = "C" /\ Pure(e, Country(e.m))

(* How values print, what they default to, how an error reads. *)
Shown(e) ==
  /\ e.op = "D"
  /\ bad' = IF CASE e.t = "default" -> e.r = Defaults
                  [] e.t = "error"   -> \A i \in 1..Len(e.r) : e.r[i][1] = e.r[i][2]
                  [] OTHER           -> Legible(e.t, e.r)
            THEN bad ELSE Note([k |-> "Print", t |-> e.t, v |-> IF e.t = "default" THEN Defaults
                                                           ELSE IF e.t = "error" THEN <<"the same">> ELSE NameTable[e.t]])
  /\ tally' = Count(tally, "printed")
  /\ UNCHANGED <<mem, clock, excuse, marks, known>>

(* Two answers, each of its own parser: copies report what their originals do, the same sentences *)
(* give equal answers, and two answers are equal exactly when they report the same.  Errors of    *)
(* one kind may differ in what they tell.                                                         *)
All(fs, x) == \A i \in 1..Len(fs) : fs[i] = x
Equality(e) ==
  LET a == StepAll(Empty, clock, e.a).r
      b == StepAll(Empty, clock, e.b).r
  IN CASE e.a = e.b                 -> {TRUE}
       [] e.r.a # e.r.b             -> {FALSE}
       [] a = b /\ a.k # "Err"      -> {TRUE}
       [] OTHER                     -> {TRUE, FALSE}      \* more is in them than is recorded
Compared(e) ==
  /\ e.op = "Q"
  /\ bad' = IF /\ e.r.k = "Pair"
               /\ All(e.r.copies, e.r.a) /\ All(e.r.kept, TRUE)
               /\ \E x \in Equality(e) : All(e.r.equal, x)
            THEN bad ELSE Note([k |-> "Pair", copies |-> "as a", kept |-> {TRUE}, equal |-> IF e.r.k = "Pair" THEN Equality(e) ELSE {}])
  /\ tally' = Count(tally, "Pair")
  /\ UNCHANGED <<mem, clock, excuse, marks, known>>

Consume == pos <= Len(Log) /\ pos' = pos + 1
           /\ LET e == Log[pos] IN
              \/ SetClock(e) \/ NewParser(e) \/ Parse(e) \/ Control(e) \/ Cycle(e) \/ Crowd(e) \/ Measure(e) \/ Lookup(e) \/ Shown(e) \/ Compared(e)
Report == pos = Len(Log) + 1 /\ pos' = pos + 1
          /\ JsonSerialize(IOEnv.OUT, << [ events |-> pos - 1, bad |-> bad, known |-> known,
                tally |-> [i \in 1..Cardinality(DOMAIN tally) |->
                             LET k == SetToSeq(DOMAIN tally)[i] IN <<k, tally[k]>>] ] >>)
          /\ UNCHANGED <<mem, clock, excuse, marks, bad, known, tally>>
Next == Consume \/ Report
Spec == Init /\ [][Next]_vars
Place == pos          \* a run is deterministic: its position identifies the state
=============================================================================
