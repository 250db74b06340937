------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* Callers that share one parser, with or without a cache of trees, and    *)
(* one evaluator.  A caller works through its list of calls: it looks its  *)
(* expression up in the cache, parses it if it is not there, stores the    *)
(* tree, and evaluates it one data read at a time (Machine); entries of a  *)
(* cache that holds too many may vanish at any moment.  Whatever the       *)
(* order of these steps, every call must end with the outcome it has when  *)
(* made alone, and read only its own data.                                 *)
(*                                                                         *)
(* Flaw names a way to get it wrong; TLC has to find out for each of them. *)
(*   key    : the cache is keyed by the expression text only               *)
(*   holder : the tree under evaluation is kept in a place all share       *)
(*   data   : the data under evaluation is kept in a place all share       *)
(*   partial: a tree is put into the cache before its right part is there  *)
(***************************************************************************)
EXTENDS Forms, Machine

CONSTANTS Callers,          \* set of caller ids, 0 and up
          ScenarioCount,
          CallsOf(_, _),    \* the calls of a caller in a scenario
          CapacityOf(_),    \* capacity of the cache, -1 if there is none
          Flaw,
          Keep              \* remember the schedule, and print it in the end

VARIABLES scen,    \* the scenario
          cache,   \* key -> tree
          th,      \* what every caller is at
          slot,    \* the shared place of the flaws
          sched    \* callers in the order of their begins, reads and ends
vars == << scen, cache, th, slot, sched >>

Today == 739900
Part == atoi(IOEnv.VP_PART)
From == atoi(IOEnv.VP_SEED) % Part
NoTree == << >>
Asleep == [pc |-> "idle", i |-> 0, c |-> [ctl |-> "none"], res |-> Fail]
Calls(t) == CallsOf(scen, t)
Mine(t) == Calls(t)[th[t].i]
MapFor(call) == MapOf(call, Today)
KeyFor(call) == IF Flaw = "key" THEN << call.x >> ELSE << call.x, call.def >>
\* an outcome with the truth value of a boolean call as a value
Boxed(api, r) == IF api = "B" /\ r.ok THEN Ok(VBool(r.v)) ELSE r
Alone(call) == LET p == Parse(call.x, call.def) IN IF p.ok THEN Boxed(call.api, Spec1(call, p, Today)) ELSE p

Init == /\ scen \in {s \in 0..(ScenarioCount - 1) : s % Part = From}
        /\ cache = << >>
        /\ th = [t \in Callers |-> Asleep]
        /\ slot = [tree |-> NoTree, data |-> << >>]
        /\ sched = << >>

Seen(t) == sched' = IF Keep THEN Append(sched, t) ELSE sched
Hidden == sched' = sched
To(t, r) == th' = [th EXCEPT ![t] = r]

Begin(t) ==
  /\ th[t].pc = "idle" /\ th[t].i < Len(Calls(t))
  /\ To(t, [Asleep EXCEPT !.pc = "look", !.i = th[t].i + 1])
  /\ Seen(t) /\ UNCHANGED << scen, cache, slot >>

RECURSIVE UpToRead(_, _)
\* everything up to the next data read, or to the end
UpToRead(c, m) ==
  IF Halted(c) THEN c
  ELSE LET d == Step(c, m) IN IF Len(d.reads) > Len(c.reads) THEN c ELSE UpToRead(d, m)
\* a caller whose machine has arrived at c
Arrived(r, call, c) == IF Halted(c) THEN [r EXCEPT !.pc = "end", !.res = Boxed(call.api, c.r), !.c = [ctl |-> "done", reads |-> c.reads]] ELSE [r EXCEPT !.pc = "eval", !.c = c]

\* what follows once the caller has a parse p of its expression
Got(t, p) ==
  LET call == Mine(t) IN
  /\ slot' = IF p.ok THEN [tree |-> p.v, data |-> call.data] ELSE slot
  /\ To(t, IF p.ok /\ call.api # "P" THEN Arrived(th[t], call, UpToRead(Start(p.v, call.api), MapFor(call))) ELSE [th[t] EXCEPT !.pc = "end", !.res = p])

Cached == CapacityOf(scen) >= 0
Hit(t) ==
  /\ th[t].pc = "look" /\ Cached /\ KeyFor(Mine(t)) \in DOMAIN cache
  /\ Got(t, Ok(cache[KeyFor(Mine(t))]))
  /\ Hidden /\ UNCHANGED << scen, cache >>
Miss(t) ==
  /\ th[t].pc = "look" /\ ~(Cached /\ KeyFor(Mine(t)) \in DOMAIN cache)
  /\ LET p == Parse(Mine(t).x, Mine(t).def) IN
     IF Cached /\ p.ok
     THEN /\ To(t, [th[t] EXCEPT !.pc = "store", !.res = p]) /\ slot' = slot
          /\ cache' = IF Flaw = "partial" /\ p.v.t \in {"logic", "cmp"} THEN (KeyFor(Mine(t)) :> p.v.l) @@ cache ELSE cache
     ELSE Got(t, p) /\ cache' = cache
  /\ Hidden /\ UNCHANGED scen
Store(t) ==
  /\ th[t].pc = "store"
  /\ cache' = (KeyFor(Mine(t)) :> th[t].res.v) @@ cache
  /\ Got(t, th[t].res)
  /\ Hidden /\ UNCHANGED scen
Evict ==
  /\ Cached /\ Cardinality(DOMAIN cache) > CapacityOf(scen)
  /\ \E k \in DOMAIN cache : cache' = [j \in DOMAIN cache \ {k} |-> cache[j]]
  /\ Hidden /\ UNCHANGED << scen, th, slot >>

Eval(t) ==
  /\ th[t].pc = "eval"
  /\ LET call == Mine(t)
         from == IF Flaw = "holder" /\ th[t].c.reads = << >> THEN UpToRead(Start(slot.tree, call.api), MapFor(call)) ELSE th[t].c
         m == IF Flaw = "data" THEN MapFor([call EXCEPT !.data = slot.data]) ELSE MapFor(call)
     IN To(t, Arrived(th[t], call, IF Halted(from) THEN from ELSE UpToRead(Step(from, m), m)))
  /\ Seen(t) /\ UNCHANGED << scen, cache, slot >>

End(t) ==
  /\ th[t].pc = "end"
  /\ To(t, [Asleep EXCEPT !.i = th[t].i])
  /\ Seen(t) /\ UNCHANGED << scen, cache, slot >>

AllDone == \A t \in Callers : th[t].pc = "idle" /\ th[t].i = Len(Calls(t))
\* complete schedules are printed for replay
Exported == (Keep /\ AllDone) => PrintT("@" \o ToJson([cap |-> CapacityOf(scen), calls |-> [k \in 1..Cardinality(Callers) |-> CallsOf(scen, k - 1)], sched |-> sched]))

Next == \/ \E t \in Callers : Begin(t) \/ Hit(t) \/ Miss(t) \/ Store(t) \/ Eval(t) \/ End(t)
        \/ Evict
Spec == Init /\ [][Next]_vars
\* every caller keeps going
Progress == [t \in Callers |-> << th[t].pc, th[t].i, IF th[t].c.ctl = "none" THEN 0 ELSE Len(th[t].c.reads) >>]
Fair == \A t \in Callers : WF_Progress(Begin(t) \/ Hit(t) \/ Miss(t) \/ Store(t) \/ Eval(t) \/ End(t))
FairSpec == Spec /\ Fair

-----------------------------------------------------------------------------
\* a call ends with the outcome it has when made alone
OutcomeAlone == \A t \in Callers : th[t].pc = "end" => th[t].res = Alone(Mine(t))
\* the cache only ever holds the tree of its key
CacheSound == Flaw \notin {"key", "partial"} => \A k \in DOMAIN cache : Parse(k[1], k[2]) = Ok(cache[k])
\* a caller reads what its own expression refers to
OwnReads == \A t \in Callers : th[t].c.ctl # "none" =>
              LET p == Parse(Mine(t).x, Mine(t).def) IN
              \A i \in 1..Len(th[t].c.reads) : th[t].c.reads[i] \in (IF Mine(t).api = "B" THEN MayRead(p.v, MapFor(Mine(t))) ELSE AllReads(p.v))
\* a call never waits for another one
NeverStuck == \A t \in Callers : th[t].pc \in {"look", "store", "eval", "end"} => ENABLED (Hit(t) \/ Miss(t) \/ Store(t) \/ Eval(t) \/ End(t))
Terminates == <>AllDone
=============================================================================
