--------------------------------- MODULE Life ---------------------------------
(* The objects that exist because of a session: the requests, events,        *)
(* responses and errors made while it processes messages, the handlers and   *)
(* callbacks given to it, the reader and writer it was connected to.         *)
(* A monitor: Step(m, e) for the events                                      *)
(*   Make o, Kill o    an object comes into being, is destroyed              *)
(*   Use o             an object is used (by a handler, a callback)          *)
(*   Mem n k           so many blocks of memory are in use, k messages       *)
(*                     have been finished with since the last Mem            *)
(*   End n             the session, its futures and endpoints are gone; so   *)
(*                     many blocks of memory were never given back           *)
EXTENDS Integers, Sequences, FiniteSets
Known == {"Make", "Kill", "Use", "Mem", "End"}
Start == [live |-> {}, dead |-> {}, mem |-> -1, bad |-> {}]
Step(m, e) ==
  LET flag(c, why) == IF c THEN {why} ELSE {}
  IN CASE e.e = "Make" -> [m EXCEPT !.live = @ \cup {e.o},
                                    !.bad = @ \cup flag(e.o \in m.live \cup m.dead, "made twice")]
       [] e.e = "Kill" -> [m EXCEPT !.live = @ \ {e.o}, !.dead = @ \cup {e.o},
                                    !.bad = @ \cup flag(e.o \notin m.live, "destroyed twice")]
       [] e.e = "Use" -> [m EXCEPT !.bad = @ \cup flag(e.o \notin m.live, "used after its end")]
       [] e.e = "Mem" -> [m EXCEPT !.mem = e.n,
                                   !.bad = @ \cup flag(m.mem >= 0 /\ e.n - m.mem >= e.k, "grows with what is finished")]
       [] e.e = "End" -> [m EXCEPT !.bad = @ \cup flag(m.live # {}, "left behind")
                                             \cup flag(e.n # 0, "memory never given back")]
RECURSIVE Steps(_, _)
Steps(m, s) == IF s = <<>> THEN m ELSE Steps(Step(m, Head(s)), Tail(s))
=============================================================================
