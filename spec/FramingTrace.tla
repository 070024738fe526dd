---------------------------- MODULE FramingTrace ----------------------------
(* Recorded runs of the content reader.  One event per run: the bytes of the *)
(* stream, the messages that came out, `asks': how many bytes had been read  *)
(* and how many messages delivered each time the reader asked for more, and  *)
(* whether it ended up closed.  `only', if not empty, lists the contents     *)
(* that the observer can recognise (handlers of a session).                  *)
EXTENDS TraceBatch, FiniteSets
DigitOf(c) == c - 48
F == INSTANCE Framing WITH
       Prefix <- <<67, 111, 110, 116, 101, 110, 116, 45, 76, 101, 110, 103, 116, 104, 58>>,
       Sep <- <<13, 10, 13, 10>>, White <- {32, 9}, Digits <- 48..57, Digit <- DigitOf, MaxLen <- 100000
Slack == 15   \* bytes of look-ahead allowed before a bad header is noticed

\* all streams here are shorter than MaxLen, so a larger length is "too big"
Prompt(fr, asks) == \A k \in 1..Len(asks) : F!Complete(fr, asks[k][1]) = asks[k][2]
Seen(e, c) == IF e.only = <<>> THEN c
              ELSE LET Known(x) == \E k \in 1..Len(e.only) : e.only[k] = x IN SelectSeq(c, Known)
OkIgnore(e, v) == LET fr == F!Frames(e.s, v) IN e.out = Seen(e, F!Contents(e.s, fr)) /\ Prompt(fr, e.asks)
OkClose(e, v) == LET r == F!StrictFrames(e.s, v)
                 IN /\ e.out = Seen(e, F!Contents(e.s, r.fr))
                    /\ e.closed
                    /\ Prompt(r.fr, e.asks)
                    /\ r.bad => \A k \in 1..Len(e.asks) : e.asks[k][1] < r.at + Slack
Ok(e) == IF e.mode = "close" THEN \E z \in {"bad", "empty"} : OkClose(e, [zero |-> z])
         ELSE \E b \in {"garbage", "swallow"} : OkIgnore(e, [big |-> b])
\* frames one after another, with contents given by length and hash; the last
\* one may have been cut short
OkHuge(e) == e.out = IF e.cut THEN SubSeq(e.frames, 1, Len(e.frames) - 1) ELSE e.frames
TInit == BatchInit
TNext == \/ Is("case") /\ Ok(E) /\ Consume
         \/ Is("huge") /\ OkHuge(E) /\ Consume
TSpec == TInit /\ [][TNext]_<<tid, l>>
=============================================================================
