----------------------------- MODULE FramingImpl -----------------------------
(* The content reader as a program: a buffer that is filled by reads of at   *)
(* most the number of bytes wanted, each of which may return any smaller     *)
(* positive number of bytes, and a parser over the buffer.  Checked against  *)
(* the meaning of the stream for every stream of up to MaxStream tokens and   *)
(* every way of splitting it.  Symbols: p q (prefix), w (white space),       *)
(* digits 0 1 2, r n (separator), x (anything else).                         *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxStream, Modes, Bug   \* Bug: a wrong variant, or none

DigitOf(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2
F == INSTANCE Framing WITH Prefix <- <<"p", "q">>, Sep <- <<"r", "n">>, White <- {"w"},
       Digits <- {"0", "1", "2"}, Digit <- DigitOf, MaxLen <- 20
Big == 20     \* the largest length that does not overflow

VARIABLES mode, s, pos, buf, pc, want, len, nd, out, open, eof, asks
vars == <<mode, s, pos, buf, pc, want, len, nd, out, open, eof, asks>>

\* streams are concatenations of tokens, so that whole frames fit
Tokens == {<<"p">>, <<"q">>, <<"p", "q">>, <<"p", "q", "1", "r", "n">>, <<"p", "q", "w", "2">>, <<"w">>, <<"0">>, <<"2">>,
           <<"r">>, <<"r", "n">>, <<"x">>}
RECURSIVE Concat(_)
Concat(ts) == IF ts = <<>> THEN <<>> ELSE Head(ts) \o Concat(Tail(ts))
Streams == {Concat(ts) : ts \in UNION {[1..n -> Tokens] : n \in 0..MaxStream}}
Init ==
  /\ mode \in Modes /\ s \in Streams /\ pos = 0 /\ buf = <<>> /\ pc = "head" /\ want = 0
  /\ len = 0 /\ nd = 0 /\ out = <<>> /\ open = TRUE /\ eof = FALSE /\ asks = TRUE

Head0 == buf[1]
HasPrefix(p) == Len(buf) >= Len(p) /\ SubSeq(buf, 1, Len(p)) = p
Drop(k) == SubSeq(buf, k + 1, Len(buf))
Need(k) == Len(buf) < k      \* must read more before going on

\* what has to be buffered before the parser can make its next step
Wanted == CASE pc = "head" -> 2 [] pc = "white" -> 1 [] pc = "digit" -> 1 [] pc = "sep" -> 2
            [] pc = "body" -> len [] OTHER -> 0

\* one read of the underlying stream: any non-empty part of what is wanted
Read ==
  /\ pc # "done" /\ Need(Wanted) /\ ~eof /\ open
  /\ asks' = (asks /\ LET fr == IF mode = "close" THEN F!StrictFrames(s, [zero |-> "bad"]).fr
                                 ELSE F!Frames(s, [big |-> "garbage"])
                      IN F!Complete(fr, pos) = Len(out))
  /\ IF pos = Len(s) THEN eof' = TRUE /\ UNCHANGED <<pos, buf>>
     ELSE \E k \in 1..(Wanted - Len(buf)) :
            /\ pos + k <= Len(s)
            /\ pos' = pos + k /\ buf' = buf \o SubSeq(s, pos + 1, pos + k) /\ eof' = FALSE
  /\ UNCHANGED <<mode, s, pc, want, len, nd, out, open>>

Bad == /\ open' = (mode # "close" \/ Bug = "stays_open") /\ pc' = "head"

Ready == ~Need(Wanted) \/ eof \/ ~open
HeadStep ==
  /\ pc = "head" /\ Ready /\ open
  /\ IF Need(2) THEN pc' = "done" /\ open' = FALSE /\ UNCHANGED <<buf, len, nd>>
     ELSE IF HasPrefix(<<"p", "q">>) THEN buf' = Drop(2) /\ pc' = "white" /\ len' = 0 /\ nd' = 0 /\ UNCHANGED open
     ELSE IF mode = "close" THEN Bad /\ UNCHANGED <<buf, len, nd>>
     ELSE buf' = Drop(IF Bug = "skip_two" THEN 2 ELSE 1) /\ UNCHANGED <<pc, len, nd, open>>
  /\ UNCHANGED <<mode, s, pos, want, out, eof, asks>>
White ==
  /\ pc = "white" /\ Ready
  /\ IF ~Need(1) /\ Head0 = "w" THEN buf' = Drop(1) /\ UNCHANGED pc ELSE pc' = "digit" /\ UNCHANGED buf
  /\ UNCHANGED <<mode, s, pos, want, len, nd, out, open, eof, asks>>
DigitStep ==
  /\ pc = "digit" /\ Ready
  /\ IF ~Need(1) /\ Head0 \in {"0", "1", "2"}
     THEN LET d == DigitOf(Head0)
          IN /\ buf' = Drop(1)
             /\ IF Bug # "no_limit" /\ len > (Big - d) \div 10 THEN Bad /\ UNCHANGED <<len, nd>>
                ELSE len' = 10 * len + d /\ nd' = nd + 1 /\ UNCHANGED <<pc, open>>
     ELSE /\ UNCHANGED <<buf, len, nd>>
          /\ IF len = 0 THEN Bad ELSE pc' = "sep" /\ UNCHANGED open
  /\ UNCHANGED <<mode, s, pos, want, out, eof, asks>>
SepStep ==
  /\ pc = "sep" /\ Ready
  /\ IF HasPrefix(<<"r", "n">>) THEN buf' = Drop(2) /\ pc' = "body" /\ UNCHANGED open
     ELSE Bad /\ UNCHANGED buf
  /\ UNCHANGED <<mode, s, pos, want, len, nd, out, eof, asks>>
Body ==
  /\ pc = "body" /\ Ready
  /\ IF Need(len) /\ Bug # "short_body" THEN pc' = "done" /\ open' = FALSE /\ UNCHANGED <<buf, out>>
     ELSE out' = Append(out, SubSeq(buf, 1, IF Need(len) THEN Len(buf) ELSE len)) /\ buf' = (IF Need(len) THEN <<>> ELSE Drop(len)) /\ pc' = "head" /\ UNCHANGED open
  /\ UNCHANGED <<mode, s, pos, want, len, nd, eof, asks>>
Stop == pc = "head" /\ ~open /\ pc' = "done" /\ UNCHANGED <<mode, s, pos, buf, want, len, nd, out, open, eof, asks>>
Next == Read \/ HeadStep \/ White \/ DigitStep \/ SepStep \/ Body \/ Stop
Spec == Init /\ [][Next]_vars

Expected == IF mode = "close" THEN F!Contents(s, F!StrictFrames(s, [zero |-> "bad"]).fr)
            ELSE F!Contents(s, F!Frames(s, [big |-> "garbage"]))
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* never anything but the frames; all of them in the end; always as soon as complete
Sound == IsPrefixOf(out, Expected)
Complete == pc = "done" => out = Expected
Prompt == asks
\* close mode: departing from the sequence of frames closes the reader
Closes == pc = "done" => ~open
\* ... and does so before the stream has been read past the bad header
NoDeadlock == pc = "done" \/ ENABLED Next
=============================================================================
