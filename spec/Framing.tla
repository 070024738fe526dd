------------------------------- MODULE Framing -------------------------------
(* What a stream of bytes means as a sequence of messages.                   *)
(*   frame == Prefix  ws*  digit+  Sep  content        (Len(content) = number)*)
(* Frames(s, v) lists the frames of s from left to right: a frame starts at  *)
(* the leftmost prefix not inside an earlier frame whose header is complete, *)
(* anything else is skipped.  A frame whose content never completes yields   *)
(* nothing and nothing after it is looked at.  A length too big for any      *)
(* stream may be treated as not a header or as a frame that never completes  *)
(* (v.big).                                                                  *)
EXTENDS Naturals, Sequences
CONSTANTS Prefix, Sep, White, Digits, Digit(_), MaxLen

At(s, i, p) == i + Len(p) - 1 <= Len(s) /\ \A k \in 1..Len(p) : s[i + k - 1] = p[k]

RECURSIVE SkipWhite(_, _), Number(_, _, _)
SkipWhite(s, i) == IF i <= Len(s) /\ s[i] \in White THEN SkipWhite(s, i + 1) ELSE i
\* <<first position after the digits, value (capped just above MaxLen)>>
Number(s, i, v) == IF i <= Len(s) /\ s[i] \in Digits
                   THEN Number(s, i + 1, IF v > MaxLen THEN v ELSE 10 * v + Digit(s[i]))
                   ELSE <<i, v>>

\* the header starting at i: kind "none" | "bad" | "ok", content start, length
Header(s, i) ==
  IF ~At(s, i, Prefix) THEN [k |-> "none", at |-> i, n |-> 0]
  ELSE LET j == SkipWhite(s, i + Len(Prefix))
           d == Number(s, j, 0)
       IN IF d[1] = j THEN [k |-> "bad", at |-> i + Len(Prefix), n |-> 0]
          ELSE IF At(s, d[1], Sep)
               THEN [k |-> "ok", at |-> d[1] + Len(Sep), n |-> d[2]]
               ELSE [k |-> "bad", at |-> i + Len(Prefix), n |-> 0]

Frame(from, n) == [from |-> from, end |-> from + n - 1]

RECURSIVE Scan(_, _, _, _)
Scan(s, i, v, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET h == Header(s, i)
       IN CASE h.k = "none" -> Scan(s, i + 1, v, acc)
            [] h.k = "bad" -> Scan(s, h.at, v, acc)
            [] h.k = "ok" ->
                 IF h.n = 0 THEN Scan(s, h.at, v, acc)
                 ELSE IF h.n > MaxLen /\ v.big = "garbage" THEN Scan(s, h.at, v, acc)
                 ELSE IF h.at + h.n - 1 > Len(s) THEN acc
                 ELSE Scan(s, h.at + h.n, v, Append(acc, Frame(h.at, h.n)))

Frames(s, v) == Scan(s, 1, v, <<>>)

(* Close-on-invalid-data: frames as long as they follow one another without  *)
(* a gap.  `bad' tells whether the stream has departed from a sequence of    *)
(* frames at a point where the departure is certain (not just cut short).    *)
(* A frame of length zero may count as a departure or as an empty frame      *)
(* (v.zero).                                                                 *)
\* could s[i..] be the beginning of a header?
Partial(s, i) ==
  LET rest == Len(s) - i + 1
  IN IF rest <= Len(Prefix) THEN \A k \in 1..rest : s[i + k - 1] = Prefix[k]
     ELSE /\ At(s, i, Prefix)
          /\ LET j == SkipWhite(s, i + Len(Prefix))
                 d == Number(s, j, 0)
                 r == Len(s) - d[1] + 1
             IN IF d[1] > Len(s) THEN TRUE
                ELSE d[1] > j /\ r <= Len(Sep) /\ \A k \in 1..r : s[d[1] + k - 1] = Sep[k]

RECURSIVE Departure(_, _, _)
\* the first byte at which the header at i is known to be bad (0: never)
Departure(s, i, k) == IF k > Len(s) THEN 0
                      ELSE IF ~Partial(SubSeq(s, 1, k), i) THEN k ELSE Departure(s, i, k + 1)

RECURSIVE Strict(_, _, _, _)
Strict(s, i, v, acc) ==
  IF i > Len(s) THEN [fr |-> acc, bad |-> FALSE, at |-> 0]
  ELSE LET h == Header(s, i)
       IN IF h.k # "ok" THEN [fr |-> acc, bad |-> ~Partial(s, i), at |-> Departure(s, i, i)]
          ELSE IF h.n > MaxLen THEN [fr |-> acc, bad |-> FALSE, at |-> 0]
          ELSE IF h.n = 0 THEN IF v.zero = "bad" THEN [fr |-> acc, bad |-> TRUE, at |-> h.at]
                               ELSE Strict(s, h.at, v, acc)
          ELSE IF h.at + h.n - 1 > Len(s) THEN [fr |-> acc, bad |-> FALSE, at |-> 0]
          ELSE Strict(s, h.at + h.n, v, Append(acc, Frame(h.at, h.n)))
StrictFrames(s, v) == Strict(s, 1, v, <<>>)

Content(s, f) == SubSeq(s, f.from, f.end)
Contents(s, fr) == [k \in 1..Len(fr) |-> Content(s, fr[k])]
\* how many of the frames are complete within the first n bytes
RECURSIVE CompleteN(_, _, _)
CompleteN(fr, n, k) == IF k < Len(fr) /\ fr[k + 1].end <= n THEN CompleteN(fr, n, k + 1) ELSE k
Complete(fr, n) == CompleteN(fr, n, 0)
=============================================================================
