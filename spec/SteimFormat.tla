------------------------------- MODULE SteimFormat -------------------------------
(* Steim1 and Steim2 integer compression (SEED manual, appendix B):         *)
(* word formats and the decoder as a total function.                        *)
EXTENDS Bits

-----------------------------------------------------------------------------
(* Word formats.  A 64 byte frame is 16 words, the first is the control     *)
(* word with sixteen 2 bit codes.                                           *)

NoDiffs == [ok |-> FALSE, d |-> <<>>]
Split(w, k, b) == [ok |-> TRUE, d |-> [j \in 1..k |-> SField(w, (k - j) * b, b)]]

\* differences held by word w under control code c
WordDiffs(ver, c, w) ==
  IF c = 0 THEN [ok |-> TRUE, d |-> <<>>]
  ELSE IF c = 1 THEN Split(w, 4, 8)
  ELSE IF ver = 1
       THEN IF c = 2 THEN Split(w, 2, 16) ELSE [ok |-> TRUE, d |-> <<w>>]
  ELSE LET dnib == UField(w, 30, 2)
       IN IF c = 2 THEN CASE dnib = 1 -> Split(w, 1, 30)
                          [] dnib = 2 -> Split(w, 2, 15)
                          [] dnib = 3 -> Split(w, 3, 10)
                          [] OTHER -> NoDiffs
          ELSE CASE dnib = 0 -> Split(w, 5, 6)
                 [] dnib = 1 -> Split(w, 6, 5)
                 [] dnib = 2 -> Split(w, 7, 4)
                 [] OTHER -> NoDiffs

\* the packings an encoder can choose: count, bits, control code, dnib (-1 none)
Formats(ver) ==
  IF ver = 1 THEN { <<4,8,1,-1>>, <<2,16,2,-1>>, <<1,32,3,-1>> }
  ELSE { <<4,8,1,-1>>, <<1,30,2,1>>, <<2,15,2,2>>, <<3,10,2,3>>,
         <<5,6,3,0>>, <<6,5,3,1>>, <<7,4,3,2>> }

\* signed value of two top bits t and 30 low bits
Top(t) == (IF t >= 2 THEN t - 4 ELSE t) * Pow2[30]
SumFields(ds, k, b) ==
  FoldLeft(LAMBDA acc, j : acc + (ds[j] % Pow2[b]) * Pow2[(k - j) * b], 0, [j \in 1..k |-> j])
\* the word that holds differences ds in format f
PackWord(f, ds) ==
  LET k == f[1]  b == f[2] IN
  IF b = 32 THEN ds[1]
  ELSE IF k * b = 32
       THEN ds[1] * Pow2[(k - 1) * b]
            + (IF k = 2 THEN ds[2] % Pow2[b]
               ELSE SumFields(<<0, ds[2], ds[3], ds[4]>>, 4, 8))
  ELSE Top(f[4]) + SumFields(ds, k, b)

-----------------------------------------------------------------------------
(* Frames: a frame is a sequence of wpf words (16 in the real format).      *)

\* code of word k (0 based) of a frame with control word c
CodeOf(c, k) == UField(c, 30 - 2 * k, 2)
\* control word with the codes (given for words 1, 2, ...)
ControlWord(codes) ==
  FoldLeft(LAMBDA acc, k : acc + codes[k] * Pow2[30 - 2 * k], 0, [k \in 1..Len(codes) |-> k])

\* first word index that can hold differences
FirstData(f) == IF f = 1 THEN 3 ELSE 1

\* all differences of one frame (f is its 1 based number), with counters
FrameDiffs(ver, frame, f) ==
  FoldLeft(LAMBDA acc, k :
      IF ~acc.ok THEN acc
      ELSE LET c == CodeOf(frame[1], k)
               r == WordDiffs(ver, c, frame[k + 1])
           IN [ok |-> r.ok, d |-> acc.d \o r.d, empty |-> acc.empty + (IF c = 0 THEN 1 ELSE 0)],
    [ok |-> TRUE, d |-> <<>>, empty |-> 0],
    [i \in 1..(Len(frame) - FirstData(f)) |-> i + FirstData(f) - 1])

\* all differences of a block of frames
BlockDiffs(ver, frames) ==
  FoldLeft(LAMBDA acc, f :
      IF ~acc.ok THEN acc
      ELSE LET r == FrameDiffs(ver, frames[f], f)
           IN [ok |-> r.ok, d |-> acc.d \o r.d, empty |-> acc.empty + r.empty],
    [ok |-> TRUE, d |-> <<>>, empty |-> 0],
    [i \in 1..Len(frames) |-> i])

\* control codes that must be zero are zero
ControlOk(frames) ==
  /\ \A f \in 1..Len(frames) : CodeOf(frames[f][1], 0) = 0
  /\ Len(frames) > 0 => CodeOf(frames[1][1], 1) = 0 /\ CodeOf(frames[1][1], 2) = 0

\* running sums: samples from differences, starting with value before the first
Integrate(diffs, n, before) ==
  FoldLeft(LAMBDA acc, i : Append(acc, WAdd(IF i = 1 THEN before ELSE acc[i-1], diffs[i])),
           <<>>, [i \in 1..n |-> i])

\* The decoder: with bias 0 the first sample is the forward constant X0
Decode(ver, frames, n, bias) ==
  LET b == BlockDiffs(ver, frames)
  IN IF ~b.ok THEN [ok |-> FALSE, why |-> "undefined code", s |-> <<>>]
     ELSE IF Len(b.d) < n THEN [ok |-> FALSE, why |-> "too few differences", s |-> <<>>]
     ELSE IF n = 0 THEN [ok |-> TRUE, why |-> "", s |-> <<>>]
     ELSE [ok |-> TRUE, why |-> "",
           s |-> Integrate(b.d, n, IF bias = 0 THEN WSub(frames[1][2], b.d[1]) ELSE bias)]

\* differences of a series, the first against bias
Diffs(s, bias) == [i \in 1..Len(s) |-> WSub(s[i], IF i = 1 THEN bias ELSE s[i-1])]
DiffsFit30(s, bias) == \A i \in 1..Len(s) : DiffFits30(s[i], IF i = 1 THEN bias ELSE s[i-1])

=============================================================================
