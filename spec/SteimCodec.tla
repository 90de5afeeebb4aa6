----------------------------- MODULE SteimCodec -----------------------------
EXTENDS SteimFormat
-----------------------------------------------------------------------------
(* The encoder as a machine: a series is encoded into a chain of blocks of  *)
(* at most `limit` frames (0 is unlimited).                                 *)

CONSTANTS Ver,          \* 1 or 2
          WPF,          \* words per frame, 16 for real
          SeriesSet,    \* series to encode
          Limits,       \* frame limits
          ChainBias,    \* {FALSE}, {TRUE} or both: use last sample as bias of next block
          AllowUnused   \* may the encoder leave words unused (0, 1, 2 per frame)

VARIABLES series, limit, chain, \* chosen at start
          pos,                  \* samples encoded so far, over all blocks
          codes, data,          \* control codes and words of the frame being built
          frames,               \* completed frames of this block
          start,                \* samples encoded before this block
          blocks,               \* completed blocks
          phase
vars == <<series, limit, chain, pos, codes, data, frames, start, blocks, phase>>

Bias == IF chain /\ start > 0 THEN series[start] ELSE 0
Before == IF pos = start THEN Bias ELSE series[pos]
Remaining == Len(series) - pos
NextDiff(j) == WSub(series[pos + j], IF j = 1 THEN Before ELSE series[pos + j - 1])
Capacity(f) == WPF - FirstData(f)
FrameNo == Len(frames) + 1
RoomInFrame == Len(codes) < Capacity(FrameNo)
Unused == Len(SelectSeq(codes, LAMBDA c : c = 0))

Init == /\ series \in SeriesSet
        /\ limit \in Limits
        /\ chain \in ChainBias
        /\ pos = 0 /\ start = 0
        /\ codes = <<>> /\ data = <<>> /\ frames = <<>> /\ blocks = <<>>
        /\ phase = "words"

\* put the next differences into one word
Word(f) ==
  /\ phase = "words" /\ RoomInFrame
  /\ Remaining >= f[1]
  /\ LET ds == [j \in 1..f[1] |-> NextDiff(j)]
     IN /\ \A j \in 1..f[1] : Fits(ds[j], f[2])
        /\ data' = Append(data, PackWord(f, ds))
  /\ codes' = Append(codes, f[3])
  /\ pos' = pos + f[1]
  /\ UNCHANGED <<series, limit, chain, frames, start, blocks, phase>>

\* leave a word unused
Skip ==
  /\ phase = "words" /\ RoomInFrame /\ Unused < AllowUnused
  /\ codes' = Append(codes, 0) /\ data' = Append(data, 0)
  /\ UNCHANGED <<series, limit, chain, pos, frames, start, blocks, phase>>

PadTo(s, n) == s \o [i \in 1..(n - Len(s)) |-> 0]
\* a frame as words; X0 and XN of the first frame are set when the block ends
FrameWords(f, cs, ws) ==
  LET lead == IF f = 1 THEN <<0, 0>> ELSE <<>>
  IN <<ControlWord(lead \o cs)>> \o lead \o PadTo(ws, WPF - 1 - Len(lead))

CloseFrame ==
  /\ phase = "words" /\ ~RoomInFrame /\ Remaining > 0
  /\ frames' = Append(frames, FrameWords(FrameNo, codes, data))
  /\ codes' = <<>> /\ data' = <<>>
  /\ phase' = IF limit > 0 /\ Len(frames) + 1 = limit THEN "full" ELSE "words"
  /\ UNCHANGED <<series, limit, chain, pos, start, blocks>>

BlockOf(fs) == [fs EXCEPT ![1] = [fs[1] EXCEPT ![2] = series[start + 1], ![3] = series[pos]]]

\* all frames of the block are used, go on with the rest in a new block
NextBlock ==
  /\ phase = "full" /\ pos > start
  /\ blocks' = Append(blocks, [n |-> pos - start, frames |-> BlockOf(frames), bias |-> Bias])
  /\ frames' = <<>> /\ start' = pos /\ phase' = "words"
  /\ UNCHANGED <<series, limit, chain, pos, codes, data>>

\* series is exhausted
Finish ==
  /\ phase = "words" /\ Remaining = 0 /\ pos > start
  /\ LET fs == Append(frames, FrameWords(FrameNo, codes, data))
     IN blocks' = Append(blocks, [n |-> pos - start, frames |-> BlockOf(fs), bias |-> Bias])
  /\ frames' = <<>> /\ codes' = <<>> /\ data' = <<>> /\ start' = pos /\ phase' = "done"
  /\ UNCHANGED <<series, limit, chain, pos>>

Next == (\E f \in Formats(Ver) : Word(f)) \/ Skip \/ CloseFrame \/ NextBlock \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What the design guarantees.                                              *)
DecodedSoFar == FoldLeft(LAMBDA acc, b : acc \o Decode(Ver, b.frames, b.n, b.bias).s, <<>>, blocks)
\* every completed block decodes to exactly the samples it accounts for
Lossless == DecodedSoFar = SubSeq(series, 1, start)
Constants == \A i \in 1..Len(blocks) :
    LET d == Decode(Ver, blocks[i].frames, blocks[i].n, blocks[i].bias)
    IN d.ok /\ d.s[1] = blocks[i].frames[1][2] /\ d.s[Len(d.s)] = blocks[i].frames[1][3]
InLimit == \A i \in 1..Len(blocks) :
    /\ limit > 0 => Len(blocks[i].frames) <= limit
    /\ ControlOk(blocks[i].frames)
    /\ i < Len(blocks) => Len(blocks[i].frames) = limit
AllEncoded == phase = "done" => start = Len(series)
\* asking for one more sample than there is must be noticed
NoMore == \A i \in 1..Len(blocks) :
    ~Decode(Ver, blocks[i].frames, blocks[i].n + 1, blocks[i].bias).ok
\* the encoder gets stuck only where no format fits (Steim2: over 30 bits)
NotStuck == (phase = "words" /\ Remaining > 0 /\ RoomInFrame /\ ~ENABLED Next) =>
               Ver = 2 /\ ~DiffFits30(series[pos + 1], Before)
\* (must be violated) the chain of blocks is really explored
Unreached == ~(phase = "done" /\ Len(blocks) >= 2)
=============================================================================
