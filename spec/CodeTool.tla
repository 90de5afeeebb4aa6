------------------------------ MODULE CodeTool ------------------------------
(* What is known about band and source codes, and the tool that tells it:    *)
(* it works through a list of requests and prints rows.                      *)
EXTENDS Sid, BandCode

-----------------------------------------------------------------------------
(* The tables, words that a description must contain.                        *)
Row3(c, w) == [code |-> c, says |-> w]
BandTable == <<
  Row3("J", <<"5000">>),
  Row3("F", <<"1000", "5000", ">= 10 sec">>),  Row3("G", <<"1000", "5000", "< 10 sec">>),
  Row3("D", <<"250", "1000", "< 10 sec">>),    Row3("C", <<"250", "1000", ">= 10 sec">>),
  Row3("E", <<"Extremely Short Period", "80", "250", "< 10 sec">>),
  Row3("S", <<"Short Period", "10", "80", "< 10 sec">>),
  Row3("H", <<"High Broadband", "80", "250", ">= 10 sec">>),
  Row3("B", <<"Broadband", "10", "80", ">= 10 sec">>),
  Row3("M", <<"Mid Period", "1", "10">>),      Row3("L", <<"Long Period", "1">>),
  Row3("V", <<"Very Long Period", "0.1", "1">>),
  Row3("U", <<"Ultra Long Period", "0.01", "0.1">>),
  Row3("W", <<"Ultra-ultra Long Period", "0.001", "0.01">>),
  Row3("R", <<"Extremely Long Period", "0.0001", "0.001">>),
  Row3("P", <<"0.1 to 1 day", "0.00001", "0.0001">>),
  Row3("T", <<"1 to 10 days", "0.000001", "0.00001">>),
  Row3("Q", <<"Greater than 10 days", "0.000001">>),
  Row3("I", <<"Irregular">>), Row3("A", <<"Administrative">>), Row3("O", <<"Opaque">>) >>
SourceTable == <<
  Row3("H", <<"High Gain Seismometer">>), Row3("L", <<"Low Gain Seismometer">>),
  Row3("M", <<"Mass Position Seismometer">>), Row3("N", <<"Accelerometer">>),
  Row3("P", <<"Geophone">>), Row3("A", <<"Tilt Meter">>), Row3("B", <<"Creep Meter">>),
  Row3("C", <<"Calibration Input">>), Row3("D", <<"Pressure">>), Row3("E", <<"Electronic Test Point">>),
  Row3("F", <<"Magnetometer">>), Row3("I", <<"Humidity">>), Row3("J", <<"Rotational Sensor">>),
  Row3("K", <<"Temperature">>), Row3("O", <<"Water Current">>), Row3("G", <<"Gravimeter">>),
  Row3("Q", <<"Electric Potential">>), Row3("R", <<"Rainfall">>), Row3("S", <<"Linear Strain">>),
  Row3("T", <<"Tide">>), Row3("U", <<"Bolometer">>), Row3("V", <<"Volumetric Strain">>),
  Row3("W", <<"Wind">>), Row3("X", <<"Derived">>), Row3("Y", <<"Non-specific">>),
  Row3("Z", <<"Synthesized Beams">>) >>
CodesIn(t) == { t[i].code : i \in 1..Len(t) }
Says(t, c) == t[CHOOSE i \in 1..Len(t) : t[i].code = c].says
Contains(s, w) == \E i \in 1..(Len(s) - Len(w) + 1) : SubSeq(s, i, i + Len(w) - 1) = w
Describes(s, t, c) == c \in CodesIn(t) => \A i \in 1..Len(Says(t, c)) : Contains(s, Says(t, c)[i])

\* one character of text as a string, others are not in the tables
Chars == [A |-> 65, B |-> 66, C |-> 67, D |-> 68, E |-> 69, F |-> 70, G |-> 71, H |-> 72, I |-> 73, J |-> 74, K |-> 75,
          L |-> 76, M |-> 77, N |-> 78, O |-> 79, P |-> 80, Q |-> 81, R |-> 82, S |-> 83, T |-> 84, U |-> 85, V |-> 86,
          W |-> 87, X |-> 88, Y |-> 89, Z |-> 90]
Letter(text) == IF Len(text) = 1 /\ \E c \in DOMAIN Chars : Chars[c] = text[1]
                THEN CHOOSE c \in DOMAIN Chars : Chars[c] = text[1] ELSE "?"

-----------------------------------------------------------------------------
(* Requests: [k |-> "sps", rate], [k |-> "band", text], [k |-> "source",     *)
(* text], [k |-> "sid", text], [k |-> "allbands"], [k |-> "allsources"].     *)
(* Rows: [k, code] with code a text.                                         *)
RowOf(k, code) == [k |-> k, code |-> code]
AllRows(k, t) == [i \in 1..Len(t) |-> RowOf(k, <<Chars[t[i].code]>>)]
LevelRows(c) == [i \in 1..Len(c) |-> RowOf(<<"Net", "Sta", "Loc", "Band", "Source", "Subsource">>[i], c[i])]
Broad100 == [none |-> FALSE, v |-> [neg |-> TRUE, m |-> OfInt(100), x |-> 0]]   \* period of 100 s, low corner of a broadband instrument
TenHz  == [none |-> FALSE, v |-> [neg |-> FALSE, m |-> OfInt(10), x |-> 0]]
\* the sets of codes that a rate can have, there is doubt next to a bound
RateCodes(v) == { {a, b} : a \in BandCodes([none |-> FALSE, v |-> v], Broad100), b \in BandCodes([none |-> FALSE, v |-> v], TenHz) }
\* what can be told about a request
Tells(r) == CASE r.k = "sps" -> TRUE
              [] r.k = "band" -> \A i \in 1..Len(r.text) : Letter(<<r.text[i]>>) \in CodesIn(BandTable)
              [] r.k = "source" -> Letter(r.text) \in CodesIn(SourceTable)
              [] r.k = "sid" -> Parse(r.text).ok
              [] OTHER -> TRUE
\* the rows of a request that can be told, not for rates
RowsFor(r) == CASE r.k = "band" -> [i \in 1..Len(r.text) |-> RowOf("Band", <<r.text[i]>>)]
                [] r.k = "source" -> <<RowOf("Source", r.text)>>
                [] r.k = "sid" -> <<RowOf("sid", r.text)>> \o LevelRows(Parse(r.text).codes)
                [] r.k = "allbands" -> AllRows("Band", BandTable)
                [] r.k = "allsources" -> AllRows("Source", SourceTable)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
RECURSIVE RowsOfAll(_, _)
RowsOfAll(rs, i) == IF i > Len(rs) THEN <<>> ELSE RowsFor(rs[i]) \o RowsOfAll(rs, i + 1)
RECURSIVE TellsUpTo(_, _)
TellsUpTo(rs, i) == IF i > Len(rs) THEN i - 1 ELSE IF Tells(rs[i]) THEN TellsUpTo(rs, i + 1) ELSE i - 1
=============================================================================
