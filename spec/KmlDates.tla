------------------------------ MODULE KmlDates ------------------------------
(***************************************************************************)
(* A calendar that ticks day by day and a clock with edge times.  Every    *)
(* state yields the texts of that day in KML's spellings, valid ones with  *)
(* their meaning and invalid ones; the lexical rules of KmlLex have to     *)
(* agree with the calendar on all of them.                                 *)
(***************************************************************************)
EXTENDS KmlLex, Json, IOUtils
CONSTANTS Years, Hours, Sixties, Fracs, Zones

\* ord: the day of the year
VARIABLES yr, mon, day, ord, phase, clock
vars == <<yr, mon, day, ord, phase, clock>>

RECURSIVE Dec(_)
Dec(k) == IF k < 10 THEN DigitOf(k) ELSE Dec(k \div 10) \o DigitOf(k % 10)
Pad(k, w) == LET t == Dec(k) IN Rep("0", w - Len(t)) \o t

NoClock == <<0, 0, 0, "", "">>
Init == /\ yr \in Years /\ mon = 1 /\ day = 1 /\ ord = 1 /\ phase = "day" /\ clock = NoClock

\* The calendar knows the lengths of months by their names, and that a year is a leap
\* year from how many leap days there have been up to it.
Days31 == {1, 3, 5, 7, 8, 10, 12}
LeapsTo(y) == y \div 4 - y \div 100 + y \div 400
LastDay == IF mon = 2 THEN 28 + LeapsTo(yr) - LeapsTo(yr - 1) ELSE IF mon \in Days31 THEN 31 ELSE 30
Tick == /\ phase = "day"
        /\ IF day < LastDay THEN day' = day + 1 /\ UNCHANGED mon
           ELSE mon < 12 /\ mon' = mon + 1 /\ day' = 1
        /\ ord' = ord + 1
        /\ UNCHANGED <<yr, phase, clock>>
\* At the edges of a month the clock is looked at.
Look == /\ phase = "day" /\ ((day = LastDay /\ mon \in {2, 12}) \/ ord = 1)
        /\ \E h \in Hours, m \in Sixties, s \in Sixties, f \in Fracs, z \in Zones :
             /\ (h = 23 \/ m = 59 \/ s = 59 \/ (m = 0 /\ s = 0))
             /\ (f = "" \/ (m = s /\ z \in {"", "Z", "-00:30"}))
             /\ clock' = <<h, m, s, f, z>>
        /\ phase' = "clock"
        /\ UNCHANGED <<yr, mon, day, ord>>
Next == Tick \/ Look

YT == Pad(yr, 4)
MT == YT \o "-" \o Pad(mon, 2)
DT == MT \o "-" \o Pad(day, 2)
HT == Pad(clock[1], 2) \o ":" \o Pad(clock[2], 2) \o ":" \o Pad(clock[3], 2)
TT == DT \o "T" \o HT \o (IF clock[4] = "" THEN "" ELSE "." \o clock[4]) \o clock[5]

\* What the texts of this state mean.
Means == IF phase = "day"
         THEN (DT :> <<"D:" \o DT>>)
              @@ (IF day = 1 THEN MT :> <<"M:" \o MT>> ELSE <<>>)
              @@ (IF ord = 1 THEN YT :> <<"Y:" \o YT>> ELSE <<>>)
         ELSE (TT :> <<"T:" \o DT \o "T" \o HT \o CanonFrac(clock[4]) \o CanonZone(clock[5])>>)
\* Texts that look like dates but are none.
Wrong == IF phase = "day"
         THEN (IF day = LastDay THEN {MT \o "-" \o Pad(d, 2) : d \in (day + 1)..32} \cup {MT \o "-00"} ELSE {})
              \cup (IF ord = 1 THEN {YT \o "-00", YT \o "-13", YT \o "-99", YT \o "-13-01", YT \o "-00-01"} ELSE {})
         ELSE IF clock[4] # "" THEN {} ELSE {DT \o "T" \o w \o clock[5] : w \in {Pad(clock[1], 2) \o ":60:00", Pad(clock[1], 2) \o ":00:61", "25:" \o Pad(clock[2], 2) \o ":00"}}
              \cup {MT \o "-" \o Pad(LastDay + 1, 2) \o "T" \o HT \o clock[5]}
              \cup {DT \o "T" \o HT \o z : z \in {"+24:00", "-25:00", "+99:00"}}

Agree == \A t \in DOMAIN Means : ParseDate(t) = Means[t]
Refuse == \A t \in Wrong : ParseDate(t) = Bad
\* The canonical spelling means the same.
Canonical == \A t \in DOMAIN Means : ParseDate(DateText(Means[t][1])) = Means[t]
YearLength == mon = 12 /\ day = 31 => ord = 365 + LeapsTo(yr) - LeapsTo(yr - 1)
LeapRule == Leap(yr) <=> LeapsTo(yr) = LeapsTo(yr - 1) + 1

Emit == "EMIT" \in DOMAIN IOEnv =>
          \A t \in (DOMAIN Means) \cup Wrong : PrintT("DATE " \o t)
=============================================================================
