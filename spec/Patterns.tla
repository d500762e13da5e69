------------------------------ MODULE Patterns ------------------------------
(* Radio pattern files.

   Antenna pattern file: c.blocks[k] = [name, hor, ver] in the order written,
   hor / ver a sequence of losses (<<>> where the entry is not a number), one
   per degree from 0, "none" where the section is missing.
   Scan pattern file: c.rows = [az, row: [el, gain]], an entry <<>> where it is
   not a number.
   c.asks = [az, el, base, div, gain]: the gain the read pattern gives a radio
   with this boresight gain and diversity gain at these deviations.          *)
EXTENDS Radio

Whole360(s) == Len(s) = 360 /\ \A k \in DOMAIN s : s[k] # <<>>
BlockFit(b) == b.hor # <<>> /\ b.ver # <<>> /\ Whole360(b.hor[1]) /\ Whole360(b.ver[1])
\* extra rows after the 360 are neither right nor wrong
BlockOdd(b) == \/ b.hor # <<>> /\ Len(b.hor[1]) > 360
               \/ b.ver # <<>> /\ Len(b.ver[1]) > 360
Turned(k) == ((k % 360) + 360) % 360
LossAt(s, x) == {FNeg(s[Turned(k) + 1][1]) : k \in Whole(x)}

Antenna(c) ==
  IF c.blocks = <<>> \/ \E k \in DOMAIN c.blocks : ~BlockFit(c.blocks[k]) /\ ~BlockOdd(c.blocks[k])
  THEN (IF c.res = "DataException" THEN {} ELSE IF c.res = "ok" THEN {"unfit_pattern_accepted"} ELSE {"unfit_pattern_crash"})
  ELSE IF \E k \in DOMAIN c.blocks : BlockOdd(c.blocks[k])
  THEN (IF c.res \in {"ok", "DataException"} THEN {} ELSE {"unfit_pattern_crash"})
  ELSE IF c.res # "ok" THEN {"pattern_refused"}
  ELSE (IF Len(c.got) = Len(c.blocks) /\ \A k \in DOMAIN c.got : c.got[k].name = c.blocks[k].key THEN {} ELSE {"pattern_names"})
       \union (IF \A k \in DOMAIN c.got : k \in DOMAIN c.blocks =>
                    /\ Len(c.got[k].hor) = 360 /\ Len(c.got[k].ver) = 360
                    /\ \A d \in 1..360 : /\ Near(FNeg(c.blocks[k].hor[1][d][1]), c.got[k].hor[d])
                                         /\ Near(FNeg(c.blocks[k].ver[1][d][1]), c.got[k].ver[d])
               THEN {} ELSE {"pattern_losses"})
       \* the first antenna of the file is the radio's
       \union (IF \A n \in DOMAIN c.asks :
                    LET q == c.asks[n]  b == c.blocks[1]
                    IN \E h \in LossAt(b.hor[1], q.az), v \in LossAt(b.ver[1], q.el) :
                         Near(q.gain, FAdd(FAdd(q.base, q.div), FAdd(h, v)))
               THEN {} ELSE {"antenna_gain"})

ScanFit(c) == Len(c.rows) > 0 /\ \A k \in DOMAIN c.rows :
                /\ c.rows[k].az # <<>> /\ Len(c.rows[k].row) > 0
                /\ \A n \in DOMAIN c.rows[k].row : c.rows[k].row[n].gain # <<>> /\ c.rows[k].row[n].el # <<>>
Plain(c) == [k \in DOMAIN c.rows |-> [az |-> c.rows[k].az[1],
               row |-> [n \in DOMAIN c.rows[k].row |-> [el |-> c.rows[k].row[n].el[1], gain |-> c.rows[k].row[n].gain[1]]]]]
ScanFile(c) ==
  IF ~ScanFit(c) THEN (IF c.res = "DataException" THEN {} ELSE IF c.res = "ok" THEN {"unfit_pattern_accepted"} ELSE {"unfit_pattern_crash"})
  ELSE IF c.res # "ok" THEN {"pattern_refused"}
  ELSE LET s == Plain(c)
       IN (IF /\ Len(c.got) = Len(s)
              /\ \A k \in DOMAIN s : /\ Near(s[k].az, c.got[k].az) /\ Len(s[k].row) = Len(c.got[k].row)
                                     /\ \A n \in DOMAIN s[k].row : /\ Near(s[k].row[n].el, c.got[k].row[n].el)
                                                                   /\ Near(s[k].row[n].gain, c.got[k].row[n].gain)
           THEN {} ELSE {"scan_table"})
          \union (IF \A n \in DOMAIN c.asks :
                       \E g \in ScanGains(s, c.asks[n].az, c.asks[n].el) :
                          Near(c.asks[n].gain, FAdd(FAdd(c.asks[n].base, c.asks[n].div), g))
                  THEN {} ELSE {"scan_gain"})

PatternFails(c) == IF c.kind = "antenna" THEN Antenna(c) ELSE ScanFile(c)
=============================================================================
