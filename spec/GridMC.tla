------------------------------- MODULE GridMC -------------------------------
(***************************************************************************)
(* Two grids; views of views; drawing and clearing through them.           *)
(***************************************************************************)
EXTENDS Grid, TLC, Json
CONSTANTS W1, H1, W2, H2, MaxSub, MaxOps, Over, Gen
VARIABLES bs, views, log

Num(b, i) == <<IF i = 2 THEN 0 ELSE 64 * b + i, IF i % 2 = 0 THEN 1 ELSE 0, IF i % 3 = 0 THEN -1 ELSE 1, IF i % 3 = 1 THEN -1 ELSE b>>
Base(b, w, h) == [w |-> w, h |-> h, c |-> [i \in 1 .. w * h |-> Num(b, i)]]
Styles == {<<>>, <<[k |-> "pos"]>>, <<[k |-> "runes"], [k |-> "bg"]>>, <<[k |-> "bgfg"]>>, <<[k |-> "zero", r |-> 65], [k |-> "under"]>>}

Init ==
  /\ bs = <<Base(1, W1, H1), Base(2, W2, H2)>>
  /\ views = <<[b |-> 1, r |-> <<1, 1, 1 + W1, 1 + H1>>], [b |-> 2, r |-> <<1, 1, 1 + W2, 1 + H2>>]>>
  /\ log = <<>>
Subs == Len(SelectSeq(log, LAMBDA o : o.op = "sub"))
Sub(i, r) ==
  /\ Subs < MaxSub /\ Subs = Len(log)
  /\ views' = Append(views, SubRect(views[i], r))
  /\ log' = Append(log, [op |-> "sub", i |-> i, r |-> r]) /\ UNCHANGED bs
DrawOp(i, j, sts) ==
  /\ ~Overlap(views[i], views[j]) /\ views[i].b # 0 /\ views[j].b # 0
  /\ bs' = Draw(bs, views[i], views[j], sts) /\ UNCHANGED views
  /\ log' = Append(log, [op |-> "draw", d |-> i, s |-> j, st |-> sts])
ClearOp(i) ==
  /\ views[i].b # 0
  /\ bs' = Clear(bs, views[i]) /\ UNCHANGED views
  /\ log' = Append(log, [op |-> "clear", i |-> i])
Next ==
  /\ Len(log) < MaxOps
  /\ \/ \E i \in 1 .. Len(views) : views[i].b # 0 /\ \E x0 \in 1 .. W1, y0 \in 1 .. H1 : \E x1 \in x0 .. W1 + 1 + Over, y1 \in y0 .. H1 + 1 + Over :
          Sub(i, <<x0, y0, x1, y1>>)
     \/ /\ Subs > 0
        /\ \E i, j \in 1 .. Len(views), sts \in Styles : (i > 2 \/ j > 2) /\ DrawOp(i, j, sts)
     \/ \E i \in 3 .. Len(views) : Len(log) > Subs /\ ClearOp(i)
Spec == Init /\ [][Next]_<<bs, views, log>>

Within == \A i \in 1 .. Len(views) : views[i].b = 0 \/
  \A x \in views[i].r[1] .. views[i].r[3] - 1, y \in views[i].r[2] .. views[i].r[4] - 1 : PtIn(x, y, FullRect(bs[views[i].b]))
SameShape == \A b \in 1 .. 2 : Len(bs[b].c) = bs[b].w * bs[b].h
\* nothing beyond the destination changes, drawing again changes nothing more (unless styles look at the prior cell)
Local == [][
  LET o == log'[Len(log')] IN
  /\ o.op = "sub" => bs' = bs
  /\ o.op = "draw" =>
       /\ \A b \in 1 .. 2 : b # views[o.d].b => bs'[b] = bs[b]
       /\ LET d == views[o.d] IN
          \A x \in 1 .. bs[d.b].w, y \in 1 .. bs[d.b].h : ~PtIn(x, y, d.r) => Cell(bs', d, x, y) = Cell(bs, d, x, y)
       /\ (\A k \in 1 .. Len(o.st) : o.st[k].k # "under") => Draw(bs', views[o.d], views[o.s], o.st) = bs'
       /\ (o.st = <<>> /\ Dx(views[o.d].r) = Dx(views[o.s].r) /\ Dy(views[o.d].r) = Dy(views[o.s].r)) => Equal(bs', views[o.d], views[o.s], 32)
  /\ o.op = "clear" => Equal(bs', views[o.i], views[o.i], 0) ]_<<bs, views, log>>
Emitted == (Gen /\ Len(log') = MaxOps) => PrintT("@@" \o ToJson(log'))
=============================================================================
