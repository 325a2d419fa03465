------------------------------- MODULE KmlParse -------------------------------
(***************************************************************************)
(* The parser as a state machine over the tokens of a document:            *)
(*   [k |-> "o"|"e"|"c"|"x"|"t"|"n"|"d", s |-> tag or text]                  *)
(* open tag, empty-element tag, close tag, mismatched close tag, text,     *)
(* layout or comment, entity declaration before the root.                   *)
(* A plan is a sequence of refusals [o, k, i]: observer o answers false to  *)
(* its callback of kind k ("new", "end", "add") for the i-th element.       *)
(***************************************************************************)
EXTENDS KmlDom
PInit == [ st |-> "run", frames |-> <<>>, log |-> <<>>, cnt |-> 0, root |-> TextNode(""), depth |-> 0 ]
Refuses(plan, o, k, i) == \E j \in 1..Len(plan) : plan[j].o = o /\ plan[j].k = k /\ plan[j].i = i
\* the callbacks of kind k made for element i (parent p): up to the first refusal
RECURSIVE Calls(_,_,_,_,_,_)
Calls(plan, nobs, k, i, p, o) ==
  IF o > nobs THEN <<>> ELSE <<[o |-> o, k |-> k, i |-> i, p |-> p]>> \o
     (IF Refuses(plan, o, k, i) THEN <<>> ELSE Calls(plan, nobs, k, i, p, o + 1))
Refused(plan, nobs, k, i) == \E o \in 1..nobs : Refuses(plan, o, k, i)
Top(fs) == fs[Len(fs)]
Below(fs) == SubSeq(fs, 1, Len(fs) - 1)
Attach(fs, x) == [fs EXCEPT ![Len(fs)].c = Append(@, x)]
Node(f) == [ n |-> f.n, t |-> "", a |-> <<>>, c |-> f.c ]
AddText(fs, s) == LET cs == Top(fs).c IN
   IF cs # <<>> /\ Last(cs).n = "#" THEN [fs EXCEPT ![Len(fs)].c = [cs EXCEPT ![Len(cs)].t = @ \o s]]
   ELSE Attach(fs, TextNode(s))
Open(p, tag, plan, nobs) ==
  LET raw == p.frames # <<>> /\ (Top(p.frames).m = "u" \/ Top(p.frames).n = "description")
      m == IF raw \/ ~Known(tag) THEN "u" ELSE "k"
      i == p.cnt + 1
      q == [p EXCEPT !.frames = Append(@, [n |-> tag, m |-> m, i |-> IF m = "k" THEN i ELSE 0, c |-> <<>>])]
  IN IF Len(p.frames) + 1 > MaxDepth THEN [p EXCEPT !.st = "stopped"]
     ELSE IF p.frames = <<>> /\ m = "u" THEN [p EXCEPT !.st = "stopped"]
     ELSE IF m = "u" THEN q
     ELSE [q EXCEPT !.cnt = i, !.log = @ \o Calls(plan, nobs, "new", i, 0, 1),
                    !.st = IF Refused(plan, nobs, "new", i) THEN "stopped" ELSE "run"]
Close(p, plan, nobs) ==
  LET f == Top(p.frames)
      rest == Below(p.frames)
      q == [p EXCEPT !.frames = rest]
      up == Top(rest).i
      l1 == Calls(plan, nobs, "end", f.i, up, 1)
      keep == ~Refused(plan, nobs, "end", f.i)
      l2 == Calls(plan, nobs, "add", f.i, up, 1)
  IN IF rest = <<>> THEN [q EXCEPT !.root = Node(f), !.st = IF p.st = "run" THEN "done" ELSE p.st]
     ELSE IF f.m = "u" THEN [q EXCEPT !.frames = Attach(rest, Node(f))]
     ELSE [q EXCEPT !.frames = IF keep THEN Attach(rest, Node(f)) ELSE rest,
                    !.log = @ \o l1 \o l2,
                    !.st = IF p.st = "stopped" \/ Refused(plan, nobs, "add", f.i) THEN "stopped" ELSE "run"]
Feed(p, tok, plan, nobs) ==
  IF p.st \in {"stopped", "bad"} THEN p
  ELSE IF p.st = "done" THEN (IF tok.k = "n" THEN p ELSE [p EXCEPT !.st = "bad"])
  ELSE CASE tok.k = "o" -> Open(p, tok.s, plan, nobs)
         [] tok.k = "e" -> LET q == Open(p, tok.s, plan, nobs) IN
              \* an element that was opened is closed even if its opening was refused
              IF Len(q.frames) > Len(p.frames) THEN Close(q, plan, nobs) ELSE q
         [] tok.k = "c" -> IF p.frames = <<>> THEN [p EXCEPT !.st = "bad"] ELSE Close(p, plan, nobs)
         [] tok.k = "t" -> IF p.frames = <<>> THEN [p EXCEPT !.st = "bad"] ELSE [p EXCEPT !.frames = AddText(p.frames, tok.s)]
         [] tok.k = "n" -> p
         [] OTHER -> [p EXCEPT !.st = "bad"]
RECURSIVE FeedAll(_,_,_,_,_)
FeedAll(p, toks, i, plan, nobs) == IF i > Len(toks) THEN p ELSE FeedAll(Feed(p, toks[i], plan, nobs), toks, i + 1, plan, nobs)
Accepted(p) == p.st = "done"
\* What the parse delivers.  A field as root is delivered as a field.
Result(p) == Norm(p.root, "")
=============================================================================
