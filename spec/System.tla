------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* The layers put together: bodies, dialogs made of these and archives of   *)
(* dialogs, with everything that takes content from one to another.  A body *)
(* is described by cells v, and the compressions e these were encoded with, *)
(* in order; nothing but encoding and decoding changes either, whatever the *)
(* form a body is held in, and a dialog carries all its parts wherever it   *)
(* goes.                                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Bodies, Dialogs, Archives
VARIABLES body,   \* slot -> body, or None
          dlg,    \* slot -> dialog, or None
          arch    \* archive -> dialogs of its records

None == <<>>
Body(e, v) == [e |-> e, v |-> v]
Held(x) == body[x] # None
Open(d) == dlg[d] # None
\* n: method, URL, version and status; qh, rh: headers; ce: encoding stated
Dialog(n, qh, rh, ce, q, s) ==
  [n |-> n, qh |-> qh, rh |-> rh, ce |-> ce, dec |-> <<>>, q |-> q, s |-> s]

Init == body = [x \in Bodies |-> None] /\ dlg = [d \in Dialogs |-> None] /\ arch = [a \in Archives |-> <<>>]
SetBody(x, b) == body' = [body EXCEPT ![x] = b] /\ UNCHANGED <<dlg, arch>>
SetDlg(d, v) == dlg' = [dlg EXCEPT ![d] = v] /\ UNCHANGED <<body, arch>>

Make(x, v) == SetBody(x, Body(<<>>, v))
\* Held otherwise: gathered, mapped
Same(x) == Held(x) /\ UNCHANGED <<body, dlg, arch>>
\* From x to y: cloned, read in, or by a stream into a sink
Move(x, y) == Held(x) /\ SetBody(y, body[x])
\* Two bodies into one sink
Join(x, z, y) ==
  /\ Held(x) /\ Held(z) /\ body[x].e = <<>> /\ body[z].e = <<>>
  /\ SetBody(y, Body(<<>>, body[x].v \o body[z].v))
Encode(x, y, z) == Held(x) /\ SetBody(y, [body[x] EXCEPT !.e = Append(@, z)])
\* The body of a new dialog is one so far on its own
Start(d, x, y, n, qh, rh, ce) ==
  Held(x) /\ Held(y) /\ SetDlg(d, Dialog(n, qh, rh, ce, body[x], body[y]))
\* Another response body
Swap(d, x) == Open(d) /\ Held(x) /\ SetDlg(d, [dlg[d] EXCEPT !.s = body[x]])
\* A body out of a dialog
Take(d, res, x) == Open(d) /\ SetBody(x, IF res THEN dlg[d].s ELSE dlg[d].q)
Last(s) == s[Len(s)]
Fits(g) == g.s.e # <<>> /\ Last(g.s.e) = g.ce
\* The stated encoding removed, if any; r is what the call says
Decode(d, r) ==
  /\ Open(d)
  /\ LET g == dlg[d] IN
     CASE g.ce = "" -> r = "false" /\ SetDlg(d, [g EXCEPT !.dec = <<"Identity">>])
       [] Fits(g) -> r = "true" /\ SetDlg(d, [g EXCEPT !.dec = <<g.ce, "Identity">>, !.s.e = SubSeq(@, 1, Len(@) - 1)])
       [] OTHER -> r = "err" /\ UNCHANGED <<body, dlg, arch>>
Write(a, d) == Open(d) /\ arch' = [arch EXCEPT ![a] = Append(@, dlg[d])] /\ UNCHANGED <<body, dlg>>
Read(a, i, d) == i \in 1..Len(arch[a]) /\ SetDlg(d, arch[a][i])
\* A record from one archive to another, or the same
CopyRec(a, i, b) ==
  i \in 1..Len(arch[a]) /\ arch' = [arch EXCEPT ![b] = Append(@, arch[a][i])] /\ UNCHANGED <<body, dlg>>
\* All records, in order
Scan(a, got) == got = arch[a] /\ UNCHANGED <<body, dlg, arch>>
\* The file is gone, and a new archive begins; what was read stays
Reset(a) == arch' = [arch EXCEPT ![a] = <<>>] /\ UNCHANGED <<body, dlg>>
DropBody(x) == Held(x) /\ SetBody(x, None)
DropDlg(d) == Open(d) /\ SetDlg(d, None)
=============================================================================
