------------------------------- MODULE Errors -------------------------------
(***************************************************************************)
(* What a failing operation reports.  An error is the chain of its sources, *)
(* as the kinds at each level, with what can be found along it: the code    *)
(* of a system error, the mark of an error given by a source or             *)
(* destination, the kind of an I/O error and the detail stated by the kind. *)
(*                                                                         *)
(* s: the operation and why it should fail; e: what was reported.           *)
(***************************************************************************)
EXTENDS Integers, Sequences

Layer(what) ==
  CASE what \in {"read", "push", "stream"} -> "io"
    [] what \in {"back", "save", "fs", "map", "out", "from"} -> "body"
    [] what \in {"ropen", "wopen", "bwrite", "bread"} -> "barc"
    [] what \in {"dec", "sink", "http"} -> "futio"
\* How an I/O error, and one of a body, appears at a layer
Io(l) ==
  CASE l = "io" -> {<<"io">>}
    [] l = "body" -> {<<"Body.Io", "io">>}
    [] l = "barc" -> {<<"Barc.Io", "io">>, <<"Barc.Body", "Body.Io", "io">>}
    [] l = "futio" -> {<<"Futio.Body", "Body.Io", "io">>}
Long(l) ==
  CASE l = "body" -> {<<"Body.TooLong">>}
    [] l = "barc" -> {<<"Barc.Body", "Body.TooLong">>}
    [] l = "futio" -> {<<"Futio.Body", "Body.TooLong">>}

\* A metadata field which is missing (val = "") or malformed
Conv(f, val) ==
  CASE f = "url"     -> IF val = "" THEN {<<"Conv.NoMetaUrl">>} ELSE {<<"Conv.InvalidUrl", "other">>}
    [] f = "method"  -> IF val = "" THEN {<<"Conv.NoMetaMethod">>} ELSE {<<"Conv.InvalidMethod", "other">>}
    [] f = "version" -> IF val = "" THEN {<<"Conv.NoMetaResVersion">>} ELSE {<<"Conv.InvalidVersion">>}
    [] f = "status"  -> IF val = "" THEN {<<"Conv.NoMetaResStatus">>}
                        ELSE {<<"Conv.MalformedMetaResStatus">>, <<"Conv.InvalidStatusCode", "other">>}
    [] f = "decoded" -> {<<"Conv.InvalidResDecoded">>}
\* Errors which state the malformed part
Stated(s) == s.val # "" /\ s.field \in {"version", "decoded"}

Plain(e) == e.r = "ok"
\* Each message is there, and includes that of the source
Told(e) == e.r = "err" /\ e.told
Found(s, e) == Told(e) /\ e.chain \in Io(Layer(s.what))
Kind(e, k) == Told(e) /\ e.chain = <<k>>

Allowed(s, e) ==
  CASE s.cause = "none" -> Plain(e)
    \* Not every refused call needs to fail the operation
    [] s.cause = "sys" -> Plain(e) \/ (Found(s, e) /\ e.errno = e.inj)
    [] s.cause = "absent" -> Found(s, e) /\ e.errno = 2
    [] s.cause \in {"src", "dst"} -> Found(s, e) /\ e.mark = s.mark /\ e.iok = s.iok
    [] s.cause = "long" -> Told(e) /\ e.chain \in Long(Layer(s.what)) /\ e.num > s.max /\ e.num <= s.n
    [] s.cause = "cut" -> Found(s, e) /\ e.errno = -1 /\ (s.z = "none" => e.iok = "UnexpectedEof")
    [] s.cause = "type" -> Kind(e, "Barc.UnknownRecordType") /\ e.num = s.byte
    [] s.cause = "comp" -> Kind(e, "Barc.UnknownCompression") /\ e.num = s.byte
    [] s.cause = "hex" -> Kind(e, "Barc.ReadInvalidRecHeadHex") /\ e.num = s.byte
    [] s.cause = "magic" -> Kind(e, "Barc.ReadInvalidRecHead")
    [] s.cause = "short" -> Kind(e, "Barc.ReadIncompleteRecHead") /\ e.num = s.at
    [] s.cause = "header" -> Told(e) /\ Len(e.chain) >= 2 /\ e.chain[1] = "Barc.InvalidHeader"
    [] s.cause = "unsup" -> Kind(e, "Futio.UnsupportedEncoding") /\ e.enc = "compress"
    \* Of an exchange, with the HTTP library between: the peer isn't there, or resets
    [] s.cause \in {"refused", "reset", "reslen"} ->
         Told(e) /\ e.chain[1] = "Futio.Hyper" /\ e.chain[Len(e.chain)] = "io" /\ e.errno = (IF s.cause = "refused" THEN 111 ELSE 104)
    [] s.cause = "stated" -> Kind(e, "Futio.ContentLengthTooLong") /\ e.num = s.n
    [] s.cause = "field" ->
         Told(e) /\ e.chain[1] = "Barc.IntoDialog" /\ Tail(e.chain) \in Conv(s.field, s.val) /\ (Stated(s) => e.val = s.bad)
=============================================================================
