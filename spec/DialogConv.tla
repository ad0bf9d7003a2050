----------------------------- MODULE DialogConv -----------------------------
(* Dialogs as records and back.  Metadata fields hold text; each is present  *)
(* and well-formed, missing or malformed.                                    *)
EXTENDS Integers, Sequences
Fields == {"url", "method", "version", "status", "decoded"}

\* d: the dialog; got: the dialog obtained by way of a record
Same(d, got) == got = d

\* The record's metadata m: one value for each documented name, that of the
\* decoded encodings only if there are any
Names(d) == <<"method">> \o (IF d.decoded = <<>> THEN <<>> ELSE <<"response-decoded">>)
            \o <<"response-status", "response-version", "url">>
MetaFor(d, m) ==
  /\ m.names = Names(d)
  /\ m.url = d.url /\ m.method = d.method /\ m.version = d.version /\ m.status = d.status
  /\ d.decoded # <<>> => m.decoded = d.decoded

\* Conversion of a record with the given state of each field.  What is
\* refused is refused for one of the fields at fault; the decoded list is
\* optional.
Convert(f, res) ==
  LET missing == {x \in Fields \ {"decoded"} : f[x] = "missing"}
      bad == {x \in Fields : f[x] = "bad"}
  IN IF missing \cup bad = {} THEN res = "ok"
     ELSE \/ \E x \in missing : res = "no " \o x
          \/ \E x \in bad : res = "bad " \o x
=============================================================================
