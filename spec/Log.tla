--------------------------------- MODULE Log --------------------------------
(***************************************************************************)
(* Which messages are shown.  Levels: 1 error, 2 warn, 3 info, 4 debug,     *)
(* 5 trace; n: level the logger was set up with, or -1 if it was not.        *)
(***************************************************************************)
EXTENDS Integers, Sequences
Own == {"body_image", "body_image::sub", "body_image_futio", "body_image_futio::fetch", "barc",
        "barc::compress", "barc_cli", "blocking_permit"}
Other == {"hyper::client", "tokio", "my_body_image", "other::barc", "bar", "body", "x", "mio::poll",
          "other::body_image"}
Visible(n, lvl, target) ==
  CASE n < 0 -> FALSE
    [] n = 0 -> lvl <= 3
    [] n = 1 -> lvl <= 3 \/ (lvl = 4 /\ target \in Own)
    [] n = 2 -> lvl <= 4
    [] OTHER -> TRUE
=============================================================================
