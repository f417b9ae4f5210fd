------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* What a client of the library sees: messages it holds, byte slices it    *)
(* holds, and what each call may do to them.                               *)
(*   obj[i]  [t |-> type, v |-> value, fed |-> ghost]                      *)
(*           fed: <<>>, or <<rope>> when the message was zero and has      *)
(*           since accepted exactly these bytes, in any number of calls    *)
(*   buf[i]  [r |-> rope, of |-> ghost]                                    *)
(*           of: <<>>, or <<t, v>> when the bytes are what Marshal made    *)
(*           of a message of type t with value v                           *)
(***************************************************************************)
EXTENDS Wire

VARIABLES obj, buf

NoObj == [t |-> 0, v |-> <<>>, fed |-> <<>>]
NoBuf == [r |-> <<>>, of |-> <<>>]

Fed(f, r) == IF f = <<>> THEN <<>> ELSE << f[1] \o r >>
=============================================================================
