------------------------------ MODULE Decoder ------------------------------
(***************************************************************************)
(* The decoder as a machine that is fed one byte at a time.  It is written *)
(* independently of Wire!Decode (which is recursive and sees the whole     *)
(* input): a stack of open messages, the piece being read, and what is     *)
(* known so far.  In every state there is a verdict: what decoding must    *)
(* return if the input ends here.  TLC explores the machine over every     *)
(* input made of at most MaxTokens tokens, checks in every state that the  *)
(* two definitions agree, and prints the state's input and verdict, which  *)
(* the harness replays into the real Unmarshal.                            *)
(*                                                                         *)
(* An error inside a nested message takes effect only when that message's  *)
(* bytes are all there: until then the whole input is truncated, which is  *)
(* what is reported.                                                       *)
(***************************************************************************)
EXTENDS Wire, Json

CONSTANTS Types,      \* the schema: sequence of field sequences; type 1 is decoded
          Tokens,     \* what the input is made of: a set of byte sequences
          MaxTokens,
          Emit        \* print the states?

VARIABLES inp,        \* the bytes fed so far
          nt,         \* tokens fed so far
          st          \* the machine

X == [types |-> Types, bl |-> <<>>]

\* A frame: fields F, the message so far m, the bytes of it still to come
\* (-1: no limit), the tag and field through which it was entered, and the
\* error found in it.  A frame with an error swallows the rest of its bytes.
Frame(F, m, rem, tag, fi) == [F |-> F, m |-> m, rem |-> rem, tag |-> tag, fi |-> fi, e |-> "", ch |-> <<>>]

\* mode: "tag", "int" (varint value), "len" (length of a value), "raw" (a
\* run of n more bytes), "fail" (the top-level message has failed)
Start == [stack |-> << Frame(Types[1], ZeroMsg(Types[1]), -1, <<>>, 0) >>,
          mode |-> "tag", acc |-> <<>>, n |-> 0, tag |-> <<>>, fi |-> 0]

Top(s)   == s.stack[Len(s.stack)]
SetTop(s, fr) == [s EXCEPT !.stack[Len(s.stack)] = fr]
Done(s)  == [s EXCEPT !.mode = "tag", !.acc = <<>>, !.n = 0]
Value(s, y) == LET fr == Top(s) IN Done(SetTop(s, [fr EXCEPT !.m[s.fi] = y]))

\* The innermost message is wrong.
Fail(s, e, ch) ==
  LET fr == Top(s) IN
  IF Len(s.stack) = 1 THEN [SetTop(s, [fr EXCEPT !.e = e, !.ch = ch]) EXCEPT !.mode = "fail"]
  ELSE [SetTop(s, [fr EXCEPT !.e = e, !.ch = ch]) EXCEPT !.mode = "skip"]
FailField(s, e) == Fail(s, e, << s.tag >>)

Add(f, old, y) == CASE f.c = "plain" -> y
                    [] f.c \in {"opt", "ptr"} -> <<y>>
                    [] f.c = "rep" -> Append(old, y)

\* Close the frames that have got all their bytes.
RECURSIVE Close(_)
Close(s) ==
  LET fr == Top(s) IN
  IF Len(s.stack) = 1 \/ fr.rem # 0 THEN s
  ELSE
  LET up  == [s EXCEPT !.stack = SubSeq(s.stack, 1, Len(s.stack) - 1)]
      par == Top(up)
      f   == par.F[fr.fi]
      old == par.m[fr.fi]
      \* the bytes ran out in the middle of a piece
      e   == IF fr.e # "" THEN fr.e ELSE IF s.mode # "tag" \/ s.acc # <<>> THEN "eof" ELSE ""
      ch  == IF fr.e # "" THEN fr.ch ELSE IF s.mode = "tag" THEN <<>> ELSE << s.tag >>
      y   == IF f.c = "map" THEN PutEntry(old, fr.m[1], fr.m[2])
             ELSE IF f.c = "rep" THEN Append(old, <<fr.m>>) ELSE <<fr.m>>
      \* a message that is not an element keeps what it had got
      kept == IF f.c = "plain" THEN SetTop(up, [par EXCEPT !.m[fr.fi] = y]) ELSE up
  IN IF e # "" THEN Close(Fail(Done(kept), e, << fr.tag >> \o ch))
     ELSE Close(Done(SetTop(up, [par EXCEPT !.m[fr.fi] = y])))

\* n bytes of payload are announced; rem is what the innermost frame has left.
Announce(s, w) ==
  LET fr == Top(s)
      f  == fr.F[s.fi]
      toolong == fr.rem >= 0 /\ (~Small(w) \/ ToNat(w) > fr.rem)
      n  == IF Small(w) THEN ToNat(w) ELSE -1      \* -1: more than we will ever see
  IN IF toolong THEN FailField(s, "eof")
     ELSE IF s.fi # 0 /\ (f.c = "map" \/ f.k = "message") THEN
       LET F == IF f.c = "map" THEN EntryType(f) ELSE Types[f.m]
           old == IF f.c = "plain" /\ f.k = "message" /\ fr.m[s.fi] # <<>>
                  THEN fr.m[s.fi][1] ELSE ZeroMsg(F)
       IN Done([s EXCEPT !.stack = Append(s.stack, Frame(F, old, IF n = -1 THEN 2000000000 ELSE n, s.tag, s.fi))])
     ELSE IF n = 0 THEN (IF s.fi = 0 THEN Done(s)
                         ELSE Value(s, Add(f, fr.m[s.fi], IF f.k = "bytes" THEN << <<>> >> ELSE <<>>)))
     ELSE [s EXCEPT !.mode = "raw", !.n = n, !.acc = <<>>]

\* A complete varint with digits d: what it was for decides.
Complete(s, d) ==
  LET w  == WordOfDigits(d)
      fr == Top(s)
  IN CASE s.mode = "tag" ->
       LET num == Shr(w, 3)
           wt  == w[1] % 8
           fi  == FieldIndex(fr.F, IF Small(num) THEN ToNat(num) ELSE -1)
           s1  == [s EXCEPT !.tag = <<num, wt>>, !.fi = fi, !.acc = <<>>]
       IN IF fi # 0 /\ wt # FieldWT(fr.F[fi]) THEN FailField(s1, "other")
          ELSE CASE wt = 0 -> [s1 EXCEPT !.mode = "int"]
                 [] wt = 2 -> [s1 EXCEPT !.mode = "len"]
                 [] wt = 1 -> [s1 EXCEPT !.mode = "raw", !.n = 8]
                 [] wt = 5 -> [s1 EXCEPT !.mode = "raw", !.n = 4]
                 [] OTHER  -> FailField(s1, "unknownwt")
     [] s.mode = "int" ->
       IF s.fi = 0 THEN Done(s)
       ELSE LET f == fr.F[s.fi] IN Value(s, Add(f, fr.m[s.fi], Coerce(f.k, w)))
     [] s.mode = "len" -> Announce(s, w)

\* A byte of a varint.
VarByte(s, x) ==
  LET acc == Append(s.acc, x)
  IN IF x >= 128 THEN
       [s EXCEPT !.acc = acc]
     ELSE IF Len(acc) > 10 \/ (Len(acc) = 10 /\ x > 1)
          THEN (IF s.mode = "tag" THEN Fail([s EXCEPT !.acc = <<>>], "other", <<>>) ELSE FailField([s EXCEPT !.acc = <<>>], "other"))
     ELSE Complete(s, [i \in 1..Len(acc) |-> acc[i] % 128])

RawByte(s, x) ==
  LET acc == Append(s.acc, x)
      n   == IF s.n < 0 THEN -1 ELSE s.n - 1
      fr  == Top(s)
  IN IF n # 0 THEN [s EXCEPT !.acc = acc, !.n = n]
     ELSE IF s.fi = 0 THEN Done(s)
     ELSE LET f == fr.F[s.fi]
              y == CASE f.k = "bytes"  -> <<acc>>
                     [] f.k = "string" -> acc
                     [] Len(acc) = 4 -> Coerce(f.k, acc \o <<0, 0, 0, 0>>)
                     [] OTHER -> acc
          IN Value(s, Add(f, fr.m[s.fi], y))

\* One byte: every open frame has one byte less to come.
Feed(s, x) ==
  LET s0 == [s EXCEPT !.stack = [i \in 1..Len(s.stack) |->
               IF s.stack[i].rem < 0 THEN s.stack[i] ELSE [s.stack[i] EXCEPT !.rem = s.stack[i].rem - 1]]]
      s1 == CASE s.mode = "fail" -> s
              [] s.mode = "skip" -> s0
              [] s.mode = "raw"  -> RawByte(s0, x)
              [] OTHER           -> VarByte(s0, x)
  IN Close(s1)

RECURSIVE FeedAll(_, _, _)
FeedAll(s, t, i) == IF i > Len(t) THEN s ELSE FeedAll(Feed(s, t[i]), t, i + 1)

\* What decoding returns if the input ends here, and what the message is.
Verdict(s) ==
  LET bot == s.stack[1] IN
  IF s.mode = "fail" THEN Res(bot.e, bot.ch, bot.m)
  ELSE IF Len(s.stack) > 1 THEN Res("eof", << s.stack[2].tag >>, bot.m)
  ELSE IF s.mode # "tag" THEN Res("eof", << s.tag >>, bot.m)
  ELSE IF s.acc # <<>> THEN Res("eof", <<>>, bot.m)
  ELSE Res("", <<>>, bot.m)

Init == inp = <<>> /\ nt = 0 /\ st = Start
Next == /\ nt < MaxTokens
        /\ st.mode # "fail"
        /\ \E t \in Tokens : /\ inp' = inp \o t
                             /\ st' = FeedAll(st, t, 1)
        /\ nt' = nt + 1
Spec == Init /\ [][Next]_<<inp, nt, st>>

(* ------------------------------ checked ------------------------------ *)
\* The two definitions of decoding agree.
Agree == LET v == Verdict(st)
             d == Decode(X, Types[1], inp, ZeroMsg(Types[1]))
         IN /\ v.e = d.e
            /\ v.e # "" => v.ch = d.ch
            /\ SameMsg(X, Types[1], v.m, d.m)

\* An accepted message, written canonically, decodes to itself.
Canonical == LET v == Verdict(st) IN
  v.e = "" => LET c == EncMsg(X, Types[1], v.m)
              IN /\ IsEncoding(X, Types[1], v.m, c)
                 /\ Len(c) = SizeMsg(X, Types[1], v.m)

\* Input that failed for good stays wrong whatever follows (by Next, a
\* failed machine is not fed any more; the verdict must not depend on it).
FailStays == st.mode = "fail" =>
  \A t \in Tokens : LET d == Decode(X, Types[1], inp \o t, ZeroMsg(Types[1]))
                    IN d.e = Verdict(st).e /\ d.ch = Verdict(st).ch /\ SameMsg(X, Types[1], d.m, Verdict(st).m)

Printed == Emit => LET v == Verdict(st)
                   IN PrintT("CASE " \o ToJson([t |-> 1, b |-> inp, e |-> v.e, ch |-> v.ch, m |-> v.m]))
=============================================================================
