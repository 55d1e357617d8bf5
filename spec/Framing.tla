------------------------------- MODULE Framing -------------------------------
(***************************************************************************)
(* Decoding of the incoming byte stream.  The stream is a sequence of      *)
(* segments (one message each, well-formed or not), every segment a        *)
(* sequence of byte ranges, and the ranges are grouped into reads in every *)
(* possible way.  A step feeds one range; `flush` says that a read ends    *)
(* here, that is, the server comes to rest before more bytes arrive.       *)
(*                                                                         *)
(* The event of a step says what must have been observed by then:          *)
(*   msg    well-formed messages completed by this range: they must have   *)
(*          been delivered at the end of this read, in order, and nothing  *)
(*          else may be                                                    *)
(*   err    malformed message completed by this range, by error code       *)
(*   begun  malformed message begun: its error may be reported from now on *)
(*   sync   all errors so far must have been reported (a well-formed       *)
(*          message has been delivered since, or the input has ended)      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS
  MaxBuf,     \* segments that may end within one read
  MaxLast,    \* segments remembered between reads
  Kinds,      \* kinds of segments
  Tag         \* the property this configuration is evidence for

\* Well-formed: ordinary, with a Content-Type last or first, with a long body,
\* with a non-ASCII body, and zero-length.
Good    == {"msg", "ctlast", "ctfirst", "long", "uni", "empty"}
BadBody == {"json", "utf8", "rpc"}
BadHead == {"len", "nolen", "charset", "three", "junk"}
ASSUME Kinds \subseteq Good \cup BadBody \cup BadHead

\* The ranges of a segment: header, rest of the header, body, rest of the body.
Ranges(k) == IF k \in {"empty", "junk"} THEN 2 ELSE 4

VARIABLES
  last,   \* kinds of the two segments completed last
  cur,    \* segment being received, "-" at a boundary
  pos,    \* ranges of it received so far
  buf,    \* kinds of the segments that ended in the current read
  lost,   \* the last segment had a malformed header, so where it ends is only
          \* known once the next `Content-Length` is found
  dirty,  \* errors may still be outstanding
  open,   \* a read is in progress (bytes fed and not flushed)
  over,   \* the input has ended
  ev

view == <<last, cur, pos, buf, lost, dirty, open, over>>
vars == <<last, cur, pos, buf, lost, dirty, open, over, ev>>

Init ==
  /\ last = <<>> /\ cur = "-" /\ pos = 0 /\ buf = <<>>
  /\ lost = FALSE /\ dirty = FALSE /\ open = FALSE /\ over = FALSE
  /\ ev = [a |-> "start"]

Trim(s, n) == IF Len(s) > n THEN SubSeq(s, Len(s) - n + 1, Len(s)) ELSE s

Feed(k, flush) ==
  LET p    == pos + 1
      end  == p = Ranges(k)
      good == k \in Good \ {"empty"} /\ end
      dirt == (dirty /\ ~good) \/ k \notin Good
      sync == good \/ ~dirt
  IN
  /\ ~over
  /\ IF cur = "-" THEN Len(buf) < MaxBuf ELSE cur = k
     \* these do not start with `Content-Length`, so they would belong to the
     \* previous malformed message
  /\ (cur = "-" /\ lost) => k \notin {"nolen", "junk"}
  /\ lost' = IF end THEN k \in BadHead ELSE lost
  /\ IF end
     THEN /\ cur' = "-" /\ pos' = 0
          /\ last' = Trim(Append(last, k), MaxLast)
          /\ buf' = IF flush THEN <<>> ELSE Append(buf, k)
     ELSE /\ cur' = k /\ pos' = p
          /\ buf' = IF flush THEN <<>> ELSE buf
          /\ UNCHANGED last
  /\ (Len(buf') = MaxBuf /\ end) => flush   \* a read ends at the latest here
  /\ dirty' = dirt
  /\ open' = ~flush
  /\ UNCHANGED over
  /\ ev' = [a |-> "feed", k |-> k, p |-> p, flush |-> flush, end |-> end,
            msg |-> good,
            err |-> IF ~end THEN 0 ELSE CASE k \in Good -> 0 [] k = "rpc" -> 32600 [] OTHER -> 32700,
            begun |-> p = 1 /\ k \notin Good,
            sync |-> sync, lost |-> lost,
            sc |-> {Tag}]

Eof ==
  /\ ~over /\ cur = "-" /\ ~open
  /\ over' = TRUE
     \* the tail of a malformed message may look like an incomplete header
  /\ ev' = [a |-> "eof", sync |-> ~lost, sc |-> {Tag}]
  /\ UNCHANGED <<last, cur, pos, buf, lost, dirty, open>>

Next == (\E k \in Kinds, f \in BOOLEAN : Feed(k, f)) \/ Eof

Spec == Init /\ [][Next]_vars

TypeOK == pos < 4 /\ (cur = "-" <=> pos = 0) /\ Len(buf) <= MaxBuf

\* A segment is delivered or reported when its last range arrives, never before.
Complete == [][(ev'.a = "feed" /\ (ev'.msg \/ ev'.err # 0)) => (cur' = "-")]_vars
\* Errors can only be outstanding if something malformed has been seen.
Clean == [][(ev'.a = "feed" /\ dirty' /\ ~dirty) => ev'.begun]_vars

Key == ToString(view)
Emit == PrintT(<<"EDGE", ToJson([f |-> Key, e |-> ev', t |-> ToString(<<last', cur', pos', buf', lost', dirty', open', over'>>)])>>)

\* Used as an invariant in simulation mode: prints the behaviour instead of the graph.
EmitSim == PrintT(<<"SIM", ToJson([l |-> TLCGet("level"), e |-> ev])>>)
=============================================================================
