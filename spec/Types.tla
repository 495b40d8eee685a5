------------------------------- MODULE Types --------------------------------
(***************************************************************************)
(* What may travel on channels: how many bits a value takes (DRAMs charge   *)
(* their bandwidth for them), which address an index stands for, and what   *)
(* placeholders for values that are not computed can and cannot do.         *)
(*                                                                         *)
(* MODE = "laws": sizes are additive and scale; a number has one meaning.   *)
(* MODE = "gen": cases for the implementation.  MODE = "judge": answers.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Mode == IOEnv.MODE
J == IF Mode = "judge" THEN ndJsonDeserialize(IOEnv.IN) ELSE <<>>

Width == [bool |-> 1, u8 |-> 8, i8 |-> 8, u16 |-> 16, i16 |-> 16, u32 |-> 32, i32 |-> 32, u64 |-> 64, i64 |-> 64,
          f32 |-> 32, f64 |-> 64, usize |-> 64, unit |-> 0]
Scalars == DOMAIN Width

(* A type is a nonempty sequence of scalars, for the pair of the first and the pair of the rest, or the like *)
RECURSIVE Sum(_), Prod(_)
Sum(t) == IF t = <<>> THEN 0 ELSE Width[Head(t)] + Sum(Tail(t))
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Size(t) == Sum(t)
ArraySize(t, shape) == Prod(shape) * Sum(t)

Shapes == {<<>>, <<0>>, <<1>>, <<5>>, <<2, 3>>, <<3, 0>>, <<1, 7>>, <<2, 3, 4>>, <<2, 1, 0>>, <<2, 2, 2, 2>>}
ShapeList == SetToSeq(Shapes)
Types1 == {<<a>> : a \in Scalars}
Types2 == {<<a, b>> : a \in Scalars, b \in Scalars}
Few == {"bool", "u16", "f64", "unit"}
Types3 == {<<a, b, c>> : a \in Few, b \in Few, c \in Few}
SizeCases(z) == {[kind |-> "size", type |-> t, shapes |-> ShapeList] : t \in Types1 \cup Types2 \cup Types3}

(* Numbers in a base: digits, most significant first *)
RECURSIVE Value(_, _)
Much == 1000000  \* beyond all limits
Value(d, r) == IF d = <<>> THEN 0
               ELSE LET v == Value(SubSeq(d, 1, Len(d) - 1), r) * r + d[Len(d)] IN IF v > Much THEN Much ELSE v
Low == [u8 |-> 0, i8 |-> -128, u16 |-> 0, i16 |-> -32768]
High == [u8 |-> 255, i8 |-> 127, u16 |-> 65535, i16 |-> 32767]
Parses(ty, neg, d, r) ==
  /\ d # <<>> /\ \A k \in DOMAIN d : d[k] < r
  /\ neg => Low[ty] < 0
  /\ LET v == IF neg THEN -Value(d, r) ELSE Value(d, r) IN v >= Low[ty] /\ v <= High[ty]
Digits == {<<>>, <<0>>, <<1>>, <<7>>, <<9>>, <<15>>, <<1, 2, 7>>, <<1, 2, 8>>, <<1, 2, 9>>, <<2, 5, 5>>, <<2, 5, 6>>, <<8, 0>>, <<7, 15>>,
           <<15, 15>>, <<1, 0, 0>>, <<3, 2, 7, 6, 7>>, <<3, 2, 7, 6, 8>>, <<3, 2, 7, 6, 9>>, <<6, 5, 5, 3, 5>>, <<6, 5, 5, 3, 6>>,
           <<15, 15, 15, 15>>, <<1, 1, 1, 1, 1, 1, 1, 1>>, <<0, 0, 0, 0, 1>>, <<35>>, <<3, 7>>}
ParseCases(z) == {[kind |-> "parse", type |-> ty, neg |-> n, digits |-> d, radix |-> r] :
                   ty \in DOMAIN Low, n \in BOOLEAN, d \in Digits, r \in {2, 8, 10, 16, 36}}
IndexCases(z) == {[kind |-> "index", type |-> "u8", v |-> <<0, k>>] : k \in 0 .. 255}
            \cup {[kind |-> "index", type |-> "u16", v |-> <<0, k>>] : k \in {0, 1, 255, 256, 257, 32767, 32768, 65534, 65535}}
            \cup {[kind |-> "index", type |-> "usize", v |-> v] : v \in {0, 1, 1000, 4194303} \X {0, 1, 255, 65536, 1000000}}

------------------------------------------------------------------------------
(* Laws *)
Laws ==
  /\ \A t \in Types2 : Size(t) = Size(<<t[1]>>) + Size(<<t[2]>>) /\ Size(t) = Size(<<t[2], t[1]>>)
  /\ \A t \in Types2, s \in Shapes : ArraySize(t, s) = ArraySize(<<t[1]>>, s) + ArraySize(<<t[2]>>, s)
  /\ \A t \in Types1, s \in Shapes : (\E k \in DOMAIN s : s[k] = 0) => ArraySize(t, s) = 0
  /\ \A ty \in DOMAIN Low, d \in Digits, r \in {8, 10, 16} :
       Parses(ty, FALSE, d, r) => Parses(ty, FALSE, <<0>> \o d, r)

(* Judging *)
Wrong(c) ==
  CASE c.crash -> "crash"
    [] c.kind = "size" ->
       IF c.r.size # Size(c.type) \/ c.r.value # Size(c.type) THEN "size"
       ELSE IF c.r.uneval # Size(c.type) THEN "size-unevaluated"
       ELSE IF \E k \in DOMAIN c.shapes : c.r.arrays[k] # ArraySize(c.type, c.shapes[k]) THEN "size-array" ELSE ""
    [] c.kind = "parse" ->
       IF c.r.ok # Parses(c.type, c.neg, c.digits, c.radix) THEN "parse"
       ELSE IF c.radix = 10 /\ c.r.str # c.r.ok THEN "parse" ELSE ""
    [] c.kind = "index" -> IF c.r.to # c.v THEN "index" ELSE ""
    [] OTHER -> IF \E k \in DOMAIN c.r.ops : ~c.r.ops[k] THEN "placeholder" ELSE ""

VARIABLES i, bad
Init == /\ i \in IF Mode = "judge" THEN 1 .. Len(J) ELSE {0}
        /\ bad = IF Mode = "judge" THEN Wrong(J[i]) ELSE ""
        /\ (IF bad # "" THEN PrintT(<<"REJECT", i, bad>>) ELSE TRUE)
Next == FALSE /\ UNCHANGED <<i, bad>>
Spec == Init /\ [][Next]_<<i, bad>>
Lawful == Mode = "laws" => Laws
ASSUME Mode = "gen" =>
  /\ ndJsonSerialize(IOEnv.OUT \o "-size.ndjson", SetToSeq(SizeCases(0)))
  /\ ndJsonSerialize(IOEnv.OUT \o "-parse.ndjson", SetToSeq(ParseCases(0)))
  /\ ndJsonSerialize(IOEnv.OUT \o "-index.ndjson", SetToSeq(IndexCases(0)) \o <<[kind |-> "ops"]>>)
==============================================================================
