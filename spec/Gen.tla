-------------------------------- MODULE Gen ---------------------------------
(* Builds elements bottom-up: leaves are pushed on a stack, groups wrap the    *)
(* top items, and a finished element may be damaged once.  TLC enumerates (or  *)
(* samples, with -simulate) all the elements within the bounds, checks the     *)
(* law of the property on each, and prints them; the printed inputs are then   *)
(* executed by the implementation (tools/check).                               *)
EXTENDS Laws, TLC, IOUtils

CONSTANTS MaxOps,     \* number of construction steps
          MaxStack,   \* items waiting for a group
          Leaves,     \* set of leaf elements
          Damage      \* whether damaged elements are generated

VARIABLES stk, ops, whole

vars == <<stk, ops, whole>>

\* wrappers: contents -> element
Def(b, c) == <<b>> \o EncLen(Len(c)) \o c
Long(b, c) == <<b, 130, Len(c) \div 256, Len(c) % 256>> \o c
Ind(b, c) == <<b, 128>> \o c \o <<0, 0>>
Hi(c) == <<191, 129, 1>> \o EncLen(Len(c)) \o c
Wrappers == {"seq", "set", "seqlong", "seqind", "ctx", "ctxind", "ctxhi", "appprim", "octind"}
WrapAs(w, c) ==
  CASE w = "seq" -> Def(48, c) [] w = "set" -> Def(49, c) [] w = "seqlong" -> Long(48, c)
    [] w = "seqind" -> Ind(48, c) [] w = "ctx" -> Def(160, c) [] w = "ctxind" -> Ind(160, c)
    [] w = "ctxhi" -> Hi(c) [] w = "appprim" -> Def(65, c) [] w = "octind" -> Ind(36, c)

Small == {
  <<1, 1, 255>>, <<1, 1, 5>>, <<2, 1, 5>>, <<2, 2, 0, 128>>, <<2, 2, 0, 1>>, <<2, 0>>, <<3, 2, 4, 240>>, <<3, 2, 4, 255>>,
  <<4, 2, 97, 98>>, <<5, 0>>, <<6, 2, 42, 3>>, <<10, 1, 7>>, <<12, 2, 195, 169>>, <<12, 1, 255>>, <<19, 1, 65>>, <<19, 1, 42>>,
  <<0, 0>>, <<128, 1, 9>>, <<159, 31, 0>>, <<48, 0>>, <<30, 2, 0, 97>> }
Times == { <<23, 13, 50, 53, 48, 49, 48, 50, 48, 51, 48, 52, 48, 53, 90>>,
           <<24, 15, 50, 48, 50, 53, 48, 49, 48, 50, 48, 51, 48, 52, 48, 53, 90>> }
AllLeaves == Small \cup Times
FewLeaves == { <<1, 1, 255>>, <<2, 1, 5>>, <<4, 1, 97>>, <<5, 0>>, <<128, 1, 9>>, <<0, 0>> }

Init == stk = << >> /\ ops = 0 /\ whole = TRUE

Push == /\ whole /\ Len(stk) < MaxStack
        /\ \E l \in Leaves : stk' = Append(stk, l)
        /\ whole' = TRUE
Wrap == /\ whole
        /\ \E m \in 0..Len(stk) : \E w \in Wrappers :
             LET keep == Len(stk) - m IN
             /\ m = 0 => Len(stk) < MaxStack
             /\ stk' = Append(SubSeq(stk, 1, keep), WrapAs(w, FlattenB(SubSeq(stk, keep + 1, Len(stk)))))
        /\ whole' = TRUE
\* one byte removed at the end, one changed, or one added
Break == /\ Damage /\ whole /\ Len(stk) = 1
         /\ LET x == stk[1] IN
            \/ stk' = << SubSeq(x, 1, Len(x) - 1) >>
            \/ \E b \in {0, 5} : stk' = << Append(x, b) >>
            \/ \E k \in {1, 2, Len(x)} : \E b \in {0, 1, 128, 255} : k <= Len(x) /\ stk' = << [x EXCEPT ![k] = b] >>
         /\ whole' = FALSE
Next == ops < MaxOps /\ ops' = ops + 1 /\ (Push \/ Wrap \/ Break)
Spec == Init /\ [][Next]_vars

Done == Len(stk) = 1
\* the number of steps taken to build an element does not matter
View == <<stk, whole>>
Emit == Done => PrintT(<<"GEN", stk[1]>>)

I01 == Done => Law01(stk[1])
I02 == Done => Law02(stk[1])
I03 == Done => Law03(stk[1])
I04 == Done => Law04(stk[1]) /\ Law04b(stk[1])
I05 == Done => Law05(stk[1])
I06 == Done => Law06(stk[1])
I07 == Done => Law07(stk[1])
I08 == Done => Law08(stk[1])
I09 == Done => Law09(stk[1]) /\ Law09b(stk[1])
I10 == Done => Law10(stk[1])
I11 == Done => Law11(stk[1])
I12 == Done => Law12(SubSeq(stk[1], 3, Len(stk[1])))
I13 == Done => Law13(stk[1])
I14 == Done => Law14(stk[1])
I15 == Done => Law15(stk[1])
I16 == Done => Law16(stk[1])
I17 == Done => Law17(stk[1])
I18 == Done => Law18(stk[1])
I19 == Done => Law19(stk[1])
I20 == Done => Law20(stk[1])
I21 == Done => Law21(stk[1])
I22 == Done => Law22(stk[1])
I23 == Done => Law23(stk[1])
I24 == Done => Law24(stk[1])
I25 == Done => Law25(stk[1])
I26 == TRUE
I27 == Done => Law27(stk[1])
I28 == Done => Law28(stk[1])
I29 == Done => Law29(stk[1])
=============================================================================
