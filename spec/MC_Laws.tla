------------------------------ MODULE MC_Laws -------------------------------
(* Every byte string over an alphabet (after one of the given starts), built  *)
(* one byte at a time, with the law of each property as an invariant.         *)
EXTENDS Laws
CONSTANTS Alphabet, MaxLen, Starts
VARIABLES x, n
Init == x \in Starts /\ n = 0
Next == n < MaxLen /\ n' = n + 1 /\ \E b \in Alphabet : x' = Append(x, b)
Spec == Init /\ [][Next]_<<x, n>>

Empty == {<< >>}
\* 2501020304 and 20250102030405, and shorter ones
TimeStarts == { <<50, 53, 48, 49, 48, 50, 48, 51>>, <<50, 48, 50, 53, 49, 50, 51, 49, 50, 51, 53, 57>>,
                <<50, 53, 48, 49, 51, 49, 48, 51, 48, 52>> }
IntStarts == { << >>, <<0>>, <<0, 0, 0, 0>>, <<127, 255>>, <<255, 255>>, <<128, 0>>, <<0, 255, 255, 255, 255, 255, 255>> }
I01 == Law01(x)
I02 == Law02(x)
I03 == Law03(x)
I04 == Law04(x) /\ Law04b(x)
I05 == Law05(x)
I06 == Law06(x)
I07 == Law07(x)
I08 == Law08(x)
I09 == Law09(x) /\ Law09b(x)
I10 == Law10(x)
I11 == Law11(x)
I12 == Law12(x)
I13 == Law13(x)
I14 == Law14(x)
I15 == Law15(x)
I16 == Law16(x)
I17 == Law17(x)
I18 == Law18(x)
I19 == Law19(x)
I20 == Law20(x)
I21 == Law21(x)
I22 == Law22(x)
I23 == Law23(x)
I24 == Law24(x)
I25 == Law25(x)
I27 == Law27(x)
I28 == Law28(x)
I29 == Law29(x)
SmallRecursion == 3
RealRecursion == 50
=============================================================================
