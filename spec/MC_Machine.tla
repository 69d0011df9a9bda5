----------------------------- MODULE MC_Machine -----------------------------
EXTENDS DecoderMachine
\* a small recursion limit, so that it is reached within the bounds
SmallRecursion == 2
=============================================================================
