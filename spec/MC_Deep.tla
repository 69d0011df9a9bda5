------------------------------- MODULE MC_Deep -------------------------------
\* a module of its own: TLC computes constants such as Deep before it starts, for any configuration
EXTENDS DecoderMachine
MoreRecursion == 3

\* inputs put together from headers, ends and small elements: deeper than all strings of that length
Tokens == { <<48, 128>>, <<49, 128>>, <<160, 128>>, <<36, 128>>, <<0, 0>>, <<48, 2>>, <<48, 4>>, <<49, 6>>, <<160, 4>>, <<5, 0>>, <<2, 1, 5>>, <<128, 0>> }
Flat(f) == FoldLeft(LAMBDA a, b : a \o b, << >>, f)
Deep == UNION {{Flat(f) : f \in [1..n -> Tokens]} : n \in 0..MaxLen}
=============================================================================
