----------------------------- MODULE DfaCacheMC -----------------------------
EXTENDS DfaCache
J(d, k, w, h) == [d |-> d, k |-> k, w |-> w, look |-> FALSE, have |-> h]
L(d) == [d |-> d, k |-> 0, w |-> <<>>, look |-> TRUE, have |-> 9]
McJobs == {<<J(1, 0, <<1, 1>>, 0), J(1, 1, <<1>>, 9)>>, <<J(1, 1, <<2>>, 9), J(1, 0, <<2, 1>>, 1)>>,
           <<J(2, 0, <<1, 1, 2>>, 9)>>, <<L(1), J(1, 0, <<1>>, 0)>>, <<J(2, 0, <<2, 2>>, 9), L(2)>>}
McSym == Permutations(Threads)
=============================================================================
