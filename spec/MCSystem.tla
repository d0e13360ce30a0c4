------------------------------ MODULE MCSystem ------------------------------
EXTENDS System, Toy
N0 == <<0, 0, 0, 0>>
N1 == <<0, 0, 0, 1>>
H0 == <<128, 0, 0, 0>>
H1 == <<128, 0, 0, 1>>
MCIndices == {N0, N1, H0, H1}
Masters == {Val(Master(s)) : s \in {<<a, b>> : a \in 0..3, b \in 0..3} } \cup {}
GoodSeeds == {s \in {<<a, b>> : a \in 0..3, b \in 0..3} : IsOk(Master(s))}
\* what Proofs.tla assumes of the group
ASSUME \A a \in 1..4, b \in 1..4 : LET q == ToyPtAddG(ToyPtOf(<<a>>), <<b>>)  s == ToyScAdd(<<a>>, <<b>>) IN
          /\ ToyPtOk(ToyPtOf(<<a>>)) /\ (q = <<>>) = (s = <<0>>) /\ (s # <<0>> => ToyScOk(s) /\ q = ToyPtOf(s) /\ ToyPtOk(q))
MCRoots == LET s == CHOOSE q \in GoodSeeds : TRUE IN
  << Val(Master(s)),
     Prv(<<2>>, <<1>>, 1, <<9, 8, 7, 6>>, H1),
     Prv(<<4>>, <<0>>, 2, <<0, 0, 0, 0>>, N0),
     Pub(<<2, 9>>, <<2>>, 0, ZeroFp, ZeroCn),
     Prv(<<1>>, <<2>>, 3, <<1, 1, 1, 1>>, N1) >>
=============================================================================
