------------------------------- MODULE EngineMC -------------------------------
(* Instances of Engine to be checked exhaustively. *)
EXTENDS Engine

S0 == AllGraphs(3, {1, 2}, 0)
Tiny == AllGraphs(3, {2}, 0)
Small == AllGraphs(3, {1, 2}, 1)
Medium == AllGraphs(4, {2}, 1)
C21 == {Crossed(<<2, 1>>, <<1, 2>>)}
C211 == {Crossed(<<2, 1, 1>>, <<1, 1, 2>>)}
C2111 == {Crossed(<<2, 1, 1,1>>, <<1, 1, 1,2>>)}
CrossDeep == {Crossed(<<4, 1, 1, 1>>, <<1, 1, 1, 4>>)}
CrossFour == {Crossed(<<4, 1, 1, 1, 1>>, <<1, 1, 1, 1, 4>>)}
CrossEight == {Crossed(<<8, 1, 1, 1>>, <<1, 1, 1, 8>>)}
=============================================================================
