------------------------------ MODULE MCWrite ------------------------------
EXTENDS TeldaWrite
Ops == {<<"put", 1>>, <<"put", 2>>, <<"put", 5>>, <<"patch", 0>>, <<"patch", 1>>}
(* start with enough to go back in *)
MCWorks == {<<<<"put", 2>>>> \o w : w \in UNION {[1..n -> Ops] : n \in 0..4}}
MCCapacities == {2, 4}
MCOlds == {<<n, 0>> : n \in {0, 1, 9}} \cup {<<3, 3>>, <<8, 3>>}
=============================================================================
