------------------------------ MODULE MCMerkle ------------------------------
EXTENDS Merkle
SomeItems == {<<"item", "a">>, <<"item", "b">>}
\* items which somebody has made: the ground one, and the contents of a node over it
MadeItems == {<<"item", "a">>, Ground, Pre(N(<<"L", <<"item", "a">>, 0>>, <<"L", Ground, 1>>))}
=============================================================================
