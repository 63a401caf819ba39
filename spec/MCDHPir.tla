------------------------------ MODULE MCDHPir ------------------------------
EXTENDS DHPir
Coefs3 == {-1, 0, 1, 2}
Coefs2 == {-1, 0, 1}
============================================================================
