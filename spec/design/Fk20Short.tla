---- MODULE Fk20Short ----
EXTENDS Fk20
\* settings made for longer polynomials give wrong proofs (known finding)
Sizes == {1, 2}
====
