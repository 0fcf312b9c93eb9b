----------------------------- MODULE EnvRefine ------------------------------
\* The library's way of choosing identifiers refines the specification that
\* allows every fresh one.
EXTENDS Env
Abs == INSTANCE Env WITH Policy <- "any", MaxId <- MaxId + 2 * MaxLen
Refines == Abs!Spec
=============================================================================
