------------------------------ MODULE TACacheMC -----------------------------
EXTENDS TACacheLock
\* each size query takes the mutex of its own cache
Own(c) == c
\* the protocol before it was repaired: the size of cache 2 was read under the mutex of cache 1
Crossed(c) == 1

=============================================================================
