------------------------------ MODULE HeapTables ------------------------------
EXTENDS HeapMC, TLC
Tiny == <<1, 2, 3>>
Sym == Permutations(Regs)
=============================================================================
