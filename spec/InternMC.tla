------------------------------- MODULE InternMC -------------------------------
EXTENDS Intern
TinySizes == <<2, 3, 5, 8, 13>>
=============================================================================
