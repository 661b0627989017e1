------------------------------- MODULE ReaderMC -------------------------------
EXTENDS Reader
CoreQuote == <<113,117,111,116,101,45,115,121,110,116,97,120>>
LibQuote == <<115,121,110,116,97,120>>
=============================================================================
