--------------------------------- MODULE MC_C02 ---------------------------------
EXTENDS MauLexing
Chars == << "a", " ", "=", "*", "#", "/", "-", ":", ".", "[", "]", "@", "<", "+", "\n", "x1" >>
Rows == << "----", "++++", "////", "a", "", " ", "---", "-----", "// c", "* i", "[a]", ":v:w", "<< t:u", "= h", ".l t", "@if a" >>
Starts == << "<<", " ", ":", "=", ".", "[x]", "* ", "@if", "a", "//", "----", "_", "A", "-", "0" >>
================================================================================
