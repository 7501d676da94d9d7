---- MODULE MC_Xtask ----
EXTENDS Xtask
MCFlags == {<<>>, <<"sse4_1">>, <<"avx2">>, <<"avx512f">>, <<"sse4_1", "avx2">>, <<"avx2", "avx512f", "sse4_1">>, <<"avx", "fma", "sse4_2">>}
====
