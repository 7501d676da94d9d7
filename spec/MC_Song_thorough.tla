---- MODULE MC_Song_thorough ----
EXTENDS SongIndex
MCPaths == <<<<"a/s", "s">>, <<"b/s", "s">>, <<"a/t", "t">>, <<"b/%ff", "">>>>
====
