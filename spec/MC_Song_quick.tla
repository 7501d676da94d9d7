---- MODULE MC_Song_quick ----
EXTENDS SongIndex
MCPaths == <<<<"a/s", "s">>, <<"b/s", "s">>, <<"a/t", "t">>>>
====
