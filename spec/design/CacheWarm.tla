---- MODULE CacheWarm ----
EXTENDS Cache
CallersNeed == <<2, 3, 4>>
====
