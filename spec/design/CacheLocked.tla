---- MODULE CacheLocked ----
EXTENDS Cache
CallersNeed == <<2, 3, 4>>
====
