---- MODULE CacheCold ----
EXTENDS Cache
CallersNeed == <<2, 3>>
====
