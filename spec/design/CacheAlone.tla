---- MODULE CacheAlone ----
EXTENDS Cache
CallersNeed == <<5>>
====
