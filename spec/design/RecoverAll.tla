---- MODULE RecoverAll ----
EXTENDS Recover
\* four samples, every polynomial and every loss

====
