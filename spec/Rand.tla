-------------------------------- MODULE Rand --------------------------------
(* Deterministic pseudo-random choices inside the model (32-bit safe): two      *)
(* quadratic hashes modulo different primes, added.                             *)
EXTENDS Integers, Sequences
P_ == 46337                       \* the two largest primes whose squares fit 31 bits
Q_ == 46327
Mix(x) == ((((x * x) % P_) * 3) + (x * 17) + 11) % P_
Mux(x) == ((((x * x) % Q_) * 5) + (x * 23) + 29) % Q_
\* hash of (seed, case, position)
H(s, i, j) ==
  LET a == Mix(((s * 31) + 7) % P_)
      b == Mix((a + i) % P_)
      c == Mix((b + (i \div P_) * 101 + 5) % P_)
      d == Mux(((s % 30011) * 57 + (i % 20011) * 61) % Q_)
      e == Mux((d + (i * 3) + (s \div 7)) % Q_)
  IN (Mix((c + (j * 7919)) % P_) + Mux((e + ((j % 90001) * 10007)) % Q_)) % P_
\* uniform-ish in 0..n-1, n < 46337
Rnd(s, i, j, n) == H(s, i, j) % n
Pick(s, i, j, seq) == seq[1 + Rnd(s, i, j, Len(seq))]
=============================================================================
