-------------------------------- MODULE GenLong -------------------------------
(* One application to an array longer than any counter or block of a plausible *)
(* implementation; the array repeats its first elements.                        *)
EXTENDS Batch, Cases, Json, IOUtils
CONSTANTS Seed, N
GB == INSTANCE GenBatch WITH Seed <- Seed, N <- N, Long <- 0, done <- FALSE
Counts == <<127, 128, 129, 255, 256, 257, 258, 511, 513, 1000, 1023, 1024, 1025, 2047, 4095, 4096, 4097, 8193, 12000, 32767, 32769, 65535, 65536, 65537, 65538, 65545, 70001>>
Program(M, T, s, i) ==
  LET p == 1 + Rnd(s, i, 2, 7)
      n == IF i = 1 THEN 65536 + Rnd(s, i, 9, 9) ELSE IF i = 3 THEN Pick(s, i, 8, <<66600, 70001, 81920, 98305, 131071, 131077>>) + Rnd(s, i, 9, 2000) ELSE IF i = 2 THEN 256 + Rnd(s, i, 9, 9) ELSE Pick(s, i, 3, Counts)
      extra == Pick(s, i, 4, <<0, 0, 1, 2, 5>>)
      w == Rnd(s, i, 5, 4)
      at == IF w = 3 THEN Rnd(s, i, 6, 4) ELSE 0
      m == IF w < 2 THEN n + extra ELSE IF w = 3 THEN at + n + extra ELSE 2 * n + extra
      st == CASE w < 2 -> [src |-> 0, dst |-> 0]
              [] w = 3 -> [src |-> at, dst |-> at]
              [] Rnd(s, i, 7, 2) = 0 -> [src |-> 0, dst |-> m - n]
              [] OTHER -> [src |-> m - n, dst |-> 0]
  IN [M |-> M, T |-> T, p |-> p, m |-> m, n |-> n, src |-> st.src, dst |-> st.dst, v |-> GB!Motion(M, s, i, 1000),
      mem |-> [c \in 1..p |-> [j \in 1..Dim(T) |-> Rnd(s, i, 3000 + 10 * c + j, 19) - 9]]]
RECURSIVE Cat(_)
Cat(c) == IF c = 0 THEN << >>
          ELSE Cat(c - 1) \o [i \in 1..N |-> Program(GB!Combos[c][1], GB!Combos[c][2], Seed + 53 * c, i)]
VARIABLE done
Init == done = FALSE
Next == ~done /\ ndJsonSerialize(IOEnv.OUT, Cat(8)) /\ done' = TRUE
=============================================================================
