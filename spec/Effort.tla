-------------------------------- MODULE Effort --------------------------------
(* How many questions learning may take: n states, k letters, longest            *)
(* counterexample M, c counterexamples.                                          *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Log2(_)
Log2(x) == IF x < 2 THEN 0 ELSE 1 + Log2(x \div 2)
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Largest(_)
Largest(s) == IF s = <<>> THEN 0 ELSE Max(Head(s), Largest(Tail(s)))
(* questions to find where a model goes wrong along a counterexample of length M; *)
(* two more: the counterexample itself and whether the new model explains it        *)
Bisect(M) == Log2(Max(M, 1)) + 1
Locate(how, M) == 2 + (CASE how = "rs" -> Bisect(M)
                         [] how \in {"linear_fwd", "linear_bwd"} -> M
                         [] how \in {"exponential_fwd", "exponential_bwd"} -> 1 + 2 * Bisect(M)
                         [] OTHER -> 0)
(* L#: every successor of a state is visited once and compared with every other    *)
(* state at most once; every counterexample is bisected                             *)
SharpRules(n, k) == k * n * n
Sharp(n, k, M) == SharpRules(n, k) + (n - 1) * (Bisect(M) + 1)
(* KV: every word leading to a transition's end is told from at most n - 1 others   *)
Sifting(n, k) == n * k * (n - 1)
Kv(n, k, how, M) == Sifting(n, k) + 2 * n * k + 2 * n + (n - 1) * Locate(how, M)
(* L*: the cells of the table *)
Rows(n, how, cex) == IF how = "None" THEN n + Sum(cex) ELSE n
Columns(n, k, mealy, how, closed, M) == (IF mealy THEN k ELSE 1)
                + (n - 1) * (IF how = "None" THEN 1 ELSE IF closed \/ how = "longest_prefix" THEN Max(M, 1) ELSE 1)
Table(n, k, mealy, how, closed, cex) ==
   (1 + k * Rows(n, how, cex)) * Columns(n, k, mealy, how, closed, Largest(cex)) + (n - 1) * Locate(how, Largest(cex))
(* with e suffixes in the end, every cell filled once *)
Cells(n, k, how, cex, e) == (1 + k * Rows(n, how, cex)) * e + (n - 1) * Locate(how, Largest(cex))
===============================================================================
