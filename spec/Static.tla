------------------------------- MODULE Static --------------------------------
(* Which identifiers of a program (syntax tree N: numbered nodes, the last one  *)
(* is the program) are used where no declaration of them is visible.           *)
EXTENDS Integers, Sequences

Standard == {"read", "print", "TAB", "NLCR", "XEEN", "SPACE", "stop", "abs", "sign", "sqrt", "sin", "cos", "arctan",
             "ln", "exp", "entier", "FLOT", "FIXT", "ABSFIXT", "SUM", "PRINTTEXT", "EVEN", "RESYM", "PRSYM", "RANDOM",
             "SETRANDOM", "TIMEOFDAY"}

Range(s) == {s[k] : k \in 1..Len(s)}

\* the labels of a statement that belong to the block the statement is in
RECURSIVE Labels(_, _)
Labels(N, x) ==
  IF x = 0 THEN {}
  ELSE LET n == N[x]
       IN CASE n[1] = "lb" -> {n[2]} \cup Labels(N, n[3])
            [] n[1] = "co" -> UNION {Labels(N, y) : y \in Range(n[2])}
            [] n[1] = "ifs" -> Labels(N, n[3]) \cup Labels(N, n[4])
            [] OTHER -> {}

Declared(n) ==
  CASE n[1] = "dv" -> Range(n[4])
    [] n[1] = "da" -> UNION {Range(s[1]) : s \in Range(n[4])}
    [] n[1] = "dp" -> {n[3]}
    [] n[1] = "ds" -> {n[2]}

RECURSIVE U(_, _, _)
UAll(N, xs, env) == UNION {U(N, y, env) : y \in Range(xs)}
U(N, x, env) ==
  IF x = 0 THEN {}
  ELSE LET n == N[x]
           Use(nm) == IF nm \in env THEN {} ELSE {nm}
       IN CASE n[1] = "v" -> Use(n[2])
            [] n[1] \in {"ix", "fc", "ca"} -> Use(n[2]) \cup UAll(N, n[3], env)
            [] n[1] = "un" -> U(N, n[3], env)
            [] n[1] = "bi" -> U(N, n[3], env) \cup U(N, n[4], env)
            [] n[1] \in {"if", "ifs"} -> U(N, n[2], env) \cup U(N, n[3], env) \cup U(N, n[4], env)
            [] n[1] = "as" -> UAll(N, n[2], env) \cup U(N, n[3], env)
            [] n[1] = "go" -> U(N, n[2], env)
            [] n[1] = "for" -> LET e == env \cup Labels(N, n[4])
                               IN U(N, n[2], e) \cup UAll(N, n[3], e) \cup U(N, n[4], e)
            [] n[1] \in {"e1", "es", "ew"} -> UAll(N, Tail(n), env)
            [] n[1] = "bl" -> LET e == env \cup UNION {Declared(N[d]) : d \in Range(n[2])}
                                           \cup UNION {Labels(N, y) : y \in Range(n[3])}
                              IN UAll(N, n[2], e) \cup UAll(N, n[3], e)
            [] n[1] = "co" -> UAll(N, n[2], env)
            [] n[1] = "lb" -> U(N, n[3], env)
            [] n[1] = "da" -> UNION {UNION {U(N, b[1], env) \cup U(N, b[2], env) : b \in Range(s[2])} : s \in Range(n[4])}
            [] n[1] = "dp" -> LET e == env \cup Range(n[4]) \cup Labels(N, n[6]) IN U(N, n[6], e)
            [] n[1] = "ds" -> UAll(N, n[3], env)
            [] OTHER -> {}

Undeclared(N) == IF N = <<>> THEN {} ELSE LET x == Len(N) IN U(N, x, Standard \cup Labels(N, x))
=============================================================================
