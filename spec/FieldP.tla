------------------------------- MODULE FieldP -------------------------------
(***************************************************************************)
(* Arithmetic in the prime field F_p, for exact rational numbers.          *)
(*                                                                         *)
(* TLC's integers are 32-bit, so the specification never holds a large     *)
(* number: an exact rational q is represented by its residue modulo two    *)
(* primes P(1), P(2) < 2^15.5 (every product then fits in an Int).  The    *)
(* implementation's floating point value v is projected by the driver on   *)
(* the integer nearest to v*scale (with a flag saying whether v*scale is   *)
(* an integer up to rounding) and that integer is logged by its residues.  *)
(***************************************************************************)
EXTENDS Integers, Sequences

P(i) == IF i = 1 THEN 46337 ELSE 46327

Md(i, a) == a % P(i)                       \* TLC's % is non-negative
Ad(i, a, b) == (a + b) % P(i)
Sb(i, a, b) == (a - b) % P(i)
Mu(i, a, b) == (a * b) % P(i)

RECURSIVE Pw(_, _, _)
Pw(i, a, n) == IF n = 0 THEN 1
               ELSE LET h == Pw(i, a, n \div 2)
                        s == (h * h) % P(i)
                    IN IF n % 2 = 1 THEN (s * (a % P(i))) % P(i) ELSE s

Iv(i, a) == Pw(i, a % P(i), P(i) - 2)

(* a rational <<num, den>> with small numerator and denominator *)
Ra(i, q) == Mu(i, Md(i, q[1]), IF q[2] = 1 THEN 1 ELSE Iv(i, q[2]))

(* an integer power with an integer (possibly negative) exponent *)
PwZ(i, a, n) == IF n >= 0 THEN Pw(i, a, n) ELSE Pw(i, Iv(i, a), -n)

(* sum of the values f[k] of a sequence of residues *)
RECURSIVE SumFrom(_, _, _)
SumFrom(i, f, k) == IF k > Len(f) THEN 0 ELSE (f[k] + SumFrom(i, f, k + 1)) % P(i)
SumSeq(i, f) == SumFrom(i, f, 1)
=============================================================================
