------------------------------ MODULE Counter ------------------------------
(* A counter: its value, and the extremes of the values it has taken since   *)
(* construction or the last reset, starting from the first value taken.      *)
EXTENDS Integers, Sequences, TLC

CtrInit == [val |-> 0, low |-> 0, high |-> 0, ne |-> FALSE]

Take(c, v) == [val |-> v, ne |-> TRUE,
               low  |-> IF ~c.ne \/ v < c.low THEN v ELSE c.low,
               high |-> IF ~c.ne \/ v > c.high THEN v ELSE c.high]

NaN == -88888

CtrStep(c, e) ==
    CASE e.o = "inc"   -> {[st |-> Take(c, c.val + e.v), res |-> <<c.val + e.v>>]}
      [] e.o = "dec"   -> {[st |-> Take(c, c.val - e.v), res |-> <<c.val - e.v>>]}
      [] e.o = "set"   -> {[st |-> Take(c, e.v), res |-> <<c.val>>]}
      [] e.o = "high"  -> {[st |-> c, res |-> <<c.high>>]}
      [] e.o = "low"   -> {[st |-> c, res |-> <<c.low>>]}
      [] e.o = "cur"   -> {[st |-> c, res |-> <<c.val>>]}
      [] e.o = "reset" -> {[st |-> CtrInit, res |-> <<c.val, c.low, c.high>>]}
      [] e.o = "stats" -> {[st |-> c, res |-> IF c.ne THEN <<c.val, c.low, c.high>>
                                                      ELSE <<c.val, NaN, NaN>>]}
=============================================================================
