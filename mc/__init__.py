"""Bounded-exhaustive model checking machinery for ModOpt."""
