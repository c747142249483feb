"""Bounded-exhaustive (explicit-state) model checking of mentpy."""
