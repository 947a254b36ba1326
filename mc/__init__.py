"""Bounded-exhaustive model checking of reservoirflow (see ../DESIGN.md)."""
