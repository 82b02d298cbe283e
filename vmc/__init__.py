"""Bounded exhaustive model checking of Viscid (see DESIGN.md)."""
