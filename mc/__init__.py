"""Bounded exhaustive checking of gpmp (see DESIGN.md)."""
