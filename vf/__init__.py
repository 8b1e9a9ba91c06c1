"""Runtime monitors for xigt (see /verif/DESIGN.md)."""
