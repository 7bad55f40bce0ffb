"""Deterministic simulation with fault injection for proadv (see /verif/DESIGN.md)."""
