"""Solver-based symbolic execution of plain Python code (see /verif/DESIGN.md)."""
