"""Symbolic execution of numpy-based Python code with z3 (see DESIGN.md)."""
