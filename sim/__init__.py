"""Deterministic simulation of pympc with fault injection (see DESIGN.md)."""
