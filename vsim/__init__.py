"""Deterministic simulation with fault injection for TuLiP."""
