"""Solver-based symbolic execution of the real rigid_body_motion sources."""
