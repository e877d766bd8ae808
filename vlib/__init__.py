"""Shared machinery for the aipy property checks (see /verif/DESIGN.md)."""
