"""Deterministic simulation of mt_metadata under faults (see DESIGN.md)."""
