"""Deterministic simulation of moirae: one seed decides one exactly repeatable execution."""
