"""Deterministic simulation of bartpy: seeded schedules, random streams, clocks and faults."""
