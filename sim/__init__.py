"""Deterministic simulation of e3krisztian/bead: see /verif/DESIGN.md."""
