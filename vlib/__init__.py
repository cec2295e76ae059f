"""Machinery shared by the runtime-monitoring checks."""
