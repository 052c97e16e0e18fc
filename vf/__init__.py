"""Shared machinery of the runtime-monitoring checks (driver side, worker side, oracles)."""
