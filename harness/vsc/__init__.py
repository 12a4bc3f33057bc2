"""Drivers and recorders binding the TLA+ specification to synced_collections."""
