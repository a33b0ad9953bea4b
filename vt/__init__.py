"""Conformance machinery binding the TLA+ specifications in /verif/spec to swiftsimio."""
