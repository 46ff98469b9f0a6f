"""pydv: a deductive verifier for the Python of starworlds (see DESIGN.md)."""
