"""pyvc: a deductive verifier for the Python functions of /repo (see DESIGN.md)."""
