"""Property-based checks for PyPEEC (see /verif/DESIGN.md)."""
