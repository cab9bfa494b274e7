"""Static analysis framework for wcxf-python (see /verif/DESIGN.md)."""
