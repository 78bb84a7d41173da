"""Static-analysis framework for sqpdfo (see /verif/DESIGN.md)."""
