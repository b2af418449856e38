"""Property-based verification of md-toc (see ../DESIGN.md)."""
