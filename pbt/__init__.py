"""Property-based verification of padasip (see DESIGN.md)."""
