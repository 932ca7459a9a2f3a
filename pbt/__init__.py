"""Property-based checks for pystatsm.  See DESIGN.md."""
