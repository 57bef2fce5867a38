"""Property-based checks for r_u_sure."""
