"""symx: a small path-exhaustive symbolic executor for the real Python source
of /repo/properties (see DESIGN.md)."""
