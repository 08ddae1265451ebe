"""symx: a small symbolic executor for the real Python sources of ratarmount (see DESIGN.md)."""
