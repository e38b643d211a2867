"""sx: a symbolic executor for the repository's Python/numpy code, deciding with Z3."""
