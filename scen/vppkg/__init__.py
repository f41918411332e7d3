"""A package."""
here = 1
