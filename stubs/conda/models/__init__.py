"""Minimal offline stand-in for `conda.models`."""
