"""Minimal offline stand-in for the third-party package `conda` (not installable in this sandbox)."""
