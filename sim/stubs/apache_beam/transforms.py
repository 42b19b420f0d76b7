"""Stub."""
