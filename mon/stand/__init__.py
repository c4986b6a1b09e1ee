"""Stand-ins for optional dependencies of weio that are not installed here."""
