"""Stand-in: board definitions are not available offline."""
