# Stand-in for matplotlib (not installed here): remembers what was asked for.
