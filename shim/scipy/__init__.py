"""Stand-in for the part of scipy the code uses."""
