"""Stand-in for the part of DeepLab2 the code uses."""
