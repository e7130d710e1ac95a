"""Stand-in: dask is not installed."""
