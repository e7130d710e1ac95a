"""Stand-in: only the name, for annotations and isinstance."""


class DataFrame:
  pass


class Series:
  pass
