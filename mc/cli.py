"""What the command line asked for, visible in the exploring processes."""
ONLY = None       # substring of a scenario name
SCHEDULE = None   # a schedule to replay


def skip(name):
  return ONLY is not None and (ONLY != name if SCHEDULE is not None else ONLY not in name)
