"""Runtime-monitoring harness for the Balloon Learning Environment."""
from vp import poison
poison.install()
