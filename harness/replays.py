"""All replays and drives, by name."""
from measure import *  # noqa: F401,F403
from replay import *  # noqa: F401,F403
from calls import *  # noqa: F401,F403
