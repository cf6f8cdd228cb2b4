"""Which scenario decides which property, and how many runs each tier makes."""

QUICK = {'C14': 20000, 'C15': 20000, 'C16': 20000, 'C17': 20000, 'C18': 20000, 'C19': 20000}
WORLD = ['C%02d' % i for i in range(1, 14)] + ['C21', 'C22']
QUICK.update(dict.fromkeys(WORLD, 1600))
QUICK['C20'] = 1500
THOROUGH = dict.fromkeys(QUICK, 1000000)
WALL = {'quick': 120, 'thorough': 3000}


def get(pid):
    if pid in ('C14', 'C15', 'C16', 'C17', 'C18', 'C19'):
        from .scen.pool import Scenario
        return Scenario(pid)
    if pid in WORLD:
        from .scen.worldscn import Scenario
        return Scenario(pid)
    if pid == 'C20':
        from .scen.parser import Scenario
        return Scenario(pid)
    raise SystemExit('no check for ' + pid)


def budget(pid, tier):
    if tier == 'thorough':
        return THOROUGH.get(pid, 60000), WALL['thorough']
    return QUICK.get(pid, 4000), WALL['quick']
