from harness import Gen
from ops import *
import builders

def check(rep, tier):
    g = Gen()
    builders.generate(g, ('proj',), tier == 'thorough')
    rep.values(g)
