"""Constructors of every automated equivalence oracle, with parameters drawn small."""
import random
from common import *

NAMES = ['wmethod', 'wp', 'rwmethod', 'rwp', 'bfs', 'cachebased', 'pac', 'perfect', 'randomwalk', 'randomword', 'stateprefix',
         'transfocus', 'kwaystate', 'kwaytrans', 'provided']


def draw(name, rng, m):
    """parameters for oracle `name` (plain data)"""
    k = m['k']
    if name == 'wmethod':
        return {'m': m['n'] + rng.choice((0, 0, 1))}
    if name == 'wp':
        return {'m': m['n'] + rng.choice((0, 0, 1))}
    if name == 'rwmethod':
        return {'walks_per_state': rng.choice((1, 3, 6)), 'walk_len': rng.choice((1, 4, 9))}
    if name == 'rwp':
        return {'min_length': rng.choice((1, 3)), 'expected_length': rng.choice((2, 8)), 'num_tests': rng.choice((1, 5, 30))}
    if name == 'bfs':
        return {'depth': rng.choice((1, 2, 3, 4)) if k < 3 else rng.choice((1, 2, 3))}
    if name == 'cachebased':
        return {'num_walks': rng.choice((1, 6, 20)), 'depth_increase': rng.choice((1, 4)), 'reset_after_cex': rng.random() < .5}
    if name == 'pac':
        return {'epsilon': rng.choice((.5, .2)), 'delta': rng.choice((.5, .1)), 'min_walk_len': 1, 'max_walk_len': rng.choice((3, 9))}
    if name == 'randomwalk':
        return {'num_steps': rng.choice((1, 10, 100)), 'reset_after_cex': rng.random() < .5, 'reset_prob': rng.choice((.0, .09, .5))}
    if name == 'randomword':
        return {'num_walks': rng.choice((1, 5, 30)), 'min_walk_len': rng.choice((1, 3)), 'max_walk_len': rng.choice((3, 12)), 'reset_after_cex': rng.random() < .5}
    if name == 'stateprefix':
        return {'walks_per_state': rng.choice((1, 4)), 'walk_len': rng.choice((1, 6)), 'max_tests': rng.choice((None, None, 1, 5)), 'depth_first': rng.random() < .5}
    if name == 'transfocus':
        return {'num_random_walks': rng.choice((1, 10)), 'walk_len': rng.choice((1, 8)), 'same_state_prob': rng.choice((0, .2, 1))}
    if name == 'kwaystate':
        return {'k': rng.choice((2, 2, 3)), 'random_walk_len': rng.choice((1, 5)), 'method': rng.choice(('combinations', 'permutations'))}
    if name == 'kwaytrans':
        return {'k': 2, 'method': rng.choice(('random', 'prefix')), 'num_generate_paths': rng.choice((3, 20)), 'max_path_len': rng.choice((4, 12)),
                'max_number_of_steps': rng.choice((0, 0, 30)), 'optimize': rng.choice(('steps', 'queries')), 'random_walk_len': rng.choice((1, 4))}
    if name == 'provided':
        inner = rng.choice([n for n in NAMES if n not in ('provided', 'cachebased')])
        return {'inner': inner, 'params': draw(inner, rng, m),
                'words': [[rng.randrange(k) + 1 for _ in range(rng.randrange(1, 6))] for _ in range(rng.randrange(4))]}
    return {}


def make(name, p, alphabet, sul, coding=None, model=None):
    import aalpy.oracles as O
    if name == 'wmethod':
        return O.WMethodEqOracle(alphabet, sul, p['m'])
    if name == 'wp':
        return O.WpMethodEqOracle(alphabet, sul, p['m'])
    if name == 'rwmethod':
        return O.RandomWMethodEqOracle(alphabet, sul, **p)
    if name == 'rwp':
        return O.RandomWpMethodEqOracle(alphabet, sul, **p)
    if name == 'bfs':
        return O.BreadthFirstExplorationEqOracle(alphabet, sul, **p)
    if name == 'cachebased':
        return O.CacheBasedEqOracle(alphabet, sul, **p)
    if name == 'pac':
        return O.PacOracle(alphabet, sul, **p)
    if name == 'perfect':
        return O.PerfectKnowledgeEqOracle(alphabet, sul, model)
    if name == 'randomwalk':
        return O.RandomWalkEqOracle(alphabet, sul, **p)
    if name == 'randomword':
        return O.RandomWordEqOracle(alphabet, sul, **p)
    if name == 'stateprefix':
        return O.StatePrefixEqOracle(alphabet, sul, **p)
    if name == 'transfocus':
        return O.TransitionFocusOracle(alphabet, sul, **p)
    if name == 'kwaystate':
        return O.KWayStateCoverageEqOracle(alphabet, sul, **p)
    if name == 'kwaytrans':
        return O.KWayTransitionCoverageEqOracle(alphabet, sul, **p)
    if name == 'provided':
        inner = make(p['inner'], p['params'], alphabet, sul, coding, model)
        return O.ProvidedSequencesOracleWrapper(alphabet, sul, inner, [coding.word(w) for w in p['words']])
    raise ValueError(name)
