"""C36: calls leave their arguments as they were and do not depend on earlier calls."""
from frame import *


def main(ctx):
    rng = ctx.rng('c36')
    q = ctx.quick
    ctx.tlc('MCFrame', f'CONSTANTS Values={{1, 2}} Size={2 if q else 3}\nSPECIFICATION Spec\nINVARIANT NoFalseAlarm\nINVARIANT Accused\n', name='three calls accuse faulty functions only')
    its = []
    for _ in range(2500 if q else 40000):
        op = rng.randrange(len(KINDS))
        its.append({'op': op, 'seed': rng.randrange(1 << 30), 'other': (op if rng.random() < .6 else rng.randrange(len(KINDS)), rng.randrange(1 << 30)),
                    'kind': KINDS[op].__name__})
    judge_calls(ctx, 'TraceFrame', 'FrameVerdict', its, thrice, 'calls made three times', chunk=400, timeout=60)
    ctx.assumptions = ['results compared where they do not depend on a free choice: learned models up to names, yes/no answers, conversions']
