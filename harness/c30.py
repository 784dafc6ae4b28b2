"""C30: what is reported about a model is what the model checker answered about that model."""
from checking import *


def main(ctx):
    rng = ctx.rng('c30')
    ctx.tlc('MCChecking', f'CONSTANTS MaxRounds={5 if ctx.quick else 7} Vals={{0,500000,520000,520100}}\nSPECIFICATION Spec\n'
            + ''.join(f'INVARIANT {i}\n' for i in ('OnlyLastGood', 'AskedRight', 'Limited', 'StopsForReason', 'GoodStops', 'FoldAgrees')) + 'PROPERTY Ends\n',
            name='learning until the answers are good enough')
    its = items(rng, 1200 if ctx.quick else 12000, 500 if ctx.quick else 5000)
    judge_calls(ctx, 'TraceChecking', 'CheckingVerdict', its, run_check, 'questions to a model checker',
                sig=lambda m: m['what'] + '|' + m['kind'] + '|' + m['path'])
    ctx.notes['learning runs'] = sum(i['what'] == 'learn' for i in its)
    ctx.assumptions = ['the external checker is a stand-in that keeps what it is given and prints scripted answers in the format of PRISM',
                       'no answer or error of exactly half a unit in the last digit kept']
