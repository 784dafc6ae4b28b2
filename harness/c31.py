"""C31: equivalence queries answered by a person show what really happened and return what was entered."""
from dialogue import *


def main(ctx):
    rng = ctx.rng('c31')
    L = 6 if ctx.quick else 8
    hists = ctx.tlc_json('MCDialogue', f'CONSTANTS K=2 L={L}\nSPECIFICATION Spec\n' + ''.join(f'INVARIANT {i}\n' for i in ('SameWord', 'CexNonempty', 'Counted', 'ClaimsReal', 'FirstDifference', 'Emit')),
                         name='dialogues')
    ctx.notes['generated dialogues'] = len(hists)
    cap = 4000 if ctx.quick else 60000
    if len(hists) > cap:
        hists = rng.sample(hists, cap)
    its = items_of(rng, hists, 2500 if ctx.quick else 30000)
    res = pmap(run_dialogue, its)
    cases, metas = [], []
    for it, r in zip(its, res):
        if r[0] == 'skip':
            continue
        metas.append({**it, 'outcome': r[0]})
        cases.append(r[1] if r[0] == 'ok' else {'t': it['m'], 'hs': it['hs'], 'order': it['order'], 'ev': [{'e': 'crash', 'detail': str(r[1])[:300]}]})
    ctx.judge('TraceDialogue', cases, metas, 'SPECIFICATION TraceSpec\nINVARIANT Inv\n', name='dialogues replayed', sig=lambda m: m['kind'])
    ctx.assumptions = ['inputs are strings different from the commands', 'what is shown is read from the printed lines naming the hypothesis, the system and a counterexample']
