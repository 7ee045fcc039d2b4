"""Writes claims.json: level and note of every property."""
import json
import pathlib

HERE = pathlib.Path(__file__).resolve().parent
BASE = ('Every obligation discharged by z3 for all inputs and iterations, '
        'function by function, on the code extracted from /repo on every '
        'run; concrete executions of the real code cross-check the engine '
        'and supply failing inputs. Trusts the PyVC engine, z3 and the '
        'library contracts listed in the evidence.')
ASYNC = (' Scheduling: the contracts quantify over every result of an await '
         'and over every state the object invariant allows after it; the '
         'asyncio loop and hat.aio primitives are trusted contracts.')
PROOF = {
    'C01': '', 'C02': '', 'C03': '', 'C04': '', 'C05': '', 'C06': '',
    'C07': '',
    'C08': '', 'C09': '', 'C10': '', 'C11': '', 'C12': '', 'C13': '',
    'C14': '', 'C15': ASYNC, 'C16': '',
    'C17': '', 'C18': ASYNC, 'C19': ASYNC, 'C20': ASYNC, 'C21': ASYNC,
    'C22': ASYNC, 'C23': ASYNC, 'C24': ASYNC, 'C25': ASYNC, 'C26': ASYNC,
    'C28': '', 'C29': ASYNC, 'C27': ASYNC,
    'C30': '', 'C31': ASYNC,
    'C32': ASYNC, 'C33': ASYNC, 'C34': '', 'C35': ''}
OTHER = {}
EXPL = ('Bounded: exhaustive and random executions of the real code against '
        'an oracle written from the statement, within the stated bound; no '
        'function of this property is proved yet.')
EXPL_T = ('bounded stand-in for contracts: executions of the real code '
          'against contract oracle')
out = {}
for i in range(1, 36):
    p = f'C{i:02d}'
    if p in PROOF:
        out[p] = {'level': 'proof', 'note': BASE + PROOF[p]}
    elif p in OTHER:
        out[p] = {'level': 'other', 'note': BASE + OTHER[p]}
    else:
        out[p] = {'level': 'exploration', 'note': EXPL, 'technique': EXPL_T}
(HERE / 'claims.json').write_text(json.dumps(out, indent=1) + '\n')
