import json,os
h=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
miss={'n06-channels-closed-early':'missed at first: delays (suspending a goroutine) were added to all interleaving scenarios',
'e01-greatest-score-first':'missed at first (S03 caught it): scenario with a node that claims a great score and stays, with goals',
's02-repeated-identifier':'missed at first: scenario with repeated identifiers',
's02-known-block-ignored':'missed at first: blocks are also recorded before they reach synchronization',
's03-always-the-first':'missed at first: goals over all random choices',
's06-failures-kept-while-lagging':'missed at first: successes at any position of a series of failures',
'n01-close-error-keeps-peer':'missed at first: closing a connection may report an error'}
extra=os.path.join(h,'tools/seednotes.json')
if os.path.exists(extra): miss.update(json.load(open(extra)))
o=['| Change | Property | Effect | Caught |','|---|---|---|---|']
for s in sorted(os.listdir(h+'/seeded')):
    d=json.load(open(f'{h}/seeded/{s}/meta.json'))
    o.append(f"| {s} | {d['property']} | {d['what_it_breaks']} | {miss.get(s,'yes')} |")
print('\n'.join(o))
