#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of what the checks decide."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JUDGED = ('Every recorded answer of every build and view is judged by TLC against the declarative specification '
          '(spec/Irc.tla, spec/Typed.tla, spec/Wire.tla): exhaustive over short inputs, systematic and seeded random beyond. '
          'Trusts the recorder (harness/wire), TLC, and that the inputs reach the behaviour in question.')
TRACE = 'TLA+ specification judging answers recorded from the real parser (trace conformance with TLC)'
WIRE = ('exploration', TRACE, JUDGED)
MODELLED = ('model_checking', TRACE + ', and TLC model checking of the specification itself',
            'The specification is checked by itself first (an independent parser machine, laws over all short texts). ' + JUDGED)
CLIENT = ('model_checking',
          'TLA+ state machine of the client checked with TLC; its behaviours replayed into the real client, recorded traces '
          'validated against it',
          'TLC checks the properties, stated over histories, on spec/Client.tla in an arbitrary environment (spec/MC.tla) within '
          'the bounds of the .cfg files. Behaviours generated by TLC and seeded random scripts drive the real client over '
          'in-memory connections and virtual time (cfg(tmi_verif)), and TLC folds every recorded trace through the same Step. '
          'Trusts the hook and the simulator (harness/client).')
LAW = ('model_checking',
       'TLA+ specification whose laws are model checked with TLC; recorded runs of the real code validated against it',
       'The law is checked on the specification over all short inputs (spec/Laws.tla), and every recorded run of the real code '
       'is judged by TLC against the same specification. Trusts the recorder (harness/client).')
CLAIMED = {**{f'C{n:02}': WIRE for n in (3, 6, 13)},
           **{f'C{n:02}': MODELLED for n in (1, 2, 4, 5, 7, 8, 9, 10, 11, 12)},
           **{f'C{n:02}': CLIENT for n in (15, 16, 17, 18, 19, 21, 22)},
           'C23': ('model_checking',
                   'TLA+ model of endpoint authentication checked with TLC; its runs replayed over real TLS sockets, and what each '
                   'peer got validated against it',
                   'TLC checks spec/Tls.tla with peers of every kind (spec/TlsMC.tla). The real client, unhooked, runs against 373 '
                   'certificates and 8 kinds of broken peers at connect and at reconnect; every byte that a peer received is judged. '
                   'Trusts rustls for the TLS protocol itself, and the harness for resolving names to loopback.'),
           **{f'C{n:02}': LAW for n in (14, 20, 24, 25)}}
PENDING = {}


def main():
    props = [json.loads(l) for l in open(f'{VERIF}/properties.jsonl')]
    checks, absent = [], []
    for p in props:
        i = p['id']
        if i in CLAIMED:
            level, technique, note = CLAIMED[i]
            checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'python3 check.py {i} --tier thorough',
                           'technique': technique, 'level': level, 'level_note': note})
        else:
            absent.append({'property': i, 'reason': PENDING.get(i, 'the check is not built yet')})
    m = {'version': 1, 'setup_cmd': 'python3 setup.py',
         'hooks': {'guard': 'cfg(tmi_verif)', 'enable': 'RUSTFLAGS="--cfg tmi_verif"', 'source_commits': ['278b6ae']},
         'checks': checks, 'not_applicable': absent,
         'notes': 'TLA+ with TLC. Every check rebuilds its harness from /repo and is deterministic for a given VERIF_SEED.'}
    with open(f'{VERIF}/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
