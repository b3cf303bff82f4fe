#!/usr/bin/env python3
"""Writes the TLC configurations of spec/Models.tla."""
import os
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
SUBST = ['ReplyTimeout <- McReplyTimeout', 'Hello <- McHello', 'FromCfg <- McFromCfg', 'Bytes <- McBytes',
         'Refused <- McRefused', 'LineResult <- McLineResult', 'JudgeFirst <- McFirst', 'JudgeSecond <- McSecond']
DEFS = ['Cfgs', 'Calls', 'Rx', 'OpenResults', 'ReadErrs', 'WriteErrs', 'Wins', 'Gates', 'Ticks', 'Cancels']
COMMON = ['NoBreak', 'Live', 'Determined', 'HelloFirst', 'Connected', 'NotYet', 'TokenOnce']


def write(name, focus, defs, values, invariants=(), properties=(), fair=False, emit=False):
    d = {k: 'Nothing' for k in DEFS}
    d.update(Cfgs=focus + 'Cfgs', Calls=focus + 'Calls', Rx=focus + 'Rx', OpenResults=focus + 'Opens')
    d.update(defs)
    v = dict(MaxRx=4, MaxConns=1, MaxCalls=1, OldRx=False, Prompt=True, MaxOpens=5, Recorded=emit, Ready=False, Track='{}')
    v.update(values)
    t = ['SPECIFICATION ' + ('FairSpec' if fair else 'Spec'), 'CHECK_DEADLOCK FALSE', 'CONSTANTS']
    t += ['  ' + s for s in SUBST] + [f'  {k} <- {x}' for k, x in d.items()]
    t += [f'  {k} = {str(x).upper() if isinstance(x, bool) else x}' for k, x in v.items()]
    if emit:
        t += ['VIEW View', 'ACTION_CONSTRAINT Emit']
    if not fair:
        t += ['CONSTRAINT FewOpens']
        t += ['INVARIANT ' + i for i in (*COMMON, *invariants)]
    t += ['PROPERTY ' + p for p in properties]
    with open(os.path.join(SPEC, name + '.cfg'), 'w') as f:
        f.write('\n'.join(t) + '\n')


TIME, READ, SENT, BOTH = '{"time"}', '{"read"}', '{"sent"}', '{"read", "sent"}'
connect = dict(ReadErrs='ConnectReadErrs', WriteErrs='ConnectWriteErrs', Wins='ConnectWins', Gates='Booleans', Ticks='OneTick')
write('Connect', 'Connect', connect, dict(Track=TIME, MaxRx=3), ['Bounded'])
write('Connect-deep', 'Connect', connect, dict(Track=TIME, MaxRx=5), ['Bounded'])
write('Connect-live', 'Connect', dict(connect, Rx='FewRx', Wins='Nothing'), dict(MaxRx=4), properties=['ConnectEnds'], fair=True)
write('Connect-gen', 'Connect', dict(connect, Rx='GenConnectRx', Wins='GenWins', Gates='Nothing', Ticks='OneTick'), dict(Track='{}', MaxRx=4), emit=True)

reconnect = dict(ReadErrs='ReconnectReadErrs', WriteErrs='ReconnectWriteErrs', Ticks='OneTick')
write('Reconnect', 'Reconnect', dict(reconnect, Cfgs='FewReconnectCfgs'), dict(Track=TIME, MaxConns=3, MaxCalls=2, MaxOpens=4), ['Bounded', 'Backoff', 'Exhausted', 'LastCause'])
write('Reconnect-deep', 'Reconnect', reconnect, dict(Track=TIME, MaxConns=4, MaxCalls=2, MaxOpens=5), ['Bounded', 'Backoff', 'Exhausted', 'LastCause'])
write('Reconnect-live', 'Reconnect', dict(reconnect, Cfgs='LimitedCfgs', Rx='FewRx', WriteErrs='Nothing'), dict(MaxConns=3, MaxCalls=2), properties=['ReconnectEnds', 'ConnectEnds'], fair=True)
write('Reconnect-gen', 'Reconnect', dict(reconnect, Cfgs='GenReconnectCfgs'), dict(MaxConns=3, MaxCalls=2, MaxOpens=4), emit=True)

stream = dict(ReadErrs='StreamReadErrs', Cancels='Waits')
write('Stream', 'Stream', stream, dict(Track=READ, MaxRx=9, MaxCalls=5, Prompt=False, Ready=True), ['InOrder'])
write('Stream-deep', 'Stream', stream, dict(Track=READ, MaxRx=10, MaxCalls=5, Prompt=False, Ready=True), ['InOrder'])
write('Stream-gen', 'Stream', stream, dict(Track=READ, MaxRx=6, MaxCalls=3), emit=True)

session = dict(ReadErrs='SessionReadErrs', WriteErrs='SessionWriteErrs', Wins='SessionWins', Cancels='Waits')
write('Session', 'Session', dict(session, Wins='Nothing'), dict(Track=BOTH, MaxConns=2, MaxCalls=4, OldRx=True), ['InOrder', 'AllSent', 'Partial'], ['Abandoned'])
write('Session-deep', 'Session', session, dict(Track=BOTH, MaxConns=2, MaxCalls=5, OldRx=True), ['InOrder', 'AllSent', 'Partial'], ['Abandoned'])
write('Session-gen', 'Session', dict(session, Wins='Nothing'), dict(Track=BOTH, MaxConns=2, MaxCalls=4), emit=True)

send = dict(WriteErrs='SendWriteErrs', Wins='SendWins', Gates='Booleans', Cancels='Waits')
write('Send', 'Send', send, dict(Track=SENT, MaxCalls=6), ['AllSent', 'Partial'])
write('Send-deep', 'Send', send, dict(Track=SENT, MaxCalls=7), ['AllSent', 'Partial'])
write('Send-gen', 'Send', send, dict(Track=SENT, MaxCalls=3), emit=True)


def law(name, letters, quick, deep):
    for suffix, n in (('', quick), ('-deep', deep)):
        with open(os.path.join(SPEC, f'Law-{name}{suffix}.cfg'), 'w') as f:
            f.write(f'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Law = "{name}"\n'
                    f'  Letters = {{{", ".join(map(str, letters))}}}\n  MaxLen = {n}\nINVARIANT Holds\n')


codes = lambda s: [ord(c) for c in s]
law('escape', codes('a;: \\sn\r,\u2e1d'), 5, 6)
law('say', codes('a;: \\s\r\n#,@='), 3, 4)
law('ping', codes('a: #\r@;'), 4, 6)
law('builder', [0], 4, 6)
law('backoff', [0, 1, 2, 3, 7, 10, 100], 3, 3)
law('bypass', [0], 5, 6)
law('utf8', [0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 236, 237, 239, 240, 243, 244, 245, 255], 3, 4)
law('lines', [0], 0, 0)


def tls(name, kinds, stores, peers, ops, emit=False):
    quoted = lambda xs: '{' + ', '.join(f'"{x}"' for x in xs) + '}'
    t = ['SPECIFICATION Spec', 'CHECK_DEADLOCK FALSE', 'CONSTANTS', f'  Kinds = {quoted(kinds)}', f'  TrustStores = {quoted(stores)}',
         '  Tries <- TlsTries', f'  MaxPeers = {peers}', f'  MaxOps = {ops}']
    t += ['ACTION_CONSTRAINT Emit'] if emit else []
    t += ['INVARIANT ' + i for i in ('OnlyTwitch', 'Authenticated', 'Served', 'Separate', 'Sound', 'Live')]
    with open(os.path.join(SPEC, name + '.cfg'), 'w') as f:
        f.write('\n'.join(t) + '\n')


KINDS = ['good', 'goodB', 'wild', 'unknown', 'forged', 'alone', 'host', 'parent', 'old', 'early', 'gap', 'notca', 'stolen', 'plain', 'hang']
tls('Tls', KINDS, ['AB', 'B', 'C', 'none'], 2, 3)
tls('Tls-deep', ['good', 'goodB', 'wild', 'unknown', 'forged', 'host', 'old', 'gap', 'stolen', 'plain', 'hang'], ['AB', 'C'], 3, 4)
tls('Tls-gen', ['good', 'old', 'hang'], ['AB'], 3, 4, True)
