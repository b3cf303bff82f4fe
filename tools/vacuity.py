#!/usr/bin/env python3
"""Does the specification say something?  Breaks one rule of it at a time and lets TLC look for a violation.
Usage: vacuity.py [name...]; a report, not a check."""
import os, re, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common
from common import *

C, T, I, M = 'Client.tla', 'Tls.tla', 'Irc.tla', 'Machine.tla'
# name, file, the rule, instead, the model which must object
RULES = [
    ('time of the attempt', C, 'BreakIf(s, early, {', 'BreakIf(s, FALSE, {', 'Reconnect'),
    ('delays grow', C, 'IF s.ph = "sleep" THEN NextDelay(@, s.cfg.mult, s.cfg.max) ELSE @', '@', 'Reconnect'),
    ('delays are capped', C, 'IF delay > max \\div mult THEN max ELSE delay * mult', 'delay * mult', 'Reconnect'),
    ('tries are counted', C, 'THEN Some(@[1] - 1) ELSE @', 'THEN @ ELSE @', 'Reconnect'),
    ('the last cause', C, 'Retry([s EXCEPT !.cause = r])', 'Retry(s)', 'Reconnect'),
    ('deadline of opening', C, 's.ph \\in {"open", "hello", "first", "second"} /\\ s.now >= s.ddl', 's.ph = "none"', 'Connect'),
    ('acknowledged', C, 'j.k = "go" THEN', 'j.k \\in {"go", "Auth"} THEN', 'Connect'),
    ('reply of the new connection', C, '!.ph = "hello", !.cur = Len(s.conns)', '!.ph = "hello", !.cur = IF s.cur = 0 THEN Len(s.conns) ELSE s.cur', 'Session'),
    ('lines are taken off', C, '[c EXCEPT !.inq = From(@, p + 1)]', '[c EXCEPT !.inq = IF c.up THEN @ ELSE From(@, p + 1)]', 'Stream'),
    ('lines in order', C, 'LET p == Pos(c.inq, LF, 1)', 'LET p == IF Pos(c.inq, LF, 1) # 0 THEN (CHOOSE n \\in DOMAIN c.inq : c.inq[n] = LF /\\ \\A m \\in (n + 1)..Len(c.inq) : c.inq[m] # LF) ELSE 0', 'Stream'),
    ('the last line without end', C, 'ELSE [res |-> LineResult(c.inq), c |-> [c EXCEPT !.inq = <<>>]]', 'ELSE [res |-> [Res("Closed") EXCEPT !.disc = TRUE], c |-> [c EXCEPT !.inq = <<>>]]', 'Stream'),
    ('carriage return', C, 'IF line # <<>> /\\ line[Len(line)] = CR THEN UpTo(line, Len(line) - 1) ELSE line', 'line', 'Stream'),
    ('all is written', C, 'sent == s.ph = "send" /\\ s.left = <<>> /\\', 'sent == s.ph = "send" /\\', 'Send'),
    ('all is flushed', C, 's.left = <<>> /\\ Conn(s).fl = Len(Conn(s).out) /\\ e.k = "ok"', 's.left = <<>> /\\ e.k = "ok"', 'Send'),
    ('refused messages', C, 'IF Refused(e) THEN Fail(t, Res("Invalid"))', 'IF Refused(e) THEN [t EXCEPT !.ph = "send", !.left = Bytes(e)]', 'Send'),
    ('trusted root', T, '/\\ p.root \\in trusted', '/\\ TRUE', 'Tls'),
    ('chain', T, '/\\ p.via \\in {"direct", "ca", "two"}', '/\\ TRUE', 'Tls'),
    ('dates', T, '/\\ p.dates = "now"', '/\\ TRUE', 'Tls'),
    ('name', T, '/\\ \\E n \\in DOMAIN p.names : NameIs(p.names[n], Host)', '/\\ p.names # <<>>', 'Tls'),
    ('one star, one label', T, 'StartsWith(p, T("*.")) /\\ From(p, 2) = From(host, dot)', 'StartsWith(p, T("*.")) /\\ EndsWith(host, From(p, 2))', 'Tls'),
    ('key', T, '/\\ p.key = "own"', '/\\ TRUE', 'Tls'),
    ('a TLS server', T, '/\\ p.mode = "tls"', '/\\ p.mode # "hang"', 'Tls'),
    ('data only for Twitch', T, 'IF ~Twitch(s, e.c) THEN TBreak(t, TRUE, {"C22", "C23"}, "data for an unauthenticated peer") ELSE t', 't', 'Tls'),
    ('what arrives', T, 'wrong == {c \\in ups : Arrived(s, c) # Hello(s.cfg) \\o s.due[c].sent}', 'wrong == {c \\in ups : ~StartsWith(Arrived(s, c), Hello(s.cfg))}', 'Tls'),
]


def main():
    only = sys.argv[1:]
    bad = 0
    with tempfile.TemporaryDirectory() as d:
        for name, file, rule, other, model in RULES:
            if only and name not in only:
                continue
            shutil.rmtree(f'{d}/spec', ignore_errors=True)
            shutil.copytree(os.path.join(VERIF, 'spec'), f'{d}/spec')
            common.SPEC = f'{d}/spec'
            with open(f'{d}/spec/{file}') as f:
                text = f.read()
            assert text.count(rule) == 1, (name, text.count(rule))
            with open(f'{d}/spec/{file}', 'w') as f:
                f.write(text.replace(rule, other))
            module = 'TlsMC' if model.startswith('Tls') else 'Models'
            r = tlc(module, cfg=model, name='vacuity', heap='16g', ok_codes=(0, 12, 13))
            found = re.search(r'(?:Invariant|Action property|Temporal properties?) ?(\S*)', r.out[r.out.find('Error:'):]) if 'Error:' in r.out else None
            bad += not found
            print(f'{name}: {model}: ' + (f'{found[0].strip()} is violated' if found else 'NOT NOTICED'), flush=True)
    print(f'{bad} not noticed')


main()
