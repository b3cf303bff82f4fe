------------------------------- MODULE Models -------------------------------
(***************************************************************************)
(* Constants for the models of MC.tla; each .cfg file picks its own.        *)
(***************************************************************************)
EXTENDS MC

Cfg(timeout, tries, init, mult, max) ==
    [login |-> <<>>, token |-> None, timeout |-> timeout, tries |-> tries, init |-> init, mult |-> mult, max |-> max]
Nothing == {}
DoConnect == [op |-> "connect"]
DoReconnect == [op |-> "reconnect"]
DoRecv == [op |-> "recv"]
DoSend(d) == [op |-> "send", data |-> d]
Line(l) == <<l, LF>>

\* Connecting: every reply, in pieces and with delays; every fault.
ConnectCfgs == {Cfg(3, None, 0, 1, 0)}
ConnectCalls == {DoConnect}
ConnectRx == {<<l>> : l \in {LAck, LNak, LWelcome, LLogin, LNotice, LOther, LBad}} \cup {<<LF>>, <<CR, LF>>}
                \cup {<<LAck, LF, LWelcome, LF>>}
ConnectOpens == {"ok", "ConnectionRefused"}
ConnectReadErrs == {"eof", "ConnectionReset"}
ConnectWriteErrs == {"BrokenPipe"}
ConnectWins == {-1, 0, 1}

\* Reconnecting: backoff settings and outcomes of attempts.
ReconnectCfgs == {Cfg(2, t, i, m, x) : t \in {None, Some(0), Some(1), Some(3)}, i \in {0, 2}, m \in {0, 1, 2}, x \in {1, 5}}
ReconnectCalls == {DoConnect, DoReconnect}
ReconnectRx == {<<LAck, LF, LWelcome, LF>>, <<LAck, LF>>, <<LOther, LF>>}
ReconnectOpens == {"ok", "ConnectionRefused"}
ReconnectReadErrs == {"eof"}
ReconnectWriteErrs == {"BrokenPipe"}

\* Receiving: pieces and cancellations.
StreamCfgs == {Cfg(3, None, 0, 1, 0)}
StreamCalls == {DoConnect, DoRecv}
StreamRx == {<<LAck, LF, LWelcome, LF>>, <<9>>, <<LF>>, <<CR>>, <<LBad>>, <<9, LF, 9>>}
StreamOpens == {"ok"}
StreamReadErrs == {"eof", "ConnectionReset"}

\* Sessions: several connections with leftovers.
SessionCfgs == {Cfg(2, Some(2), 0, 1, 0)}
SessionCalls == {DoConnect, DoReconnect, DoRecv, DoSend(<<60, 61>>)}
SessionRx == {<<LAck, LF>>, <<LWelcome, LF>>, <<9>>, <<9, LF>>}
SessionOpens == {"ok", "ConnectionRefused"}
SessionReadErrs == {"eof"}
SessionWriteErrs == {"BrokenPipe"}
SessionWins == {-1, 1}

\* Sending: backpressure and faults.
SendCfgs == {Cfg(3, None, 0, 1, 0)}
SendCalls == {DoConnect, DoSend(<<60, 61, 62>>), DoSend(<<63>>), [op |-> "refused", data |-> <<64>>]}
SendRx == {<<LAck, LF, LWelcome, LF>>}
SendOpens == {"ok"}
SendWriteErrs == {"BrokenPipe"}
SendWins == {-1, 0, 1, 2}

FewRx == {<<LAck, LF>>, <<LWelcome, LF>>, <<LOther, LF>>}
GenConnectRx == {<<l, LF>> : l \in {LAck, LNak, LWelcome, LLogin, LNotice, LOther, LBad, LEmpty}}
GenWins == {-1, 0, 1}
FewReconnectCfgs == {Cfg(2, t, i, m, x) : t \in {None, Some(1), Some(3)}, i \in {0, 2}, m \in {0, 2}, x \in {5}}
LimitedCfgs == {Cfg(2, t, i, 2, 3) : t \in {Some(0), Some(2)}, i \in {0, 1}}
GenReconnectCfgs == {Cfg(2, Some(0), 1, 1, 1), Cfg(2, Some(3), 1, 3, 4), Cfg(2, None, 0, 1, 0)}

OneTick == {1}
Booleans == {TRUE, FALSE}
Always == {"connect", "reconnect", "recv", "send"}
Waits == {"recv", "send", "reconnect"}
=============================================================================
