SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  ReplyTimeout <- McReplyTimeout
  Hello <- McHello
  FromCfg <- McFromCfg
  Bytes <- McBytes
  Refused <- McRefused
  LineResult <- McLineResult
  JudgeFirst <- McFirst
  JudgeSecond <- McSecond
  Cfgs <- FewReconnectCfgs
  Calls <- ReconnectCalls
  Rx <- ReconnectRx
  OpenResults <- ReconnectOpens
  ReadErrs <- ReconnectReadErrs
  WriteErrs <- ReconnectWriteErrs
  Wins <- Nothing
  Gates <- Nothing
  Ticks <- OneTick
  Cancels <- Nothing
  MaxRx = 4
  MaxConns = 3
  MaxCalls = 2
  OldRx = FALSE
  Prompt = TRUE
  MaxOpens = 4
  Recorded = FALSE
  Ready = FALSE
  Track = {"time"}
CONSTRAINT FewOpens
INVARIANT NoBreak
INVARIANT Live
INVARIANT Determined
INVARIANT HelloFirst
INVARIANT Connected
INVARIANT NotYet
INVARIANT TokenOnce
INVARIANT Bounded
INVARIANT Backoff
INVARIANT Exhausted
INVARIANT LastCause
