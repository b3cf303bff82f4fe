SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  ReplyTimeout <- McReplyTimeout
  Hello <- McHello
  FromCfg <- McFromCfg
  Bytes <- McBytes
  Refused <- McRefused
  LineResult <- McLineResult
  JudgeFirst <- McFirst
  JudgeSecond <- McSecond
  Cfgs <- SessionCfgs
  Calls <- SessionCalls
  Rx <- SessionRx
  OpenResults <- SessionOpens
  ReadErrs <- SessionReadErrs
  WriteErrs <- SessionWriteErrs
  Wins <- Nothing
  Gates <- Nothing
  Ticks <- Nothing
  Cancels <- Waits
  MaxRx = 4
  MaxConns = 2
  MaxCalls = 4
  OldRx = FALSE
  Prompt = TRUE
  MaxOpens = 5
  Recorded = TRUE
  Ready = FALSE
  Track = {"read", "sent"}
VIEW View
ACTION_CONSTRAINT Emit
CONSTRAINT FewOpens
INVARIANT NoBreak
INVARIANT Live
INVARIANT Determined
INVARIANT HelloFirst
INVARIANT Connected
INVARIANT NotYet
INVARIANT TokenOnce
