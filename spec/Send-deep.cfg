SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  ReplyTimeout <- McReplyTimeout
  Hello <- McHello
  FromCfg <- McFromCfg
  Bytes <- McBytes
  Refused <- McRefused
  LineResult <- McLineResult
  JudgeFirst <- McFirst
  JudgeSecond <- McSecond
  Cfgs <- SendCfgs
  Calls <- SendCalls
  Rx <- SendRx
  OpenResults <- SendOpens
  ReadErrs <- Nothing
  WriteErrs <- SendWriteErrs
  Wins <- SendWins
  Gates <- Booleans
  Ticks <- Nothing
  Cancels <- Waits
  MaxRx = 4
  MaxConns = 1
  MaxCalls = 7
  OldRx = FALSE
  Prompt = TRUE
  MaxOpens = 5
  Recorded = FALSE
  Ready = FALSE
  Track = {"sent"}
CONSTRAINT FewOpens
INVARIANT NoBreak
INVARIANT Live
INVARIANT Determined
INVARIANT HelloFirst
INVARIANT Connected
INVARIANT NotYet
INVARIANT TokenOnce
INVARIANT AllSent
INVARIANT Partial
