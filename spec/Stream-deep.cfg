SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  ReplyTimeout <- McReplyTimeout
  Hello <- McHello
  FromCfg <- McFromCfg
  Bytes <- McBytes
  Refused <- McRefused
  LineResult <- McLineResult
  JudgeFirst <- McFirst
  JudgeSecond <- McSecond
  Cfgs <- StreamCfgs
  Calls <- StreamCalls
  Rx <- StreamRx
  OpenResults <- StreamOpens
  ReadErrs <- StreamReadErrs
  WriteErrs <- Nothing
  Wins <- Nothing
  Gates <- Nothing
  Ticks <- Nothing
  Cancels <- Waits
  MaxRx = 10
  MaxConns = 1
  MaxCalls = 5
  OldRx = FALSE
  Prompt = FALSE
  MaxOpens = 5
  Recorded = FALSE
  Ready = TRUE
  Track = {"read"}
CONSTRAINT FewOpens
INVARIANT NoBreak
INVARIANT Live
INVARIANT Determined
INVARIANT HelloFirst
INVARIANT Connected
INVARIANT NotYet
INVARIANT TokenOnce
INVARIANT InOrder
